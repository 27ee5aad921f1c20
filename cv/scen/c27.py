import numpy as np
from enterprise.signals import gp_signals as gs, white_signals as ws, parameter, selections, utils, signal_base as sb
from enterprise.signals.parameter import function
from enterprise.signals.selections import Selection
from ..rac import scenario
from .. import models as M
from ..fakes import mkpsr, snapshot, check_unchanged
from ..scen_util import nm, epochs


@function
def my_basis(toas, freqs, nb=3, alpha=1.0):
    t = (toas - 4.6e9) / 3e7
    F = np.column_stack([(t + i) ** 2 * (1400 / freqs) ** alpha for i in range(nb)])
    return F, np.arange(1.0, nb + 1)


def my_basis_ref(psr, mask, alpha, nb=3):
    t = (psr.toas[mask] - 4.6e9) / 3e7
    return np.column_stack([(t + i) ** 2 * (1400 / psr.freqs[mask]) ** alpha for i in range(nb)])


@function
def dense_prior(labels, s=1.0, rho=0.3):
    n = len(labels)
    return 10 ** (2 * s) * (np.eye(n) + rho * np.exp(-np.abs(labels[:, None] - labels[None, :])))


@function
def vec_prior(labels, s=1.0, rho=0.3):
    return 10 ** (2 * s) * (labels + rho)


def phi_ref(dense, nb, s, rho):
    l = np.arange(1.0, nb + 1)
    if dense:
        return 10 ** (2 * s) * (np.eye(nb) + rho * np.exp(-np.abs(l[:, None] - l[None, :])))
    return np.diag(10 ** (2 * s) * (l + rho))


def gauss(c, Phi):
    return -0.5 * (c @ np.linalg.solve(Phi, c) + np.linalg.slogdet(2 * np.pi * Phi)[1])


def groups(psr, sel):
    if sel:
        return {str(b): psr.backend_flags == b for b in np.unique(psr.backend_flags)}
    return {"": np.ones(len(psr.toas), bool)}


def check_no_marg(ck, lab, sig, par):
    ck.true(lab + ": no marginalised basis", sig.get_basis(params=par) is None)
    ck.true(lab + ": no phi", sig.get_phi(par) is None)
    ck.true(lab + ": no phiinv", sig.get_phiinv(par) is None)


def lnprior_of(pta, par):
    return pta.get_lnprior(par)


@scenario("C27", quick=16, thorough=160)
def generic_basis(ck, rng, k):
    sel, vary, dense, given_alpha = bool(k % 2), bool(k // 2 % 2), bool(k // 4 % 2), k // 8 % 2
    nb = 2 + k % 3
    psr = mkpsr(rng, n=30, nback=3 if sel else 1)
    snap = snapshot(psr)
    basis = my_basis(nb=nb, alpha=parameter.Uniform(-3, 3)) if vary else my_basis(nb=nb)
    prf = dense_prior if dense else vec_prior
    hyp = k % 5
    s = parameter.Constant(0.2) if hyp == 0 else parameter.Uniform(-2, 2)
    rho = parameter.Uniform(0.1, 0.8) if hyp < 3 else parameter.Constant(0.35)
    name = ["proc", "b1", "red"][k % 3]
    prior = prf(s=s, rho=rho)
    select = Selection(selections.by_backend if sel else selections.no_selection)
    mk = lambda co: gs.BasisGP(prior, basis, coefficients=co, selection=select, name=name)
    try:
        sig = mk(True)(psr)
    except TypeError:
        if vary:  # a basis without defaults for its parameters cannot have explicit coefficients
            return ck.true("varying basis with defaults", False, "cannot be built")
        raise
    G = groups(psr, sel)
    want_names = {}
    for g in G:
        want_names[g] = nm(psr.name, name, g)
    names = {p.name for p in sig.params}
    exp = {want_names[g] + "_coefficients" for g in G}
    for g in G:
        if vary:
            exp.add(want_names[g] + "_alpha")
        if hyp != 0:
            exp.add(want_names[g] + "_s")
        if hyp < 3:
            exp.add(want_names[g] + "_rho")
    ck.same("parameters", names, exp)
    pta = sb.PTA([sb.SignalCollection([mk(True), ws.MeasurementNoise(efac=parameter.Constant(1.1))])(psr)])
    psig = [x for x in pta.pulsarmodels[0].signals if x.signal_type == "basis"][0] if hasattr(pta, "pulsarmodels") else None
    prev = []
    for rep in range(3):
        par, tot, lnp = {}, np.zeros(len(psr.toas)), 0.0
        for g, mask in G.items():
            w = want_names[g]
            alpha, sv, rv = rng.uniform(-2, 2), 0.2, 0.35
            par[w + "_coefficients"] = c = rng.randn(nb)
            if vary:
                par[w + "_alpha"] = alpha
                lnp -= np.log(6)
            if hyp != 0:
                par[w + "_s"] = sv = rng.uniform(-1, 1)
                lnp -= np.log(4)
            if hyp < 3:
                par[w + "_rho"] = rv = rng.uniform(0.1, 0.8)
                lnp -= np.log(0.7)
            tot[mask] = my_basis_ref(psr, mask, alpha if vary else 1.0, nb) @ c
            lnp += gauss(c, phi_ref(dense, nb, sv, rv))
        keep = {a: np.array(b, copy=True) for a, b in par.items()}
        got = sig.get_delay(params=par)
        ck.close("delay", got, tot, 1e-9)
        ck.close("delay again", sig.get_delay(params=par), tot, 1e-9)
        check_no_marg(ck, "GP", sig, par)
        ck.close("PTA delay", pta.get_delay(params=par)[0], tot, 1e-9)
        ck.true("PTA basis", pta.get_basis(params=par)[0] is None)
        ck.close("log prior", lnprior_of(pta, par), lnp, 1e-9, atol=1e-9)
        prev.append((par, tot, lnp))
        for a in keep:
            ck.same("parameters kept", par[a], keep[a])
    for par, tot, lnp in prev:
        ck.close("delay at earlier values", sig.get_delay(params=par), tot, 1e-9)
        ck.close("log prior at earlier values", lnprior_of(pta, par), lnp, 1e-9, atol=1e-9)
    if vary:  # only one of (basis parameter, coefficients) moves
        for key in sorted(prev[0][0]):
            par = dict(prev[2][0])
            par[key] = prev[0][0][key]
            tot = np.zeros(len(psr.toas))
            for g, mask in G.items():
                w = want_names[g]
                tot[mask] = my_basis_ref(psr, mask, par[w + "_alpha"], nb) @ par[w + "_coefficients"]
            ck.close("delay with one parameter moved", sig.get_delay(params=par), tot, 1e-9)
    check_unchanged(ck, "pulsar", psr, snap)


@scenario("C27", quick=6, thorough=50)
def fourier_gp(ck, rng, k):
    sel = bool(k % 2)
    psr = mkpsr(rng, n=32, nback=2 if sel else 1)
    from enterprise.signals import gp_priors as gp

    T = None if k % 3 else 4e8
    n = 3 + k % 3
    sp = gp.powerlaw(log10_A=parameter.Uniform(-18, -11), gamma=parameter.Uniform(0, 7)) if k % 4 < 2 else gp.free_spectrum(log10_rho=parameter.Uniform(-10, -4, size=n))
    meta = gs.FourierBasisGP(sp, coefficients=True, components=n, Tspan=T, selection=Selection(selections.by_backend if sel else selections.no_selection), name="red")
    pta = sb.PTA([sb.SignalCollection([meta, ws.MeasurementNoise(efac=parameter.Constant(1.0))])(psr)])
    par, tot, lnp = {}, np.zeros(len(psr.toas)), 0.0
    for g, mask in groups(psr, sel).items():
        w = nm(psr.name, "red", g)
        t = psr.toas[mask]
        f = np.arange(1, n + 1) / (T or (t.max() - t.min()))
        par[w + "_coefficients"] = c = rng.randn(2 * n) * 1e-6
        if k % 4 < 2:
            par[w + "_log10_A"], par[w + "_gamma"] = rng.uniform(-14, -12), rng.uniform(1, 6)
            P = M.plaw(f, par[w + "_log10_A"], par[w + "_gamma"])
            lnp -= np.log(7) * 2
        else:
            par[w + "_log10_rho"] = r = rng.uniform(-8, -5, n)
            P = np.repeat(10 ** (2 * r), 2)
            lnp -= n * np.log(6)
        tot[mask] = M.fourier(t, f) @ c
        lnp += -0.5 * np.sum(c**2 / P) - 0.5 * np.sum(np.log(2 * np.pi * P))
    ck.close("delay", pta.get_delay(params=par)[0], tot, 1e-7)
    ck.close("log prior", pta.get_lnprior(par), lnp, 1e-9)
    ck.true("basis", pta.get_basis(params=par)[0] is None)


@scenario("C27", quick=6, thorough=40)
def timing_and_ecorr(ck, rng, k):
    psr = mkpsr(rng, n=34, nback=2, sort=True)
    kw = [dict(), dict(use_svd=True), dict(normed=False)][k % 3]
    sig = gs.TimingModel(coefficients=True, **kw)
    pta = sb.PTA([sb.SignalCollection([sig, ws.MeasurementNoise(efac=parameter.Constant(1.0))])(psr)])
    nme = psr.name + "_linear_timing_model" + ("_svd" if k % 3 == 1 else "") + "_coefficients"
    co = [p for p in pta.params]
    ck.true("one vector parameter", len(co) == 1 and co[0].size == psr.Mmat.shape[1], repr(co))
    c = rng.randn(psr.Mmat.shape[1])
    A = psr.Mmat
    if k % 3 == 0:
        B = A / np.sqrt((A**2).sum(0))
    elif k % 3 == 2:
        B = A
    else:
        B = None
    d = pta.get_delay(params={co[0].name: c})[0]
    if B is not None:
        ck.close("delay", d, B @ c, 1e-9)
    else:
        U = np.linalg.svd(A, full_matrices=False)[0]
        ck.close("delay in the span", U @ (U.T @ d), d, 1e-8)
        ck.close("delay has the norm of the coefficients", d @ d, c @ c, 1e-8)
        d2 = pta.get_delay(params={co[0].name: 2 * c})[0]
        ck.close("linear", d2, 2 * d, 1e-9)
    ck.close("log prior", pta.get_lnprior({co[0].name: c}), 0.0)
    ck.true("no basis", pta.get_basis(params={co[0].name: c})[0] is None)
    # ECORR as a basis
    sel = bool(k % 2)
    meta = gs.EcorrBasisModel(log10_ecorr=parameter.Uniform(-8, -5), coefficients=True, selection=Selection(selections.by_backend if sel else selections.no_selection))
    pta = sb.PTA([sb.SignalCollection([meta, ws.MeasurementNoise(efac=parameter.Constant(1.0))])(psr)])
    par, tot, lnp = {}, np.zeros(len(psr.toas)), 0.0
    for g, mask in groups(psr, sel).items():
        w = nm(psr.name, "basis_ecorr", g)
        eps = epochs(psr.toas, mask)
        par[w + "_log10_ecorr"] = e = rng.uniform(-8, -5)
        lnp -= np.log(3)
        par[w + "_coefficients"] = c = rng.randn(len(eps)) * 1e-6
        for x, idx in zip(c, eps):
            tot[idx] += x
        lnp += -0.5 * np.sum(c**2 / 10 ** (2 * e)) - 0.5 * len(eps) * np.log(2 * np.pi * 10 ** (2 * e))
    ck.close("ecorr delay", pta.get_delay(params=par)[0], tot, 1e-9)
    ck.close("ecorr log prior", pta.get_lnprior(par), lnp, 1e-9)


@scenario("C27", quick=8, thorough=60)
def common(ck, rng, k):
    """Common processes: the coefficient vector given, or one created per pulsar."""
    from enterprise.signals import gp_priors as gp

    psrs = [mkpsr(rng, name=x, n=25) for x in ("J0030+0451", "B1855+09")]
    n, T = 3, 5e8
    sp = gp.powerlaw(log10_A=parameter.Uniform(-18, -11)("gw_log10_A"), gamma=parameter.Uniform(0, 7)("gw_gamma"))
    given = parameter.Normal(0, 1, size=2 * n)("gw_vec") if k % 2 else None
    if k // 2 % 2:
        meta = gs.FourierBasisCommonGP(sp, utils.hd_orf(), coefficients=given if given is not None else True, components=n, Tspan=T, name="gw")
    else:
        meta = gs.BasisCommonGP(sp, utils.createfourierdesignmatrix_red(nmodes=n, Tspan=T), utils.hd_orf(), coefficients=given if given is not None else True, name="gw")
    pta = sb.PTA([sb.SignalCollection([meta, ws.MeasurementNoise(efac=parameter.Constant(1.0))])(p) for p in psrs])
    names = {p.name for p in pta.params}
    want = {"gw_vec"} if given is not None else {p.name + "_gw_coefficients" for p in psrs}
    ck.same("parameters", names, want | {"gw_log10_A", "gw_gamma"})
    f = np.arange(1, n + 1) / T
    hist = []
    for rep in range(2):
        par = {x: rng.randn(2 * n) for x in want}
        par.update(gw_log10_A=rng.uniform(-15, -12), gw_gamma=3.0)
        hist.append(par)
    for par in hist + hist:
        ds = pta.get_delay(params=par)
        for p, d in zip(psrs, ds):
            c = par["gw_vec" if given is not None else p.name + "_gw_coefficients"]
            ck.close("delay", d, M.fourier(p.toas, f) @ c, 1e-7)
        ck.true("no basis", all(b is None for b in pta.get_basis(params=par)))
    if given is not None:
        ck.close("log prior of the given vector", pta.get_lnprior(hist[0]),
                 -2 * np.log(7) + np.sum(-0.5 * hist[0]["gw_vec"] ** 2 - 0.5 * np.log(2 * np.pi)), 1e-9)
