import numpy as np
from enterprise.signals import signal_base as sb, white_signals as ws, gp_signals as gs, parameter, gp_priors, utils
from enterprise.signals.parameter import function
from ..rac import scenario
from .. import models as M
from ..fakes import mkpsr, snapshot, check_unchanged


def dense_lnl(pta):
    return sb.LogLikelihood(pta, cholesky_sparse=False)


@scenario("C04", quick=40)
def random_models(ck, rng, k):
    mod = M.random_model(rng)
    ck.notes.append(str([[type(c).__name__ for c in cs] for cs in mod.comps]))
    snaps = [snapshot(p) for p in mod.psrs]
    pta = mod.pta()
    ptad = mod.pta(lnlikelihood=dense_lnl)
    first = None
    for rep in range(3):
        params = mod.redraw(rng) if rep < 2 else first
        if rep == 0:
            first = dict(params)
        cp = {kk: np.copy(v) for kk, v in params.items()}
        ck.true("free parameters", set(pta.params and [p.name for p in pta.params]) == set(params), "%s vs %s" % ([p.name for p in pta.params], sorted(params)))
        # coefficient signals contribute through lnprior only; the rest must be the Gaussian density
        want = mod.lnlike(params)
        got = pta.get_lnlikelihood(params)
        ck.close("lnlikelihood (sparse)", got, want, 1e-7, atol=1e-5)
        ck.close("lnlikelihood (dense)", ptad.get_lnlikelihood(params), want, 1e-7, atol=1e-5)
        x = np.concatenate([np.atleast_1d(params[p.name]) for p in pta.params])
        ck.close("lnlikelihood (vector)", pta.get_lnlikelihood(x), want, 1e-7, atol=1e-5)
        for kk, v in cp.items():
            ck.same("params dict unchanged", np.asarray(params[kk]), v)
        meth = ["cliques", "sparse"][rng.randint(2)]
        if any(c.common for cs in mod.comps for c in cs):
            ck.close("lnlikelihood phiinv " + meth, pta.get_lnlikelihood(params, phiinv_method=meth), want, 1e-7, atol=1e-5)
    for p, s in zip(mod.psrs, snaps):
        check_unchanged(ck, "likelihood", p, s)


@scenario("C04", quick=4)
def white_only(ck, rng, k):
    psrs = [mkpsr(rng, name="J%04d+0000" % i, n=20) for i in range(3)]
    mod = M.Model(rng, [[M.Efac(rng)], [M.Efac(rng), M.Ramp(rng)], [M.Efac(rng), M.Ecorr(rng)]], psrs)
    pta = mod.pta()
    ck.close("white noise only", pta.get_lnlikelihood(mod.params), mod.lnlike(), 1e-9)
    mod = M.Model(rng, [[M.Efac(rng)], [M.Efac(rng), M.Poly(rng)], [M.Efac(rng)]], psrs)
    ck.close("one pulsar with a GP", mod.pta().get_lnlikelihood(mod.params), mod.lnlike(), 1e-9)
    T = M.common_span(psrs)
    c = M.Common(rng, T)
    mod = M.Model(rng, [[M.Efac(rng), c], [M.Efac(rng)], [M.Efac(rng), c]], psrs)
    for kw in [{}, dict(lnlikelihood=dense_lnl)]:
        ck.close("common signal in two of three pulsars", mod.pta(**kw).get_lnlikelihood(mod.params), mod.lnlike(), 1e-8)


@function
def neg_prior(labels, s=1.0):
    return -1e-3 * np.ones(len(labels))


@function
def indefinite(labels, s=1.0):
    n = len(labels)
    return s * 1e-12 * (np.ones((n, n)) * 2 - np.eye(n))


@scenario("C04", quick=4)
def not_positive_definite(ck, rng, k):
    psrs = [mkpsr(rng, name="J%04d+0000" % i, n=20) for i in range(2)]
    mn = ws.MeasurementNoise(efac=parameter.Uniform(0.1, 5))
    T = M.common_span(psrs)
    com = gs.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Constant(-14.0), gamma=parameter.Constant(3.0)), utils.hd_orf(), components=3, Tspan=T, name="gw")
    bad1 = gs.BasisGP(neg_prior(s=parameter.Uniform(0, 2)), M.poly_basis(), name="bad")
    bad2 = gs.BasisGP(indefinite(s=parameter.Uniform(0, 2)), M.poly_basis(order=2 + k), name="bad")
    # an indefinite prior with hardly any data weight makes the conditional covariance indefinite
    for lab, metas in [("independent", [mn, bad1]), ("common", [mn, com, bad2]), ("common, other order", [bad2, mn, com])]:
        for kw in [{}, dict(lnlikelihood=sb.LogLikelihoodDenseCholesky)]:
            pta = sb.PTA([sb.SignalCollection(metas)(p) for p in psrs], **kw)
            params = {p.name: (1e7 if "efac" in p.name else 1.0) for p in pta.params}
            for rep in range(2):
                v = pta.get_lnlikelihood(params)
                ck.true("%s %s: -inf" % (lab, kw and "dense"), np.isneginf(v), "got %r" % v)


@scenario("C04", quick=6)
def timing_model(ck, rng, k):
    """Explicit timing model (prior variance 1e40), compared with the Woodbury form."""
    psr = mkpsr(rng, npar=int(rng.randint(1, 6)))
    T = M.common_span([psr])
    mod = M.Model(rng, [[M.Efac(rng), M.Ecorr(rng), M.Red(rng, T, combine=bool(k % 2))]], [psr])
    tm = gs.TimingModel(use_svd=k % 3 == 1, normed=k % 3 != 2 or True)
    pta = sb.PTA([(mod.metas()[0] + tm)(psr)])
    C, r = mod.covariance(), mod.detres()
    Mm = psr.Mmat / np.sqrt(np.sum(psr.Mmat**2, axis=0)) if k % 3 != 1 else np.linalg.svd(psr.Mmat, full_matrices=False)[0]
    Ci = np.linalg.inv(C / 1e-12)
    MCM = Mm.T @ Ci @ Mm
    b = Mm.T @ Ci @ r
    s2 = 1e-12
    want = (-0.5 * (r @ Ci @ r - b @ np.linalg.solve(MCM, b)) / s2 - 0.5 * (np.linalg.slogdet(C / s2)[1] + len(r) * np.log(s2))
            - 0.5 * (np.linalg.slogdet(MCM)[1] - len(b) * np.log(s2)) - 0.5 * len(b) * np.log(1e40))
    ck.close("lnlikelihood with timing model", pta.get_lnlikelihood(mod.params), want, 1e-7, atol=1e-4)
