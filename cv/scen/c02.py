import numpy as np
from enterprise.signals import white_signals as ws, parameter, selections, signal_base as sb
from enterprise.signals.selections import Selection
from ..rac import scenario
from ..fakes import mkpsr, snapshot, check_unchanged
from ..scen_util import nm, epochs
from .. import models

def odd(freqs):
    """Listed in another order than the sorted one."""
    lo, hi = np.percentile(freqs, [30, 70])
    return {"z": freqs >= hi, "A": (freqs >= lo) & (freqs < hi), "m": freqs < lo}


SELS = {
    "odd": (Selection(odd), lambda p: odd(p.freqs)),
    "none": (Selection(selections.no_selection), lambda p: {"": np.ones(len(p.toas), bool)}),
    "backend": (Selection(selections.by_backend), lambda p: {b: p.backend_flags == b for b in np.unique(p.backend_flags)}),
    "band": (Selection(selections.by_band), lambda p: {b: p.flags["B"] == b for b in np.unique(p.flags["B"])}),
    "half": (Selection(selections.cut_half), lambda p: {"t1": p.toas <= (p.toas.max() + p.toas.min()) / 2, "t2": p.toas > (p.toas.max() + p.toas.min()) / 2}),
}




def dense(nd, n):
    """Inverse of a noise object as a matrix, through its public interface, and log-determinant."""
    I = np.eye(n)
    Ni, ld = nd.solve(I, left_array=I, logdet=True)
    return np.asarray(Ni), ld


def cmp(ck, lab, nd, N):
    n = len(N)
    Ni, ld = dense(nd, n)
    W = np.linalg.inv(N)
    s = np.sqrt(np.diag(W))
    ck.close(lab + ": inverse", Ni / np.outer(s, s), W / np.outer(s, s), 1e-7)
    ck.close(lab + ": logdet", ld, np.linalg.slogdet(N * 1e14)[1] - n * np.log(1e14), 1e-9, atol=1e-7)


@scenario("C02", quick=24)
def diagonal_noise(ck, rng, k):
    psr = mkpsr(rng, nback=int(rng.randint(1, 4)), sort=bool(k % 2))
    snap = snapshot(psr)
    s1, s2 = [list(SELS)[rng.randint(5)] for _ in range(2)]
    (S1, m1), (S2, m2) = SELS[s1], SELS[s2]
    name = ["", "mn"][k % 2]
    if k % 3 == 0:
        mn = ws.MeasurementNoise(efac=parameter.Uniform(0.1, 5), selection=S1, name=name)
    else:
        mn = ws.MeasurementNoise(efac=parameter.Uniform(0.1, 5), log10_t2equad=parameter.Uniform(-9, -4), selection=S1, name=name)
    eq = ws.TNEquadNoise(log10_tnequad=parameter.Uniform(-9, -4), selection=S2, name="")
    for rep in range(2):
        params, want1, want2 = {}, np.zeros(len(psr.toas)), np.zeros(len(psr.toas))
        for key, m in m1(psr).items():
            ef, e2 = rng.uniform(0.5, 3), rng.uniform(-8, -5)
            params[nm(psr.name, name, key, "efac")] = ef
            if k % 3 == 0:
                want1[m] = ef**2 * psr.toaerrs[m] ** 2
            else:
                params[nm(psr.name, name, key, "log10_t2equad")] = e2
                want1[m] = ef**2 * (psr.toaerrs[m] ** 2 + 10 ** (2 * e2))
        for key, m in m2(psr).items():
            e2 = rng.uniform(-8, -5)
            params[nm(psr.name, key, "log10_tnequad")] = e2
            want2[m] = 10 ** (2 * e2)
        a, b = mn(psr), eq(psr)
        ck.true("parameters", set(a.param_names) | set(b.param_names) == set(params), "%s vs %s" % (a.param_names + b.param_names, sorted(params)))
        ck.close("MeasurementNoise diagonal", a.get_ndiag(params), want1, 1e-12, elem=True)
        ck.close("TNEquadNoise diagonal", b.get_ndiag(params), want2, 1e-12, elem=True)
        ck.close("sum", (mn + eq)(psr).get_ndiag(params), want1 + want2, 1e-12, elem=True)
        ck.close("sum, other order", (eq + mn)(psr).get_ndiag(params), want1 + want2, 1e-12, elem=True)
    check_unchanged(ck, "white noise", psr, snap)


@scenario("C02", quick=4)
def constants_and_defaults(ck, rng, k):
    psr = mkpsr(rng, nback=2)
    c = rng.uniform(0.5, 2)
    mn = ws.MeasurementNoise(efac=parameter.Constant(c), log10_t2equad=parameter.Constant(-6.3))(psr)
    ck.same("no free parameters", mn.param_names, [])
    ck.close("constant efac/equad", mn.get_ndiag({}), c**2 * (psr.toaerrs**2 + 10 ** (-12.6)), 1e-12, elem=True)
    # constants set afterwards (from a noise dictionary)
    mn = ws.MeasurementNoise(efac=parameter.Constant(), selection=SELS["backend"][0])(psr)
    vals = {"%s_%s_efac" % (psr.name, b): rng.uniform(0.5, 2) for b in np.unique(psr.backend_flags)}
    mn.set_default_params(vals)
    want = np.array([vals["%s_%s_efac" % (psr.name, b)] for b in psr.backend_flags]) ** 2 * psr.toaerrs**2
    ck.close("constants from noise dictionary", mn.get_ndiag({}), want, 1e-12, elem=True)
    vals2 = {kk: v * 1.7 for kk, v in vals.items()}
    mn.set_default_params(vals2)
    ck.close("constants set again", mn.get_ndiag({}), want * 1.7**2, 1e-12, elem=True)
    ec = ws.EcorrKernelNoise(log10_ecorr=parameter.Constant(-6.1), method="sherman-morrison")
    nd = (mn.__class__(psr) if False else sum([ec(psr).get_ndiag({}), sb.ndarray_alt(psr.toaerrs**2)]))
    N = np.diag(psr.toaerrs**2)
    for e in epochs(psr.toas, np.ones(len(psr.toas), bool)):
        N[np.ix_(e, e)] += 10 ** (-12.2)
    cmp(ck, "constant ecorr", nd, N)


@scenario("C02", quick=20)
def ecorr(ck, rng, k):
    sort = k % 4 != 3
    psr = mkpsr(rng, nback=int(rng.randint(1, 4)), sort=sort)
    n = len(psr.toas)
    if k % 5 == 2:  # exact ties and dt-boundary spacings
        psr.toas[3:6] = psr.toas[3]
        psr.toas[8] = psr.toas[7] + 1.0
        psr.toas[9] = psr.toas[7] + 1.5
        psr.toas = np.sort(psr.toas) if sort else psr.toas
    snap = snapshot(psr)
    sel = list(SELS)[rng.randint(4)]
    S, mfn = SELS[sel]
    name = ["", "kern"][k % 2]
    mn = ws.MeasurementNoise(efac=parameter.Uniform(0.1, 5))
    eq = ws.TNEquadNoise(log10_tnequad=parameter.Uniform(-9, -4))
    for rep in range(2):
        params = {psr.name + "_efac": rng.uniform(0.7, 2), psr.name + "_log10_tnequad": rng.uniform(-8, -6)}
        N = np.diag(params[psr.name + "_efac"] ** 2 * psr.toaerrs**2 + 10 ** (2 * params[psr.name + "_log10_tnequad"]))
        nep = 0
        for key, m in mfn(psr).items():
            v = rng.uniform(-7.5, -5)
            params[nm(psr.name, key, "log10_ecorr")] = v
            for e in epochs(psr.toas, m):
                N[np.ix_(e, e)] += 10 ** (2 * v)
                nep += 1
        ck.notes.append("sel=%s epochs=%d sorted=%s" % (sel, nep, sort))
        for method in ["sherman-morrison", "fast-sherman-morrison", "block", "sparse"]:
            ec = ws.EcorrKernelNoise(log10_ecorr=parameter.Uniform(-9, -4), selection=S, method=method, name=name)
            for lab, meta in [("mn+eq+ec", mn + eq + ec), ("ec+mn+eq", ec + mn + eq), ("mn+ec+eq", mn + ec + eq)]:
                sc = meta(psr)
                ck.true("ecorr parameters", set(sc.param_names) == set(params), "%s vs %s" % (sc.param_names, sorted(params)))
                if method.startswith("fast") and not sort:
                    pass
                cmp(ck, "%s %s %s" % (method, sel, lab), sc.get_ndiag(params), N)
            # evaluate, change, evaluate: same object
            p2 = {kk: v + 0.11 for kk, v in params.items()}
            sc.get_ndiag(p2)
            cmp(ck, "%s re-evaluated" % method, sc.get_ndiag(params), N)
    check_unchanged(ck, "ecorr", psr, snap)


@scenario("C02", quick=3)
def ecorr_none(ck, rng, k):
    """No epoch with several TOAs: ECORR adds nothing."""
    psr = mkpsr(rng, n=12, nback=2)
    psr.toas = 4.6e9 + np.cumsum(rng.uniform(2, 40, 12)) * 86400
    for method in ["sherman-morrison", "fast-sherman-morrison", "block", "sparse"]:
        sc = (ws.MeasurementNoise(efac=parameter.Uniform(0.1, 5)) + ws.EcorrKernelNoise(log10_ecorr=parameter.Uniform(-9, -4), method=method))(psr)
        p = {psr.name + "_efac": 1.3, psr.name + "_log10_ecorr": -6.0}
        cmp(ck, method + " without epochs", sc.get_ndiag(p), np.diag(1.69 * psr.toaerrs**2))


@scenario("C02", quick=4)
def grouping(ck, rng, k):
    """The sum over the signals does not depend on the order or on the grouping of the additions."""
    psr = mkpsr(rng, n=15, nback=2)
    U = parameter.Uniform
    sigs = [ws.MeasurementNoise(efac=U(0.1, 5)), ws.TNEquadNoise(log10_tnequad=U(-8, -5)), ws.TNEquadNoise(log10_tnequad=U(-8, -5), name="q"), ws.EcorrKernelNoise(log10_ecorr=U(-9, -4))]
    n = lambda *a: nm(psr.name, *a)
    params = {n("efac"): rng.uniform(0.5, 3), n("log10_tnequad"): rng.uniform(-8, -5), n("q_log10_tnequad"): rng.uniform(-8, -5), n("log10_ecorr"): rng.uniform(-7, -5)}
    N = np.diag(params[n("efac")] ** 2 * psr.toaerrs**2 + 10 ** (2 * params[n("log10_tnequad")]) + 10 ** (2 * params[n("q_log10_tnequad")]))
    for e in epochs(psr.toas, np.ones(15, bool)):
        if len(e) > 1:
            N[np.ix_(e, e)] += 10 ** (2 * params[n("log10_ecorr")])
    for t in range(8):
        sc = models.grouped(rng, [sigs[j] for j in rng.permutation(4)])(psr)
        ck.true("parameters", set(sc.param_names) == set(params), sc.param_names)
        cmp(ck, "any order and grouping", sc.get_ndiag(params), N)
    a, b = sigs[0] + sigs[1], sigs[2] + sigs[3]
    for meta in (a + b, b + a, a + sigs[2] + sigs[3], sigs[3] + (sigs[2] + a)):
        cmp(ck, "a part in several models", meta(psr).get_ndiag(params), N)
    cmp(ck, "a part by itself", a(psr).get_ndiag(params), np.diag(params[n("efac")] ** 2 * psr.toaerrs**2 + 10 ** (2 * params[n("log10_tnequad")])))
