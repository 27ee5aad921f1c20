import numpy as np
from enterprise.signals import (signal_base as sb, deterministic_signals as ds, gp_signals as gs, gp_priors, gp_bases, utils, white_signals as ws, parameter, selections as S)
from enterprise.signals.parameter import function
from enterprise.signals.selections import Selection
from ..rac import scenario
from ..scen_util import epochs
from .. import models as M
from ..fakes import mkpsr, snapshot, check_unchanged


def full(phi):
    phi = np.asarray(phi)
    return np.diag(phi) if phi.ndim == 1 else phi


@function
def wf(toas, freqs, pos, amp=1.0, shift=0.0, idx=2.0):
    # depends on the group as a whole (its mean), so that restricting afterwards differs
    return amp * (toas - toas.mean()) / 1e8 * (1400.0 / freqs) ** idx + shift * pos[0] + 1e-3 * len(toas)


def wf_ref(psr, m, amp, shift, idx):
    t = psr.toas[m]
    return amp * (t - t.mean()) / 1e8 * (1400.0 / psr.freqs[m]) ** idx + shift * psr.pos[0] + 1e-3 * len(t)


def odd_sel(toas, freqs):
    """Labels whose sorted order differs from their listing; some TOAs in no group."""
    lo, hi = np.percentile(freqs, [30, 70])
    return {"z": freqs < lo, "B": (freqs >= lo) & (freqs < hi) & (toas > toas.min()), "a_1": freqs >= hi}


def single_sel(toas):
    m = np.arange(len(toas)) == len(toas) // 2
    return {"s": m, "rest": ~m}


def sels(psr):
    mid = (psr.toas.max() + psr.toas.min()) / 2
    f = psr.freqs
    lo, hi = np.percentile(f, [30, 70])
    bk = {str(b): psr.backend_flags == b for b in np.unique(psr.backend_flags)}
    one = list(bk)[0]
    if len(f) % 3 == 0:  # a group with a single TOA
        return [("single", single_sel, single_sel(psr.toas))] * 5
    return [("none", S.no_selection, {"": np.ones(len(f), bool)}), ("backend", S.by_backend, bk), ("half", S.cut_half, {"t1": psr.toas <= mid, "t2": psr.toas > mid}),
            ("odd", odd_sel, {"z": f < lo, "B": (f >= lo) & (f < hi) & (psr.toas > psr.toas.min()), "a_1": f >= hi}), ("one", S.custom_backends([one]), {b: m for b, m in bk.items() if one in b})]


J = lambda *x: "_".join(y for y in x if y)


@scenario("C12", quick=40)
def delays(ck, rng, k):
    psr = mkpsr(rng, nback=int(rng.randint(1, 4)), sort=bool(rng.randint(2)))
    snap = snapshot(psr)
    metas, ref, allpars = [], [], {}
    n = len(psr.toas)
    shared = parameter.Uniform(0, 1)("common_shift")
    for i in range(int(rng.randint(1, 4))):
        lab, sel, groups = sels(psr)[rng.randint(5)]
        name = "s%d" % i
        sh = rng.randint(3)
        kw = dict(amp=parameter.Uniform(0, 1))
        if sh == 0:
            kw["shift"] = shared
        elif sh == 1:
            kw["shift"] = parameter.Uniform(0, 1)
        if rng.randint(2):
            kw["idx"] = parameter.Constant(3.0)
        metas.append(ds.Deterministic(wf(**kw), selection=Selection(sel), name=name))
        ref.append((name, groups, sh, 3.0 if "idx" in kw else 2.0))
    extra = bool(rng.randint(2))
    if extra:
        metas.append(ws.MeasurementNoise(efac=parameter.Constant(1.0)))
    sc = sb.SignalCollection(metas)(psr)
    for rep in range(3):
        params = {"common_shift": rng.rand()}
        for name, groups, sh, ix in ref:
            for g in groups:
                params[J(psr.name, name, g, "amp")] = rng.rand()
                if sh == 1:
                    params[J(psr.name, name, g, "shift")] = rng.rand()
        tot = np.zeros(n)
        for s, (name, groups, sh, ix) in zip(sc.signals, ref):
            want = np.zeros(n)
            for g, m in groups.items():
                if m.any():
                    shift = params["common_shift"] if sh == 0 else params[J(psr.name, name, g, "shift")] if sh == 1 else 0.0
                    want[m] = wf_ref(psr, m, params[J(psr.name, name, g, "amp")], shift, ix)
            got = s.get_delay(params)
            ck.close("delay of " + name, got, want, 1e-12)
            inside = np.any(list(groups.values()), axis=0)
            ck.true("zero outside the groups", np.all(np.asarray(got)[~inside] == 0))
            tot += want
        ck.close("total delay", sc.get_delay(params) + np.zeros(n), tot, 1e-12)
        ck.close("residuals minus delay", sc.get_detres(params), psr.residuals - tot, 1e-12)
    check_unchanged(ck, "delay", psr, snap)


@function
def gbasis(toas, freqs, order=2, idx=0.0):
    """Number of columns and entries depend on the group."""
    t = (toas - toas.mean()) / 1e8
    m = order + len(toas) % 2
    return np.array([t**i * (1400.0 / freqs) ** idx for i in range(m)]).T, np.arange(m) + 1.0 + len(toas)


def gbasis_ref(psr, msk, order, idx):
    t = psr.toas[msk]
    f = psr.freqs[msk]
    t = (t - t.mean()) / 1e8
    m = order + len(t) % 2
    return np.array([t**i * (1400.0 / f) ** idx for i in range(m)]).T, np.arange(m) + 1.0 + len(f)


@function
def vprior(labels, toas, s=1.0):
    return s * labels + len(toas) * 1e-3


@function
def mprior(labels, s=1.0):
    i = np.arange(len(labels))
    return s * 0.5 ** np.abs(i[:, None] - i[None, :]) * labels[0]


@scenario("C12", quick=60)
def gps(ck, rng, k):
    psr = mkpsr(rng, nback=int(rng.randint(1, 4)), sort=bool(rng.randint(2)))
    snap = snapshot(psr)
    n = len(psr.toas)
    lab, sel, groups = sels(psr)[k % 5]
    if any(not m.any() for m in groups.values()):
        groups_ok = False
        ck.true("skipped: empty group", True)
        return
    dense, varying, coeff = bool(rng.randint(3) == 0), bool(rng.randint(3) == 0), rng.randint(4) == 0 and not False
    pr = mprior(s=parameter.Uniform(0, 1)) if dense else vprior(s=parameter.Uniform(0, 1))
    ba = gbasis(order=parameter.Constant(3), idx=parameter.Uniform(0, 4)) if varying else gbasis(order=2)
    order = 3 if varying else 2
    sig = gs.BasisGP(pr, ba, selection=Selection(sel), name="gp", combine=bool(rng.randint(2)), coefficients=coeff and not varying)(psr)
    coeff = coeff and not varying
    for rep in range(3):
        params, blocks = {}, {}
        for g, m in groups.items():
            s = rng.uniform(0.5, 2)
            params[J(psr.name, "gp", g, "s")] = s
            ix = 0.0
            if varying:
                ix = rng.uniform(0, 4)
                params[J(psr.name, "gp", g, "idx")] = ix
            F, l = gbasis_ref(psr, m, order, ix)
            G = np.zeros((n, F.shape[1]))
            G[m] = F
            i = np.arange(len(l))
            P = s * 0.5 ** np.abs(i[:, None] - i[None, :]) * l[0] if dense else np.diag(s * l + n * 1e-3)
            blocks[g] = (G, P)
        if coeff:
            want = np.zeros(n)
            for g, (G, P) in blocks.items():
                c = rng.randn(G.shape[1])
                params[J(psr.name, "gp", g, "coefficients")] = c
                want += G @ c
            ck.close("delay of coefficient GP", sig.get_delay(params), want, 1e-11)
            ck.true("no marginalised basis", sig.get_basis(params) is None)
            continue
        F, Phi = np.asarray(sig.get_basis(params)), full(sig.get_phi(params))
        ck.same("number of columns", F.shape, (n, sum(G.shape[1] for G, _ in blocks.values())))
        ck.close("covariance", F @ Phi @ F.T, sum(G @ P @ G.T for G, P in blocks.values()), 1e-10)
        inside = np.any(list(groups.values()), axis=0)
        ck.true("zero outside all groups", np.all(F[~inside] == 0))
        # every column belongs to one group and equals that group's column; its prior is the group's
        used = []
        for g, (G, P) in blocks.items():
            mine = []
            for c in range(G.shape[1]):
                hit = [j for j in range(F.shape[1]) if j not in used and np.allclose(F[:, j], G[:, c], rtol=1e-12, atol=0)]
                ck.true("column %d of group %s present" % (c, g), len(hit) > 0)
                used.append(hit[0])
                mine.append(hit[0])
            ck.close("prior of group " + g, Phi[np.ix_(mine, mine)], P, 1e-10)
            rest = [j for j in range(len(Phi)) if j not in mine]
            ck.true("no prior covariance between groups", np.all(Phi[np.ix_(mine, rest)] == 0))
        ck.close("prior inverse", full(sig.get_phiinv(params)) @ Phi, np.eye(len(Phi)), 1e-8)
    check_unchanged(ck, "GP", psr, snap)


@scenario("C12", quick=16)
def library(ck, rng, k):
    """The package's own bases and priors under a selection."""
    psr = mkpsr(rng, nback=2)
    n, T = len(psr.toas), 1e8
    groups = {str(b): psr.backend_flags == b for b in np.unique(psr.backend_flags)}
    be = Selection(S.by_backend)
    nf = 3
    span = None if k % 2 else T
    g = gs.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11), gamma=parameter.Uniform(0, 7)), components=nf, Tspan=span, selection=be, name="red")(psr)
    params, want = {}, 0
    for b, m in groups.items():
        lA, ga = rng.uniform(-15, -13), rng.uniform(1, 5)
        params.update({J(psr.name, "red", b, "log10_A"): lA, J(psr.name, "red", b, "gamma"): ga})
        t = psr.toas[m]
        f = np.arange(1, nf + 1) / (span or t.max() - t.min())
        F = np.zeros((n, 2 * nf))
        F[m] = M.fourier(t, f)
        want = want + F @ np.diag(M.plaw(f, lA, ga)) @ F.T
    F, P = np.asarray(g.get_basis(params)), full(g.get_phi(params))
    ck.close("red noise by backend", F @ P @ F.T, want, 1e-8)
    e = gs.EcorrBasisModel(log10_ecorr=parameter.Uniform(-9, -5), selection=be)(psr)
    params, want = {}, np.zeros((n, n))
    okay = all(len(epochs(psr.toas, m)) for m in groups.values())
    if okay:
        for b, m in groups.items():
            v = rng.uniform(-7, -6)
            params[J(psr.name, "basis_ecorr", b, "log10_ecorr")] = v
            for ep in epochs(psr.toas, m):
                want[np.ix_(ep, ep)] += 10 ** (2 * v)
        F, P = np.asarray(e.get_basis(params)), full(e.get_phi(params))
        ck.close("basis ecorr by backend", F @ P @ F.T, want, 1e-10)
    fs = gs.FourierBasisGP(gp_priors.free_spectrum(log10_rho=parameter.Uniform(-9, -5, size=nf)), components=nf, Tspan=T, selection=be, name="fs")(psr)
    params = {J(psr.name, "fs", b, "log10_rho"): rng.uniform(-8, -6, nf) for b in groups}
    want = 0
    for b, m in groups.items():
        F = M.fourier(psr.toas, np.arange(1, nf + 1) / T) * m[:, None]
        want = want + F @ np.diag(np.repeat(10 ** (2 * params[J(psr.name, "fs", b, "log10_rho")]), 2)) @ F.T
    F, P = np.asarray(fs.get_basis(params)), full(fs.get_phi(params))
    ck.close("free spectrum by backend", F @ P @ F.T, want, 1e-9)
