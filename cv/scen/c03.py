import numpy as np
from enterprise.signals import gp_signals as gs, signal_base as sb, white_signals as ws, parameter
from ..rac import scenario
from .. import models as M
from ..fakes import mkpsr, snapshot, check_unchanged


def basis(psr, svd, normed):
    Mm = psr.Mmat
    if svd:
        return np.linalg.svd(Mm, full_matrices=False)[0]
    if normed is True:
        return Mm / np.sqrt(np.sum(Mm**2, axis=0))
    if normed is False:
        return Mm
    return Mm / normed


@scenario("C03", quick=24)
def operator(ck, rng, k):
    psr = mkpsr(rng, npar=int(rng.randint(1, 7)))
    n = len(psr.toas)
    snap = snapshot(psr)
    svd = k % 4 == 1
    normed = [True, True, False, None][k % 4]
    if normed is None:
        normed = 10 ** rng.uniform(-1, 1, psr.Mmat.shape[1])
    Mm = basis(psr, svd, normed)
    m = Mm.shape[1]
    comps = [M.Efac(rng, bool(rng.randint(2)))] + ([M.Equad(rng)] if rng.randint(2) else []) + ([M.Ecorr(rng)] if rng.randint(3) else [])
    mod = M.Model(rng, [comps], [psr])
    mt = gs.MarginalizingTimingModel(use_svd=svd, normed=normed)
    metas = [c.meta for c in comps]
    pos = int(rng.randint(0, len(metas) + 1))
    sc = sb.SignalCollection(metas[:pos] + [mt] + metas[pos:])(psr)
    ck.notes.append("m=%d svd=%s comps=%s pos=%d" % (m, svd, [type(c).__name__ for c in comps], pos))
    first = None
    for rep in range(3):
        params = mod.redraw(rng) if rep < 2 else first
        first = first or dict(params)
        N = sum(c.noise(psr, params) for c in comps)
        Ni = np.linalg.inv(N / 1e-12) / 1e-12
        MNM = Mm.T @ Ni @ Mm
        P = Ni - Ni @ Mm @ np.linalg.solve(MNM, Mm.T @ Ni)
        nd = sc.get_ndiag(params)
        x, y = rng.randn(n), rng.randn(n)
        p, q = int(rng.randint(1, 5)), int(rng.randint(1, 5))
        X, Z = rng.randn(n, p), rng.randn(n, q)
        s = np.abs(Ni).max() * 1e-8
        for again in range(2):
            ck.close("r'Pr", nd.solve(x, left_array=x), x @ P @ x, 1e-7)
            ck.close("y'Px", nd.solve(x, left_array=y), y @ P @ x, 1e-7, atol=s)
            ck.close("Z'Px", nd.solve(x, left_array=Z), Z.T @ P @ x, 1e-7, atol=s)
            ck.close("Z'PX", nd.solve(X, left_array=Z), Z.T @ P @ X, 1e-7, atol=s)
            ck.close("X'PX", nd.solve(X, left_array=X), X.T @ P @ X, 1e-7, atol=s)
            ck.close("annihilates M", nd.solve(x, left_array=Mm.copy()), np.zeros(m), 0, atol=1e-5 * np.abs(Mm.T @ Ni @ x).max() + 1e-7 * np.abs(Ni).max() * np.abs(Mm).max())
            a, ld = nd.solve(x, left_array=x, logdet=True)
            want = np.linalg.slogdet(N / 1e-12)[1] + n * np.log(1e-12) + np.linalg.slogdet(MNM)[1] + m * np.log(1e40)
            ck.close("r'Pr with logdet", a, x @ P @ x, 1e-7)
            ck.close("logdet", ld, want, 1e-9, atol=1e-5)
    check_unchanged(ck, "marginalizing timing model", psr, snap)


@scenario("C03", quick=6)
def likelihood(ck, rng, k):
    psr = mkpsr(rng, npar=int(rng.randint(1, 6)))
    T = M.common_span([psr])
    comps = [M.Efac(rng), M.Ecorr(rng), M.Red(rng, T, combine=bool(k % 2))] + ([M.Ramp(rng)] if k % 3 == 0 else [])
    mod = M.Model(rng, [comps], [psr])
    a = sb.PTA([sb.SignalCollection([c.meta for c in comps] + [gs.MarginalizingTimingModel()])(psr)])
    b = sb.PTA([sb.SignalCollection([c.meta for c in comps] + [gs.TimingModel()])(psr)])
    for rep in range(2):
        params = mod.redraw(rng)
        C, r = mod.covariance(), mod.detres()
        Mm = basis(psr, False, True)
        s2 = 1e-12
        Ci = np.linalg.inv(C / s2)
        MCM, bb = Mm.T @ Ci @ Mm, Mm.T @ Ci @ r
        want = (-0.5 * (r @ Ci @ r - bb @ np.linalg.solve(MCM, bb)) / s2 - 0.5 * (np.linalg.slogdet(C / s2)[1] + len(r) * np.log(s2))
                - 0.5 * (np.linalg.slogdet(MCM)[1] - len(bb) * np.log(s2)) - 0.5 * len(bb) * np.log(1e40))
        ck.close("marginalizing", a.get_lnlikelihood(params), want, 1e-7, atol=1e-4)
        ck.close("explicit", b.get_lnlikelihood(params), want, 1e-7, atol=1e-4)
