"""C22: timing-model bases and their prior."""
import numpy as np
from ..rac import scenario
from ..fakes import mkpsr, snapshot, check_unchanged
from enterprise.signals import utils, gp_signals as gs, signal_base as sb, white_signals as ws, parameter


def mats(rng, k):
    n, m = int(rng.randint(6, 25)), int(rng.randint(2, 6))
    M = rng.randn(n, m) * 10 ** (rng.uniform(-6, 6, m) * rng.choice([1, 2.5], m))
    if k % 3 == 1:
        M[:, rng.randint(m)] = 0
    if k % 5 == 2:
        M[:, 0] = 1.0
    if k % 7 == 3:
        M = np.asfortranarray(M)
    ex = [None, [], [int(rng.randint(m))], list(rng.choice(m, min(2, m - 1), replace=False)), [0], (m - 1,)][k % 6]
    keep = [i for i in range(m) if not ex or i not in ex]
    return M, ex, keep


@scenario("C22", quick=40, thorough=400)
def functions(ck, rng, k):
    M, ex, keep = mats(rng, k)
    M0 = M.copy()
    kw = {} if ex is None else dict(idx_exclude=ex)
    A = M0[:, keep]
    B, w = utils.unnormed_tm_basis(M, **kw)
    ck.same("columns unchanged", B, A)
    p1 = np.broadcast_to(np.asarray(utils.tm_prior(w)), (len(keep),))
    ck.close("prior", p1, np.full(len(keep), 1e40), 1e-14)
    B, w = utils.normed_tm_basis(M, **kw)
    nrm = np.sqrt((A**2).sum(axis=0))
    W = np.where(nrm > 0, A / np.where(nrm > 0, nrm, 1), 0.0)
    ck.close("normalised", B, W, 1e-13)
    for j in range(len(keep)):
        ck.close("column norm", np.linalg.norm(B[:, j]), 1.0 if nrm[j] > 0 else 0.0, 1e-12)
    ck.close("prior", np.broadcast_to(np.asarray(utils.tm_prior(w)), (len(keep),)), np.full(len(keep), 1e40), 1e-14)
    g = 10 ** rng.uniform(-3, 3, len(keep))
    g0 = g.copy()
    B, w = utils.normed_tm_basis(M, norm=g, **kw)
    ck.close("given norms", B, A / g0, 1e-13)
    ck.same("norms kept", g, g0)
    sc = A / np.where(nrm > 0, nrm, 1)
    M2 = np.zeros_like(M)
    M2[:, keep] = sc
    if ex:
        M2[:, [i for i in range(M.shape[1]) if i not in keep]] = rng.randn(len(M), M.shape[1] - len(keep))
    B, w = utils.svd_tm_basis(M2, **kw)
    ck.true("svd shape", B.shape == (len(M), min(len(keep), len(M))))
    ck.close("orthonormal", B.T @ B, np.eye(B.shape[1]), 1e-11)
    ck.close("spans the columns", B @ (B.T @ sc), sc, 1e-10, atol=1e-11)
    ck.close("prior", np.asarray(utils.tm_prior(w)), np.full(B.shape[1], 1e40), 1e-14)
    ck.same("matrix kept", M, M0)


@scenario("C22", quick=24, thorough=240)
def signals(ck, rng, k):
    p = mkpsr(rng, n=int(rng.randint(15, 30)), npar=int(rng.randint(3, 7)))
    if k % 4 == 1:
        p.Mmat[:, -1] = 0
    snap = snapshot(p)
    m = p.Mmat.shape[1]
    svd, normed = [(False, True), (False, False), (True, True), (False, "given")][(k // 2) % 4]
    ex = None if k % 3 else [int(rng.randint(m))]
    keep = [i for i in range(m) if not ex or i not in ex]
    A = p.Mmat[:, keep]
    kw = {}
    if svd:
        kw["use_svd"] = True
    if normed is False:
        kw["normed"] = False
    g = None
    if normed == "given":
        g = 10 ** rng.uniform(-2, 2, len(keep))
        kw["normed"] = g
    if ex:
        kw["idx_exclude"] = ex
    s = gs.TimingModel(**kw)(p)
    T = s.get_basis({})
    if svd:
        if np.linalg.matrix_rank(A / np.maximum(np.linalg.norm(A, axis=0), 1e-300)) == A.shape[1]:
            Q, r = np.linalg.qr(A / np.linalg.norm(A, axis=0))
            ck.close("same column space", T @ T.T, Q @ Q.T, 1e-8, atol=1e-8)
        ck.close("orthonormal", T.T @ T, np.eye(T.shape[1]), 1e-10)
    else:
        nrm = np.linalg.norm(A, axis=0) if normed is True else (g if g is not None else np.ones(A.shape[1]))
        ck.close("basis", T, np.where(nrm > 0, A / np.where(nrm > 0, nrm, 1), 0), 1e-12)
    ck.close("prior", np.asarray(s.get_phi({})), np.full(T.shape[1], 1e40), 1e-14)
    ck.close("inverse prior", np.asarray(s.get_phiinv({})), np.full(T.shape[1], 1e-40), 1e-14)
    c = (ws.MeasurementNoise(efac=parameter.Constant(1.0)) + gs.TimingModel(**kw))(p)
    ck.close("in a collection", c.get_basis({}), T, 1e-12)
    ck.close("in a collection: prior", np.asarray(c.get_phi({})), np.full(T.shape[1], 1e40), 1e-14)
    check_unchanged(ck, "evaluation", p, snap)
    T2 = gs.TimingModel(**kw)(p).get_basis({})
    ck.close("second signal", T2, T, 1e-13)
    if not svd:
        cs = gs.TimingModel(coefficients=True, **{a: b for a, b in kw.items()})(p)
        nm = [q for q in cs.params][0]
        x = rng.randn(T.shape[1])
        ck.close("delay with coefficients", cs.get_delay({nm.name: x}), T @ x, 1e-12)
        ck.close("flat coefficient prior", nm.get_logpdf(x), 0.0)
    check_unchanged(ck, "all", p, snap)
