"""C16: epochs, quantization matrix and linear interpolation. Oracle: the epoch rule walked on its own."""
import numpy as np
from ..rac import scenario
from ..scen_util import epochs
from enterprise.signals import utils


def toas_for(rng, k, n):
    kind = k % 6
    if kind == 0:  # clusters
        t, base = [], 1e6
        while len(t) < n:
            base += rng.uniform(3, 50)
            t.extend(base + rng.uniform(0, 0.9, rng.randint(1, 6)))
        t = np.array(t[:n])
    elif kind == 1:  # chains: successive gaps just below dt
        t = 100.0 + np.cumsum(rng.choice([0.25, 0.5, 0.75, 1.0, 1.25], n))
    elif kind == 2:  # exact multiples: TOAs exactly dt after the first
        t = 50.0 + np.cumsum(rng.choice([0.0, 0.5, 0.5, 1.0, 2.0], n))
    elif kind == 3:
        t = rng.uniform(0, n / 2.0, n)
    elif kind == 5:  # long trains of close TOAs
        t = 10.0 + np.cumsum(rng.choice([0.0625, 0.125, 0.03125, 3.0], n, p=[0.5, 0.2, 0.25, 0.05]))
    else:  # repeated TOAs
        t = np.sort(rng.choice(rng.uniform(0, 20, max(2, n // 2)), n))
    return t


@scenario("C16", quick=90, thorough=900)
def quantization(ck, rng, k):
    n = int(rng.randint(1, 40))
    t = toas_for(rng, k, n)
    o = rng.randint(3)
    if o == 0:
        t = t[rng.permutation(n)]
    elif o == 1:
        t = np.sort(t)
    dt, nmin = [(1, 2), (1, 1), (0.5, 3), (2.0, 2)][rng.randint(4)]
    sc = [1.0, 1.0, 4.0][rng.randint(3)]  # powers of two keep the comparisons exact
    tt = t * sc
    keep = tt.copy()
    ep = epochs(tt, np.ones(n, bool), dt=dt, nmin=nmin)
    for call in range(2):
        U, w = (utils.create_quantization_matrix(tt, dt=dt, nmin=nmin) if (dt, nmin) != (1, 2) or call
                else utils.create_quantization_matrix(tt))
        W = np.zeros((n, len(ep)))
        for c, e in enumerate(ep):
            W[e, c] = 1
        ck.same("shape", tuple(U.shape), (n, len(ep)))
        # ties between equal TOAs may be walked in either order; the sets are the same except across a boundary
        ck.same("U", np.asarray(U, float), W)
        ck.same("weights", np.asarray(w, float), np.ones(len(ep)))
        ck.same("toas kept", tt, keep)
    for as_slice in (False, True):
        inds = utils.quant2ind(U, as_slice=as_slice)
        ck.true("one index set per epoch", len(inds) == len(ep))
        for s, e in zip(inds, ep):
            e = np.sort(np.asarray(e))
            contig = e[-1] - e[0] + 1 == len(e)
            ck.true("slice exactly when contiguous", isinstance(s, slice) == (as_slice and contig))
            ck.same("members", np.sort(np.arange(n)[s]), e)
            ix = utils.indices_from_slice(s)
            ck.same("indices_from_slice", np.sort(np.asarray(ix)), e)
    inds = utils.quant2ind(U)
    for s, e in zip(inds, ep):
        ck.same("default index form", np.sort(np.arange(n)[s]), np.sort(np.asarray(e)))


@scenario("C16", quick=20, thorough=200)
def slices(ck, rng, k):
    a, m = int(rng.randint(0, 20)), int(rng.randint(1, 10))
    ck.same("slice", np.asarray(utils.indices_from_slice(slice(a, a + m))), np.arange(a, a + m))
    ck.same("slice from 0", np.asarray(utils.indices_from_slice(slice(0, m))), np.arange(m))
    ix = rng.permutation(30)[:m]
    ck.same("array", np.asarray(utils.indices_from_slice(ix)), ix)
    ck.same("open slice", np.asarray(utils.indices_from_slice(slice(None, m))), np.arange(m))
    st = int(rng.randint(1, 4))
    ck.same("stepped slice", np.asarray(utils.indices_from_slice(slice(a, a + m, st))), np.arange(a, a + m, st))
    # quant2ind on explicit matrices, with gaps inside an epoch
    n = int(rng.randint(6, 30))
    lab = rng.randint(-1, 4, n)
    labs = [l for l in range(4) if np.any(lab == l)]
    U = np.array([(lab == l) * 1.0 for l in labs]).T.reshape(n, len(labs))
    for as_slice in (True, False):
        for s, l in zip(utils.quant2ind(U, as_slice=as_slice), labs):
            ck.same("label members", np.sort(np.arange(n)[s]), np.flatnonzero(lab == l))


@scenario("C16", quick=30, thorough=300)
def interpolation(ck, rng, k):
    n = int(rng.randint(2, 60))
    dt = 10 ** rng.uniform(0, 2)
    t = 1e3 + rng.uniform(0, dt * [0.5, 3.3, 12.0, 1.0][k % 4], n)
    if k % 3 == 0:
        t = np.sort(t)
    if k % 5 == 4 and n > 6:  # a long gap: nodes without TOAs
        t = np.concatenate([t, t[:3] + 7.5 * dt])
    if k % 7 == 3:  # the last TOA on a node, up to rounding; a zero time span
        a = rng.uniform(4.5e9, 5e9)
        dt = [30 * 86400, rng.uniform(1e5, 1e6), 86400.0][rng.randint(3)]
        t = np.append(rng.permutation(a + dt * np.arange(rng.randint(0, 20))), [a, a + dt * rng.randint(0, 20)])
    big = t.max() > 1e6
    keep = t.copy()
    M, x = utils.linear_interp_basis(t, dt=dt)
    ck.same("toas kept", t, keep)
    ck.true("shape", M.shape == (len(t), len(x)))
    ck.close("rows sum to one", M.sum(axis=1), np.ones(len(t)), rtol=1e-9)
    ck.true("entries in [0,1]", np.all(M >= -1e-12) and np.all(M <= 1 + 1e-12))
    ck.true("nodes increasing", np.all(np.diff(x) > 0))
    kk = (x - t.min()) / dt
    ck.close("nodes on the grid from the first TOA", kk, np.round(kk), atol=1e-6)
    ck.true("no empty columns", np.all(np.abs(M).sum(axis=0) > 0))
    for c0, c1 in ((1.0, 0.0), (0.0, 1.0), (rng.randn(), rng.randn())):
        o = t.min() if big else 1e3
        ck.close("linear functions", M @ (c0 + c1 * (x - o)), c0 + c1 * (t - o), atol=1e-9 * (abs(c0) + abs(c1) * dt * 20))
    ck.true("only the two neighbouring nodes", np.all(np.abs(t[:, None] - x[None, :])[M > 1e-9] <= dt * (1 + 1e-9)))
