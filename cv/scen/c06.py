import numpy as np
import scipy.linalg as sl
from enterprise.signals import signal_base as sb, gp_signals as gs, parameter, utils
from ..rac import scenario
from .. import models as M
from .c05 import full, table_basis, vec_prior, mat_prior
from ..fakes import mkpsr


def total(pta, params):
    F = [f for f in pta.get_basis(params) if f is not None]
    return sl.block_diag(*F) if F else None


def check_inverses(ck, pta, params, want_phi, lab):
    W = want_phi
    inv, ld = np.linalg.inv(W), np.linalg.slogdet(W)[1]
    ok = []
    for method in ["cliques", "sparse", "partition"]:
        try:
            a, l = pta.get_phiinv(params, logdet=True, method=method)
        except NotImplementedError:
            ck.true(lab + ": only 'partition' may decline", method == "partition")
            continue
        ok.append(method)
        a = a.toarray() if hasattr(a, "toarray") else np.asarray(a)
        d = np.sqrt(np.abs(np.diag(W)))
        ck.close("%s: %s inverse" % (lab, method), a * np.outer(d, d), inv * np.outer(d, d), 1e-6)
        ck.close("%s: %s logdet" % (lab, method), l, ld, 1e-8, atol=1e-6)
        b = pta.get_phiinv(params, logdet=False, method=method)
        b = b.toarray() if hasattr(b, "toarray") else np.asarray(b)
        ck.close("%s: %s inverse without logdet" % (lab, method), b, a, 1e-12)
    return ok


@scenario("C06", quick=50)
def zoo(ck, rng, k):
    mod = M.random_model(rng, npsr=int(rng.randint(2, 5)), common=int(rng.randint(1, 3)))
    pta = mod.pta()
    ck.notes.append(str([[type(c).__name__ for c in cs if c.gp(p, mod.params) is not None] for p, cs in zip(mod.psrs, mod.comps)]))
    for rep in range(2):
        params = mod.redraw(rng)
        F = total(pta, params)
        phi = pta.get_phi(params)
        if isinstance(phi, list):
            ck.true("list only without correlated signals", sum(sum(c.common for c in cs) for cs in mod.comps) <= len(mod.comps))
            for f, ph, p, cs in zip(pta.get_basis(params), phi, mod.psrs, mod.comps):
                if ph is not None:
                    want = sum(g[0] @ g[1] @ g[0].T * (c.orf(p, p) if c.common else 1) for c in cs for g in [c.gp(p, params)] if g is not None)
                    ck.close("independent pulsar: F Phi F^T", f @ full(ph) @ f.T, want, 1e-9)
                    for method in ["cliques", "sparse", "partition"]:
                        i, l = pta.get_phiinv(params, logdet=True, method=method)[list(phi).index(ph) if False else [id(x) for x in phi].index(id(ph))]
                        d = np.sqrt(np.diag(full(ph)))
                        ck.close(method + ": independent inverse", full(i) * np.outer(d, d), np.linalg.inv(full(ph)) * np.outer(d, d), 1e-7)
                        ck.close(method + ": independent logdet", l, np.linalg.slogdet(full(ph))[1], 1e-9, atol=1e-7)
            continue
        phi = np.asarray(phi)
        white = np.zeros(0)
        C = mod.covariance(params)
        N = sl.block_diag(*[sum(np.zeros((len(p.toas),) * 2) + c.noise(p, params) for c in cs) for p, cs in zip(mod.psrs, mod.comps)])
        rows = np.concatenate([np.full(len(p.toas), f is not None) for p, f in zip(mod.psrs, pta.get_basis(params))])
        ck.close("F Phi F^T over all pulsars", F @ phi @ F.T, (C - N)[np.ix_(rows, rows)], 1e-8)
        ck.close("symmetric", phi, phi.T, 1e-12)
        ok = check_inverses(ck, pta, params, phi, "zoo")
        ck.notes.append(",".join(ok))


@scenario("C06", quick=30)
def patterns(ck, rng, k):
    """Common signals on arbitrary tables of columns shared with private, vector or matrix priors: Phi is compared
    element by element with the block assembly from the columns each signal owns."""
    npsr = int(rng.randint(2, 5))
    psrs = [mkpsr(rng, name="J%04d+1234" % i, n=20) for i in range(npsr)]
    pools = [rng.randn(20, 8) for _ in psrs]
    nc = int(rng.randint(1, 4))
    ncol = int(rng.randint(1, 4))
    commons = []
    names = ["hd", "dipole", "monopole"]
    for c in range(nc):
        cols = rng.permutation(5)[: (ncol if rng.randint(2) else int(rng.randint(1, 4)))]
        dense = k % 6 == 5
        o = names[rng.randint(3)]
        nmz = "c%d" % c
        pr = (mat_prior(scale=parameter.Uniform(0, 9)(nmz + "_scale"), rho=parameter.Uniform(0, 1)(nmz + "_rho")) if dense
              else vec_prior(scale=parameter.Uniform(0, 9)(nmz + "_scale"), off=parameter.Uniform(0, 9)(nmz + "_off")))
        tab = {p.name: pool[:, cols].copy() for p, pool in zip(psrs, pools)}
        commons.append((nmz, cols, dense, o, gs.BasisCommonGP(pr, psr_basis(tab=tab), M.ORFS[o][0](), name=nmz, combine=bool(rng.randint(4)))))
    scs, owners = [], []
    for p, pool in zip(psrs, pools):
        metas, own = [], []
        for j in range(int(rng.randint(0, 3))):
            cols = rng.permutation(8)[: int(rng.randint(1, 5))]
            dense = bool(rng.randint(4) == 0)
            nmz = "p%d" % j
            pr = mat_prior(scale=parameter.Uniform(0, 9), rho=parameter.Uniform(0, 1)) if dense else vec_prior(scale=parameter.Uniform(0, 9), off=parameter.Uniform(0, 9))
            metas.append(gs.BasisGP(pr, table_basis(F=pool[:, cols].copy()), name=nmz, combine=bool(rng.randint(4))))
            own.append((p.name + "_" + nmz, cols, dense, None, pool[:, cols]))
        for nmz, cols, dense, o, meta in commons:
            if rng.randint(6) or (nmz == "c0"):
                metas.append(meta)
                own.append((nmz, cols, dense, o, pool[:, cols]))
        perm = rng.permutation(len(metas))
        scs.append(sb.SignalCollection([metas[i] for i in perm])(p))
        owners.append([own[i] for i in perm])
    pta = sb.PTA(scs)
    params = {p.name: rng.uniform(0.2, 0.9) for p in pta.params}

    def prior(nmz, m, dense):
        i = np.arange(m)
        if dense:
            return params[nmz + "_scale"] * params[nmz + "_rho"] ** np.abs(i[:, None] - i[None, :])
        return np.diag(params[nmz + "_scale"] * (1 + params[nmz + "_off"] + i + 1))

    ns = [20] * npsr
    want = np.zeros((20 * npsr,) * 2)
    for i, (p, own) in enumerate(zip(psrs, owners)):
        for nmz, cols, dense, o, F in own:
            w = 1.0 if o is None else M.ORFS[o][1](p.pos, p.pos)
            want[20 * i : 20 * i + 20, 20 * i : 20 * i + 20] += w * F @ prior(nmz, len(cols), dense) @ F.T
            if o is not None:
                for j, (q, own2) in enumerate(zip(psrs, owners)):
                    for nm2, c2, d2, o2, G in own2:
                        if j != i and nm2 == nmz:
                            want[20 * i : 20 * i + 20, 20 * j : 20 * j + 20] += M.ORFS[o][1](p.pos, q.pos) * F @ prior(nmz, len(cols), dense) @ G.T
    ck.notes.append(str([[(o[0][-2:], [int(x) for x in o[1]], o[2], o[3]) for o in own] for own in owners]))
    phi = np.asarray(pta.get_phi(params))
    F = total(pta, params)
    ck.close("F Phi F^T over all pulsars", F @ phi @ F.T, want, 1e-9)
    ck.close("symmetric", phi, phi.T, 1e-12)
    if np.linalg.cond(phi) < 1e6 and np.all(np.linalg.eigvalsh(phi) > 0):
        ok = check_inverses(ck, pta, params, phi, "patterns")
        ck.notes.append(",".join(ok))
        params2 = {n: v * 0.9 for n, v in params.items()}
        pta.get_phiinv(params2, method="cliques")
        check_inverses(ck, pta, params, phi, "patterns again")


@parameter.function
def psr_basis(toas, name, tab=None):
    F = tab[name]
    return F, np.arange(1.0, F.shape[1] + 1)


@scenario("C06", quick=6)
def partition_accepted(ck, rng, k):
    """The classic case all methods must accept: same basis, all pulsars, diagonal priors."""
    npsr = int(rng.randint(2, 6))
    psrs = [mkpsr(rng, name="J%04d+1234" % i, n=20) for i in range(npsr)]
    T = M.common_span(psrs)
    coms = [M.Common(rng, T, orf=o, nf=4, name="g" + o) for o in ["hd", "dipole", "monopole"][: 1 + k % 3]]
    comps = [[M.Efac(rng), M.Red(rng, T, nf=int(rng.randint(3, 7)))] + coms + ([M.Dm(rng, T)] if rng.randint(2) else []) for p in psrs]
    mod = M.Model(rng, comps, psrs)
    pta = mod.pta()
    phi = np.asarray(pta.get_phi(mod.params))
    ok = check_inverses(ck, pta, mod.params, phi, "standard")
    ck.same("all methods accept the standard model", ok, ["cliques", "sparse", "partition"])
    want = mod.lnlike()
    for m in ok:
        ck.close("likelihood with " + m, pta.get_lnlikelihood(mod.params, phiinv_method=m), want, 1e-7, atol=1e-5)
    ck.raises("unknown method", lambda: pta.get_phiinv(mod.params, method="nosuch"), NotImplementedError)


@scenario("C06", quick=20)
def kernel_matrix(ck, rng, k):
    n = int(rng.randint(2, 9))
    km = utils.KernelMatrix(n)
    ref = np.zeros((n, n))
    ck.same("starts as zeros", np.asarray(km), np.zeros(n))
    for step in range(int(rng.randint(1, 7))):
        op = "add" if rng.randint(2) else "set"
        m = int(rng.randint(1, n + 1))
        if rng.randint(2):
            a = int(rng.randint(0, n - m + 1))
            idx, ii = slice(a, a + m), np.arange(a, a + m)
        else:
            ii = rng.permutation(n)[:m]
            idx = ii.copy()
        if rng.randint(3):
            v = rng.uniform(0.5, 2, m)
            V = v
            if op == "add":
                ref[ii, ii] += v
            else:
                ref[ii, ii] = v
        else:
            A = rng.randn(m, m)
            V = A @ A.T + np.eye(m)
            if op == "add":
                ref[np.ix_(ii, ii)] += V
            else:
                ref[np.ix_(ii, ii)] = V
        V0 = V.copy()
        km = getattr(km, op)(V, idx)
        ck.same("operand unchanged", V, V0)
        got = np.asarray(km)
        ck.close(op, np.diag(got) if got.ndim == 1 else got, ref, 1e-12)
    ref = ref + np.eye(n)
    km = km.add(np.ones(n), slice(0, n))
    got = np.asarray(km)
    ck.close("final", np.diag(got) if got.ndim == 1 else got, ref, 1e-12)
    if np.all(np.linalg.eigvalsh((ref + ref.T) / 2) > 1e-6):
        i, l = km.inv(logdet=True)
        ck.close("inv", full(i), np.linalg.inv(ref), 1e-8)
        ck.close("logdet", l, np.linalg.slogdet(ref)[1], 1e-9, atol=1e-9)
        ck.close("inv alone", full(km.inv()), np.linalg.inv(ref), 1e-8)


@scenario("C06", quick=24)
def joined(ck, rng, k):
    """A correlated signal whose columns join the cliques of dense priors: 2 to 4 pulsars of which some (or all) have
    one or two dense private priors that share all or a part of the signal's columns."""
    npsr = 2 + k % 3
    psrs = [mkpsr(rng, name="J%04d+1234" % i, n=20) for i in range(npsr)]
    pools = [rng.randn(20, 9) for _ in psrs]
    ncom = 1 + (k % 4 == 3)
    commons = []
    for c in range(ncom):
        cols = np.sort(rng.permutation(4)[: int(rng.randint(1, 4))])
        tab = {p.name: pool[:, cols].copy() for p, pool in zip(psrs, pools)}
        pr = vec_prior(scale=parameter.Uniform(0, 9)("c%d_scale" % c), off=parameter.Uniform(0, 9)("c%d_off" % c))
        commons.append(gs.BasisCommonGP(pr, psr_basis(tab=tab), M.ORFS[["hd", "dipole"][rng.randint(2)]][0](), name="c%d" % c))
    scs, n = [], []
    for i, (p, pool) in enumerate(zip(psrs, pools)):
        metas = []
        if k % 2 == 0 or rng.randint(3):
            cut = int(rng.randint(1, 4))
            metas.append(gs.BasisGP(mat_prior(scale=parameter.Uniform(0, 9), rho=parameter.Uniform(0, 1)), table_basis(F=pool[:, [0, 1, 4, 5][:cut + 1]].copy()), name="d"))
            if rng.randint(2):
                metas.append(gs.BasisGP(mat_prior(scale=parameter.Uniform(0, 9), rho=parameter.Uniform(0, 1)), table_basis(F=pool[:, [3, 7, 8] if cut > 2 else [2, 3]].copy()), name="e"))
        else:
            metas.append(gs.BasisGP(vec_prior(scale=parameter.Uniform(0, 9), off=parameter.Uniform(0, 9)), table_basis(F=pool[:, :6].copy()), name="v"))
        metas += [c for j, c in enumerate(commons) if j == 0 or rng.randint(2)]
        n.append(len(metas))
        scs.append(sb.SignalCollection(metas)(p))
    pta = sb.PTA(scs)
    params = {p.name: rng.uniform(0.3, 0.7) for p in pta.params}
    phi = np.asarray(pta.get_phi(params))
    ck.notes.append("%s signals, %d columns" % (n, len(phi)))
    if np.linalg.cond(phi) < 1e6 and np.all(np.linalg.eigvalsh(phi) > 0):
        ck.notes.append("positive definite")
        check_inverses(ck, pta, params, phi, "joined")
        cl = np.asarray(pta._cliques)
        ck.notes.append("%d cliques" % len(set(cl) - {-1}))
