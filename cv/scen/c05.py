import numpy as np
from enterprise.signals import signal_base as sb, gp_signals as gs, parameter
from enterprise.signals.parameter import function
from ..rac import scenario
from .. import models as M
from ..fakes import mkpsr


def full(phi):
    phi = np.asarray(phi)
    return np.diag(phi) if phi.ndim == 1 else phi


@function
def table_basis(toas, F=None):
    return F, np.arange(1.0, F.shape[1] + 1)


@function
def vec_prior(labels, scale=1.0, off=0.0):
    return scale * (1 + off + labels)


@function
def mat_prior(labels, scale=1.0, rho=0.4):
    i = np.arange(len(labels))
    return scale * rho ** np.abs(i[:, None] - i[None, :])


@scenario("C05", quick=40)
def table(ck, rng, k):
    """Bases drawn from a small pool of columns, so that any pattern of coincidences occurs."""
    psr = mkpsr(rng, nback=2)
    n = len(psr.toas)
    pool = rng.randn(n, 5)
    pool[:, 4] = -pool[:, 0]
    nsig = int(rng.randint(2, 5))
    metas, info = [], []
    for i in range(nsig):
        m = int(rng.randint(1, 5))
        cols = rng.randint(0, 5, m) if k % 3 == 0 else rng.permutation(5)[:m]
        F = pool[:, cols].copy()
        if rng.randint(4) == 0:
            F[:, 0] += 1e-9 * rng.randn(n)
        elif rng.randint(3) == 0:
            # a column that differs from the pool's in one entry only, and there by little
            j = np.argmax(np.abs(F[:, 0]))
            F[j, 0] *= 1 + rng.choice([2e-8, -2e-8])
        dense, combine = bool(rng.randint(3) == 0), bool(rng.randint(3))
        pr = mat_prior(scale=parameter.Uniform(0, 9), rho=parameter.Uniform(0, 1)) if dense else vec_prior(scale=parameter.Uniform(0, 9), off=parameter.Uniform(0, 9))
        varying = rng.randint(4) == 0
        nmz = "s%d" % i
        if varying:
            b = M.poly_basis() if False else scaled_basis(F=F, amp=parameter.Uniform(0, 3))
        else:
            b = table_basis(F=F)
        metas.append(gs.BasisGP(pr, b, combine=combine, name=nmz))
        info.append((nmz, F, dense, combine, varying, cols))
    sc = sb.SignalCollection(metas)(psr)
    ck.notes.append(str([(list(map(int, c)), "dense" if d else "vec", "comb" if cb else "own", "var" if v else "") for _, _, d, cb, v, c in info]))
    for rep in range(3):
        params = {p.name: rng.uniform(0.2, 0.9) for p in sc.params}
        want = np.zeros((n, n))
        ncol_min = 0
        for nmz, F, dense, combine, varying, cols in info:
            pre = psr.name + "_" + nmz + "_"
            lab = np.arange(1.0, F.shape[1] + 1)
            i = np.arange(len(lab))
            G = F * params[pre + "amp"] if varying else F
            P = params[pre + "scale"] * params[pre + "rho"] ** np.abs(i[:, None] - i[None, :]) if dense else np.diag(params[pre + "scale"] * (1 + params[pre + "off"] + lab))
            want += G @ P @ G.T
        F, Phi = sc.get_basis(params), full(sc.get_phi(params))
        ck.close("F Phi F^T", F @ Phi @ F.T, want, 2e-10)
        ck.same("square prior", Phi.shape, (F.shape[1],) * 2)
        inv = sc.get_phiinv(params)
        if np.linalg.matrix_rank(Phi) == len(Phi):
            ck.close("prior inverse", full(inv) @ Phi, np.eye(len(Phi)), 1e-7)
        own = sum(F_.shape[1] for _, F_, d, cb, v, c in info if not cb or v)
        ck.true("uncombined and varying signals keep their own columns", F.shape[1] >= own)


@function
def scaled_basis(toas, F=None, amp=1.0):
    return F * amp, np.arange(1.0, F.shape[1] + 1)


@scenario("C05", quick=25)
def zoo(ck, rng, k):
    mod = M.random_model(rng, npsr=1, common=int(rng.randint(0, 2)))
    psr = mod.psrs[0]
    sc = mod.metas()[0](psr)
    for rep in range(2):
        params = mod.redraw(rng)
        want = np.zeros((len(psr.toas),) * 2)
        any_gp = False
        for c in mod.comps[0]:
            g = c.gp(psr, params)
            if g is not None:
                any_gp = True
                want += g[0] @ g[1] @ g[0].T * (c.orf(psr, psr) if c.common else 1)
        F = sc.get_basis(params)
        if not any_gp:
            ck.true("no basis", F is None and sc.get_phi(params) is None)
            continue
        ck.close("F Phi F^T", F @ full(sc.get_phi(params)) @ F.T, want, 1e-9)


@scenario("C05", quick=4)
def sharing(ck, rng, k):
    """Columns are really shared (and only when asked)."""
    psr = mkpsr(rng)
    T = M.common_span([psr])
    a, b = M.Red(rng, T, nf=5, name="a"), M.Red(rng, T, nf=3, name="b")
    mod = M.Model(rng, [[M.Efac(rng), a, b]], [psr])
    sc = mod.metas()[0](psr)
    ck.same("shared columns", sc.get_basis(mod.params).shape[1], 10)
    b2 = M.Red(rng, T, nf=3, name="b", combine=False)
    mod = M.Model(rng, [[M.Efac(rng), a, b2]], [psr])
    ck.same("uncombined columns", mod.metas()[0](psr).get_basis(mod.params).shape[1], 16)
