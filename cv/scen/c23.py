"""C23: conditional draws of GP coefficients against a dense conditional Gaussian built from the model's own formulas."""
import contextlib
import numpy as np
from ..rac import scenario
from .. import models as M
from ..fakes import mkpsr
from ..scen_util import nm
from enterprise.signals import utils, gp_signals as gs, gp_priors, parameter, signal_base as sb, white_signals as ws


def model(rng, k, common, npsr):
    names = ["J%02d%02d+%04d" % (i, rng.randint(60), rng.randint(9999)) for i in range(npsr)]
    psrs = [mkpsr(rng, name=n, n=int(rng.randint(18, 26)), nback=int(rng.randint(1, 3))) for n in names]
    T = M.common_span(psrs)
    commons = [M.Common(rng, T, orf=["hd", "dipole", "hd", "monopole"][(k + i) % 4], nf=2 + i, name="gw%d" % i, combine=False) for i in range(common)]
    white = [M.Efac(rng, bool(k % 2))]
    if k % 3 == 1:
        white.append(M.Ecorr(rng))
    comps = []
    for i, p in enumerate(psrs):
        cs = list(white) + list(commons if i < npsr - (k % 2) or npsr < 3 else commons[:1])
        if rng.randint(3) or not common:
            cs.append(M.Red(rng, T, nf=int(rng.randint(2, 4)), sel=rng.randint(3) == 0, combine=False))
        if rng.randint(2):
            cs.append(M.Dm(rng, T, nf=2))
        if rng.randint(3) == 0:
            cs.append(M.Chrom(rng, T))
        if rng.randint(3) == 0:
            cs.append(M.Poly(rng, dense=bool(rng.randint(2)), combine=False))
        if rng.randint(3) == 0:
            cs.append(M.Ramp(rng))
        if rng.randint(4) == 0:
            cs.append(M.Coeff(rng, T))
        if npsr > 1 and i == k % npsr and k % 3 == 2:  # a pulsar without Gaussian processes
            cs = list(white)
        comps.append([cs[j] for j in rng.permutation(len(cs))])
    return M.Model(rng, comps, psrs)


NAMES = {M.Red: lambda c: c.nm, M.Dm: lambda c: "dm_gp", M.Chrom: lambda c: "chrom", M.Poly: lambda c: c.nm, M.Common: lambda c: c.nm}


def oracle(md):
    """keys, block slices, posterior mean and covariance of all coefficients, and each block's basis."""
    par = md.params
    blocks, off = [], 0
    for i, (p, cs) in enumerate(zip(md.psrs, md.comps)):
        for c in cs:
            g = c.gp(p, par)
            if g is not None:
                blocks.append((i, c, nm(p.name, NAMES[type(c)](c)), g[0], g[1], slice(off, off + g[0].shape[1])))
                off += g[0].shape[1]
    Phi, S, b = np.zeros((off, off)), np.zeros((off, off)), np.zeros(off)
    ns = [len(p.toas) for p in md.psrs]
    for i, p in enumerate(md.psrs):
        N = sum(np.zeros((ns[i], ns[i])) + c.noise(p, par) for c in md.comps[i])
        r = p.residuals - sum(np.zeros(ns[i]) + c.delay(p, par) for c in md.comps[i])
        mine = [x for x in blocks if x[0] == i]
        for x in mine:
            b[x[5]] = x[3].T @ np.linalg.solve(N, r)
            for y in mine:
                S[x[5], y[5]] += x[3].T @ np.linalg.solve(N, y[3])
    for x in blocks:
        for y in blocks:
            if x[1] is y[1] and x[1].common:
                Phi[x[5], y[5]] = x[4] * x[1].orf(md.psrs[x[0]], md.psrs[y[0]])
            elif x is y:
                Phi[x[5], y[5]] = x[4]
    s = 1 / np.sqrt(np.diag(Phi))
    S = S + np.linalg.inv(Phi * np.outer(s, s)) * np.outer(s, s)
    d = 1 / np.sqrt(np.diag(S))
    C = np.linalg.inv(S * np.outer(d, d)) * np.outer(d, d)
    return blocks, C @ b, C


class Deviates:
    """Feeds chosen standard normal deviates to the code; `used` counts how many were taken."""

    def __init__(self, stream):
        self.stream, self.used = np.asarray(stream, float), 0

    def take(self, shape):
        n = int(np.prod(shape)) if shape != () else 1
        out = np.zeros(n)
        have = self.stream[self.used : self.used + n]
        out[: len(have)] = have
        self.used += n
        return out.reshape(shape) if shape != () else float(out[0])


@contextlib.contextmanager
def deviates(stream):
    d = Deviates(stream)
    old = np.random.randn, np.random.standard_normal, np.random.normal
    np.random.randn = lambda *s: d.take(s)
    np.random.standard_normal = lambda size=None: d.take(() if size is None else tuple(np.atleast_1d(size)))
    np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * d.take(np.broadcast(loc, scale).shape if size is None else tuple(np.atleast_1d(size)))
    try:
        yield d
    finally:
        np.random.randn, np.random.standard_normal, np.random.normal = old


def flat(ck, lab, blocks, d, n):
    out = np.zeros(n)
    for i, c, name, F, P, sl in blocks:
        key = name + "_coefficients"
        ck.true("%s: has %s" % (lab, key), key in d, repr(sorted(d)))
        ck.true("%s: size of %s" % (lab, key), np.shape(d[key]) == (F.shape[1],))
        out[sl] = d[key]
    return out


def check_draws(ck, lab, draw, blocks, mean, C):
    """draw() -> dict; verifies mean + B z with B B^T = C."""
    n = len(mean)
    sc = np.sqrt(np.diag(C))
    with deviates(np.zeros(n)) as d:
        base = flat(ck, lab, blocks, draw(), n)
    if d.used == n:
        ck.close(lab + ": zero deviates give the mean", base / sc, mean / sc, 1e-6, atol=1e-6)
        B = np.zeros((n, n))
        for i in range(n):
            with deviates(np.eye(n)[i]) as d:
                B[:, i] = flat(ck, lab, blocks, draw(), n) - base
        Bs = B / sc[:, None]
        ck.close(lab + ": B B^T is the posterior covariance", Bs @ Bs.T, C / np.outer(sc, sc), 1e-5, atol=1e-5)
        z = np.random.RandomState(7).randn(n)
        with deviates(z):
            ck.close(lab + ": linear in the deviates", (flat(ck, lab, blocks, draw(), n) - base) / sc, Bs @ z, 1e-7, atol=1e-7)
    else:  # the deviates come from elsewhere: judge the distribution of many draws
        X = np.array([flat(ck, lab, blocks, draw(), n) for _ in range(3000)])
        X = (X - mean) / sc
        tol = 7 / np.sqrt(len(X))
        ck.close(lab + ": sample mean", X.mean(axis=0), np.zeros(n), atol=tol)
        ck.close(lab + ": sample covariance", X.T @ X / len(X), C / np.outer(sc, sc), atol=2 * tol)


def check_all(ck, rng, k, md, pta, methods):
    blocks, mean, C = oracle(md)
    n = len(mean)
    par = dict(md.params)
    keep = dict(par)
    sc = np.sqrt(np.diag(C))
    toln = dict(rtol=1e-6, atol=1e-6)
    for meth in methods:
        cg = utils.ConditionalGP(pta, phiinv_method=meth)
        lab = "ConditionalGP(%s)" % meth
        got = cg.get_mean_coefficients(par)
        ck.close(lab + " mean", flat(ck, lab, blocks, got, n) / sc, mean / sc, **toln)
        ck.true(lab + " only these", set(got) == {b[2] + "_coefficients" for b in blocks})
        pr = cg.get_mean_processes(par)
        ck.true(lab + " process names", set(pr) == {b[2] for b in blocks})
        for i, c, name, F, P, sl in blocks:
            ck.close(lab + " mean process " + name, pr[name], F @ got[name + "_coefficients"], 1e-8, atol=1e-20)
        check_draws(ck, lab, lambda: cg.sample_coefficients(par)[0], blocks, mean, C)
        z = rng.randn(3 * n)
        with deviates(z) as d:
            co = cg.sample_coefficients(par, n=3)
        with deviates(z):
            ps = cg.sample_processes(par, n=3)
        ck.true(lab + " as many draws as asked", len(co) == 3 and len(ps) == 3)
        if d.used == 3 * n:
            for a, b_ in zip(co, ps):
                for i, c, name, F, P, sl in blocks:
                    ck.close(lab + " process " + name, b_[name], F @ a[name + "_coefficients"], 1e-8, atol=1e-20)
            ck.true(lab + " draws differ", not np.allclose(flat(ck, lab, blocks, co[0], n), flat(ck, lab, blocks, co[1], n), rtol=1e-6, atol=0))
    com = bool(sum(c.common for cs in md.comps for c in cs))
    for sparse in (False, True) if com else (False,):
        lab = "get_coefficients(common_sparse=%s)" % sparse
        f = lambda **kw: utils.get_coefficients(pta, par, common_sparse=sparse, **kw)
        got = f(variance=False)
        ck.close(lab + " mean", flat(ck, lab, blocks, got, n) / sc, mean / sc, **toln)
        ck.true(lab + " keeps the parameters", all(np.array_equal(got[x], par[x]) for x in keep))
        check_draws(ck, lab, lambda: f(), blocks, mean, C)
        many = f(n=3)
        ck.true(lab + " list of draws", isinstance(many, list) and len(many) == 3)
        for g in many:
            flat(ck, lab, blocks, g, n)
        ck.true(lab + " separate dictionaries", many[0] is not many[1])
    ck.true("parameters kept", set(par) == set(keep) and all(par[x] is keep[x] for x in keep))


@scenario("C23", quick=8, thorough=80)
def independent(ck, rng, k):
    md = model(rng, k, 0, 1 + k % 3)
    check_all(ck, rng, k, md, md.pta(), ["cliques", ["cliques", "sparse", "partition"][k % 3]][: 1 + k % 2])


@scenario("C23", quick=8, thorough=80)
def correlated(ck, rng, k):
    md = model(rng, k, 1 + (k // 2) % 2, 2 + k % 2)
    check_all(ck, rng, k, md, md.pta(), ["cliques", "sparse"][k % 2 :][:1])


@scenario("C23", quick=4, thorough=30)
def timing_model_parameters(ck, rng, k):
    """Named timing-model coefficients, next to a red process."""
    p = mkpsr(rng, n=30, npar=4)
    T = p.toas.max() - p.toas.min()
    red = gs.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11), gamma=parameter.Uniform(0, 7)), components=2, Tspan=T, combine=False)
    tm = gs.TimingModel(normed=bool(k % 2))
    s = [ws.MeasurementNoise(efac=parameter.Constant(1.0)), red, tm] if k % 3 else [ws.MeasurementNoise(efac=parameter.Constant(1.0)), tm, red]
    pta = sb.PTA([sb.SignalCollection(s)(p)])
    par = {p.name + "_red_noise_log10_A": -13.5, p.name + "_red_noise_gamma": 3.0}
    f = np.arange(1, 3) / T
    A = p.Mmat / (np.linalg.norm(p.Mmat, axis=0) if k % 2 else 1.0)
    F = np.hstack([A, M.fourier(p.toas, f)])
    pinv = np.concatenate([np.full(4, 1e-40), 1 / M.plaw(f, -13.5, 3.0)])
    S = (F.T / p.toaerrs**2) @ F + np.diag(pinv)
    d = 1 / np.sqrt(np.diag(S))
    mn = d * np.linalg.solve(S * np.outer(d, d), d * (F.T @ (p.residuals / p.toaerrs**2)))
    tol = dict(rtol=1e-6, atol=1e-6)
    for names in ([p.fitpars[2]], [p.fitpars[3], p.fitpars[0]], []):
        cg = utils.ConditionalGP(pta, tm_params=names, psr=p)
        got, pr = cg.get_mean_coefficients(par), cg.get_mean_processes(par)
        tmk = [x for x in got if "timing_model" in x][0]
        ck.close("timing model", got[tmk] / d[:4], mn[:4] / d[:4], **tol)
        ck.close("red noise", got[p.name + "_red_noise_coefficients"] / d[4:], mn[4:] / d[4:], **tol)
        for x in names:
            i = p.fitpars.index(x)
            ck.close("named coefficient", got[p.name + "_" + x + "_coefficients"] / d[i], mn[i] / d[i], **tol)
            ck.close("named process", pr[p.name + "_" + x], A[:, i] * got[p.name + "_" + x + "_coefficients"], 1e-9, atol=1e-25)
        ck.close("red process", pr[p.name + "_red_noise"], F[:, 4:] @ got[p.name + "_red_noise_coefficients"], 1e-9)
    ck.raises("names need the pulsar", lambda: utils.ConditionalGP(pta, tm_params=[p.fitpars[1]]).get_mean_coefficients(par), ValueError)


@scenario("C23", quick=2, thorough=8)
def several_timing_models(ck, rng, k):
    """Named coefficients are the given pulsar's; others may have other fit parameters."""
    ps = [mkpsr(rng, name="J%04d+0000" % i, n=20, npar=4) for i in range(3)]
    for p in ps[1:]:
        perm = rng.permutation(4)
        p.fitpars = [p.fitpars[j] + ("B" if j == 3 and p is ps[2] else "") for j in perm]
    m = sb.SignalCollection([ws.MeasurementNoise(efac=parameter.Constant(1.0)), gs.TimingModel()])
    pta = sb.PTA([m(p) for p in ps])
    for p in ps:
        x = p.fitpars[int(rng.randint(4))]
        got = utils.ConditionalGP(pta, tm_params=[x], psr=p).get_mean_coefficients({})
        for q in ps:
            tm = got[q.name + "_linear_timing_model_coefficients"]
            key = q.name + "_" + x + "_coefficients"
            ck.true("the given pulsar's coefficient", (q is not p and x not in q.fitpars) or key not in got and q is not p or key in got and np.isclose(got[key], tm[q.fitpars.index(x)], rtol=1e-12, atol=0), "%s: %s" % (key, got.get(key)))


@scenario("C23", quick=3, thorough=12)
def svd_does_not_converge(ck, rng, k):
    """get_coefficients when every other singular value decomposition raises LinAlgError, as LAPACK's may."""
    md = model(rng, k, 0, 1 + k % 2)
    pta = md.pta()
    blocks, mean, C = oracle(md)
    sc = np.sqrt(np.diag(C))
    real, calls = utils.sl.svd, [0]

    def svd(*a, **kw):
        calls[0] += 1
        if calls[0] % 2:
            raise np.linalg.LinAlgError("SVD did not converge")
        return real(*a, **kw)

    def draw(**kw):
        calls[0] = 0
        utils.sl.svd = svd
        try:
            return utils.get_coefficients(pta, md.params, **kw)
        finally:
            utils.sl.svd = real

    got = draw(variance=False)
    lab = "after a failed SVD"
    ck.close(lab + ": mean", flat(ck, lab, blocks, got, len(mean)) / sc, mean / sc, 1e-5, atol=1e-5)
    n = len(mean)
    B = np.zeros((n, n))
    base = flat(ck, lab, blocks, got, n)
    for i in range(n):
        with deviates(np.eye(n)[i]) as d:
            B[:, i] = flat(ck, lab, blocks, draw(), n) - base
    Bs = B / sc[:, None]
    ck.close(lab + ": B B^T is the posterior covariance", Bs @ Bs.T, C / np.outer(sc, sc), 1e-4, atol=1e-4)


@scenario("C23", quick=2, thorough=4)
def no_processes(ck, rng, k):
    m = sb.SignalCollection([ws.MeasurementNoise(efac=parameter.Constant(1.0))])
    pta = sb.PTA([m(mkpsr(rng, name="J%04d+0000" % i, n=10)) for i in range(1 + k)])
    c = utils.ConditionalGP(pta)
    ck.true("no coefficients", c.get_mean_coefficients({}) == {} and c.get_mean_processes({}) == {})
    ck.true("no samples", c.sample_coefficients({}, n=2) == [{}, {}] and c.sample_processes({}) == [{}])
    par = {"x": 1.0}
    got = utils.get_coefficients(pta, par)
    ck.true("the parameters alone", got == par and got is not par and utils.get_coefficients(pta, par, n=2) == [par, par])


@scenario("C23", quick=3, thorough=12)
def shared_columns_refused(ck, rng, k):
    """GPs whose columns were merged have no coefficients of their own: an error, not a wrong answer."""
    p = mkpsr(rng, n=30)
    T = p.toas.max() - p.toas.min()
    mk = lambda name, nf: gs.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(-13.5), gamma=parameter.Constant(3.0)), components=nf, Tspan=T, name=name)
    pta = sb.PTA([(ws.MeasurementNoise(efac=parameter.Constant(1.0)) + mk("a", 2 + k % 2) + mk("b", 2))(p)])
    ck.raises("ConditionalGP", lambda: utils.ConditionalGP(pta).get_mean_coefficients({}), IndexError)
    ck.raises("get_coefficients", lambda: utils.get_coefficients(pta, {}), IndexError)
