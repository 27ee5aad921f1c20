import numpy as np
from scipy import integrate, stats, special
from enterprise.signals import signal_base as sb, deterministic_signals as ds, parameter
from enterprise.signals.parameter import function
from ..rac import scenario
from ..fakes import mkpsr


def dens(kind, h):
    """(pdf, cdf, lo, hi) of one component from its definition."""
    if kind == "Uniform":
        a, b = h
        return (lambda v: np.where((v >= a) & (v <= b), 1 / (b - a), 0.0)), (lambda v: np.clip((v - a) / (b - a), 0, 1)), a, b
    if kind == "Normal":
        m, s = h
        return (lambda v: np.exp(-((v - m) ** 2) / (2 * s**2)) / np.sqrt(2 * np.pi) / s), (lambda v: special.ndtr((v - m) / s)), m - 12 * s, m + 12 * s
    if kind == "TruncNormal":
        m, s, a, b = h
        A, B = special.ndtr((a - m) / s), special.ndtr((b - m) / s)
        return ((lambda v: np.where((v > a) & (v < b), np.exp(-((v - m) ** 2) / (2 * s**2)) / np.sqrt(2 * np.pi) / s / (B - A), 0.0)),
                (lambda v: np.clip((special.ndtr((v - m) / s) - A) / (B - A), 0, 1)), a, b)
    a, b = h
    Z = 10**b - 10**a
    return (lambda v: np.where((v >= a) & (v <= b), np.log(10) * 10.0**v / Z, 0.0)), (lambda v: np.clip((10.0**v - 10**a) / Z, 0, 1)), a, b


NARG = {"Uniform": ("pmin", "pmax"), "Normal": ("mu", "sigma"), "TruncNormal": ("mu", "sigma", "pmin", "pmax"), "LinearExp": ("pmin", "pmax")}
KINDS = sorted(NARG)


def hyper(rng, kind):
    a = rng.uniform(-2, 2)
    if kind == "Normal":
        return (a, 10 ** rng.uniform(-1, 1))
    if kind == "TruncNormal":
        s = 10 ** rng.uniform(-0.5, 0.5)
        lo = a + rng.uniform(-2, 1) * s
        return (a, s, lo, lo + s * rng.uniform(0.5, 3))
    return (a, a + 10 ** rng.uniform(-1, 0.6))


def points(rng, kind, h, n=12):
    pdf, cdf, lo, hi = dens(kind, h)
    w = hi - lo
    v = rng.uniform(lo - 0.4 * w, hi + 0.4 * w, n)
    if kind == "Normal":
        v = h[0] + h[1] * rng.randn(n) * 2
    if kind in ("Uniform", "LinearExp"):
        v[0], v[1] = lo, hi  # the closed interval
    v[2] = lo + 0.5 * w if kind != "Normal" else h[0]
    return v


@scenario("C09", quick=48)
def scalar(ck, rng, k):
    kind = KINDS[k % 4]
    h = hyper(rng, kind)
    if k >= 40:  # defaults and integers
        h = {"Normal": (0, 1), "TruncNormal": (0, 1, -2, 2), "Uniform": (0, 3), "LinearExp": (-2, 1)}[kind]
    cls = getattr(parameter, kind)
    par = (cls() if k >= 44 and kind in ("Normal", "TruncNormal") else cls(*h) if k % 8 < 4 else cls(**dict(zip(NARG[kind], h))))("x")
    pdf, cdf, lo, hi = dens(kind, h)
    for v in points(rng, kind, h):
        ck.close("density", par.get_pdf(v), float(pdf(v)), 1e-10, atol=1e-300)
        ck.close("density (dict)", par.get_pdf(params={"x": v, "y": 1.0}), float(pdf(v)), 1e-10, atol=1e-300)
        with np.errstate(divide="ignore"):
            lp = float(np.log(pdf(v)))
        ck.close("log density", par.get_logpdf(v), lp, 1e-10, atol=1e-10)
        ck.close("log density (dict)", par.get_logpdf(params={"x": v}), lp, 1e-10, atol=1e-10)
    tot = integrate.quad(lambda v: float(par.get_pdf(v)), lo, hi, limit=200)[0]
    ck.close("normalised", tot, 1.0, 1e-6)
    if kind != "TruncNormal":
        for u in list(rng.uniform(0, 1, 8)) + [0.5, 1e-6, 1 - 1e-6]:
            x = par.get_ppf(u)
            ck.close("quantile transform inverts the cdf", float(cdf(x)), u, 1e-9, atol=1e-12)
            ck.close("quantile transform (dict)", par.get_ppf(params={"x": u}), float(x), 1e-12)
            # against the code's own density
            mass = integrate.quad(lambda v: float(par.get_pdf(v)), lo, float(x), limit=200)[0]
            ck.close("quantile against density", mass, u, 1e-5, atol=1e-7)
    if kind in ("Uniform", "LinearExp"):
        ck.close("quantiles at 0 and 1", [float(par.get_ppf(0.0)), float(par.get_ppf(1.0))], [lo, hi], 1e-9, atol=1e-12)
        ck.close("end points belong to the support", [float(par.get_pdf(lo)), float(par.get_pdf(hi))], [float(pdf(lo)), float(pdf(hi))], 1e-10)
        ck.same("outside", [float(par.get_pdf(lo - 1e-9)), float(par.get_pdf(hi + 1e-9))], [0.0, 0.0])


@scenario("C09", quick=24)
def sampling(ck, rng, k):
    kind = KINDS[k % 4]
    h = hyper(rng, kind)
    cls = getattr(parameter, kind)
    n = 3000
    pdf, cdf, lo, hi = dens(kind, h)
    if k % 3 == 0:
        v = np.asarray(cls(*h, size=n)("x").sample())
        ck.same("sample shape", v.shape, (n,))
    elif k % 3 == 1:
        par = cls(*h)("x")
        v = np.array([par.sample() for _ in range(n)])
        ck.true("scalar samples", v.shape == (n,))
    else:
        par = cls(*h)("x")
        v = np.array([parameter.sample(par)["x"] for _ in range(n)])
    ck.true("inside support", np.all(v >= lo - 1e-9) and np.all(v <= hi + 1e-9) if kind != "Normal" else True, "%s..%s" % (v.min(), v.max()))
    p = stats.kstest(v, cdf).pvalue
    ck.true("samples follow the density", p > 1e-7, "KS p-value %.2e" % p)
    u = stats.kstest(np.diff(np.sort(cdf(v))) * n, "expon").pvalue
    ck.true("samples are independent draws", len(np.unique(v)) > 0.99 * n)


@scenario("C09", quick=32)
def vectors(ck, rng, k):
    kind = KINDS[k % 4]
    n = int(rng.randint(2, 6))
    hs = [hyper(rng, kind) for _ in range(n)]
    cls = getattr(parameter, kind)
    mode = k // 4 % 2
    if mode:
        hs = [hs[0]] * n
        par = cls(*hs[0], size=n)("x")
    else:
        par = cls(*[np.array(a) for a in zip(*hs)], size=n)("x")
    D = [dens(kind, h) for h in hs]
    for rep in range(8):
        v = np.array([points(rng, kind, h)[rep + 3] for h in hs])
        if rep > 3:
            v = np.array([rng.uniform(d[2], d[3]) if kind != "Normal" else h[0] + h[1] * rng.randn() for d, h in zip(D, hs)])
        want = np.array([float(d[0](x)) for d, x in zip(D, v)])
        ck.close("vector density", par.get_pdf(v), np.prod(want), 1e-10, atol=1e-300)
        with np.errstate(divide="ignore"):
            ck.close("vector log density", par.get_logpdf(v), float(np.sum(np.log(want))), 1e-10, atol=1e-10)
            ck.close("vector log density (dict)", par.get_logpdf(params={"x": v}), float(np.sum(np.log(want))), 1e-10, atol=1e-10)
        if kind != "TruncNormal":
            u = rng.uniform(0, 1, n)
            x = par.get_ppf(u)
            ck.same("vector quantile shape", np.shape(x), (n,))
            ck.close("vector quantiles", [float(d[1](xx)) for d, xx in zip(D, x)], u, 1e-9)
            ck.close("vector quantiles (dict)", par.get_ppf(params={"x": u}), x, 1e-12)
    draws = np.array([par.sample() for _ in range(400)])
    ck.same("vector sample shape", draws.shape, (400, n))
    for i in range(n):
        p = stats.kstest(draws[:, i], D[i][1]).pvalue
        ck.true("component %d follows its density" % i, p > 1e-8, "KS p-value %.2e" % p)
    if n > 1:
        uu = np.array([d[1](draws[:, i]) for i, d in enumerate(D)])
        c = np.corrcoef(uu)[0, 1]
        ck.true("components are independent", abs(c) < 0.35, "correlation %.2f" % c)


@scenario("C09", quick=8)
def multivariate_normal(ck, rng, k):
    n = 2 + k % 3
    A = rng.randn(n, n)
    cov, mu = A @ A.T + 0.3 * np.eye(n), rng.randn(n)
    par = parameter.Normal(mu=mu, sigma=cov, size=n)("x")
    for _ in range(4):
        v = mu + A @ rng.randn(n)
        lp = stats.multivariate_normal.logpdf(v, mu, cov)
        ck.close("multivariate log density", par.get_logpdf(v), lp, 1e-9)
        ck.close("multivariate density", par.get_pdf(v), np.exp(lp), 1e-9)
    d = np.array([par.sample() for _ in range(4000)])
    ck.close("sample mean", d.mean(0), mu, 0.0, atol=0.35 * np.sqrt(np.diag(cov).max()) / 2)
    ck.close("sample covariance", np.cov(d.T), cov, 0.25)
    ck.raises("no quantile transform for a covariance matrix", lambda: par.get_ppf(rng.uniform(0, 1, n)), NotImplementedError)


@scenario("C09", quick=2)
def errors(ck, rng, k):
    for f in (lambda: parameter.LinearExp(1.0, 0.5)("x").get_pdf(0.7), lambda: parameter.LinearExp(1.0, 1.0)("x").get_pdf(1.0),
              lambda: parameter.LinearExp(2.0, 1.0)("x").sample()):
        ck.raises("LinearExp needs pmin < pmax", f, ValueError)
    ck.raises("no quantile transform", lambda: parameter.TruncNormal()("x").get_ppf(0.3), NotImplementedError)


def tri_prior(value, a=1.0, b=0.0):
    return np.where((value >= b) & (value <= b + a), 2 * (value - b) / a**2, 0.0)


def tri_logprior(value, a=1.0, b=0.0):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where((value >= b) & (value <= b + a), np.log(2 * np.maximum(value - b, 0) / a**2), -np.inf)


def tri_sampler(a=1.0, b=0.0, size=None):
    return b + a * np.sqrt(np.random.uniform(size=size))


def tri_ppf(value, a=1.0, b=0.0):
    return b + a * np.sqrt(value)


@scenario("C09", quick=12)
def user(ck, rng, k):
    a, b, size = rng.uniform(1, 3), rng.uniform(-1, 1), [None, 3][k % 2]
    F = parameter.Function
    kw = dict(prior=F(tri_prior, a=a, b=b)) if k % 4 < 2 else dict(logprior=F(tri_logprior, a=a, b=b))
    par = parameter.UserParameter(sampler=tri_sampler, ppf=F(tri_ppf, a=a, b=b), size=size, **kw)("u")
    for _ in range(5):
        v = rng.uniform(b - 0.2, b + a + 0.2, size)
        w = tri_prior(v, a, b)
        w = float(w if size is None else np.prod(w))
        ck.close("user density", par.get_pdf(v), w, 1e-10, atol=1e-300)
        with np.errstate(divide="ignore"):
            ck.close("user log density", par.get_logpdf(v), float(np.log(w)), 1e-10, atol=1e-12)
        u = rng.uniform(0, 1, size)
        ck.close("user quantile", par.get_ppf(u), b + a * np.sqrt(u), 1e-12)
    d = np.array([par.sample() for _ in range(800)])
    ck.same("user sample shape", d.shape, (800,) if size is None else (800, 3))
    p = stats.kstest(d.ravel(), lambda x: np.clip((x - b) / a, 0, 1) ** 2).pvalue
    ck.true("user samples", p > 1e-7, "KS p %.1e" % p)


@function
def flat(toas, x=0, y=0, z=0, m=0, s=1):
    return np.zeros(len(toas))


@scenario("C09", quick=24)
def hierarchical(ck, rng, k):
    vec = [None, 3][k % 2]
    top = parameter.Uniform(2.0, 5.0)(["a_top", "z_top"][k // 2 % 2])
    mid = parameter.Normal(mu=top, sigma=0.3)(["m_mid", "zz_mid"][k // 4 % 2])
    sig = parameter.Uniform(0.1, 0.4)("sig")
    lo = parameter.Uniform(mid, 9.0, size=vec)("lo")
    nrm = parameter.Normal(mu=mid, sigma=sig, size=vec)("nrm")
    lex = parameter.LinearExp(pmin=0.0, pmax=mid)("lex")
    tr = parameter.TruncNormal(mu=mid, sigma=sig, pmin=0.0, pmax=8.0)("tr")
    pars = [top, mid, sig, lo, nrm, lex, tr]
    val = {"sig": 0.2, top.name: 3.0, mid.name: 3.2}
    v = rng.uniform(3.3, 8.0, vec)
    ps = dict(val, lo=v, nrm=rng.uniform(2, 4, vec), lex=rng.uniform(0, 3), tr=rng.uniform(2.5, 4))
    ck.close("uniform with hyperparameter", lo.get_logpdf(params=ps), -np.log(9 - 3.2) * (vec or 1), 1e-10)
    ck.close("normal with hyperparameters", nrm.get_logpdf(params=ps), float(np.sum(stats.norm.logpdf(ps["nrm"], 3.2, 0.2))), 1e-10)
    ck.close("linear-exp with hyperparameter", lex.get_pdf(params=ps), float(dens("LinearExp", (0.0, 3.2))[0](ps["lex"])), 1e-10)
    ck.close("truncated normal with hyperparameters", tr.get_pdf(params=ps), float(dens("TruncNormal", (3.2, 0.2, 0.0, 8.0))[0](ps["tr"])), 1e-9)
    ck.close("mid", mid.get_logpdf(params=ps), float(stats.norm.logpdf(3.2, 3.0, 0.3)), 1e-10)
    # value of the argument, hyperparameters of the dictionary
    ck.close("explicit value", nrm.get_logpdf(np.full(vec, 3.0) if vec else 3.0, params=ps), float(np.sum(stats.norm.logpdf(np.full(vec or 1, 3.0), 3.2, 0.2))), 1e-10)
    u = rng.uniform(0.05, 0.95, vec)
    ck.close("quantile with hyperparameters", nrm.get_ppf(u, params=ps), 3.2 + 0.2 * special.ndtri(u), 1e-10)
    ck.close("quantile of uniform", lo.get_ppf(u, params=ps), 3.2 + (9 - 3.2) * u, 1e-10)
    # sampling draws each hyperparameter once and uses it
    order = [pars[i] for i in rng.permutation(len(pars))]
    Z, R = [], []
    for rep in range(300):
        s = parameter.sample(order[: 1 + rep % len(order)] if rep % 2 else order)
        want = set()
        for p in (order[: 1 + rep % len(order)] if rep % 2 else order):
            want |= {q.name for q in p.params}
            if p in (lo, nrm, lex, tr):
                want |= {top.name, mid.name}
        ck.true("all values sampled, hyperparameters included", set(s) >= want and set(s) <= {p.name for p in pars}, "%s, want %s" % (sorted(s), sorted(want)))
        if mid.name in s:
            Z.append((s[mid.name] - s[top.name]) / 0.3)
        if "nrm" in s:
            R.extend(np.atleast_1d((s["nrm"] - s[mid.name]) / s["sig"]))
        if "lo" in s:
            ck.true("sampled above the sampled bound", np.all(s["lo"] >= s[mid.name]))
        if "lex" in s:
            ck.true("sampled below the sampled bound", s["lex"] <= s[mid.name] + 1e-9)
    for lab, z in [("mid", Z), ("nrm", R)]:
        if len(z) > 20:
            p = stats.kstest(z, "norm").pvalue
            ck.true("hierarchical draws of %s" % lab, p > 1e-7, "KS p %.1e" % p)
    given = np.array([nrm.sample(params=dict(val)) for _ in range(300)]).ravel()
    p = stats.kstest((given - 3.2) / 0.2, "norm").pvalue
    ck.true("sampling with given hyperparameters", p > 1e-7)


@scenario("C09", quick=30)
def hypercube(ck, rng, k):
    psr = mkpsr(rng, n=10)
    vec = [None, 1, 3][k % 3]
    pre = ["a", "z"][k // 3 % 2]
    top = parameter.Uniform(2.0, 5.0)(pre + "_top")
    sg = parameter.Uniform(0.1, 0.4)("q_sig")
    mid = parameter.Normal(mu=top, sigma=sg)(["b_mid", "zz_mid"][k // 6 % 2])
    x, y = parameter.Normal(mu=mid, sigma=0.2, size=vec), parameter.Uniform(-1.0, top)
    z = parameter.LinearExp(-3.0, np.array([-1.0, 0.0]) if k % 2 else 1.0, size=2)
    pta = sb.PTA([sb.SignalCollection([ds.Deterministic(flat(x=x, y=y, z=z, m=parameter.Uniform(0, 1)), name="s")])(psr)])
    names = [p.name for p in pta.params]
    sizes = [p.size or 1 for p in pta.params]
    u = rng.uniform(0.02, 0.98, sum(sizes))
    cuts = np.cumsum([0] + sizes)
    U = {n: u[cuts[i]: cuts[i + 1]] for i, n in enumerate(names)}
    keep = u.copy()
    got = np.asarray(pta.get_hypercube_transform(u))
    ck.same("hypercube shape", got.shape, u.shape)
    ck.same("hypercube input unchanged", u, keep)
    G = {n: got[cuts[i]: cuts[i + 1]] for i, n in enumerate(names)}
    pre2 = psr.name + "_s_"
    T = 2 + 3 * U[pre + "_top"][0]
    S = 0.1 + 0.3 * U["q_sig"][0]
    want = {pre + "_top": T, "q_sig": S, pre2 + "y": -1 + (T + 1) * U[pre2 + "y"][0], pre2 + "m": U[pre2 + "m"][0]}
    for n, w in want.items():
        ck.close("hypercube " + n, G[n], np.atleast_1d(w), 1e-9)
    hi = np.array([-1.0, 0.0]) if k % 2 else np.array([1.0, 1.0])
    ck.close("hypercube z", G[pre2 + "z"], np.log10(1e-3 + (10**hi - 1e-3) * U[pre2 + "z"]), 1e-9)
    if True:
        ck.close("hypercube mid", G[mid.name], np.atleast_1d(T + S * special.ndtri(U[mid.name][0])), 1e-9)
        ck.close("hypercube x", G[pre2 + "x"], G[mid.name][0] + 0.2 * special.ndtri(U[pre2 + "x"]), 1e-9)
    ud = {n: (U[n] if p.size and p.size > 1 else float(U[n][0])) for n, p in zip(names, pta.params)}
    ck.close("hypercube of a dictionary", np.nan_to_num(pta.get_hypercube_transform(ud)), np.nan_to_num(got), 1e-12)
