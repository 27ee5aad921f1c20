"""C09: densities, quantile functions and samplers of the parameters are those of one distribution."""
from cv.sym.contract import *
from cv.sym import smt

M = "enterprise.signals.parameter."
TRUSTED = ["scipy.stats.norm.ppf(u, mu, sigma) is mu + sigma times the standard normal quantile function; scipy.special.erf",
           "numpy.random.uniform/normal/multivariate_normal draw from the distributions they document (a draw is low + (high - low) U, mu + sigma Z)",
           "rejecting draws outside an interval samples the conditional distribution; the rejection loop ends (partial correctness)"]
BOUNDED = ["hypercube transform: hierarchies of three scalar parameters and one vector (of any size), every order of the names"]
h2 = PY.fn("sqrt", P(2))


def erf(x):
    return PY.fn("erf", x)


class Kind:
    """One distribution: support, density, distribution function, quantile function of its component x."""

    def __init__(self, name, args, closed):
        self.name, self.args, self.closed = name, args, closed

    def inside(self, x, h):
        a, b = h["pmin"], h["pmax"]
        c = "le" if self.closed else "lt"
        return conj(cmp0(c, a - x), cmp0(c, x - b))


def bounds(h):
    return cmp0("lt", h["pmin"] - h["pmax"])


class Uniform_(Kind):
    args, name, closed = ("pmin", "pmax"), "Uniform", True
    def __init__(self): pass
    def legal(self, h): return bounds(h)
    def pdf(self, x, h): return iverson(self.inside(x, h)) / (h["pmax"] - h["pmin"])
    def cdf(self, x, h): return (x - h["pmin"]) / (h["pmax"] - h["pmin"])
    def ppf(self, u, h): return h["pmin"] + u * (h["pmax"] - h["pmin"])


class LinearExp_(Uniform_):
    name = "LinearExp"
    def t(self, x): return PY.power_sym(P(10), x)
    def norm(self, h): return self.t(h["pmax"]) - self.t(h["pmin"])
    def pdf(self, x, h): return iverson(self.inside(x, h)) * PY.mk_log(P(10)) * self.t(x) / self.norm(h)
    def cdf(self, x, h): return (self.t(x) - self.t(h["pmin"])) / self.norm(h)
    def ppf(self, u, h): return PY.mk_log(self.t(h["pmin"]) + u * self.norm(h)) / PY.mk_log(P(10))


class TruncNormal_(Uniform_):
    args, name, closed = ("mu", "sigma", "pmin", "pmax"), "TruncNormal", False
    def legal(self, h): return conj(bounds(h), cmp0("lt", -h["sigma"]))
    def z(self, x, h): return erf((x - h["mu"]) / h["sigma"] / h2)
    def pdf(self, x, h):
        g = PY.fn("exp", -(x - h["mu"]) ** 2 / (2 * h["sigma"] ** 2)) * PY.power(2 * PY.PI, "-1/2") / h["sigma"]
        return iverson(self.inside(x, h)) * g * 2 / (self.z(h["pmax"], h) - self.z(h["pmin"], h))
    def cdf(self, x, h): return (self.z(x, h) - self.z(h["pmin"], h)) / (self.z(h["pmax"], h) - self.z(h["pmin"], h))
    ppf = None


class Normal_(Uniform_):
    args, name = ("mu", "sigma"), "Normal"
    def inside(self, x, h): return TRUE
    def legal(self, h): return cmp0("lt", -h["sigma"])
    def pdf(self, x, h): return PY.fn("exp", -(x - h["mu"]) ** 2 / (2 * h["sigma"] ** 2)) * PY.power(2 * PY.PI, "-1/2") / h["sigma"]
    def cdf(self, x, h): return (1 + erf((x - h["mu"]) / h["sigma"] / h2)) / 2
    def ppf(self, u, h): return h["mu"] + h["sigma"] * PY.fn("norm.ppf", u)


KINDS = [Uniform_(), LinearExp_(), Normal_(), TruncNormal_()]


def hyper(V, kind, n=None, pre="h_"):
    """Hyper-parameter values and the assumption that they are legal."""
    pos = lambda k: dict(pos=True) if k == "sigma" else {}
    if n is None:
        h = {k: V.real(pre + k, **pos(k)) for k in kind.args}
        V.assume(kind.legal({k: num(v) for k, v in h.items()}))
    else:
        h = {k: V.array(pre + k, n, **pos(k)) for k in kind.args}
        w = fresh("w")
        V.assume(PY.forall(atom_of(w), n, kind.legal({k: v.el(w) for k, v in h.items()})))
    return h


def at_(h, i=None):
    return {k: (v.el(i) if isinstance(v, SArr) and i is not None else num(v)) for k, v in h.items()}


@contract("C09", *[M + k + "Prior" for k in ("Uniform", "LinearExp", "Normal", "TruncNormal")])
def densities(V):
    """The documented density, for numbers, for arrays with common and with per-component hyper-parameters."""
    m = V.load("signals.parameter")
    n = V.size("n")
    x, xs = V.real("x"), V.array("xs", n)
    for kind in KINDS:
        f = getattr(m, kind.name + "Prior")
        h, hs = hyper(V, kind), hyper(V, kind, n, "v_")
        order = [h[k] for k in kind.args]
        V.returns(lambda: f(x, *order), lambda v: V.eq("density", v, SNum(kind.pdf(num(x), at_(h)))), label=kind.name)
        V.returns(lambda: f(xs, *order), lambda v: V.eq("density of each component", v, SArr(xs.axes, lambda i: kind.pdf(xs.el(i), at_(h)))), label=kind.name + ", vector")
        V.returns(lambda: f(xs, *[hs[k] for k in kind.args]), lambda v: V.eq("density of each component", v, SArr(xs.axes, lambda i: kind.pdf(xs.el(i), at_(hs, i)))), label=kind.name + ", vector of hyper-parameters")
    # the multivariate normal
    npf.LINALG["inv"] = lambda a: SArr(a.axes, lambda i, j, f=a.snap(): PY.lam_atom("inv", "", [a.axes[0].n, a.axes[1].n], [f], [i, j]))
    npf.LINALG["det"] = lambda a: SNum(PY.lam_atom("det", "", [a.axes[0].n, a.axes[1].n], [a.snap()], []))
    try:
        mu, S = V.array("mus", n), V.array("Sigma", n, n)
        V.assume(cmp0("lt", -PY.lam_atom("det", "", [n, n], [lambda i, j: 2 * PY.PI * S.el(i, j)], [])))
        def want():
            q = Axis(n).sum(lambda i: Axis(n).sum(lambda j: (xs.el(i) - mu.el(i)) * PY.lam_atom("inv", "", [n, n], [S.snap()], [i, j]) * (xs.el(j) - mu.el(j))))
            return PY.fn("exp", -q / 2) / PY.fn("sqrt", PY.lam_atom("det", "", [n, n], [lambda i, j: 2 * PY.PI * S.el(i, j)], []))
        V.returns(lambda: m.NormalPrior(xs, mu, S), lambda v: V.eq("joint density", v, SNum(want())), label="Normal with a covariance matrix")
    finally:
        del npf.LINALG["inv"], npf.LINALG["det"]


@contract("C09", *[M + k + "Prior" for k in ("Uniform", "LinearExp", "Normal", "TruncNormal")])
def normalised(V):
    """Inside the support the density is the derivative of a distribution function that rises from 0 to 1."""
    for kind in KINDS:
        h = at_(hyper(V, kind))
        x = V.real("x")
        with assuming(kind.inside(num(x), h)):
            d = PR.deriv(kind.cdf(num(x), h), atom_of(num(x)))
            V.eq(kind.name + ": density is the derivative of the distribution function", SNum(kind.pdf(num(x), h)), SNum(d))
        if "pmin" in h:
            V.eq(kind.name + ": 0 at the lower end", SNum(kind.cdf(h["pmin"], h)), SNum(P0))
            V.eq(kind.name + ": 1 at the upper end", SNum(kind.cdf(h["pmax"], h)), SNum(P1))
        if kind.ppf and kind.name != "Normal":
            u = V.real("u")
            V.assume(conj(cmp0("le", -num(u)), cmp0("le", num(u) - 1)))
            V.eq(kind.name + ": the quantile function is the inverse of the distribution function", SNum(kind.cdf(kind.ppf(num(u), h), h)), SNum(num(u)))
    V.returns(lambda: None)


@contract("C09", *[M + k + "PPF" for k in ("Uniform", "LinearExp", "Normal")])
def quantiles(V):
    m = V.load("signals.parameter")
    n = V.size("n")
    u, us = V.real("u"), V.array("us", n)
    for kind in KINDS:
        if not kind.ppf:
            continue
        f = getattr(m, kind.name + "PPF")
        h, hs = hyper(V, kind), hyper(V, kind, n, "v_")
        V.returns(lambda: f(u, *[h[k] for k in kind.args]), lambda v: V.eq("quantile", v, SNum(kind.ppf(num(u), at_(h)))), label=kind.name)
        V.returns(lambda: f(us, *[h[k] for k in kind.args]), lambda v: V.eq("quantile of each component", v, SArr(us.axes, lambda i: kind.ppf(us.el(i), at_(h)))), label=kind.name + ", vector")
        V.returns(lambda: f(us, *[hs[k] for k in kind.args]), lambda v: V.eq("quantile of each component", v, SArr(us.axes, lambda i: kind.ppf(us.el(i), at_(hs, i)))), label=kind.name + ", vector of hyper-parameters")
    S = V.array("Sigma", n, n)
    V.rejects(lambda: m.NormalPPF(us, V.array("mus", n), S), NotImplementedError, "no quantile function for a covariance matrix")


def sums(n, f):
    return SNum(Axis(n).sum(f))


def product(n, f):
    return npf.NP["prod"](SArr((Axis(n),), f))


@contract("C09", M + "Parameter", *[M + k.name for k in KINDS])
def classes(V):
    """get_pdf, get_logpdf and get_ppf of scalar and vector parameters with fixed hyper-parameters."""
    m = V.load("signals.parameter")
    n = V.size("n")
    x, xs, u, us = V.real("x"), V.array("xs", n), V.real("u"), V.array("us", n)
    w = fresh("w")
    for kind in KINDS:
        h = hyper(V, kind)
        hh = at_(h)
        p = getattr(m, kind.name)(**h)("p")
        v_ = getattr(m, kind.name)(**h, size=n)("v")
        V.returns(lambda: p.get_pdf(x), lambda v: V.eq("density", v, SNum(kind.pdf(num(x), hh))), label=kind.name)
        V.returns(lambda: p.get_pdf(params={"p": x, "q": u}), lambda v: V.eq("density at the parameter's value", v, SNum(kind.pdf(num(x), hh))), label=kind.name)
        V.returns(lambda: v_.get_pdf(xs), lambda v: V.eq("joint density", v, product(n, lambda i: kind.pdf(xs.el(i), hh))), label=kind.name + " vector")
        V.returns(lambda: (p.size, v_.size), lambda v: V.done("sizes", v[0] is None and num(v[1]) is n), label=kind.name)
        lg = lambda t: PY.mk_log(t)
        base = len(PY.CTX)
        V.assume(kind.inside(num(x), hh))
        V.assume(PY.forall(atom_of(w), n, kind.inside(xs.el(w), hh)))
        V.returns(lambda: p.get_logpdf(x), lambda v: V.eq("log of the density", v, SNum(lg(kind.pdf(num(x), hh)))), label=kind.name)
        V.returns(lambda: p.get_logpdf(params={"p": x, "q": u}), lambda v: V.eq("log of the density", v, SNum(lg(kind.pdf(num(x), hh)))), label=kind.name)
        V.returns(lambda: v_.get_logpdf(xs), lambda v: V.eq("sum of the logs", v, sums(n, lambda i: lg(kind.pdf(xs.el(i), hh)))), label=kind.name + " vector")
        del PY.CTX[base:]
        if kind.ppf:
            V.returns(lambda: p.get_ppf(u), lambda v: V.eq("quantile", v, SNum(kind.ppf(num(u), hh))), label=kind.name)
            V.returns(lambda: p.get_ppf(params={"p": u}), lambda v: V.eq("quantile of the parameter's value", v, SNum(kind.ppf(num(u), hh))), label=kind.name)
            V.returns(lambda: v_.get_ppf(us), lambda v: V.eq("quantile of each component", v, SArr((Axis(n),), lambda i: kind.ppf(us.el(i), hh))), label=kind.name + " vector")
        else:
            V.rejects(lambda: p.get_ppf(u), NotImplementedError, kind.name + ": no quantile function")
    # user-defined ones
    dens = lambda value, a, b: SNum(app("dens", num(value), num(a), num(b), pos=True))
    ldens = lambda value, a: SNum(app("ldens", num(value), num(a)))
    quant = lambda value, a, b: SNum(app("quant", num(value), num(a), num(b)))
    a, b = V.real("a"), V.real("b")
    p = m.UserParameter(prior=m.Function(dens, a=m.Uniform(0, 1)("ha"), b=b), ppf=m.Function(quant, a=m.Uniform(0, 1)("ha"), b=b))("p")
    d = app("dens", num(x), num(a), num(b), pos=True)
    V.returns(lambda: p.get_pdf(x, params={"ha": a}), lambda v: V.eq("user density with the given hyper-parameter", v, SNum(d)))
    V.returns(lambda: p.get_pdf(params={"ha": a, "p": x}), lambda v: V.eq("user density with the given hyper-parameter", v, SNum(d)))
    V.returns(lambda: p.get_logpdf(params={"ha": a, "p": x}), lambda v: V.eq("log of the user density", v, SNum(PY.mk_log(d))))
    V.returns(lambda: p.get_ppf(u, params={"ha": a}), lambda v: V.eq("user quantile function", v, SNum(app("quant", num(u), num(a), num(b)))))
    q = m.UserParameter(logprior=m.Function(ldens, a=m.Uniform(0, 1)("ha")))("q")
    V.returns(lambda: q.get_logpdf(params={"ha": a, "q": x}), lambda v: V.eq("user log density", v, SNum(app("ldens", num(x), num(a)))))
    V.returns(lambda: q.get_pdf(params={"ha": a, "q": x}), lambda v: V.eq("its exponential", v, SNum(PY.fn("exp", app("ldens", num(x), num(a))))))
    V.rejects(lambda: q.get_ppf(u, params={"ha": a}), NotImplementedError, "no quantile function")
    V.rejects(lambda: q.sample(params={"ha": a}), AttributeError, "no sampler")
    V.rejects(lambda: m.UserParameter()("r"), AttributeError, "neither density nor log density")


def U(j, *i):
    return app("random.uniform", P0, P(j), *i, nonneg=True)


def Z(j, *i):
    return app("random.normal", P0, P(j), *i)


@contract("C09", M + "sample", M + "_sample", M + "Parameter.sample", *[M + k + "Sampler" for k in ("Uniform", "LinearExp", "Normal")])
def samplers(V):
    """A sampled value is the quantile function of a uniform draw (mu + sigma Z for the normal), with the drawn hyper-parameters."""
    m = V.load("signals.parameter")
    n = V.size("n")
    def draws(fn, post, label):
        V.returns(lambda: (npf.RANDOM.reset(), fn())[1], post, label=label)
    for kind in KINDS[:3]:
        h = hyper(V, kind)
        hh = at_(h)
        w = lambda j, *i: kind.ppf(U(j, *i), hh) if kind.name != "Normal" else hh["mu"] + hh["sigma"] * Z(j, *i)
        p, v_ = getattr(m, kind.name)(**h)("p"), getattr(m, kind.name)(**h, size=n)("v")
        draws(lambda: p.sample(), lambda v: V.eq("draw", v, SNum(w(0))), kind.name)
        draws(lambda: v_.sample(), lambda v: V.eq("independent draws", v, SArr((Axis(n),), lambda i: w(0, i))), kind.name + " vector")
        def both(v):
            V.done("names", list(v) == ["p", "v"])
            V.eq("p", v["p"], SNum(w(0)))
            V.eq("v", v["v"], SArr((Axis(n),), lambda i: w(1, i)))
        draws(lambda: m.sample([p, v_]), both, kind.name + ", list")
        draws(lambda: m.sample(p), lambda v: (V.done("names", list(v) == ["p"]), V.eq("p", v["p"], SNum(w(0)))), kind.name + ", one")
    # hierarchies: two levels, shared hyper-parameters, and hyper-parameters that are themselves in the list
    lo, hi, top = m.Uniform(0, 1)("lo"), m.Uniform(2, 3), None
    p = m.Uniform(lo, hi)("p")
    s = m.Normal(mu=p, sigma=m.Uniform(lo, 4))("s")
    v_ = m.Normal(mu=p, sigma=2, size=n)("v")
    def post(v):
        V.done("names", sorted(v) == ["lo", "p", "p_pmax", "s", "s_sigma", "v"], "%r" % sorted(v))
        L, H = U(0), 2 + U(1)
        pp = L + (H - L) * U(2)
        V.eq("lo", v["lo"], SNum(L))
        V.eq("hyper-parameter of p", v["p_pmax"], SNum(H))
        V.eq("p with the drawn bounds", v["p"], SNum(pp))
        V.eq("hyper-parameter of s, with its own drawn bound", v["s_sigma"], SNum(L + (4 - L) * U(3)))
        V.eq("s with the drawn mean and width", v["s"], SNum(pp + (L + (4 - L) * U(3)) * Z(4)))
        V.eq("v with the drawn mean", v["v"], SArr((Axis(n),), lambda i: pp + 2 * Z(5, i)))
    draws(lambda: m.sample([s, v_]), post, "hierarchy")
    draws(lambda: m.sample([lo, p, s, p, v_]), post, "hierarchy, members listed")
    # densities and quantiles of hierarchical parameters use the given hyper-parameter values
    a, b, x = V.real("a"), V.real("b"), V.real("x")
    V.assume(cmp0("lt", num(a) - num(b)))
    g = dict(params={"lo": a, "p_pmax": b, "p": x})
    hh = dict(pmin=num(a), pmax=num(b))
    V.returns(lambda: p.get_pdf(**g), lambda v: V.eq("density with the given bounds", v, SNum(KINDS[0].pdf(num(x), hh))))
    V.returns(lambda: p.get_ppf(**g), lambda v: V.eq("quantile with the given bounds", v, SNum(KINDS[0].ppf(num(x), hh))))
    V.rejects(lambda: p.get_pdf(x, params={"p": x}), TypeError, "density without the hyper-parameters")


@contract("C09", M + "TruncNormalSampler", M + "TruncNormal")
def rejection(V):
    """Every returned component lies within the bounds and is a normal draw with that component's mean and width."""
    m = V.load("signals.parameter")
    n = V.size("n")
    kind = KINDS[3]
    for lab, size in (("number", None), ("vector", n), ("vector of hyper-parameters", n)):
        h = hyper(V, kind, n if "of" in lab else None, lab[:2])
        std = lambda i, x: (x - at_(h, i)["mu"]) / at_(h, i)["sigma"]
        def inv(loc):
            s = loc["samp"]
            if size is None:
                return [("the value is a draw", PY.pred("normal", std(None, num(s))))]
            ax = s.axes[0]
            i = fresh("i")
            hi = at_(h, i)
            mk = loc["mask"]
            want = disj(cmp0("lt", hi["pmax"] - s.el(i)), cmp0("lt", s.el(i) - hi["pmin"]))
            got = mk.elc(i)
            return [("the values are draws", PY.forall(atom_of(i), n, PY.pred("normal", std(i, s.el(i))))),
                    ("the mask marks the draws out of bounds", PY.forall(atom_of(i), n, disj(conj(got, want), conj(neg(got), neg(want)))))]
        E.INVARIANTS[("TruncNormalSampler", 1 if size is not None else 2)] = inv
        smt.FACTS["random.normal"] = lambda a: PY.pred("normal", P(a))   # every draw of the generator is standard normal
        try:
            def post(v):
                if size is None:
                    hi = at_(h)
                    V.true("a normal draw", PY.pred("normal", std(None, num(v))))
                    V.true("within the bounds", conj(cmp0("le", hi["pmin"] - num(v)), cmp0("le", num(v) - hi["pmax"])))
                else:
                    V.done("size", v.axes[0].same(Axis(n)) and len(v.axes) == 1)
                    i = fresh("i")
                    hi = at_(h, i)
                    with assuming(Axis(n).rng(i)):
                        V.true("normal draws with each component's mean and width", PY.pred("normal", std(i, v.el(i))))
                        V.true("within the bounds", conj(cmp0("le", hi["pmin"] - v.el(i)), cmp0("le", v.el(i) - hi["pmax"])))
            V.returns(lambda: (npf.RANDOM.reset(), m.TruncNormalSampler(*[h[k] for k in kind.args], size=size))[1], post, label=lab)
            if "of" not in lab:
                V.returns(lambda: (npf.RANDOM.reset(), m.TruncNormal(**h, size=size)("p").sample())[1], post, label=lab + ", parameter")
        finally:
            smt.FACTS.clear()
            E.INVARIANTS.clear()


@contract("C09", "enterprise.signals.signal_base.PTA.get_hypercube_transform", "enterprise.signals.signal_base.PTA.map_params", M + "Parameter.get_ppf")
def hypercube(V):
    """The transform of the unit cube: each block is the quantile function of its parameter; a hyper-parameter that is itself
    a parameter enters with its own transformed value, whatever the order of the names and however deep the hierarchy."""
    m, sb = V.load("signals.parameter"), V.load("signals.signal_base")
    n = V.size("n", least=2)
    q = lambda name: (lambda value, **k: SNum(app("q_" + name, num(value), *[num(x) for _, x in sorted(k.items())])))
    h = hyper(V, KINDS[0])
    hn = hyper(V, KINDS[2])
    dens = lambda value, **k: SNum(P1)

    def pta(order):
        """bottom 'k' <- 'mid' <- 'top'; names in the alphabetical order given."""
        nk, nm, nt = order
        k = m.Uniform(**h)(nk)
        mid = m.UserParameter(prior=m.Function(dens, c=k), ppf=m.Function(q("mid"), c=k))(nm)
        top = m.UserParameter(prior=m.Function(dens, c=k, d=mid), ppf=m.Function(q("top"), c=k, d=mid))(nt)
        vec = m.Normal(**hn, size=SNum(n))("n_vec")
        sc = [E.Obj(params=[vec, top], psrname="A", _signals=[]), E.Obj(params=[top], psrname="B", _signals=[])]
        return sb.PTA(sc)

    xs = V.array("xs", n + 3)
    import itertools
    for order in itertools.permutations(("a", "m", "z")):
        names = sorted(list(order) + ["n_vec"])
        off, c = {}, P0
        for x in names:
            off[x] = c
            c = c + (n if x == "n_vec" else P1)
        nk, nm, nt = order

        def want(get):
            k = KINDS[0].ppf(get(nk), at_(h))
            mid = app("q_mid", get(nm), k)
            top = app("q_top", get(nt), k, mid)
            return {nk: k, nm: mid, nt: top}

        def post(v, get, vec):
            w = want(get)
            V.done("length", len(v.axes) == 1 and PY.decide(cmp0("eq", v.axes[0].n - n - 3)) is True, "%r" % (v.axes,))
            for x in names:
                if x == "n_vec":
                    i = fresh("i")
                    with assuming(Axis(n).rng(i)):
                        V.eq("block of the vector", SNum(v.el(off[x] + i)), SNum(KINDS[2].ppf(vec(i), at_(hn))))
                else:
                    V.eq("component of " + x, SNum(v.el(off[x])), SNum(w[x]))

        V.returns(lambda: pta(order).get_hypercube_transform(xs), lambda v: post(v, lambda x: xs.el(off[x]), lambda i: xs.el(off["n_vec"] + i)), label="vector, " + "<".join(order))
        vals = {x: V.real("x_" + x) for x in order}
        vec = V.array("x_vec", n)
        V.returns(lambda: pta(order).get_hypercube_transform(dict(vals, n_vec=vec)), lambda v: post(v, lambda x: num(vals[x]), vec.el), label="dictionary, " + "<".join(order))
        V.returns(lambda: pta(order).map_params(xs), lambda v: (V.done("names", sorted(v) == names), [V.eq(x, v[x], SNum(xs.el(off[x]))) for x in order],
                  V.eq("n_vec", v["n_vec"], SArr((Axis(n),), lambda i: xs.el(off["n_vec"] + i)))), label="map, " + "<".join(order))
