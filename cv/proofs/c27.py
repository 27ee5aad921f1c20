"""C27: explicit coefficients reproduce the process they stand for."""
from cv.sym.contract import *
from cv.proofs.c12 import load, Groups, Fn, Prior, maker, gp_world, group_of

G = "enterprise.signals.gp_signals."
S = "enterprise.signals.signal_base."
M = "enterprise.signals.parameter."
U = "enterprise.signals.utils."


class Coefficients(E.Obj):
    """A coefficient parameter: its name, size and prior."""

    def __cv_is__(self, o):
        return E.eqcond(self.name, o.name) if isinstance(o, Coefficients) else FALSE      # one object for each name

    @property
    def params(self):
        return [self]

    @property
    def value(self):
        k = group_of(self.name)
        return SArr((Axis(num(self.size)),), lambda c: app("fixed", k, c))


class MakeFunction:
    """Contract of parameter.Function (C10): func with the values of the named parameters as keywords."""

    def __call__(self, func, **kw):
        return self.__cv_kw__((func,), E.CvDict(kw))

    def __cv_kw__(self, args, kw):
        return E.Obj(func=args[0], kwargs=kw)


def stub_parameter(gs, base):
    def coeffs(logprior, size):
        return lambda name: Coefficients(name=name, logprior=logprior, size=size)

    gs.parameter = E.Obj(Function=MakeFunction(), GPCoefficients=coeffs, Parameter=base)


class Values:
    """The parameters of a call: with coefficients for some of the groups; those of the others are constants."""

    def __init__(self, q):
        self.q = q

    def has(self, k):
        return PY.pred("given", k)

    def coef(self, name):
        s = name.parts[-1]
        return isinstance(s, str) and s.endswith("_coefficients")

    def __contains__(self, name):
        if not self.coef(name):
            raise Unsupported("value of %r" % (name,))
        return A.EXPLORER[0].branch(self.has(group_of(name)))

    def __getitem__(self, name):
        if not self.coef(name):
            raise Unsupported("value of %r" % (name,))
        k = group_of(name)
        return SArr((Axis(self.q.nc(k)),), lambda c: app("coef", k, c))


@contract("C27", G + "BasisGP")
def basis_gp(V):
    """Any number of groups: delay, no marginalised columns, the coefficient parameters."""
    sb, dec, gs = load(V, "gp_signals")
    stub_parameter(gs, type("Parameter", (), {}))
    q = gp_world(V)
    q.params = Values(q)
    before = q.before
    own = lambda k, c: iverson(conj(cmp0("le", before(k) - c), cmp0("lt", c - before(k) - q.nc(k))))
    for name in ("", "gp"):
        basis = maker(q, [], lambda k: (q.F(k), q.lab(k)), plain=True)

        def prior(pname, psr=None):
            return Prior(name=pname, q=q, plain=False, value=None, _params=E.CvDict(b=E.Obj(name=E.SStr(pname, "_b"))))

        make = lambda: gs.BasisGP(prior, basis, coefficients=True, selection=q, name=name)(q.psr)

        def post(r):
            s, d = r
            nc = before(q.G)
            coef = lambda c: Axis(q.G).sum(lambda k: own(k, c) * ite(q.params.has(k), app("coef", k, c - before(k)), app("fixed", k, c - before(k))))
            col = lambda i, c: Axis(q.G).sum(lambda k: q.ind(k, i) * own(k, c) * app("F", k, i, c - before(k)))
            V.eq("basis times coefficients", d, SArr((Axis(q.n),), lambda i: Axis(nc).sum(lambda c: col(i, c) * coef(c))))
            V.done("no marginalised columns", s.get_basis(q.params) is None and s.get_phi(q.params) is None and s.get_phiinv(q.params) is None)
            V.done("cached by the basis parameters and the coefficients", ["basis_params", "delay_params"] in dec)
            k = fresh("k")
            with assuming(Axis(q.G).rng(k)):
                g = E.key("backend", k)
                pname = E.SStr("psr_", g) if not name else E.SStr("psr_%s_" % name, g)
                c = s._params[E.SStr(pname, "_coefficients")]
                V.true("name of the coefficients", E.eqcond(c.name, E.SStr(pname, "_coefficients")))
                V.eq("number of coefficients", SNum(num(c.size)), SNum(q.nc(k)))
                f = c.logprior.func
                V.true("prior of the coefficients: the process, for the group", A.SBool(E.eqcond(f.args[0], g)) if f.func.__func__ is type(s)._get_coefficient_logprior and f.func.__self__ is s and not f.keywords else FALSE)
                V.done("depends on the hyper-parameters of the group", all(E.SStr(pname, x) in c.logprior.kwargs for x in ("_a", "_b")))
                for x in ("_a", "_b"):
                    V.done("they are those of the signal", E.SStr(pname, x) in s._params)

        V.returns(lambda: (lambda s: (s, s.get_delay(q.params)))(make()), post, label=name or "no name")


@contract("C27", G + "BasisGP._get_coefficient_logprior", U + "KernelMatrix.inv")
def log_prior(V):
    """-1/2 (c^T Phi^-1 c + log|2 pi Phi|), Phi the prior with the parameters of the call; zero for the timing model."""
    sb, dec, gs = load(V, "gp_signals")
    stub_parameter(gs, type("Parameter", (), {}))
    n, m = V.size("ntoas"), V.size("m", least=2)
    psr = E.Obj(name="psr", toas=V.array("toas", n), residuals=V.array("res", n))
    mask = SArr((Axis(n),), lambda i: PY.pred("mask", i), "b")
    current = {}
    token = object()

    class Basis(E.Obj):
        params, _params = [], {}

        def __call__(self, params=None, mask=None):
            current["basis"] = params
            return SArr((Axis(n, lambda i: PY.pred("mask", i)), Axis(m)), lambda i, c: app("F", i, c)), "labels"

    class Pr(E.Obj):
        params, _params = [], {}

        def __call__(self, labels, params=None):
            if labels != "labels" or params != {"psr_gp_x": token} or current["basis"] != params:
                raise Unsupported("other columns or parameters: %r" % (params,))
            if self.kind == "v":
                return SArr((Axis(m),), lambda c: app("phi", c))
            PY.SYMMETRIC.add("Phi")
            return SArr((Axis(m), Axis(m)), lambda c, d: app("Phi", c, d))

    PY.POS.add("phi")
    c = V.array("c", m)
    f = c.snap()
    sel = lambda p: E.Obj(masks=E.CvDict({"x": mask}))
    tp = PY.mk_log(2 * PY.PI)
    for kind in "vm":
        make = lambda: gs.BasisGP(lambda name, psr=None: Pr(kind=kind), lambda name, psr=None: Basis(), coefficients=True, selection=sel, name="gp")(psr)

        def post(v):
            if kind == "v":
                want = P(-1) / 2 * (Axis(m).sum(lambda i: f(i) ** 2 * app("phi", i) ** -1 + PY.mk_log(app("phi", i))) + m * tp)
            else:
                Phi = SArr((Axis(m), Axis(m)), lambda c, d: app("Phi", c, d))
                want = P(-1) / 2 * (Axis(m).sum(lambda i: Axis(m).sum(lambda j: f(i) * LA.functional("inv", Phi, [i, j]) * f(j))) + num(LA.logdet(Phi)) + m * tp)
            V.eq("Gaussian log-density of the coefficients", v, SNum(want))
            V.done("coefficients not modified", c.snap() is f)

        def run():
            s = make()
            p = s._params["psr_gp_x_coefficients"].logprior.func
            return p(c, psr_gp_x=token)

        V.returns(run, post, label={"v": "vector prior", "m": "matrix prior"}[kind])


@contract("C27", G + "BasisGP._get_coefficient_logprior")
def log_prior_groups(V):
    """Of any number of groups, the log-prior of each is that of its own coefficients, prior and columns."""
    sb, dec, gs = load(V, "gp_signals")
    stub_parameter(gs, type("Parameter", (), {}))
    q = gp_world(V)
    q.also = {"x": object()}
    PY.POS.add("phi")
    basis = maker(q, [], lambda k: (q.F(k), q.lab(k)), plain=True)
    prior = lambda pname, psr=None: Prior(name=pname, q=q, plain=False, value=lambda k: SArr((Axis(q.nc(k)),), lambda c: app("phi", k, c)), _params=E.CvDict(b=E.Obj(name=E.SStr(pname, "_b"))))
    k = V.int("group", 0)
    V.assume(cmp0("lt", num(k) - q.G))
    g = num(k)
    c = SArr((Axis(q.nc(g)),), lambda c: app("coef", c))

    def run():
        s = gs.BasisGP(prior, basis, coefficients=True, selection=q, name="gp")(q.psr)
        return s._params[E.SStr("psr_gp_", E.key("backend", g), "_coefficients")].logprior.func(c, **q.also)

    want = P(-1) / 2 * (Axis(q.nc(g)).sum(lambda i: app("coef", i) ** 2 * app("phi", g, i) ** -1 + PY.mk_log(app("phi", g, i))) + q.nc(g) * PY.mk_log(2 * PY.PI))
    V.returns(run, lambda v: V.eq("Gaussian log-density of the coefficients of the group", v, SNum(want)))


@contract("C27", G + "TimingModel", G + "get_timing_model_basis")
def timing_model(V):
    sb, dec, gs = load(V, "gp_signals")
    made = []

    class Base:
        def __init__(self, psr):
            pass

        def _get_coefficient_logprior(self, key, c, **params):
            return 1

    def basis_gp(prior, basis, **k):
        made.append((prior, basis, k))
        return Base

    gs.BasisGP = basis_gp
    kinds = {}
    for f in ("svd_tm_basis", "normed_tm_basis", "unnormed_tm_basis"):
        setattr(gs.utils, f, (lambda f: lambda **k: (f, k))(f))
    gs.utils.tm_prior = lambda: "prior"
    ex, nrm = object(), V.array("norm", V.size("npar"))

    def post(want, sid):
        def f(c):
            pr, b, k = made[-1]
            V.done("the basis asked for", b[0] == want[0] and b[1].keys() == want[1].keys() and all(b[1][x] is want[1][x] for x in want[1]) and pr == "prior", repr(b))
            V.done("coefficients asked for", k.get("coefficients") is True and k.get("name") == "tm")
            V.done("identifier", c.signal_id == sid)
            V.done("prior of the coefficients is flat", c(None)._get_coefficient_logprior("k", object(), a=1) == 0)
        return f
    T = lambda **k: (lambda: gs.TimingModel(coefficients=True, name="tm", idx_exclude=ex, **k))
    V.returns(T(), post(("normed_tm_basis", dict(idx_exclude=ex)), "tm"), label="default")
    V.returns(T(use_svd=True), post(("svd_tm_basis", dict(idx_exclude=ex)), "tm_svd"), label="svd")
    V.returns(T(normed=False), post(("unnormed_tm_basis", dict(idx_exclude=ex)), "tm"), label="unnormed")
    V.returns(T(normed=nrm), post(("normed_tm_basis", dict(norm=nrm, idx_exclude=ex)), "tm"), label="given norm")
    V.rejects(lambda: gs.TimingModel(use_svd=True, normed=False), ValueError, "svd of an unnormed basis")


@contract("C27", G + "BasisCommonGP", G + "FourierBasisCommonGP")
def common(V):
    """A common process with coefficients: the vector created for the pulsar, or the one it was given."""
    sb, dec, gs = load(V, "gp_signals")

    class Parameter:
        pass

    stub_parameter(gs, Parameter)
    n, m = V.size("ntoas"), V.size("m")
    psr = E.Obj(name="psr", toas=V.array("toas", n), residuals=V.array("res", n), pos=V.array("pos", 3))
    F = lambda i, c: app("F", i, c)

    class Basis(E.Obj):
        _params = E.CvDict(a=E.Obj(name="psr_cgp_a"))
        params = property(lambda self: self._params.values())

        def __call__(self, params=None, **k):
            self.calls.append((params, k))
            return SArr((Axis(n), Axis(m)), F), "labels"

    H = lambda nm: E.Obj(_params=E.CvDict(b=E.Obj(name=nm)))
    cv = V.array("c", m)
    f = cv.snap()

    class Given(Parameter):
        name = "shared_coefficients"
        params = property(lambda self: [self])

    span = V.real("Tspan")
    made = []

    def basisfn(name, psr=None):
        made.append((name, psr, Basis(calls=[])))
        return made[-1][2]

    def fourier(**k):
        made.append(k)
        return basisfn

    gs.utils.createfourierdesignmatrix_red = fourier
    for kind, given in (("basis", None), ("basis", Given()), ("fourier", None), ("fourier", Given())):
        def make():
            co = given if given is not None else True
            if kind == "basis":
                return gs.BasisCommonGP(lambda name: H(name + "_b"), basisfn, lambda name: H(name + "_o"), coefficients=co, name="cgp")(psr)
            return gs.FourierBasisCommonGP(lambda name: H(name + "_b"), lambda name: H(name + "_o"), coefficients=co, name="cgp", Tspan=span, components=7)(psr)

        cname = "shared_coefficients" if given is not None else "psr_cgp_coefficients"
        for how in ("sampled", "constant"):
            if how == "constant" and given is None:
                continue

            def run():
                s = make()
                if how == "constant":
                    s._params[cname].value = cv
                p = {cname: cv} if how == "sampled" else {}
                return s, p, s.get_delay(p), made[-1][2].calls[-1]

            def post(r):
                s, p, d, (bp, bk) = r
                V.eq("basis times the coefficients", d, SArr((Axis(n),), lambda i: Axis(m).sum(lambda c: F(i, c) * f(c))))
                V.done("basis at the parameters of the call", bp is p and (kind == "basis" or bk == {"Tspan": span}))
                V.done("parameter of the signal", s._params[cname] is given if given is not None else s._params[cname].name == cname)
                V.done("also the hyper-parameters", all(x in s._params for x in ("cgp_b", "cgp_o", "psr_cgp_a")))
                V.done("no marginalised columns", s.get_basis(p) is None and s.get_phi(p) is None and s.get_phiinv(p) is None)
                if given is None:
                    V.eq("number of coefficients", SNum(num(s._params[cname].size)), SNum(m))
                V.done("coefficients not modified", cv.snap() is f)

            V.returns(run, post, label="%s, %s, %s" % (kind, "given" if given is not None else "created", how))
    V.rejects(lambda: gs.FourierBasisCommonGP(None, None, coefficients=True), ValueError, "coefficients without a time span")


@contract("C27", M + "GPCoefficients", M + "Parameter.get_logpdf")
def coefficient_parameter(V):
    """The log-density of a coefficient parameter is the log-prior of the process at its value and the current
    hyper-parameters."""
    pm = V.load("signals.parameter")
    m = V.size("m")
    c = V.array("c", m)
    x, y = V.real("x"), V.real("y")
    calls = []

    def func(value, **kw):
        calls.append((value, kw))
        return SNum(app("logp", num(kw["psr_gp_x"]), num(kw["psr_gp_y"])))

    def run():
        hx, hy = pm.Uniform(0, 1)("psr_gp_x"), pm.Constant(y)("psr_gp_y")
        import functools

        cp = pm.GPCoefficients(logprior=pm.Function(functools.partial(func), psr_gp_x=hx, psr_gp_y=hy), size=SNum(m))("psr_gp_coefficients")
        return cp, cp.get_logpdf(params={"psr_gp_x": x, "psr_gp_coefficients": c, "other": 1})

    def post(r):
        cp, v = r
        V.eq("log-prior of the process", v, SNum(app("logp", num(x), num(y))))
        V.done("at the value of the coefficients", calls[-1][0] is c and set(calls[-1][1]) == {"psr_gp_x", "psr_gp_y"}, repr(calls[-1]))
        V.done("name", cp.name == "psr_gp_coefficients")

    V.returns(run, post)


TRUSTED = ["numpy, scipy.linalg: the contracts listed with the obligations", "Function objects: the value depends on the name, the parameters and the mask (C10); Selection: disjoint masks (C11); cache_call returns what the method returns (C07)"]
ASSUMPTIONS = ["priors given as matrices are positive definite", "the sum of the log-priors of all parameters: C08"]
