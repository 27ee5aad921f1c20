"""C08: the parameter list of a PTA, and the mapping of vectors to its parameters."""
from cv.sym.contract import *
from cv.proofs.c12 import load

S = "enterprise.signals.signal_base."


class World:
    """Any number of parameters, j < np in the order of their names; parameter j depends on the hyperparameters hyp(j, l)."""

    def __init__(self, V):
        self.np = V.size("npars")
        PY.INTS.update(["hyp", "nhyp", "idx", "nidx", "size", "sigpar", "nsig"])
        PY.NONNEG.update(["nhyp", "nidx", "nsig"])
        PY.POS.add("size")
        w = self

        class Par(E.Obj):
            @property
            def params(s):
                assert not w.const(s.j)
                return E.SSeq([E.Elem(s), E.Seg(Axis(app("nhyp", s.j)), lambda l: w.U.get(app("hyp", s.j, l)))])

            @property
            def size(s):
                return None if A.EXPLORER[0].branch(PY.pred("scalar", s.j)) else SNum(app("size", s.j))

        self.U = E.Universe(self.np, lambda j: Par(j=j, name=E.key("par", j)), "par")
        self.const = lambda j: False

def exists(n, f):
    k = fresh("k")
    with assuming(Axis(n).rng(k)):
        c = f(k)
    return neg(PY.forall(atom_of(k), P(n), neg(c)))


@contract("C08", S + "PTA.params")
def parameters(V):
    """Every parameter and hyperparameter of every pulsar once, in the order of the names."""
    sb, dec = load(V)
    w = World(V)
    nc = V.size("ncollections")
    sc = lambda c: E.Obj(params=E.SSeq.of(app("nidx", c), lambda k: w.U.get(app("idx", c, k))))
    cols = E.SSeq.of(nc, sc)

    def mk():
        p = object.__new__(sb.PTA)
        p._signalcollections = cols
        return p.params

    occurs = lambda j: disj(exists(nc, lambda c: exists(app("nidx", c), lambda k: cmp0("eq", app("idx", c, k) - j))),
                            exists(nc, lambda c: exists(app("nidx", c), lambda k: exists(app("nhyp", app("idx", c, k)), lambda l: cmp0("eq", app("hyp", app("idx", c, k), l) - j)))))

    V.returns(mk, lambda v: check(V, w, v, occurs))


def check(V, w, v, occurs):
    s = E.seq(v)
    ok = len(s.parts) == 1 and isinstance(s.parts[0], E.Seg)
    if not V.done("a sequence of parameters", ok, repr(v)):
        return
    ax, get = s.parts[0].axis, s.parts[0].get
    j = fresh("j")
    V.eq("range", SNum(ax.n), SNum(w.np))
    with assuming(Axis(w.np).rng(j)):
        got, want = ax.cond(j) if ax.cond is not None else TRUE, occurs(j)
        with assuming(want):
            V.true("every parameter that occurs is listed", got)
        with assuming(got):
            V.true("every parameter listed occurs", want)
        V.eq("in the order of the names", get(j).name, E.key("par", j))
        V.eq("the parameter itself", SNum(get(j).j), SNum(j))


@contract("C08", S + "SignalCollection.params", S + "Signal.params")
def collection(V):
    """The parameters of the signals of a pulsar once each, in the order of the names; constants are left out."""
    sb, dec = load(V)
    w = World(V)
    ns = V.size("nsignals")
    sig = lambda s: (lambda psr: E.Obj(signal_type="white noise", ndiag_params=E.CvList(), params=E.SSeq.of(app("nidx", s), lambda k: w.U.get(app("idx", s, k)))))
    psr = E.Obj(name="psr", residuals=None)
    V.returns(lambda: sb.SignalCollection(E.SSeq.of(ns, sig))(psr).params,
              lambda v: check(V, w, v, lambda j: exists(ns, lambda c: exists(app("nidx", c), lambda k: cmp0("eq", app("idx", c, k) - j)))), label="collection")

    class Any(E.Obj):
        def __cv_isinstance__(s, t):
            return A.EXPLORER[0].branch(PY.pred("const", s.k)) if t is sb.ConstantParameter else None

    n = V.size("nall")

    def mk():
        s = sb.Signal(psr)
        s._params = E.Obj(values=lambda: E.SSeq.of(n, lambda k: Any(k=P(k))))
        return s.params

    def post(v):
        s = E.seq(v)
        if V.done("a sequence of parameters", len(s.parts) == 1 and isinstance(s.parts[0], E.Seg), repr(v)):
            k = fresh("k")
            V.eq("over all parameters", SNum(s.parts[0].axis.n), SNum(n))
            with assuming(Axis(n).rng(k)):
                c = s.parts[0].axis.cond
                V.eq("those that are not constant", SNum(iverson(c(k) if c else TRUE)), SNum(P1 - iverson(PY.pred("const", k))))
                V.eq("in order", SNum(s.parts[0].get(k).k), SNum(k))
    V.returns(mk, post, label="signal")


def cases(p):
    """A part of a sequence under the current assumptions, in the simplest form."""
    if isinstance(p, E.Seg):
        j = fresh("j")
        with assuming(Axis(p.axis.n).rng(j)):
            d = decide(p.axis.cond(j)) if p.axis.cond is not None else True
        if d is False:
            return []
        if d is True:
            return [E.Elem(p.get(P0))] if p.axis.n.const == 1 else [E.Seg(Axis(p.axis.n), p.get)]
    return [p]


@contract("C08", S + "PTA.param_names", S + "SignalCollection.param_names", S + "Signal.param_names")
def names(V):
    """With the contract of params: the name of each scalar, name_0 .. of each vector."""
    sb, dec = load(V)
    w = World(V)
    pars = E.SSeq.of(w.np, w.U.get)
    coll = sb.SignalCollection([])
    for cls in (sb.PTA, coll, sb.Signal):
        sub = type(cls)("Sub", (cls,), dict(params=pars))

        def post(v):
            s = E.seq(v)
            if not V.done("a list over the parameters", len(s.parts) == 1 and isinstance(s.parts[0], E.Nest) and s.parts[0].axis.same(Axis(w.np)), repr(v)):
                return
            j = fresh("j")
            with assuming(Axis(w.np).rng(j)):
                sc = PY.pred("scalar", j)
                parts = s.parts[0].get(j)
                with assuming(sc):
                    V.eqseq("the name of a scalar", E.SSeq([q for p in parts for q in cases(p)]), E.SSeq([E.Elem(E.key("par", j))]))
                with assuming(neg(sc)):
                    got = E.SSeq([q for p in parts for q in cases(p)])
                    V.eqseq("the names of the entries of a vector", got, E.SSeq([E.Seg(Axis(app("size", j)), lambda i: E.SStr(E.key("par", j), "_", E.decimal(SNum(i))))]))
        V.returns(lambda: object.__new__(sub).param_names, post, label=cls.__name__)



def sized(V, sb, w):
    """A PTA with the contract of params: parameters j < np with their sizes; where the entries of parameter j start."""
    pars = E.SSeq.of(w.np, w.U.get)
    width = lambda j: app("size", j)
    v = fresh("j")
    V.assume(PY.forall(atom_of(v), w.np, disj(neg(PY.pred("scalar", v)), cmp0("eq", width(v) - P1))))    # size(j) of a scalar: the 1 entry it takes
    E.INCREMENTS.append(width)

    def start(j):
        l = fresh("l")
        with assuming(cmp0("le", -l), cmp0("lt", l - j)):
            return PY.summation(l, j, width(l))

    sub = type(sb.PTA)("Sub", (sb.PTA,), dict(params=pars))
    return (lambda: object.__new__(sub)), width, start


@contract("C08", S + "PTA.map_params")
def mapping(V):
    """Parameter j gets the entries that start after those of the parameters before it, in order; scalars a number."""
    sb, dec = load(V)
    w = World(V)
    new, width, start = sized(V, sb, w)
    total = start(w.np)
    xs = SArr((Axis(total),), lambda i: app("x", i))

    def post(d):
        j, t = fresh("j"), fresh("t")
        with assuming(Axis(w.np).rng(j)):
            for c, what in ((PY.pred("scalar", j), "scalar"), (neg(PY.pred("scalar", j)), "vector")):
                with assuming(c):
                    one = what == "scalar"
                    v = E.resolve(d[E.key("par", j)]) if one else None
                    if one:
                        V.done("a number for a scalar", E.is_scalar(v), repr(v))
                        V.eq("the entry of the scalar", v, SNum(app("x", start(j))))
                    else:
                        for more in (cmp0("lt", P1 - app("size", j)), cmp0("eq", app("size", j) - P1)):
                            with assuming(more):
                                v = E.resolve(d[E.key("par", j)])
                                if isinstance(v, SArr) and v.axes:
                                    V.eq("the entries of the vector, in order", v, SArr((Axis(app("size", j)),), lambda i: app("x", start(j) + i)))
                                else:
                                    V.eq("the entry of the vector of length 1", v, SNum(app("x", start(j))))
        V.eq("an entry for each parameter and no other", SNum(PY.P(E.b_len(d).p) if isinstance(E.b_len(d), SNum) else P(E.b_len(d))), SNum(w.np))

    V.returns(lambda: new().map_params(xs), post)


@contract("C08", S + "PTA.get_lnprior")
def prior(V):
    """With the contracts of map_params and get_logpdf: the sum over all parameters, with the dictionary as it is or the mapped vector."""
    sb, dec = load(V)
    w = World(V)
    given = {}

    def logpdf(s, value=None, params=None):
        if params is not given["dict"] or value is not None and not (E.is_scalar(value) and num(value) is app("val", s.j)):
            raise Unsupported("log-prior at other values")
        return SNum(app("lp", s.j))

    pars = E.SSeq.of(w.np, lambda j: E.Obj(name=E.key("par", j), j=P(j), get_logpdf=lambda value=None, params=None: logpdf(pobj(j), value, params)))
    pobj = lambda j: E.Obj(j=P(j))
    xs = SArr((Axis(V.size("len")),), lambda i: app("x", i))

    def mapped(self, v):
        if v is not xs:
            raise Unsupported("mapped another vector")
        return given["dict"]

    sub = type(sb.PTA)("Sub", (sb.PTA,), dict(params=pars, map_params=mapped))
    want = SNum(Axis(w.np).sum(lambda j: app("lp", j)))
    for what in ("dictionary", "vector"):
        given["dict"] = E.family("par", w.np, lambda j: SNum(app("val", j)))
        V.returns(lambda: object.__new__(sub).get_lnprior(given["dict"] if what == "dictionary" else xs), lambda v: V.eq("sum over all parameters", v, want), label=what)


@contract("C08", "enterprise.signals.parameter.Parameter.get_logpdf", "enterprise.signals.parameter.Parameter.params", "enterprise.signals.parameter.Parameter.size")
def parameter(V):
    """The logarithm of the prior density at the value under the parameter's name, summed over the entries; the parameter and the parameters of its prior."""
    sb, dec, pm = load(V, "parameter")
    m, nh = V.size("length"), V.size("nhyper")

    class Prior(E.Obj):
        """A Function (C10): a density of the value and of the parameters."""

        def __call__(s, value, params=None):
            if params is not s.dict:
                raise Unsupported("called with other parameters")
            f = lambda x: app("density", x)
            return SNum(f(value.p)) if isinstance(value, SNum) else SArr(value.axes, lambda i, g=value.snap(): f(g(i)))

    class Any(E.Obj):
        def __cv_isinstance__(s, t):
            return A.EXPLORER[0].branch(PY.pred("const", s.k)) if t is pm.ConstantParameter else None

    PY.POS.add("density")
    hyper = E.SSeq.of(nh, lambda k: Any(k=P(k)))
    name = E.key("par", 0)
    x = V.array("value", m)
    fx = x.snap()
    for size, log in ((None, False), (None, True), (SNum(m), False), (SNum(m), True)):
        q = E.CvDict()
        val = V.real("v") if size is None else x
        q[name] = val

        class Log(Prior):
            def __call__(s, value, params=None):
                r = Prior.__call__(s, value, params)
                return SNum(PY.mk_log(r.p)) if isinstance(r, SNum) else SArr(r.axes, lambda i, g=r.snap(): PY.mk_log(g(i)))

        fn = (Log if log else Prior)(dict=q, params=hyper)
        cls = type("Par", (pm.Parameter,), dict(_size=size, **{"_logprior" if log else "_prior": staticmethod(lambda name: fn)}))
        lab = ("scalar" if size is None else "vector") + (", log-prior" if log else "")
        mk = lambda: cls(name)
        want = SNum(PY.mk_log(app("density", val.p))) if size is None else SNum(Axis(m).sum(lambda i: PY.mk_log(app("density", fx(i)))))
        V.returns(lambda: mk().get_logpdf(params=q), lambda v: V.eq("log density at the value in the dictionary", v, want), label=lab)
        V.returns(lambda: mk().get_logpdf(val, params=q), lambda v: V.eq("log density at a given value", v, want), label=lab)
        V.returns(lambda: mk().size, lambda v: V.done("its size", v is size), label=lab)

        def both():
            o = mk()
            return o, o.params

        def post(r):
            o, v = r
            s = E.seq(v)
            if V.done("itself, then others", len(s.parts) == 2 and isinstance(s.parts[0], E.Elem) and s.parts[0].value is o and isinstance(s.parts[1], E.Seg), repr(v)):
                k = fresh("k")
                V.eq("over the parameters of the prior", SNum(s.parts[1].axis.n), SNum(nh))
                with assuming(Axis(nh).rng(k)):
                    c = s.parts[1].axis.cond
                    V.eq("those that are not constant", SNum(iverson(c(k) if c else TRUE)), SNum(P1 - iverson(PY.pred("const", k))))
                    V.eq("in order", SNum(s.parts[1].get(k).k), SNum(k))
        V.returns(both, post, label=lab)


TRUSTED = ["sorted() with the names as keys lists the elements of a set of parameters with different names in the order of the names, each once (Python)"]
ASSUMPTIONS = ["parameters with the same name are the same object (Universe): two different objects under one name are a modelling error of the user, covered by the run-time checks of C08",
               "param_names and map_params are verified against the contract of params (a list of different parameters), get_lnprior against those of map_params and get_logpdf, get_logpdf against the contract of Function (C10)"]
