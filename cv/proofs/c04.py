"""C04: the likelihood of the PTA is the marginalised Gaussian density."""
from cv.sym.contract import *

S = "enterprise.signals.signal_base."
L = S + "LogLikelihood."


class Pulsars:
    """Any number of pulsars, some of them without Gaussian processes: what the PTA returns for them."""

    def __init__(self, V, masked=False):
        """masked: the columns of a pulsar are the first ncols of as many as any pulsar has (so that no sum has a range depending on
        another)."""
        self.V = V
        self.n = V.size("npulsars")
        PY.INTS.add("ncols")
        PY.POS.add("ncols")
        self.has = lambda k: PY.pred("hasgp", k)
        self.nc = lambda k: app("ncols", k)
        self.params = E.CvDict(a=SNum(app("a")))
        most = V.size("ncolsmax", least=1) if masked else None
        self.axis = lambda k: Axis(most, lambda i: cmp0("lt", i - self.nc(k))) if masked else Axis(self.nc(k))
        self.TNr = lambda k: SArr((self.axis(k),), lambda i: app("TNr", k, i))
        self.TNT = lambda k: SArr((self.axis(k),) * 2, lambda i, j: app("TNT", k, i, j))

    def check(self, p):
        if p is not self.params:
            raise AssertionError("evaluated at other parameters")

    def gp(self, get, k):
        return get(k) if A.EXPLORER[0].branch(self.has(k)) else None

    def seq(self, get):
        return E.SSeq.of(self.n, lambda k: E.Maybe(self.has(k), get(k)))

    def pta(self, common, phiinv):
        q = self

        class PTA(E.Obj):
            _commonsignals = common

            def get_TNr(self, params):
                q.check(params)
                return q.seq(q.TNr)

            def get_TNT(self, params):
                q.check(params)
                return q.seq(q.TNT)

            def get_rNr_logdet(self, params):
                q.check(params)
                return E.SSeq.of(q.n, lambda k: (SNum(app("rNr", k)), SNum(app("logdetN", k))))

            def get_logsignalprior(self, params):
                q.check(params)
                return E.SSeq.of(q.n, lambda k: SNum(app("prior", k)))

            def get_phiinv(self, params, logdet=False, method="cliques"):
                q.check(params)
                assert logdet is True
                q.method = method
                return phiinv()

            def map_params(self, xs):
                assert xs is q.xs
                return q.params
        self.xs = self.V.array("xs", self.V.size("nx"))
        return PTA()

    def white(self):
        """-1/2 (sum of rNr + logdet N) + the priors of the signals"""
        return Axis(self.n).sum(lambda k: P(-1) / P(2) * (app("rNr", k) + app("logdetN", k)) + app("prior", k))


def load(V):
    V.loader.contracts[S + "simplememobyid"] = lambda f: f      # C07: returns what the method would
    return V.load("signals.signal_base")


@contract("C04", L + "__call__")
def independent(V):
    """No common signals: pulsars without Gaussian processes contribute their white noise and priors, the others the terms of the
    marginalised Gaussian, with the prior inverse a vector or a matrix."""
    sb = load(V)
    q = Pulsars(V, masked=True)
    vec = lambda k: PY.pred("vector", k)

    def phiinv(kind):
        v = lambda k: SArr((q.axis(k),), lambda i: app("phiinv", k, i))
        m = lambda k: SArr((q.axis(k),) * 2, lambda i, j: app("Phiinv", k, i, j))
        get = v if kind == "vector" else m
        return lambda: E.SSeq.of(q.n, lambda k: E.Maybe(q.has(k), (get(k), SNum(app("logdetphi", k)))))

    for kind in ("vector", "matrix"):
        for sparse in (True, False):
            for how in ("dict", "vector"):
                pta = q.pta({}, phiinv(kind))

                def sigma(k):
                    f = (lambda i, j: iverson(cmp0("eq", i - j)) * app("phiinv", k, i)) if kind == "vector" else (lambda i, j: app("Phiinv", k, i, j))
                    return SArr((q.axis(k),) * 2, lambda i, j: app("TNT", k, i, j) + f(i, j))

                def term(k):
                    s, ax = sigma(k), q.axis(k)
                    quad = ax.sum(lambda i: ax.sum(lambda j: app("TNr", k, i) * LA.functional("inv", s, [i, j]) * app("TNr", k, j)))
                    return P(1) / P(2) * (quad - LA.logdet(s).p - app("logdetphi", k))

                want = q.white() + Axis(q.n).sum(lambda k: iverson(q.has(k)) * term(k))
                V.returns(lambda: sb.LogLikelihood(pta, cholesky_sparse=sparse)(q.params if how == "dict" else q.xs), lambda v: V.eq("the log density", v, SNum(want)),
                          label="%s prior, %s, parameters in a %s" % (kind, "sparse" if sparse else "dense", how))


@contract("C04", L + "__call__")
def indefinite(V):
    """No common signals, one to three pulsars: -inf when the conditional covariance of any of them is not positive definite, otherwise
    the log density."""
    sb = load(V)
    q = Pulsars(V)
    PY.INTS.add("ncols")

    for n in (1, 2, 3):
        def pta():
            f = lambda get: [get(P(k)) for k in range(n)]
            return E.Obj(_commonsignals={}, get_TNr=lambda p: f(q.TNr), get_TNT=lambda p: f(q.TNT), get_rNr_logdet=lambda p: f(lambda k: (SNum(app("rNr", k)), SNum(app("logdetN", k)))),
                         get_logsignalprior=lambda p: f(lambda k: SNum(app("prior", k))),
                         get_phiinv=lambda p, logdet=False, method="cliques": f(lambda k: (SArr((Axis(q.nc(k)),), lambda i: app("phiinv", k, i)), SNum(app("logdetphi", k)))))

        def sigma(k):
            return SArr((Axis(q.nc(k)),) * 2, lambda i, j: app("TNT", k, i, j) + iverson(cmp0("eq", i - j)) * app("phiinv", k, i))

        def term(k):
            s, ax = sigma(k), Axis(q.nc(k))
            quad = ax.sum(lambda i: ax.sum(lambda j: app("TNr", k, i) * LA.functional("inv", s, [i, j]) * app("TNr", k, j)))
            return P(1) / P(2) * (quad - LA.logdet(s).p - app("logdetphi", k) - app("rNr", k) - app("logdetN", k)) + app("prior", k)

        def which(a):
            i, j = fresh("i"), fresh("j")
            for k in range(n):
                if a.el(i, j) is sigma(P(k)).el(i, j):
                    return P(k)
            raise Unsupported("the factorised matrix is not the conditional covariance")

        LA.PD[0] = lambda a: A.EXPLORER[0].branch(PY.pred("posdef", which(a)))
        try:
            for sparse in (True, False):
                def post(v):
                    ok = [decide(PY.pred("posdef", P(k))) for k in range(n)]
                    if False in ok:
                        V.done("-inf where a conditional covariance is not positive definite", isinstance(v, float) and v == float("-inf"), repr(v))
                    else:
                        V.eq("the log density", v, SNum(sum((term(P(k)) for k in range(n)), P0)))
                V.returns(lambda: sb.LogLikelihood(pta(), cholesky_sparse=sparse)(q.params), post, label="%d pulsars, %s" % (n, "sparse" if sparse else "dense"))
        finally:
            LA.PD[0] = True


@contract("C04", L + "__call__", L + "_block_TNT", L + "_block_TNr", limit=600)
def correlated(V):
    """Common signals: the marginalised Gaussian of all pulsars together, at each of a sequence of evaluations of one likelihood object (at
    arbitrary parameters: the first factorisation may be updated by the later ones), and -inf where the conditional covariance is not
    positive definite. After any evaluation the object is as after a single one, of the last matrix decomposed (the update keeps the
    pattern): two evaluations stand for any number."""
    sb = load(V)
    q = Pulsars(V)
    X = [E.CvDict(a=SNum(app("a", P(t)))) for t in range(2)]
    at = lambda p: [t for t in range(2) if p is X[t]][0]
    n = Axis(q.n)
    ax, grp, off = E.flatten(Axis(q.n, q.has), lambda k: Axis(q.nc(k)))
    outcome = {}

    class PTA(E.Obj):
        _commonsignals = {"common": {}}

        def get_TNr(self, p):
            return q.seq(lambda k: SArr((Axis(q.nc(k)),), lambda i: app("TNr", P(at(p)), k, i)))

        def get_TNT(self, p):
            return q.seq(lambda k: SArr((Axis(q.nc(k)),) * 2, lambda i, j: app("TNT", P(at(p)), k, i, j)))

        def get_rNr_logdet(self, p):
            return E.SSeq.of(q.n, lambda k: (SNum(app("rNr", P(at(p)), k)), SNum(app("logdetN", P(at(p)), k))))

        def get_logsignalprior(self, p):
            return E.SSeq.of(q.n, lambda k: SNum(app("prior", P(at(p)), k)))

        def get_phiinv(self, p, logdet=False, method="cliques"):
            assert logdet is True and method == "the method"
            m = SArr((ax, ax), lambda i, j: app("phiinv", P(at(p)), i, j))
            return (LA.csc_matrix(m) if self.sparse else m), SNum(app("logdetphi", P(at(p))))

        def map_params(self, xs):
            return X[xs]

    def sigma(t):
        t = P(t)
        return SArr((ax, ax), lambda i, j: iverson(cmp0("eq", grp(i) - grp(j))) * app("TNT", t, grp(i), off(i), off(j)) + app("phiinv", t, i, j))

    def density(t):
        s = sigma(t)
        t = P(t)
        r = lambda i: app("TNr", t, grp(i), off(i))
        white = n.sum(lambda k: P(-1) / P(2) * (app("rNr", t, k) + app("logdetN", t, k)) + app("prior", t, k))
        quad = ax.sum(lambda i: ax.sum(lambda j: r(i) * LA.functional("inv", s, [i, j]) * r(j)))
        return white + P(1) / P(2) * (quad - LA.logdet(s).p - app("logdetphi", t))

    def which(a):
        """The matrix that is factorised, and whether it is positive definite"""
        i, j = fresh("i"), fresh("j")
        for t in range(2):
            with assuming(ax.rng(i)), assuming(ax.rng(j)):
                if a.el(i, j) is sigma(t).el(i, j):
                    return t
        raise Unsupported("the factorised matrix is not the conditional covariance")

    br = lambda name, t: A.EXPLORER[0].branch(PY.pred(name, P(t)))
    LA.PD[0] = lambda a: br("posdef", which(a))
    LA.SPARSE_PD[0] = lambda a: "yes" if br("posdef", which(a)) else "raises" if br("fails", which(a)) else "nan"
    try:
        for sparse in (True, False):
            for form in (False, True):
                for xs in ((0,), (0, 1)) if sparse else ((0,),):
                    def run():
                        ll = sb.LogLikelihood(PTA(sparse=form), cholesky_sparse=sparse)
                        return [ll(X[t], phiinv_method="the method") for t in xs]

                    def post(r):
                        for t, v in zip(xs, r):
                            ok = decide(PY.pred("posdef", P(t)))
                            if ok is False:
                                V.done("-inf where the conditional covariance is not positive definite", isinstance(v, float) and v == float("-inf"), repr(v))
                            else:
                                V.eq("the log density", v, SNum(density(t)))
                    V.returns(run, post, label="%s, prior inverse %s, %d evaluations" % ("sparse" if sparse else "dense", "sparse" if form else "dense", len(xs)))

        def same(a, b):
            if isinstance(a, LA.SparseFactor) and isinstance(b, LA.SparseFactor):
                return all(same(x, y) for x, y in zip(a.pattern, b.pattern)) and same(a.a, b.a)
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            if isinstance(a, SArr) and isinstance(b, SArr):
                return decide(A.cnd(A.arr_equal(a, b))) is True
            return a is b or a == b

        def steps():
            pta = PTA(sparse=True)
            ll, one = sb.LogLikelihood(pta, cholesky_sparse=True), [sb.LogLikelihood(pta, cholesky_sparse=True) for t in range(2)]
            for t in range(2):
                ll(X[t], phiinv_method="the method")
                one[t](X[t], phiinv_method="the method")
            return [vars(x) for x in (ll, one[0], one[1])]

        def post(r):
            ll, one = r[0], r[1:]
            V.done("an evaluation leaves the state that one of the evaluations alone leaves", any(sorted(o) == sorted(ll) and all(same(o[k], ll[k]) for k in o) for o in one), str(sorted(ll)))
        V.returns(steps, post, label="state")
    finally:
        LA.PD[0] = True
        LA.SPARSE_PD[0] = None


@contract("C04", S + "SignalCollection.get_TNr", S + "SignalCollection.get_TNT", S + "SignalCollection.get_rNr_logdet", S + "SignalCollection.get_detres", S + "SignalCollection.get_logsignalprior")
def collection(V):
    """The terms of one pulsar, with the white noise by its contract (C01-C03: solve is the bilinear form of the inverse) and the residuals
    minus the delay; no terms of the Gaussian process where there is no basis."""
    V.loader.contracts[S + "cache_call"] = lambda attrs, limit=2: lambda f: f       # C07
    sb = V.load("signals.signal_base")
    n, m = V.size("ntoas"), V.size("ncols")
    PY.SYMMETRIC.add("Ninv")
    params = E.CvDict(a=SNum(app("a")))
    res = V.array("res", n)
    delay = SArr((Axis(n),), lambda i: app("delay", i))
    T = SArr((Axis(n), Axis(m)), lambda i, c: app("T", i, c))

    class N:
        def solve(self, right, left_array=None, logdet=False):
            f, l, ax = right.snap(), left_array.snap(), Axis(n)
            rest = right.axes[1:]
            v = SArr(left_array.axes[1:] + rest, lambda *c: ax.sum(lambda i: ax.sum(lambda j: l(i, *c[:len(left_array.axes) - 1]) * app("Ninv", i, j) * f(j, *c[len(left_array.axes) - 1:]))))
            v = v if v.axes else SNum(v.el())
            return (v, SNum(app("logdetN"))) if logdet else v

    ns = V.size("nsignals")
    only = lambda f: lambda p: f() if p is params else V.fail("evaluated at the parameters given", repr(p))
    class Sig(E.Obj):
        signal_type = "deterministic"
        delay_params = property(lambda self: E.CvList([E.key("p", self.s)]))

        def get_logsignalprior(self, p):
            assert p is params
            return SNum(app("prior", self.s))

    def make(basis, has_delay=True):
        s = sb.SignalCollection(E.SSeq.of(ns, lambda s: (lambda psr: Sig(s=P(s)))))(E.Obj(name="psr", residuals=res))
        s.get_basis, s.get_ndiag = only(lambda: basis), only(N)
        s.get_delay = only(lambda: delay if has_delay else 0)
        return s

    ax = Axis(n)
    for has in (True, False):
        r = lambda i: app("res", i) - (app("delay", i) if has else P0)
        lab = "with delays" if has else "without delays"
        V.returns(lambda: make(T, has).get_TNr(params), lambda v: V.eq("T^T N^-1 (residuals - delay)", v, SArr((Axis(m),), lambda c: ax.sum(lambda i: ax.sum(lambda j: app("T", i, c) * app("Ninv", i, j) * r(j))))), label="get_TNr, " + lab)
        V.returns(lambda: make(T, has).get_TNT(params), lambda v: V.eq("T^T N^-1 T", v, SArr((Axis(m),) * 2, lambda c, d: ax.sum(lambda i: ax.sum(lambda j: app("T", i, c) * app("Ninv", i, j) * app("T", j, d))))), label="get_TNT, " + lab)
        V.returns(lambda: make(T, has).get_rNr_logdet(params), lambda v: (V.eq("r^T N^-1 r", v[0], SNum(ax.sum(lambda i: ax.sum(lambda j: r(i) * app("Ninv", i, j) * r(j))))), V.eq("log|N|", v[1], SNum(app("logdetN")))), label="get_rNr_logdet, " + lab)
    for name in ("get_TNr", "get_TNT"):
        V.returns(lambda: getattr(make(None), name)(params), lambda v: V.done("none without a basis", v is None), label=name)
    V.returns(lambda: make(None).get_logsignalprior(params), lambda v: V.eq("the sum of the log densities declared by the signals", v, SNum(Axis(ns).sum(lambda s: app("prior", s)))), label="get_logsignalprior")


@contract("C04", *[S + "PTA." + m for m in ("get_TNr", "get_TNT", "get_rNr_logdet", "get_logsignalprior", "get_lnlikelihood", "__init__")])
def pta_terms(V):
    """The terms of the PTA are those of its pulsars, in order; its likelihood object is made once, of it."""
    sb = V.load("signals.signal_base")
    n = V.size("npulsars")
    params = E.CvDict(a=SNum(app("a")))
    has = lambda k: PY.pred("hasgp", k)

    class SC(E.Obj):
        _signals = ()

        def val(self, what):
            return SNum(app(what, self.k))

    for name in ("get_TNr", "get_TNT", "get_rNr_logdet", "get_logsignalprior"):
        def get(self, p, name=name):
            assert p is params
            return self.val(name)
        setattr(SC, name, get)
    seqs = {"list": lambda: E.CvList(E.SSeq.of(n, lambda k: SC(k=P(k))))}
    for name in ("get_TNr", "get_TNT", "get_rNr_logdet", "get_logsignalprior"):
        V.returns(lambda: getattr(sb.PTA(seqs["list"]()), name)(params), lambda v: V.eqseq("those of the pulsars, in order", v, E.SSeq.of(n, lambda k: SNum(app(name, k)))), label=name)
    one = SC(k=P(5))
    V.returns(lambda: sb.PTA(one).get_TNr(params), lambda v: V.eqseq("a single pulsar", v, E.CvList([SNum(app("get_TNr", P(5)))])), label="one pulsar")

    class Like:
        def __init__(self, pta):
            self.pta = pta
            made.append(self)

        def __call__(self, xs, **kw):
            return (self, xs, kw)

    made = []

    def run():
        del made[:]
        p = sb.PTA(seqs["list"](), lnlikelihood=Like)
        return p, p.get_lnlikelihood(params), p.get_lnlikelihood(params, phiinv_method="m")

    def post(r):
        p, a, b = r
        V.done("the likelihood object is made once, of the PTA", len(made) == 1 and made[0].pta is p and a[0] is made[0] and b[0] is made[0])
        V.done("evaluated at the parameters, with the options", a[1] is params and b[1] is params and a[2] == {} and b[2] == {"phiinv_method": "m"})
    V.returns(run, post, label="get_lnlikelihood")
    V.returns(lambda: sb.PTA(seqs["list"]()).lnlikelihood, lambda v: V.done("the sparse likelihood by default", v is sb.LogLikelihood), label="default")
    V.returns(lambda: sb.LogLikelihoodDenseCholesky("the pta"), lambda v: V.done("the dense likelihood", isinstance(v, sb.LogLikelihood) and v.pta == "the pta" and v.cholesky_sparse is False), label="dense")


@contract("C02 C04", S + "MetaSignal.__add__", S + "MetaCollection.__add__", S + "SignalCollection.__init__", S + "PTA.__add__")
def composition(V):
    """A model made by additions has each of its signals once, whatever the order and the grouping of the additions: signals and
    collections of any number of signals, which stay what they were; likewise the PTAs, of any number of pulsars, in order, with the likelihood chosen."""
    V.loader.contracts[S + "cache_call"] = lambda attrs, limit=2: lambda f: f       # C07
    sb = V.load("signals.signal_base")
    n, m = V.size("nfirst"), V.size("nsecond")
    psr = E.Obj(name="psr", residuals=V.array("res", V.size("ntoas")))

    class Made(E.Obj):
        signal_type = "deterministic"
        delay_params = property(lambda self: E.CvList([]))

    def tagged(tag, k):
        def make(p):
            V.done("made for the pulsar", p is psr)
            return Made(tag=tag, k=P(k))
        return make

    class Base(sb.Signal):
        signal_type = "deterministic"
        delay_params = ()

        def __init__(self, p):
            V.done("made for the pulsar", p is psr)
            self.tag, self.k, self.name = type(self).__name__, P0, type(self).__name__

    s = {c: type(sb.Signal)(c, (Base,), {}) for c in "abcd"}
    col = {"X": lambda: sb.SignalCollection(E.CvList(E.SSeq.of(n, lambda k: tagged("X", k)))), "Y": lambda: sb.SignalCollection(E.CvList(E.SSeq.of(m, lambda k: tagged("Y", k))))}
    get = lambda t: s[t] if t in s else col[t]()
    count = {"X": n, "Y": m}

    def trees(names):
        if len(names) == 1:
            return [names[0]]
        return [(l, r) for j in range(1, len(names)) for l in trees(names[:j]) for r in trees(names[j:])]

    def add(t):
        return get(t) if isinstance(t, str) else add(t[0]) + add(t[1])

    def show(t):
        return t if isinstance(t, str) else "(%s + %s)" % (show(t[0]), show(t[1]))

    def holds(names):
        def post(v):
            got = {}
            for p in E.seq(v._signals).parts:
                o = p.get(P(0)) if isinstance(p, E.Seg) else p.value
                if o.tag in got:
                    return V.fail("each signal once", "%s more than once" % o.tag)
                got[o.tag] = p
            V.done("every signal, and no other", sorted(got) == sorted(names), str(sorted(got)))
            for tag, p in got.items():
                if tag in count:
                    ok = isinstance(p, E.Seg) and p.axis.same(Axis(P(count[tag]))) and p.axis.cond is None
                    k = fresh("k")
                    V.done("all signals of a collection", ok, repr(p)) and V.eq("each of them", SNum(p.get(k).k), SNum(k))
                else:
                    V.done("a single signal", not isinstance(p, E.Seg), repr(p))
        return post

    import itertools
    for base in ("ab", "aX", "XY", "abX", "abc", "aXY", "abcd", "abXY"):
        for names in itertools.permutations(base):
            for t in trees(list(names)):
                V.returns(lambda: add(t)(psr), holds(names), label=show(t))

    def operands(x, y):
        x, y = get(x), get(y)
        x + y
        y + x
        return x, y
    for x, y in itertools.product("abXY", repeat=2):
        if x != y:
            for j, t in enumerate((x, y)):
                if t in col:
                    V.returns(lambda: operands(x, y)[j](psr), holds([t]), label="%s after %s + %s and %s + %s" % (t, x, y, y, x))
    V.returns(lambda: (lambda c: (c + s["a"] + s["b"], c + s["c"])[1])(s["d"] + col["X"]())(psr), holds("dXc"), label="a collection in two sums")
    for bad in (3, None, "s"):
        V.rejects(lambda: s["a"] + bad, TypeError, label="signal + %r" % (bad,))
        V.rejects(lambda: col["X"]() + bad, TypeError, label="collection + %r" % (bad,))

    class SC(E.Obj):
        _signals = ()

    like = lambda pta: "the likelihood"
    pta = lambda tag, c, **kw: sb.PTA(E.CvList(E.SSeq.of(c, lambda k: SC(tag=tag, k=P(k)))), **kw)
    ids = lambda v: E.seq(E.CvList(v._signalcollections)).parts

    def inorder(*parts):
        def post(v):
            got = ids(v)
            V.done("the pulsars of both", len(got) == len(parts), repr(got))
            for p, (tag, c) in zip(got, parts):
                k = fresh("k")
                if c is None:
                    V.done("a single pulsar", not isinstance(p, E.Seg) and p.value.tag == tag, repr(p))
                else:
                    V.done("the pulsars of one", isinstance(p, E.Seg) and p.axis.same(Axis(P(c))) and p.axis.cond is None and p.get(k).tag == tag, repr(p)) and V.eq("in order", SNum(p.get(k).k), SNum(k))
            V.done("the likelihood chosen", v.lnlikelihood is like)
        return post
    one = SC(tag="one", k=P0)
    V.returns(lambda: pta("P", n, lnlikelihood=like) + pta("Q", m, lnlikelihood=like), inorder(("P", n), ("Q", m)), label="PTA + PTA")
    V.returns(lambda: pta("P", n, lnlikelihood=like) + one, inorder(("P", n), ("one", None)), label="PTA + pulsar")
    V.returns(lambda: (lambda p, q: (p + q, p + one, p)[2])(pta("P", n, lnlikelihood=like), pta("Q", m)), inorder(("P", n)), label="PTA after additions")
    V.returns(lambda: pta("P", n, lnlikelihood=like) + one + pta("Q", m), inorder(("P", n), ("one", None), ("Q", m)), label="PTA + pulsar + PTA")
    V.returns(lambda: (lambda a, b: (a + b, a))(*[sb.SignalCollection(E.CvList([s[c]]))(psr) for c in "ab"]), lambda v: V.done("two pulsars added are their PTA, in order", isinstance(v[0], sb.PTA) and [x._signals[0].tag for x in v[0]._signalcollections] == ["a", "b"] and v[0]._signalcollections[0] is v[1]), label="pulsar + pulsar")


TRUSTED = ["white-noise solves by their contracts (C01-C03); get_phiinv by its contract (C06): the inverse of the prior covariance and its log-determinant; map_params by its contract (C09); cached methods return what they would compute (C07)",
           "scikit-sparse: a factor solves with the matrix factorised, a matrix that is not positive definite raises CholmodError or has logdet nan; scipy.linalg.cho_factor raises LinAlgError for it",
           "lemmas/C04.lean: matrix inversion and determinant lemmas, blocks of pulsars; the Cholesky diagonal gives the log-determinant"]
ASSUMPTIONS = ["block_diag of no matrices (common signals without any basis) does not occur: the PTA has common signals only where there are bases"]
BOUNDED = ["-inf where a single pulsar's conditional covariance is not positive definite (no common signals): the contract covers PTAs of one to three pulsars"]
