"""C07: what a cached method returns depends on the current parameters and defaults only."""
from cv.sym.contract import *

S = "enterprise.signals.signal_base."


class Params:
    """A parameter dictionary: any of the names of some families in it, each with a number or a vector for its value."""

    def __init__(self, tag):
        self.tag = tag
        PY.INTS.add("len" + tag)

    def which(self, name):
        if isinstance(name, str):
            return "=" + name, P0
        if not (isinstance(name, E.SStr) and len(name.parts) == 1 and not isinstance(name.parts[0], str)):
            raise Unsupported("parameter %r" % (name,))
        return name.parts[0][0], name.parts[0][1][0]

    def has(self, fam, k):
        return PY.pred("has%s:%s" % (self.tag, fam), k)

    def vec(self, fam, k):
        return PY.pred("vec%s:%s" % (self.tag, fam), k)

    def size(self, fam, k):
        return app("len%s" % self.tag, P(1 if fam == "par" else 2 if fam == "more" else 3), k)

    def __contains__(self, name):
        return A.EXPLORER[0].branch(self.has(*self.which(name)))

    def __getitem__(self, name):
        fam, k = self.which(name)
        if not A.EXPLORER[0].branch(self.has(fam, k)):
            raise KeyError(name)
        if A.EXPLORER[0].branch(self.vec(fam, k)):
            return SArr((Axis(self.size(fam, k)),), lambda j: app("el%s:%s" % (self.tag, fam), k, j))
        return SNum(app("num%s:%s" % (self.tag, fam), k))

    def get(self, name, default=None):
        return self[name] if name in self else default


class Value:
    """What the method returns for given parameters and defaults."""

    def __init__(self, params, defaults):
        self.params, self.defaults = params, defaults


def facts():
    out, todo = [], list(PY.CTX)
    while todo:
        q = todo.pop()
        if q.kind == "and":
            todo.extend(q.args)
        elif q.kind == "all":
            out.append(q)
    return out


def agree(V, label, a, b, fams):
    """The values of the method at a and b are those at the same parameters."""
    if a is b:
        return V.true(label, TRUE)
    for fam, n in fams:
        i = fresh("i")
        at = i if fam != "const" else app("const.rank", i)      # the constants come in an arbitrary order
        inst = [PY.csubst(q.args[2], {atom_of(q.args[0]): at}) for q in facts() if q.args[1] is n]
        with assuming(Axis(n).rng(i), *inst):
            ha, hb, va, vb = a.has(fam, i), b.has(fam, i), a.vec(fam, i), b.vec(fam, i)
            V.true(label + ": the same parameters are given", conj(disj(neg(ha), hb), disj(neg(hb), ha)))
            with assuming(ha, hb):
                V.true(label + ": of the same kind", conj(disj(neg(va), vb), disj(neg(vb), va)))
                with assuming(neg(va), neg(vb)):
                    V.true(label + ": the same number", cmp0("eq", app("num%s:%s" % (a.tag, fam), i) - app("num%s:%s" % (b.tag, fam), i)))
                with assuming(va, vb):
                    V.true(label + ": the same size", cmp0("eq", a.size(fam, i) - b.size(fam, i)))
                    j = fresh("j")
                    with assuming(Axis(a.size(fam, i)).rng(j)):
                        more = [PY.csubst(q.args[2], {atom_of(q.args[0]): j}) for q in facts() if q.args[1] is a.size(fam, i)]
                        with assuming(*more):
                            V.true(label + ": the same elements", cmp0("eq", app("el%s:%s" % (a.tag, fam), i, j) - app("el%s:%s" % (b.tag, fam), i, j)))


class World:
    def __init__(self, V, sb, limit):
        self.n, self.m, self.c = V.size("nkeys"), V.size("nmore"), V.size("nconst")
        self.fams = [("par", self.n), ("more", self.m), ("const", self.c)]
        names = lambda fam, n: E.CvList(E.SSeq.of(n, lambda k: E.key(fam, k)))
        par = parameter_constant(V)
        w = self

        class Thing(sb.Signal):
            signal_type, signal_name, signal_id = "white noise", "", ""

            def __init__(self):
                self.defaults = 0
                self._params = E.family("const", w.c, lambda k: par(E.key("const", k)))

            @property
            def first(self):
                return names("par", w.n)

            @property
            def second(self):
                return names("more", w.m)

            @sb.cache_call(["first", "second"], limit)
            def get_thing(self, params={}):
                return Value(params, self.defaults)

        self.Thing = Thing


def parameter_constant(V):
    pm = V.load("signals.parameter")

    class Par(pm.ConstantParameter):
        def __init__(self, name):
            self.name = name

        def __cv_subst__(self, env):
            return Par(E.vsubst(self.name, env))
    return Par


def state(o):
    """What the object keeps: its attributes."""
    return {k: v for k, v in vars(o).items()}


def same(a, b):
    """Two contents of attributes are the same."""
    if isinstance(a, Value) and isinstance(b, Value):
        return a.params is b.params and a.defaults == b.defaults
    if isinstance(a, dict) and isinstance(b, dict):
        pa, pb = (x.parts() if isinstance(x, E.CvDict) else list(x.items()) for x in (a, b))
        return a is b or len(pa) == len(pb) and all(any(same(k, l) and same(v, w) for l, w in pb) for k, v in pa)
    if isinstance(a, E.CvList) and isinstance(b, E.CvList) and a.concrete() and b.concrete():
        return len(a) == len(b) and all(same(x, y) for x, y in zip(list.__iter__(a), list.__iter__(b)))
    return a is b or decide(E.eqcond(a, b)) is True


def cached(limit):
    def one(V):
        sb = V.load("signals.signal_base")
        w = World(V, sb, limit)
        P_ = [Params("P%d" % i) for i in range(limit + 1)]

        def history():
            """limit evaluations at different parameters and one more, on an object that has evaluated nothing: every state that
            evaluations lead to is that after at most `limit` of them (the second contract)."""
            o = w.Thing()
            return [o.get_thing(p) for p in P_]

        def post(r):
            for k, (p, v) in enumerate(zip(P_, r)):
                V.true("evaluation %d: the current defaults" % k, TRUE if v.defaults == 0 else FALSE)
                agree(V, "evaluation %d" % k, p, v.params, w.fams)
        V.returns(history, post, label="values")

        def steps():
            o = w.Thing()
            rets = [o.get_thing(p) for p in P_]
            calls = []
            for p, v in zip(P_, rets):
                if v.params is p:
                    calls.append(p)
            if rets[:-1] and any(v.params is not p for p, v in zip(P_[:-1], rets)):
                return None     # not `limit` different parameters: the state after fewer evaluations
            before = calls[:limit]
            want = before if rets[-1].params is not P_[-1] else (before + P_[-1:])[-limit:]
            o2 = w.Thing()
            for p in want:
                o2.get_thing(p)
            return state(o), state(o2)

        def post2(r):
            if r is None:
                return
            a, b = r
            V.true("the state is that after `limit` evaluations: the same attributes", TRUE if sorted(a) == sorted(b) else FALSE)
            for k in a:
                if k != "_params":
                    V.true("the state is that after `limit` evaluations: %s" % k, TRUE if same(a[k], b[k]) else FALSE)
        V.returns(steps, post2, label="state")
    return one


for limit in (1, 2):
    one = cached(limit)
    one.__name__ = "cache_call_limit_%d" % limit
    contract("C07", S + "cache_call", limit=600)(one)


# ---- the keys of each cached method contain every parameter it reads
W = "enterprise.signals.white_signals."
G = "enterprise.signals.gp_signals."
D = "enterprise.signals.deterministic_signals."


class Reading:
    """A parameter dictionary that notes, for every cached method under way, whether what is read from it is in the key of the method: the
    key is what the real cache_call looks up before it calls the method."""

    def __init__(self, values=None):
        self.values, self.frames, self.building, self.notes = values, [], None, []

    def read(self, name):
        for method, names in self.frames:
            self.notes.append((method, name, any(self.covers(x, name) for x in names)))

    def covers(self, key, name):
        """name is one of the names looked up for the key (in a loop: for some value of the loop variables)"""
        key, loop = key
        c = E.eqcond(key, name)
        if c is TRUE:
            return True
        env = {}
        for v in loop[0]:
            t = E.CvDict._solve(c, v)
            if t is None:
                return False
            env[v] = t
        return decide(conj(csubst(c, env), *[csubst(q, env) for q in loop[1]])) is True

    def __contains__(self, name):
        if self.building is not None:
            mine = [a for p in (name.parts if isinstance(name, E.SStr) else ()) if not isinstance(p, str) for x in p[1] for a in x.fv if a.args is None or True]
            loop = [a for a in dict.fromkeys(mine) if getattr(a, "name", "").startswith("k~")]
            self.building.append((name, (loop, [q for q in PY.CTX if any(a in q.fv for a in loop)])))
            return False
        self.read(name)
        return name in self.values

    def __getitem__(self, name):
        if self.building is not None:
            raise KeyError(name)
        self.read(name)
        return self.values[name]

    def get(self, name, default=None):
        return self[name] if name in self else default


def watch(sb):
    """The real cache_call, with what it looks up and what the method reads noted."""
    real = sb.cache_call

    def cache_call(attrs, limit=2):
        def deco(f):
            def spied(self, params={}):
                if not isinstance(params, Reading):
                    return f(self, params)
                names, params.building = params.building, None
                params.frames.append((f.__name__, names))
                r = f(self, params)
                params.frames.pop()
                return r

            spied.__name__ = f.__name__
            wrapped = real(attrs, limit)(spied)

            def method(self, params={}):
                if not isinstance(params, Reading):
                    return f(self, params)
                params.building = []
                r = wrapped(self, params)
                params.building = None
                return r
            method.__name__ = f.__name__
            return method
        return deco
    sb.cache_call = cache_call


def report(V, q, methods):
    seen = {}
    for method, name, ok in q.notes:
        seen.setdefault(method, []).append((name, ok))
    for m in methods:
        V.done("%s reads parameters" % m, bool(seen.get(m)))
    for m, l in seen.items():
        bad = [n for n, ok in l if not ok]
        V.done("%s: every parameter it reads is in its key" % m, not bad, "not in the key: %r" % (bad[:4],))


class Free(E.Obj):
    params = property(lambda self: [self])


def pars(V, name):
    """The parameters of a function: a free one and a constant"""
    const = parameter_constant(V)
    return E.CvDict(a=Free(name=E.SStr(name, "_a")), b=const(E.SStr(name, "_b")))


def reads(fn, params):
    if isinstance(params, Reading):
        for p in fn._params.values():
            params.read(p.name)


class Fn(E.Obj):
    """Contract of a Function (C10): its value depends on its own parameters in the dictionary."""

    def __call__(self, *a, params={}, mask=None, **k):
        reads(self, params)
        return self.value(C12.group_of(self.name))

    @property
    def params(self):
        return [self._params["a"]]


def maker(V, value):
    return lambda pname, psr=None: Fn(name=pname, value=value, _params=pars(V, pname))


from cv.proofs import c12 as C12, c02 as C02, c27 as C27, c21 as C21


@contract("C07", W + "WhiteNoise", D + "Deterministic")
def keys_noise_and_delay(V):
    sb = V.load("signals.signal_base")
    watch(sb)
    w, ds = V.load("signals.white_signals"), V.load("signals.deterministic_signals")
    g = C12.Groups(V)
    for what in ("noise", "delay"):
        def run():
            q = Reading()
            if what == "noise":
                w.WhiteNoise(maker(V, lambda k: SArr((Axis(g.n),), lambda i: app("variance", k, i))), selection=g, name="x")(g.psr).get_ndiag(q)
            else:
                ds.Deterministic(maker(V, lambda k: SArr((g.axis(k),), lambda i: app("wave", k, i))), selection=g, name="x")(g.psr).get_delay(q)
            return q
        V.returns(run, lambda q: report(V, q, ["get_ndiag" if what == "noise" else "get_delay"]), label=what)


@contract("C07", W + "EcorrKernelNoise", S + "Signal.get")
def keys_ecorr(V):
    sb = V.load("signals.signal_base")
    watch(sb)
    w = V.load("signals.white_signals")
    g = C02.ecorr_world(V, sb, w)
    for how in ("free", "constant"):
        # the values of the dict are named by the group; all free parameters or all constants
        const = parameter_constant(V)

        class One(const):
            @property
            def value(self):
                return SNum(app("constant", C02.group_of(self.name)))

            def __cv_subst__(self, env):
                return One(E.vsubst(self.name, env))

        par = (lambda k: E.Obj(name=E.key("backend", k), value=SNum(app("constant", k)))) if how == "free" else (lambda k: One(E.key("backend", k)))
        pars_ = E.family("backend", g.G, par)
        masks = g.masks
        for method in ("sherman-morrison", "fast-sherman-morrison", "block"):
            keep = lambda a, idx: (a, idx)
            sb.ShermanMorrison = sb.BlockMatrix = keep
            w.fastshermanmorrison = E.Obj(FastShermanMorrison=keep)

            def run():
                q = Reading(C02.Parameters())
                w.EcorrKernelNoise(log10_ecorr=None, selection=lambda psr: lambda name, p: (pars_, masks), method=method)(g.psr).get_ndiag(q)
                return q
            V.returns(run, lambda q: report(V, q, ["get_ndiag"]), label="%s %s" % (method, how))


@contract("C07", G + "BasisGP")
def keys_basis_gp(V):
    sb = V.load("signals.signal_base")
    watch(sb)
    gs = V.load("signals.gp_signals")
    g = C12.gp_world(V)
    basis = maker(V, lambda k: (g.F(k), g.lab(k)))
    prior = maker(V, lambda k: SArr((Axis(g.nc(k)),), lambda c: app("phi", k, c)))

    def run():
        q = Reading()
        s = gs.BasisGP(prior, basis, selection=g, name="gp")(g.psr)
        s.get_basis(q)
        return q
    V.returns(run, lambda q: report(V, q, ["_construct_basis"]), label="basis")
    C27.stub_parameter(gs, type("Parameter", (), {}))

    def run2():
        q = Reading(C27.Values(g))
        s = gs.BasisGP(prior, basis, coefficients=True, selection=g, name="gp")(g.psr)
        s.get_delay(q)
        return q
    V.returns(run2, lambda q: report(V, q, ["_construct_basis", "get_delay"]), label="coefficients")


@contract("C07", G + "BasisCommonGP", G + "FourierBasisCommonGP")
def keys_common_gp(V):
    sb = V.load("signals.signal_base")
    watch(sb)
    gs = V.load("signals.gp_signals")

    class Parameter:
        pass

    class Given(Parameter):
        name = "shared_coefficients"
        params = property(lambda self: [self])

    C27.stub_parameter(gs, Parameter)
    n, m = V.size("ntoas"), V.size("m")
    psr = E.Obj(name="psr", toas=V.array("toas", n), residuals=V.array("res", n), pos=V.array("pos", 3))
    const = parameter_constant(V)

    class F(E.Obj):
        """A Function with a free parameter and a constant"""

        @property
        def params(self):
            return [self._params["a"]]

        def __call__(self, params={}, **k):
            reads(self, params)
            return SArr((Axis(n), Axis(m)), lambda i, c: app("F", i, c)), "labels"

    def make(name, psr=None):
        return F(_params=E.CvDict(a=Free(name=str(name) + "_a"), b=const(str(name) + "_b")))

    coef = SArr((Axis(m),), lambda c: app("c", c))
    gs.utils.createfourierdesignmatrix_red = lambda **k: (lambda name, psr=None: make(name + "_f"))
    span = V.real("Tspan")
    for kind in ("basis", "fourier"):
        for given in (None, True, Given()):
            def run():
                q = Reading({"shared_coefficients": coef, "psr_gw_coefficients": coef})
                if kind == "basis":
                    s = gs.BasisCommonGP(lambda x: make(x + "_p"), lambda x, psr=None: make(x + "_f"), lambda x: make(x + "_o"), coefficients=given, name="gw")(psr)
                else:
                    s = gs.FourierBasisCommonGP(lambda x: make(x + "_p"), lambda x: make(x + "_o"), coefficients=given, name="gw", Tspan=span, components=7)(psr)
                s.get_basis(q) if given is None else s.get_delay(q)
                return q
            V.returns(run, lambda q: report(V, q, ["_construct_basis"] + (["get_delay"] if given is not None else [])), label="%s, %s" % (kind, "marginalised" if given is None else "created" if given is True else "given"))


@contract("C07", G + "BasisGP", G + "BasisCommonGP", G + "FourierBasisCommonGP", S + "cache_call")
def side_effects(V):
    """A method kept for its side effects: whatever was evaluated before, the attributes it leaves are those of the current parameters. The
    histories: every one of four evaluations at two points, which tells the sizes 1 and 2 of a cache apart."""
    sb = V.load("signals.signal_base")
    gs = V.load("signals.gp_signals")

    class Parameter:
        pass

    C27.stub_parameter(gs, Parameter)
    n, m = V.size("ntoas"), V.size("m")
    psr = E.Obj(name="psr", toas=V.array("toas", n), residuals=V.array("res", n), pos=V.array("pos", 3))

    class F(E.Obj):
        params = property(lambda self: [self._params["a"]])

        def __call__(self, *a, params={}, **k):
            x = params[self.name] if self.name in params else SNum(app("dflt"))
            return self.value(x)

    def make(name, value):
        return F(name=name, value=value, _params={"a": Free(name=name)})

    fb = lambda x: (SArr((Axis(n), Axis(m)), lambda i, c: app("F", x.p, i, c)), "labels")
    fphi = lambda x: SArr((Axis(m),), lambda c: app("phi", x.p, c))
    sel = lambda psr: E.Obj(masks={"": SArr((Axis(n),), lambda i: TRUE, "b")})
    name_b = "psr_gw_f"
    points = [{name_b: V.real("x0")}, {name_b: V.real("x1")}]
    coef = V.array("coef", m)
    kinds = {
        "group": lambda given: gs.BasisGP(lambda x, psr=None: make("psr_gw_p", fphi), lambda x, psr=None: make(name_b, fb), selection=sel, name="gw")(psr),
        "common": lambda given: gs.BasisCommonGP(lambda x: make(x + "_p", fphi), lambda x, psr=None: make(name_b, fb), lambda x: make(x + "_o", None), coefficients=given, name="gw")(psr),
        "fourier": lambda given: gs.FourierBasisCommonGP(lambda x: make(x + "_p", fphi), lambda x: make(x + "_o", None), coefficients=given, name="gw", Tspan=V.real("Tspan"), components=7)(psr),
    }
    gs.utils.createfourierdesignmatrix_red = lambda **k: (lambda name, psr=None: make(name_b, fb))
    import itertools
    for kind, build in kinds.items():
        for given in (None, True) if kind != "group" else (None,):
            q = [dict(p, psr_gw_coefficients=coef) for p in points] if given else points
            for h in itertools.product((0, 1), repeat=4):
                if h[0]:
                    continue

                def run():
                    s = build(given)
                    for k in h[:-1]:
                        s.get_basis(q[k]) if given is None else s.get_delay(q[k])
                    return s.get_basis(q[h[-1]]) if given is None else s.get_delay(q[h[-1]])

                def post(r):
                    x = points[h[-1]][name_b].p
                    if given is None:
                        V.eq("the basis at the current parameters", r, SArr((Axis(n), Axis(m)), lambda i, c: app("F", x, i, c)))
                    else:
                        V.eq("the delay at the current parameters", r, SArr((Axis(n),), lambda i: Axis(m).sum(lambda c: app("F", x, i, c) * coef.el(c))))
                V.returns(run, post, label="%s, %s, history %s" % (kind, "marginalised" if given is None else "coefficients", "".join(map(str, h))))


@contract("C07", G + "WidebandTimingModel")
def keys_wideband(V):
    sb = V.load("signals.signal_base")
    watch(sb)
    gs = V.load("signals.gp_signals")
    w = C21.World(V)
    for equad, jump, lab in C21.labels():
        make = C21.build(V, gs, w, equad, jump)
        for m in ("get_dm", "get_dme"):
            if m == "get_dm" and not jump:
                continue

            def run():
                q = Reading(C21.Params())
                getattr(make(), m)(q)
                return q
            V.returns(run, lambda q: report(V, q, [m]), label="%s, %s" % (m, lab))
        for m in ("get_phi", "get_delay", "get_mean_dm", "get_mean_dme", "get_logsignalprior") if equad == jump else ():
            def run():
                q = Reading(C21.Params())
                s = make()
                # get_dm and get_dme by their contracts
                def dm(p):
                    touch(w, q, jump=jump)
                    return w.dm

                def dme(p):
                    touch(w, q, noise=True, equad=equad)
                    return w.dmerr
                s.get_dm, s.get_dme = dm, dme
                getattr(s, m)(q)
                return q
            V.returns(run, lambda q: report(V, q, [m]), label="%s, %s" % (m, lab))


def touch(w, q, noise=False, equad=False, jump=False):
    """Reading the parameters of some group"""
    k = fresh("k")
    for fam, n, what in (("noisekey", w.ng, ["_dmefac"] * noise + ["_log10_dmequad"] * equad), ("jumpkey", w.nj, ["_dmjump"] * jump)):
        with assuming(Axis(n).rng(k)):
            for x in what:
                q.read(E.SStr("psr_", E.key(fam, k), x))


KINDS = [("white noise", "ndiag_params"), ("basis", "basis_params"), ("deterministic", "delay_params"), ("common basis", "basis_params")]


@contract("C07", S + "SignalCollection")
def keys_collection(V):
    """Two signals of each kind, each with any number of parameters and constants: every method of the collection that is cached, with the
    methods of the signals by their contract (they read their own parameters, and constants of any name of theirs)."""
    sb = V.load("signals.signal_base")
    watch(sb)
    n, m = V.size("ntoas"), V.size("m")
    for j in range(8):
        V.size("npar%d" % j)
    w = E.Obj()

    class Cov:
        __cv_subst__ = lambda self, env: self
        __add__ = __radd__ = lambda self, o: self

        def solve(self, right, left_array=None, logdet=False):
            r = "x"
            return (r, 0) if logdet else r

    class Sig:
        def __init__(self, j):
            self.j, (self.signal_type, self.keys) = j, KINDS[j // 2]
            self.signal_name = self.signal_id = self.name = "s%d" % j
            self.n = PY.var("npar%d" % j, integer=True)
            own = lambda fam: E.CvList(E.SSeq.of(self.n, lambda k: E.key(fam, k)))
            self.ndiag_params = self.basis_params = self.delay_params = []
            setattr(self, self.keys, own("par%d" % j))
            self.constant_names = own("const%d" % j)
            if self.signal_type == "basis":
                self.delay_params = own("more%d" % j)

        def reads(self, q, *fams):
            if not isinstance(q, Reading):
                return
            k = fresh("k")
            with assuming(Axis(self.n).rng(k)):
                for f in fams + ("const",):
                    q.read(E.key("%s%d" % (f, self.j), k))

        def get_ndiag(self, q):
            if self.signal_type != "white noise":
                return None
            self.reads(q, "par")
            return Cov()

        def get_delay(self, q):
            if self.signal_type not in ("deterministic", "basis"):
                return None
            self.reads(q, "par" if self.signal_type == "deterministic" else "more")
            return SArr((Axis(n),), lambda i: app("delay", P(self.j), i))

        def get_basis(self, q={}):
            if "basis" not in self.signal_type:
                return None
            self.reads(q, "par")
            return SArr((Axis(n), Axis(m)), lambda i, c: app("F", P(self.j), i, c))

    psr = E.Obj(name="psr", toas=V.array("toas", n), residuals=V.array("res", n))
    for meth, want in (("get_ndiag", 1), ("get_delay", 1), ("get_detres", 1), ("get_basis", 1), ("get_TNr", 3), ("get_TNT", 2), ("get_rNr_logdet", 2)):
        def run():
            q = Reading()
            sigs = [Sig(j) for j in range(8)]
            s = sb.SignalCollection([(lambda psr, x=x: x) for x in sigs])(psr)
            basis = [x for x in sigs if "basis" in x.signal_type]
            s._idx = {x: SArr((Axis(m),), lambda c, t=t: c + m * t, "i") for t, x in enumerate(basis)}
            s._Fmat = SArr((Axis(n), Axis(m * 4)), lambda i, c: P0)
            getattr(s, meth)(q)
            return q
        V.returns(run, lambda q: report(V, q, [meth]), label=meth)


@contract("C07", S + "Signal.set_default_params", S + "_clear_cache")
def default_update_signal(V):
    """After a default update a signal has no value of before it, whatever was evaluated before; and the constants have the new values."""
    sb, pm = V.load("signals.signal_base"), V.load("signals.parameter")
    a, b = V.size("na"), V.size("nb")
    fam = lambda f, n: E.CvList(E.SSeq.of(n, lambda k: E.key(f, k)))

    class Thing(sb.Signal):
        signal_type, signal_name, signal_id = "white noise", "", ""
        first = property(lambda self: fam("par", a))
        second = property(lambda self: fam("more", b))

        def __init__(self):
            self._params = E.CvDict(x=pm.Constant()("c0"), y=pm.Constant(3)("c1"), z=pm.Uniform(0, 1)("free"))

        @sb.cache_call("first")
        def get_one(self, params={}):
            return params, [self._params[k].value for k in "xy"]

        @sb.cache_call(["first", "second"], limit=1)
        def get_two(self, params={}):
            return params, [self._params[k].value for k in "xy"]

    u, v, t = V.real("u"), V.real("v"), V.real("t")
    p, q = Params("P0"), Params("P1")
    for first, second in (({"c0": u}, {"c0": v}), ({"c0": u}, {"c1": v, "free": t}), ({}, {"c0": v, "c1": t}), ({"c1": u, "c0": v}, {"c1": t})):
        now = {"c0": None, "c1": 3}

        def run():
            o = Thing()
            o.set_default_params(E.CvDict(first))
            out = [(o.get_one(p), o.get_two(p), {**now, **first})]
            o.set_default_params(E.CvDict(second))
            out.append((o.get_one(p), o.get_two(p), {**now, **first, **second}))
            return out

        def post(r):
            for (x, y, want) in r:
                for par, got in (x, y):
                    V.done("the value at the parameters of the call", par is p)
                    V.done("with the current defaults", got[0] is want["c0"] and (got[1] is want["c1"] or got[1] == want["c1"]), repr((got, want)))
        V.returns(run, post, label="%s then %s" % (sorted(first), sorted(second)))

    def fresh_state():
        o, o2 = Thing(), Thing()
        o.get_one(p), o.get_two(q)
        o.set_default_params(E.CvDict())
        return vars(o), vars(o2)
    V.returns(fresh_state, lambda r: V.done("the object has the attributes of a new one", sorted(r[0]) == sorted(r[1]), repr(sorted(r[0]))), label="attributes")


@contract("C07", S + "SignalCollection.set_default_params", S + "PTA.set_default_params")
def default_update_collection(V):
    sb = V.load("signals.signal_base")
    n, m = V.size("ntoas"), V.size("m")
    clock = {"now": 0}

    class Cov:
        def __init__(self, t):
            self.t = t

        __radd__ = lambda self, o: self

        def solve(self, right, left_array=None, logdet=False):
            i = fresh("i")
            r = (self.t, right.el(i) if len(right.axes) == 1 else right.el(i, P0), left_array.el(i) if len(left_array.axes) == 1 else left_array.el(i, P0))
            r = SNum(app("solve", *[P(x) for x in (r[0],)], csubst_i(r[1], i), csubst_i(r[2], i)))
            return (r, r) if logdet else r

    def csubst_i(p, i):
        return subst(p, {atom_of(i): P0})

    class Sig:
        """What its methods return depends on its defaults."""
        signal_type, signal_name, signal_id, name, ndiag_params, basis_params, delay_params, constant_names = "basis", "s", "s", "s", [], [], [], []

        def set_default_params(self, params):
            self.t = params["t"]

        t = 0

        def get_ndiag(self, params):
            return Cov(self.t)

        def get_delay(self, params):
            t = self.t
            return SArr((Axis(n),), lambda i: app("delay", P(t), i))

        def get_basis(self, params={}):
            t = self.t
            return SArr((Axis(n), Axis(m)), lambda i, c: app("F", P(t), i, c))

        def get_phi(self, params):
            t = self.t
            return SArr((Axis(m),), lambda c: app("phi", P(t), c))

    psr = E.Obj(name="psr", toas=V.array("toas", n), residuals=V.array("res", n))
    sb.KernelMatrix = lambda n: Phi()

    class Phi:
        def add(self, other, idx):
            i = fresh("c")
            return SNum(app("phi_at", subst(other.el(i), {atom_of(i): P0}), subst(idx.el(i), {atom_of(i): P0})))

    METHODS = ("get_ndiag", "get_delay", "get_detres", "get_basis", "get_phi", "get_TNr", "get_TNT", "get_rNr_logdet")

    def build():
        s = Sig()
        c = sb.SignalCollection([lambda psr: s])(psr)
        # the columns of the collection depend on the bases at the current defaults
        type(c)._combine_basis_columns = lambda self, signals: ({s: SArr((Axis(m),), lambda k, t=s.t: k + P(t), "i")}, SArr((Axis(n), Axis(m + s.t)), lambda i, k: P0))
        return s, c

    def val(x):
        return SNum(P(x.t)) if isinstance(x, Cov) else x
    for level in ("collection", "PTA"):
        for order in (METHODS, METHODS[::-1]):
            def run():
                s, c = build()
                others = [build() for _ in range(2)]
                top = c if level == "collection" else sb.PTA([others[0][1], c, others[1][1]])
                for x in order:
                    getattr(c, x)({})
                top.set_default_params({"t": 5})
                after = [getattr(c, x)({}) for x in order]
                s2, c2 = build()
                s2.t = 5
                new = [getattr(c2, x)({}) for x in order]
                return after, new, [o.t for o, _ in others]

            def post(r):
                for x, a, b in zip(order, r[0], r[1]):
                    a, b = [val(z) for z in (a if isinstance(a, tuple) else (a,))], [val(z) for z in (b if isinstance(b, tuple) else (b,))]
                    for y, z in zip(a, b):
                        V.eq("%s after a default update: as of a new object with these defaults" % x, y, z)
                V.done("all the collections of a PTA", level == "collection" or r[2] == [5, 5])
            V.returns(run, post, label="%s, %s first" % (level, order[0]))


@contract("C07", S + "simplememobyid", S + "_simplememobyid_keycheck")
def memo(V):
    """A memo of the last call: the value at the argument of the call; lists of up to three elements."""
    import itertools
    sb = V.load("signals.signal_base")

    class T:
        @sb.simplememobyid
        def f(self, arg):
            return ("f", arg)

        @sb.simplememobyid
        def g(self, arg):
            return ("g", arg)

    x, y = SNum(var("x")), SNum(var("x"))       # equal, not identical
    args = [x, y] + [list(c) for k in range(4) for c in itertools.product((x, y), repeat=k)] + [tuple(c) for c in itertools.product((x, y), repeat=2)]
    one = lambda a, b: a is b or isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(p is q for p, q in zip(a, b))

    def run():
        out = []
        for a in args:
            for b in args:
                t = T()
                out.append(((a, t.f(a)), (a, t.g(a)), (b, t.f(b)), (b, t.g(b)), (a, t.f(a))))
        return out

    def post(r):
        ok = all(got[0] == ("f" if k in (0, 2, 4) else "g") and one(a, got[1]) for l in r for k, (a, got) in enumerate(l))
        V.done("the value of the method at the argument", ok)
    V.returns(run, post)


TRUSTED = ["values of parameters are compared by Python's == (numbers; NaN is never found in a cache, 0.0 and -0.0 are the same value)",
           "Function objects: the value depends on the pulsar, their own constants and their own parameters in the dictionary (C10)",
           "a returned object is not changed by its callers; methods given a symbolic parameter dictionary that cannot be written to show that it is not"]
ASSUMPTIONS = ["the names in the attributes a key is made of are different", "FourierBasisCommonGP without Tspan: all pulsars are constructed before the first evaluation"]
BOUNDED = ["simplememobyid: lists of up to three elements", "collections of two signals of each kind (each with any number of parameters), PTAs of three pulsars",
           "previously returned objects unchanged by later calls: evaluated on the real code (bounded), cv/scen/c07.py"]
