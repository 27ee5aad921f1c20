"""C12: signals with a selection act on the TOAs of their groups with the parameters of their groups."""
from cv.sym.contract import *

D = "enterprise.signals.deterministic_signals."
G = "enterprise.signals.gp_signals."
S = "enterprise.signals.signal_base."


def load(V, *mods):
    """The modules, with cache_call replaced by its contract (C07): the method itself."""
    sb = V.load("signals.signal_base")
    dec = []
    sb.cache_call = lambda attrs, limit=2: (dec.append(attrs), lambda f: f)[1]
    return (sb, dec) + tuple(V.load("signals." + m) for m in mods)


def group_of(name):
    """The index of the group whose key occurs in the name."""
    k = [p for p in name.parts if not isinstance(p, str)]
    assert len(k) == 1 and k[0][0] == "backend", name
    return k[0][1][0]


class Groups:
    """A selection with any number of groups, each a set of TOAs; the dict of masks has the keys in any order."""

    def __init__(self, V):
        self.V = V
        self.n, self.G = V.size("ntoas"), V.size("ngroups")
        PY.DISJOINT["mask"] = 0            # the groups of a selection do not overlap (C11)
        self.mask = lambda k: SArr((Axis(self.n),), lambda i: PY.pred("mask", k, i), "b")
        self.masks = E.family("backend", self.G, self.mask)
        self.params, self.also = object(), None
        self.psr = E.Obj(name="psr", toas=V.array("toas", self.n), residuals=V.array("res", self.n), _inflated=None)
        self.calls = []

    def __call__(self, psr):
        assert psr is self.psr
        return E.Obj(masks=self.masks)

    def ind(self, k, i):
        return iverson(PY.pred("mask", k, i))

    def axis(self, k):
        return Axis(self.n, lambda i: PY.pred("mask", k, i))

    def own(self, mask, k):
        """mask is the mask of group k"""
        i = fresh("i")
        with assuming(Axis(self.n).rng(i)):
            ok = isinstance(mask, SArr) and mask.dtype_ == "b" and mask.elc(i) is PY.pred("mask", k, i)
        if not ok:
            raise Unsupported("a function of one group evaluated on the TOAs of another")


class Fn(E.Obj):
    """Contract of a Function instance (C10): its value depends on its name, on the parameters and on the mask."""

    def __call__(self, params=None, mask=None):
        q = self.q
        if not (params is q.params or self.plain and isinstance(params, dict) and (not params or dict(params) == q.also)):
            raise Unsupported("called with other parameters")
        k = group_of(self.name)
        q.own(mask, k)
        return self.value(k)

    @property
    def params(self):
        return self._params.values()


def maker(q, made, value, plain=False):
    def make(pname, psr=None):
        made.append(pname)
        assert psr is q.psr
        return Fn(name=pname, q=q, plain=plain, value=value, _params=E.CvDict(a=E.Obj(name=E.SStr(pname, "_a"))))
    return make


def check_name(V, pname, name):
    V.done("the function has the name of the pulsar, the signal and the group", [p if isinstance(p, str) else p[0] for p in pname.parts] == (["psr_", "backend"] if not name else ["psr_%s_" % name, "backend"]), repr(pname))


@contract("C12", D + "Deterministic")
def deterministic(V):
    sb, dec, ds = load(V, "deterministic_signals")
    q = Groups(V)
    for name in ("", "cw"):
        made = []
        wave = maker(q, made, lambda k: SArr((q.axis(k),), lambda i: app("wave", k, i)))

        def post(d):
            V.eq("the waveform of the group on its TOAs, zero elsewhere", d, SArr((Axis(q.n),), lambda i: Axis(q.G).sum(lambda k: q.ind(k, i) * app("wave", k, i))))
            check_name(V, made[-1], name)
            V.done("cached by the varying parameters", dec[-1] == "delay_params" or "delay_params" in dec)
        V.returns(lambda: ds.Deterministic(wave, selection=q, name=name)(q.psr).get_delay(q.params), post, label=name or "no name")


@contract("C12", S + "SignalCollection.get_delay", S + "SignalCollection.get_detres")
def collection_delay(V):
    """The delay of a collection is the sum over all its signals: any number, in any order."""
    sb, dec = load(V)
    n, ns = V.size("ntoas"), V.size("nsignals")
    params = object()
    has = lambda s: PY.pred("has", s)

    class Sig(E.Obj):
        signal_type = "deterministic"

        @property
        def delay_params(self):
            return E.CvList([E.key("p", self.s)])

        def get_delay(self, p):
            assert p is params
            if A.EXPLORER[0].branch(has(self.s)):
                return SArr((Axis(n),), lambda i: app("d", self.s, i))
            return None

    res = V.array("res", n)
    psr = E.Obj(name="psr", residuals=res)
    f = res.snap()
    total = lambda i: Axis(ns).sum(lambda s: iverson(has(s)) * app("d", s, i))
    sigs = lambda: E.SSeq.of(ns, lambda s: (lambda psr: Sig(s=P(s))))
    V.returns(lambda: sb.SignalCollection(sigs())(psr).get_delay(params), lambda v: (V.eq("sum of the delays", v, SArr((Axis(n),), total)), V.done("cached by the delay parameters", "delay_params" in dec)))
    V.returns(lambda: sb.SignalCollection(sigs())(psr).get_detres(params), lambda v: (V.eq("residuals minus the delay", v, SArr((Axis(n),), lambda i: f(i) - total(i))),
                                                                                  V.done("residuals not modified", res.snap() is f)))


def gp_world(V):
    q = Groups(V)
    PY.INTS.add("ncols")
    PY.NONNEG.add("ncols")
    PY.POS.add("phi")
    q.nc = lambda k: app("ncols", k)
    q.before = lambda k: Axis(P(k)).sum(q.nc)     # the columns of the groups before group k
    E.INCREMENTS.append(q.nc)
    q.F = lambda k: SArr((q.axis(k), Axis(q.nc(k))), lambda i, c: app("F", k, i, c))
    q.lab = lambda k: SArr((Axis(q.nc(k)),), lambda c: app("label", k, c))
    return q


class Prior(Fn):
    def __call__(self, labels, params=None):
        q = self.q
        if params is not q.params and not (q.also is not None and dict(params) == q.also):
            raise Unsupported("called with other parameters")
        k = group_of(self.name)
        c = fresh("c")
        if not (isinstance(labels, SArr) and len(labels.axes) == 1 and labels.axes[0].same(Axis(q.nc(k))) and labels.el(c) is app("label", k, c)):
            raise Unsupported("the prior of a group evaluated for the columns of another")
        return self.value(k)


@contract("C12", G + "BasisGP", "enterprise.signals.utils.KernelMatrix.set")
def basis_gp(V):
    sb, dec, gs = load(V, "gp_signals")
    q = gp_world(V)
    own = lambda k, c: iverson(conj(cmp0("le", q.before(k) - c), cmp0("lt", c - q.before(k) - q.nc(k))))
    for name in ("", "gp"):
        bases, priors = [], []
        basis = maker(q, bases, lambda k: (q.F(k), q.lab(k)))

        def prior(pname, psr=None):
            priors.append(pname)
            assert psr is q.psr
            return Prior(name=pname, q=q, plain=False, value=lambda k: SArr((Axis(q.nc(k)),), lambda c: app("phi", k, c)), _params=E.CvDict(b=E.Obj(name=E.SStr(pname, "_b"))))

        make = lambda: gs.BasisGP(prior, basis, selection=q, name=name)(q.psr)
        nc = q.before(q.G)

        def post(r):
            B, phi, inv = r
            V.eq("the columns of each group are zero outside its TOAs", B, SArr((Axis(q.n), Axis(nc)), lambda i, c: Axis(q.G).sum(lambda k: q.ind(k, i) * own(k, c) * app("F", k, i, c - q.before(k)))))
            V.eq("the prior of each group on its columns", phi, SArr((Axis(nc),), lambda c: Axis(q.G).sum(lambda k: own(k, c) * app("phi", k, c - q.before(k)))))
            check_name(V, bases[-1], name)
            check_name(V, priors[-1], name)
            f = phi.snap()
            V.eq("inverse", inv, SArr((Axis(nc),), lambda c: f(c) ** -1))

        def run():
            s = make()
            return s.get_basis(q.params), s.get_phi(q.params), s.get_phiinv(q.params)

        V.returns(run, post, label=name or "no name")


@contract("C12", G + "BasisGP", "enterprise.signals.utils.KernelMatrix.set")
def matrix_priors(V):
    """Groups whose priors are matrices or vectors, in any order: block-diagonal, with the group's matrix or diagonal."""
    import itertools

    sb, dec, gs = load(V, "gp_signals")
    gs.KernelMatrix._setcliques = lambda self, idx: None      # bookkeeping of the blocks, not of the values (C06)
    n = V.size("ntoas")
    params = object()
    psr = E.Obj(name="psr", toas=V.array("toas", n), residuals=V.array("res", n))
    for kinds in itertools.product("mv", repeat=2):
        if "m" not in kinds:
            continue
        names = ["B", "a"][: len(kinds)]
        sizes = [V.size("n%d" % g, least=2) for g in range(len(kinds))]
        start = [P0, sizes[0]]
        masks = [SArr((Axis(n),), lambda i, g=g: PY.pred("mask%d" % g, i), "b") for g in range(len(kinds))]

        class F2(E.Obj):
            def __call__(self, *a, params=None, mask=None):
                g = int(self.name[-1])
                if self.kind == "basis":
                    i = fresh("i")
                    assert mask.elc(i) is PY.pred("mask%d" % g, i)
                    return SArr((Axis(n, lambda i: PY.pred("mask%d" % g, i)), Axis(sizes[g])), lambda i, c: app("F%d" % g, i, c)), g
                if a != (g,):
                    raise Unsupported("the prior of a group evaluated for the columns of another")
                if kinds[g] == "v":
                    return SArr((Axis(sizes[g]),), lambda c: app("phi%d" % g, c))
                return SArr((Axis(sizes[g]), Axis(sizes[g])), lambda c, d: app("Phi%d" % g, c, d))

            params = property(lambda self: [])

        def mk(kind):
            def make(pname, psr=None):
                return F2(name="psr_gp_%d" % sorted(names).index(pname[len("psr_gp_"):]), kind=kind, _params={})
            return make

        sel = lambda p: E.Obj(masks=E.CvDict({k: masks[sorted(names).index(k)] for k in names}))

        def post(phi):
            tot = sizes[0] + sizes[1]

            def want(c, d):
                r = P0
                for g in (0, 1):
                    i, j = c - start[g], d - start[g]
                    ins = conj(cmp0("le", -i), cmp0("lt", i - sizes[g]), cmp0("le", -j), cmp0("lt", j - sizes[g]))
                    v = app("Phi%d" % g, i, j) if kinds[g] == "m" else app("phi%d" % g, i) * iverson(cmp0("eq", i - j))
                    r = r + iverson(ins) * v
                return r
            V.eq("block-diagonal prior", phi, SArr((Axis(tot), Axis(tot)), want))

        V.returns(lambda: gs.BasisGP(mk("prior"), mk("basis"), selection=sel, name="gp")(psr).get_phi(params), post, label="".join(kinds))


TRUSTED = ["numpy: the contracts listed with the obligations", "Function objects: the value depends on the name, the parameters and the mask (C10); Selection: disjoint masks (C11); cache_call returns what the method returns (C07)"]
ASSUMPTIONS = ["matrix-valued priors are proved for two groups (vector-valued ones for any number)"]
