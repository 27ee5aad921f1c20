"""C02: the white-noise signals build the documented covariance."""
from cv.sym.contract import *

from . import c04  # composition

W = "enterprise.signals.white_signals."
S = "enterprise.signals.signal_base."


def load(V):
    """The modules, with cache_call replaced by its contract (C07): the method itself."""
    sb, w = V.load("signals.signal_base"), V.load("signals.white_signals")
    decorated = []
    sb.cache_call = lambda attrs, limit=2: (decorated.append(attrs), lambda f: f)[1]
    return sb, w, decorated


def group_of(name):
    """The index of the group whose key occurs in the name."""
    k = [p for p in name.parts if not isinstance(p, str)]
    assert len(k) == 1 and k[0][0] == "backend", name
    return k[0][1][0]


class Fn(E.Obj):
    """Contract of a Function instance: its value depends on its name and on the parameters only."""

    def __call__(self, params=None):
        assert params is self.want
        k = group_of(self.name)
        return SArr((Axis(self.n),), lambda i: app("variance", k, i))


class Groups:
    """A selection with any number of groups, each a set of TOAs; the dict of masks has the keys in any order."""

    def __init__(self, V, disjoint=False):
        self.n, self.G = V.size("ntoas"), V.size("ngroups")
        self.mask = lambda k: SArr((Axis(self.n),), lambda i: cmp0("eq", app("mask", k, i) - 1), "b")
        self.masks = E.family("backend", self.G, self.mask)
        self.params = object()
        self.calls = []

    def __call__(self, psr):
        self.calls.append(psr)
        return E.Obj(masks=self.masks)

    def ind(self, k, i):
        return iverson(self.mask(k).elc(i))


@contract("C02", W + "WhiteNoise")
def white_noise(V):
    """Diagonal: sum over the groups of the variance with the parameters of the group, on the TOAs of the group."""
    sb, w, dec = load(V)
    sel = Groups(V)
    n = sel.n
    psr = E.Obj(name="psr", toas=V.array("toas", n), residuals=V.array("res", n), _inflated=None)
    for name in ("", "noise"):
        made = []

        def vfn(pname, psr=None):
            made.append((pname, psr))
            return Fn(name=pname, n=n, want=sel.params, _params=E.CvDict(efac=E.Obj(name=E.SStr(pname, "_efac"))))

        def build():
            return w.WhiteNoise(vfn, selection=sel, name=name)(psr)

        def post(sig):
            want = SArr((Axis(n),), lambda i: Axis(sel.G).sum(lambda k: sel.ind(k, i) * app("variance", k, i)))
            v = sig[1]
            V.eq("diagonal", v, want)
            V.done("a diagonal", getattr(v, "tag", None) is sb.ndarray_alt)
            V.done("the selection is made for the pulsar, the functions for the pulsar", sel.calls[-1] is psr and all(p is psr for _, p in made))
            k = fresh("k")
            with assuming(Axis(sel.G).rng(k)):
                nm = made[-1][0]
                V.done("name of the group's function", [p if isinstance(p, str) else p[0] for p in nm.parts] == (["psr_", "backend"] if not name else ["psr_noise_", "backend"]), repr(nm))
            V.done("cached by the varying parameters", dec[-1] == "ndiag_params")
        V.returns(lambda: (lambda s: (s, s.get_ndiag(sel.params)))(build()), post, label=name or "no name")


@contract("C02", W + "efac_ndiag", W + "combined_ndiag", W + "tnequad_ndiag")
def variances(V):
    sb, w, dec = load(V)
    n = V.size("ntoas")
    err = V.array("toaerrs", n)
    f = err.snap()
    q, e = V.real("log10_equad"), V.real("efac")
    ten = lambda x: PY.power_sym(P(10), x)
    kept = lambda: V.done("uncertainties not modified", err.snap() is f)
    V.returns(lambda: w.efac_ndiag(err, efac=e), lambda v: (V.eq("efac^2 sigma^2", v, SArr((Axis(n),), lambda i: num(e) ** 2 * f(i) ** 2)), kept()))
    V.returns(lambda: w.combined_ndiag(err, efac=e, log10_t2equad=q), lambda v: (V.eq("efac^2 (sigma^2 + equad^2)", v, SArr((Axis(n),), lambda i: num(e) ** 2 * (f(i) ** 2 + ten(2 * num(q))))), kept()))
    V.returns(lambda: w.tnequad_ndiag(err, log10_tnequad=q), lambda v: (V.eq("equad^2", v, SArr((Axis(n),), lambda i: ten(2 * num(q)))), kept()))



@contract("C02", W + "MeasurementNoise", W + "TNEquadNoise")
def measurement_noise(V):
    """The factories hand the documented variance, with the given parameters, and the selection and name to WhiteNoise."""
    sb, w, dec = load(V)
    calls = []

    class Base:
        def __init__(self, psr):
            pass

    def white(varianceFunction, selection=None, name=""):
        calls.append((varianceFunction, selection, name))
        return Base

    w.WhiteNoise = white
    for k in ("efac_ndiag", "combined_ndiag", "tnequad_ndiag"):
        setattr(w, k, (lambda k: lambda **kw: (k, kw))(k))
    efac, q, sel = object(), object(), object()
    V.returns(lambda: w.MeasurementNoise(efac=efac, selection=sel, name="n"), lambda c: (
        V.done("efac only", calls[-1] == (("efac_ndiag", dict(efac=efac)), sel, "n"), repr(calls[-1])), V.done("class", issubclass(c, Base) and (c.signal_name, c.signal_id) == ("measurement_noise", "measurement_noise_n"))), label="efac")
    V.returns(lambda: w.MeasurementNoise(efac=efac, log10_t2equad=q, selection=sel), lambda c: (
        V.done("efac and equad", calls[-1] == (("combined_ndiag", dict(efac=efac, log10_t2equad=q)), sel, ""), repr(calls[-1])), V.done("class", c.signal_id == "measurement_noise")), label="equad")
    V.returns(lambda: w.TNEquadNoise(log10_tnequad=q, selection=sel, name="n"), lambda c: (
        V.done("equad", calls[-1] == (("tnequad_ndiag", dict(log10_tnequad=q)), sel, "n"), repr(calls[-1])), V.done("class", (c.signal_name, c.signal_id) == ("tnequad", "tnequad_n"))), label="tnequad")
    V.rejects(lambda: w.EquadNoise(q), NotImplementedError, "EquadNoise was removed")


class Parameters:
    """The parameter dict of a call: has an entry for some of the names (the free parameters), not for the others."""

    def __init__(self):
        self.free = lambda k: cmp0("eq", app("free", k) - 1)

    def __getitem__(self, name):
        k = group_of(name)
        if A.EXPLORER[0].branch(self.free(k)):
            return SNum(app("sampled", k))
        raise KeyError(name)

    def value(self, k):
        return ite(self.free(k), app("sampled", k), app("constant", k))


def ecorr_world(V, sb, w):
    """Any number of groups, of TOAs and of epochs; create_quantization_matrix and quant2ind by their contracts (C16)."""
    G, n = V.size("ngroups"), V.size("ntoas")
    PY.INTS.update(["nepochs", "epoch"])
    PY.NONNEG.add("nepochs")
    PY.DISJOINT["mask"] = 0            # the groups of a selection do not overlap (C11)
    mask = lambda k: SArr((Axis(n),), lambda i: PY.pred("mask", k, i), "b")
    nep = lambda k: app("nepochs", k)
    inep = lambda k, i, c: conj(PY.pred("mask", k, i), cmp0("eq", app("epoch", k, i) - c))
    N = lambda k: app("columns_before", P(k))
    PY.INTS.add("columns_before")
    toas = V.array("toas", n)

    def quantize(t, dt=1, nmin=2):
        i = fresh("i")
        k = t.axes[0].cond(i).args[0]      # the group of this mask
        V.done("epochs of the TOAs of the group, at least two TOAs", (dt, nmin) == (1, 2) and t.el(i) is toas.el(i))
        e = SArr((t.axes[0], Axis(nep(k))), lambda i, c: iverson(cmp0("eq", app("epoch", k, i) - c)))
        return e, None

    def indices(U, as_slice=False):
        f = U.snap()
        return E.SSeq([E.Seg(U.axes[1], lambda c: SArr((Axis(U.axes[0].n, lambda i: neg(cmp0("eq", f(i, c)))),), lambda i: i, "i"))])

    w.utils.create_quantization_matrix, w.utils.quant2ind = quantize, indices
    masks = E.family("backend", G, mask)
    pars = E.family("backend", G, lambda k: E.Obj(name=E.key("backend", k), value=SNum(app("constant", k))))
    asked = []

    def selection(psr):
        def sel(parname, par):
            asked.append((psr, parname, par))
            return pars, masks
        return sel

    # the number of epochs of the groups before a group
    V.assume(cmp0("eq", N(0)))
    V.assume(cmp0("eq", N(G) - Axis(G).sum(nep)))
    j = fresh("j")
    V.assume(PY.forall(atom_of(j), G, conj(cmp0("eq", N(j + P1) - N(j) - nep(j)), cmp0("le", N(j + P1) - N(G)), cmp0("le", -N(j)))))

    def inv(loc):
        if not isinstance(loc.get("U"), SArr):
            return None
        return lambda k, loc: [("columns", A.SBool(cmp0("eq", num(loc["netot"]) - N(k)))), ("zero", loc["U"], lambda i, c: cmp0("le", num(loc["netot"]) - c))]

    E.FOR_INVARIANTS["__init__"] = inv
    psr = E.Obj(name="psr", toas=toas)
    return E.Obj(**{k: v for k, v in locals().items() if k not in ("E",)})


@contract("C02", W + "EcorrKernelNoise", S + "Signal.get")
def ecorr(V):
    """sum over the epochs e of the groups k of ecorr_k^2 1_e 1_e^T: the same by every method."""
    sb, w, dec = load(V)
    q = ecorr_world(V, sb, w)
    par = object()
    for method in ("sherman-morrison", "fast-sherman-morrison", "block"):
        made = []

        def keep(kind):
            def make(a, idx):
                made.append((kind, a, idx))
                return made[-1]
            return make

        sb.ShermanMorrison, sb.BlockMatrix = keep("rank one"), keep("blocks")
        w.fastshermanmorrison = E.Obj(FastShermanMorrison=keep("rank one"))
        params = Parameters()

        def post(r):
            kind, a, idx = r
            V.done("representation", kind == ("blocks" if method == "block" else "rank one"))
            a, idx = E.seq(a) if kind == "blocks" else a, E.seq(idx)
            V.done("one element per epoch", len(idx.parts) == 1)
            total, grp, off = E.flatten(Axis(q.G), lambda k: Axis(q.nep(k)))
            V.eq("number of epochs", SNum(idx.parts[0].axis.n), SNum(total.n))
            p = fresh("p")
            with assuming(total.rng(p)):
                k, c = grp(p), off(p)
                got = idx.parts[0].get(p)
                i = fresh("i")
                with assuming(Axis(q.n).rng(i)):
                    V.eq("TOAs of the epoch", SNum(iverson(got.axes[0].cond(i))), SNum(iverson(q.inep(k, i, c))))
                ten = lambda name: PY.power_sym(P(10), 2 * app(name, k))
                if kind == "blocks":
                    V.done("one block per epoch", len(a.parts) == 1 and a.parts[0].axis.same(idx.parts[0].axis))
                    b = a.parts[0].get(p)
                    V.true("block of the size of the epoch", conj(*[cmp0("eq", x.length() - got.axes[0].length()) for x in b.axes]))
                    x, y = fresh("x"), fresh("y")
                    value = lambda: b.el(x, y)
                    rng = (b.axes[0].rng(x), b.axes[1].rng(y))
                else:
                    V.true("one variance per epoch", cmp0("eq", a.axes[0].n - total.n))
                    value, rng = lambda: a.el(p), ()
                with assuming(params.free(k), *rng):
                    V.eq("variance of a free parameter", SNum(value()), SNum(ten("sampled")))
                with assuming(neg(params.free(k)), *rng):
                    V.eq("variance of a constant", SNum(value()), SNum(ten("constant")))
            V.done("selection of the parameter", q.asked[-1] == (q.psr, "log10_ecorr", par))
            V.done("cached by the varying parameters", dec[-1] == "ndiag_params")

        V.returns(lambda: w.EcorrKernelNoise(log10_ecorr=par, selection=q.selection, method=method)(q.psr).get_ndiag(params), post, label=method)


@contract("C02", W + "EcorrKernelNoise")
def ecorr_sparse(V):
    """The sparse matrix holds, between two TOAs of one epoch (of at least two TOAs), the variance of their group."""
    sb, w, dec = load(V)
    q = ecorr_world(V, sb, w)
    params = Parameters()

    def post(r):
        m = r.dense()
        i, j, k, c = fresh("i"), fresh("j"), fresh("k"), fresh("c")
        several = lambda k, c: cmp0("lt", 1 - Axis(q.n).sum(lambda x: iverson(q.inep(k, x, c))))
        with assuming(Axis(q.n).rng(i), Axis(q.n).rng(j)):
            val = lambda k: ite(params.free(k), PY.power_sym(P(10), 2 * app("sampled", k)), PY.power_sym(P(10), 2 * app("constant", k)))
            want = Axis(q.G).sum(lambda k: Axis(q.nep(k)).sum(lambda c: iverson(conj(q.inep(k, i, c), q.inep(k, j, c), several(k, c))) * val(k)))
            V.eq("covariance", SNum(m.el(i, j)), SNum(want))

    V.returns(lambda: w.EcorrKernelNoise(log10_ecorr=None, selection=q.selection, method="sparse")(q.psr).get_ndiag(params), post)


@contract("C02", S + "SignalCollection.get_ndiag", S + "SignalCollection._set_cache_parameters")
def collection(V):
    """The terms of all signals that have one add up: any number of diagonal ones, and one of another kind in any position."""
    sb, w, dec = load(V)
    n, ns = V.size("ntoas"), V.size("nsignals")
    V.array("d", ns, n)
    params = object()
    has = lambda s: PY.pred("has", s)

    class Sig(E.Obj):
        signal_type = "white noise"

        @property
        def ndiag_params(self):
            return E.CvList([E.key("p", self.s)])

        def get_ndiag(self, p):
            assert p is params
            if A.EXPLORER[0].branch(has(self.s)):
                return sb.ndarray_alt(SArr((Axis(n),), lambda i: app("d", self.s, i)))
            return None

        def __cv_merge__(self, c, o):
            return o

    diag = lambda lo=0: E.SSeq.of(ns, lambda s: (lambda psr: Sig(s=P(s))))
    psr = E.Obj(name="psr", residuals=V.array("res", n))
    total = lambda i: Axis(ns).sum(lambda s: iverson(has(s)) * app("d", s, i))
    V.returns(lambda: sb.SignalCollection(diag())(psr).get_ndiag(params), lambda v: (
        V.eq("sum of the diagonals", v, SArr((Axis(n),), total)), V.done("cached by the white-noise parameters", "white_params" in dec)))

    # a term of another kind in any position (the sums themselves: C01), a marginalised timing model before all others
    class One(E.Obj):
        signal_type = "white noise"
        ndiag_params = []

        def get_ndiag(self, p):
            assert p is params
            return self.term()

    class Timing:
        def __init__(self, parts=()):
            self.parts, self.Nmat = parts, 0

        def __radd__(self, o):
            return self if type(o) is int and o == 0 else Timing(self.parts + (o,))

        def __add__(self, o):
            return Timing(self.parts + (o,))

    d1, d2 = V.array("d1", n), V.array("d2", n)
    f1, f2 = d1.snap(), d2.snap()
    jvec, slices = V.array("jvec", 1), [SArr((Axis(n, lambda i: PY.pred("first", i)),), lambda i: i, "i")]
    kinds = dict(d1=lambda: sb.ndarray_alt(d1), d2=lambda: sb.ndarray_alt(d2), sm=lambda: sb.ShermanMorrison(jvec, slices), tm=lambda: Timing(), none=lambda: None)
    import itertools

    def value(v):
        """(kind of the sum, its diagonal)"""
        if isinstance(v, sb.ShermanMorrison):
            V.done("block part kept", v._jvec is jvec and len(v._slices) == 1 and v._slices[0] is slices[0])
            return "sm", v._nvec
        return "diagonal", v

    for names in (("d1", "d2", "none"), ("d1", "sm", "d2"), ("d1", "tm", "d2"), ("none", "sm", "d1")):
        for perm in itertools.permutations(names):
            def post(v):
                want = SArr((Axis(n),), lambda i: (f1(i) if "d1" in names else P0) + (f2(i) if "d2" in names else P0))
                if "tm" in names:
                    V.done("the timing model wraps the other terms", isinstance(v, Timing) and len(v.parts) == 2)
                    V.eq("all terms", v.parts[0] + v.parts[1], want)
                else:
                    kind, d = value(v)
                    V.done("kind of the sum", kind == ("sm" if "sm" in names else "diagonal"))
                    V.eq("all terms", d, want)
                V.done("terms not modified", d1.snap() is f1 and d2.snap() is f2)
            V.returns(lambda: sb.SignalCollection([(lambda psr, k=k: One(term=kinds[k])) for k in perm])(psr).get_ndiag(params), post, label=" + ".join(perm))


TRUSTED = ["numpy, scipy.sparse: the contracts listed with the obligations; fastshermanmorrison.FastShermanMorrison (C01)",
           "Function objects: the value depends on the name and the parameters (C10); Selection: sorted keys, disjoint masks (C11)",
           "create_quantization_matrix and quant2ind: 0/1 matrix of the epochs, indices of its columns (C16); cache_call returns what the method returns (C07)"]
ASSUMPTIONS = ["the columns of the groups before a group are counted by a function defined by recursion (number of columns of a group + of those before it)",
               "the elements of concatenated lists are numbered by (group, position in the group), the same for lists of the same lengths",
               "kernel terms in a collection are proved for up to three signals in every order, diagonal terms for any number"]
