"""C11: selections partition the TOAs with stable labels."""
from cv.sym.contract import *

S = "enterprise.signals.selections."


def labels(name, n):
    """An array of any strings, by their codes."""
    PY.INTS.add("label_" + name)
    PY.NONNEG.add("label_" + name)
    PY.POS.add("width_" + name)
    r = SArr((Axis(n),), lambda i: app("label_" + name, i), "s")
    r.width = PY.var("width_" + name, integer=True)
    return r


def world(V):
    sel = V.load("signals.selections")
    n = V.size("ntoas", least=1)
    psr = E.Obj(name="psr", toas=V.array("toas", n), freqs=V.array("freqs", n), backend_flags=labels("backend", n), telescope=labels("telescope", n),
                flags=E.CvDict(B=labels("B", n), fe=labels("fe", n), f=labels("f", n), pta=labels("pta", n)))
    return sel, n, psr


def contains(x, words):
    """The label with code x contains one of the words."""
    return disj(*[PY.pred("contains", x, P(A.code(w))) for w in words])


def partition(V, d, n, parts):
    """The groups of d are those of the label arrays in parts, [(name, allowed(code))]: keys are different labels, each mask marks the
    TOAs with the label, and every TOA whose label is allowed is in a group."""
    segs = E.seq(d.items()).parts if isinstance(d, dict) else None
    if not V.done("one family of groups for each flag", segs is not None and len(segs) == len(parts) and all(isinstance(p, E.Seg) for p in segs), repr(d)):
        return
    for p, (name, allowed) in zip(segs, parts):
        ax = p.axis
        u, v, i = fresh("u"), fresh("u"), fresh("i")
        lab = app("label_" + name, i)
        with assuming(ax.rng(u), Axis(n).rng(i)):
            key, mask = p.get(u)
            if not V.done("labels and masks", isinstance(key, E.SStr) and isinstance(mask, SArr) and mask.dtype_ == "b" and len(mask.axes) == 1 and mask.axes[0].cond is None, repr((key, mask))):
                return
            V.eq("one entry for each TOA", SNum(mask.axes[0].n), SNum(n))
            code = key.__cv_code__()
            V.eq("exactly the TOAs with the label", mask, SArr((Axis(n),), lambda i: cmp0("eq", app("label_" + name, i) - code), "b"))
            V.true("an allowed label", allowed(code))
            V.true("a label of some TOA", neg(PY.forall(atom_of(i), n, neg(cmp0("eq", lab - code)))))
        with assuming(ax.rng(u), ax.rng(v), cmp0("lt", u - v)):
            V.true("different labels", neg(cmp0("eq", p.get(u)[0].__cv_code__() - p.get(v)[0].__cv_code__())))
        with assuming(Axis(n).rng(i), allowed(lab)):
            V.true("every TOA with an allowed label is in a group", neg(PY.forall(atom_of(u), ax.n, neg(conj(ax.cond(u) if ax.cond else TRUE, cmp0("eq", p.get(u)[0].__cv_code__() - lab))))))


NANOGRAV = ["ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS"]
ANY = lambda x: TRUE


@contract("C11", *[S + f for f in ("by_band", "by_frontend", "by_backend", "by_telescope", "nanograv_backends", "custom_backends", "custom_backends_dict", "Selection.masks", "selection_func")])
def by_label(V):
    sel, n, psr = world(V)
    words = lambda ws: lambda x: contains(x, ws)
    cases = [("by_band", sel.by_band, [("B", ANY)]), ("by_frontend", sel.by_frontend, [("fe", ANY)]), ("by_backend", sel.by_backend, [("backend", ANY)]),
             ("by_telescope", sel.by_telescope, [("telescope", ANY)]), ("nanograv_backends", sel.nanograv_backends, [("backend", words(NANOGRAV))]),
             ("custom_backends none", sel.custom_backends(None), [("backend", ANY)]),
             ("custom_backends word", sel.custom_backends("ASP"), [("backend", words(["ASP"]))]),
             ("custom_backends words", sel.custom_backends(E.CvList(["X1", "Y2"])), [("backend", words(["X1", "Y2"]))]),
             ("custom_backends_dict word", sel.custom_backends_dict("ASP"), [("backend", words(["ASP"]))]),
             ("custom_backends_dict words", sel.custom_backends_dict(E.CvList(["X1", "Y2"])), [("backend", words(["X1", "Y2"]))]),
             ("custom_backends_dict flag", sel.custom_backends_dict(E.CvDict(f=None)), [("f", ANY)]),
             ("custom_backends_dict backend", sel.custom_backends_dict(E.CvDict(backend=None)), [("backend", ANY)]),
             ("custom_backends_dict backend words", sel.custom_backends_dict(E.CvDict(backend=E.CvList(["X1", "Y2"]))), [("backend", words(["X1", "Y2"]))]),
             ("custom_backends_dict flag word", sel.custom_backends_dict(E.CvDict(f="X1")), [("f", words(["X1"]))]),
             ("custom_backends_dict none", sel.custom_backends_dict(None), None),
             ("custom_backends_dict flags", sel.custom_backends_dict(E.CvDict(f="X1", B=None)), [("f", words(["X1"])), ("B", ANY)])]
    for what, f, parts in cases:
        if "flags" in what:
            # labels of the two flags are different (a label that both have would stand for the TOAs of the last one)
            i, k = fresh("i"), PY.var("apart", integer=True)
            V.assume(PY.forall(atom_of(i), n, cmp0("lt", app("label_f", i) - k)))
            V.assume(PY.forall(atom_of(i), n, cmp0("le", k - app("label_B", i))))
        for again in ("", " again"):
            V.returns(lambda: sel.Selection(f)(psr).masks, lambda d: partition(V, d, n, parts) if parts else everything(V, d, n), label=what + again)


def everything(V, d, n):
    V.done("one group", list(d) == [""], repr(d))
    V.eq("all TOAs", d[""], SArr((Axis(n),), lambda i: TRUE, "b"))


@contract("C11", *[S + f for f in ("cut_half", "by_freq_band", "by_index", "no_selection", "Selection.masks", "selection_func")])
def by_value(V):
    sel, n, psr = world(V)
    toa, freq = (lambda i: app("toas", i)), (lambda i: app("freqs", i))
    mask = lambda c: SArr((Axis(n),), c, "b")
    masks = lambda f: lambda: sel.Selection(f)(psr).masks
    V.returns(masks(sel.no_selection), lambda d: everything(V, d, n), label="no_selection")

    def halves(d):
        V.done("two groups", sorted(d) == ["t1", "t2"], repr(d))
        lo, hi = d["t1"], d["t2"]
        mid = num((A.EXPLORER[0].extremum("max", psr.toas, None) + A.EXPLORER[0].extremum("min", psr.toas, None))) * P(2) ** -1
        V.eq("the first half of the time span", lo, mask(lambda i: cmp0("le", toa(i) - mid)))
        V.eq("the second half", hi, mask(lambda i: cmp0("lt", mid - toa(i))))
    V.returns(masks(sel.cut_half), halves, label="cut_half")

    nv = V.size("nidx")
    PY.INTS.add("idx")
    for what, idx, among in (("index array", SArr((Axis(nv),), lambda j: app("idx", j), "i"), lambda i: (lambda v: neg(PY.forall(atom_of(v), nv, neg(cmp0("eq", i - app("idx", v))))))(fresh("v"))),
                             ("list of indices", [2, 5, 7], lambda i: disj(*[cmp0("eq", i - j) for j in (2, 5, 7)])), ("no indices", [], lambda i: FALSE)):
        def chosen(d):
            V.done("one group", list(d) == ["chosen"], repr(d))
            V.eq("exactly the given indices", d["chosen"], mask(among))
        V.returns(masks(sel.by_index("chosen", idx)), chosen, label=what)

    default = {"Band.1": (0, 1000), "Band.2": (1000, 2000), "Band.3": (2000, 3000), "Band.4": (3000, 10000)}
    edges = [V.real("edge%d" % j) for j in range(4)]
    for what, arg, bands in (("default bands", None, {k: (P(a), P(b)) for k, (a, b) in default.items()}),
                             ("given bands", E.CvDict({"low": E.CvList(edges[:2]), "high": (edges[2], edges[3])}), {"low": (edges[0].p, edges[1].p), "high": (edges[2].p, edges[3].p)})):
        f = sel.by_freq_band(arg)

        def in_bands(d):
            i = fresh("i")
            for k, (a, b) in bands.items():
                c = lambda i: conj(cmp0("le", a - freq(i)), cmp0("lt", freq(i) - b))
                if k in d:
                    V.eq("half-open range " + k, d[k], mask(c))
                    V.true("some TOA in the band " + k, neg(PY.forall(atom_of(i), n, neg(c(i)))))
                else:
                    V.true("no TOA in a missing band " + k, PY.forall(atom_of(i), n, neg(c(i))))
            V.done("no other group", set(d) <= set(bands), repr(d))
        for again in ("", " again"):
            V.returns(masks(f), in_bands, label=what + again)


@contract("C11", S + "Selection.__call__")
def parameters(V):
    """Parameters and masks of a group carry its label; with an array, the masks are multiplied by it. Any number of groups, and an unnamed one."""
    sel, n, psr = world(V)
    g = V.size("ngroups")
    arr = V.array("arr", n)
    mask = lambda k: SArr((Axis(n),), lambda i: PY.pred("mask", k, i), "b")
    Par = lambda name: E.Obj(made=name)
    for what, groups in (("groups", E.family("label", g, mask)), ("unnamed", E.CvDict({"": mask(P0)})), ("two", E.CvDict(a=mask(P0), b=mask(P1)))):
        def function(toas):
            return groups
        for with_arr in (False, True):
            def post(r):
                params, masks = r
                want = lambda k: mask(k) if not with_arr else SArr((Axis(n),), lambda i: iverson(PY.pred("mask", k, i)) * app("arr", i))
                if what == "groups":
                    V.eq("one parameter each", SNum(num(E.b_len(params))), SNum(g))
                    V.eq("one mask each", SNum(num(E.b_len(masks))), SNum(g))
                    k = fresh("k")
                    with assuming(Axis(g).rng(k)):
                        keys = [(E.SStr(E.key("label", k), "_efac"), E.SStr("psr_", E.key("label", k), "_efac"), k)]
                else:
                    keys = {"unnamed": [("efac", "psr_efac", P0)], "two": [("a_efac", "psr_a_efac", P0), ("b_efac", "psr_b_efac", P1)]}[what]
                    V.done("keys", list(params) == list(masks) == [k[0] for k in keys])
                for key, name, k in keys:
                    with assuming(*([Axis(g).rng(k)] if what == "groups" else [])):
                        V.eq("parameter of the group", params[key].made, name)
                        V.eq("mask of the group", masks[key], want(k))
            V.returns(lambda: sel.Selection(function)(psr)("efac", Par, *([arr] if with_arr else [])), post, label=what + (" times an array" if with_arr else ""))


TRUSTED = ["numpy.unique returns every value once; numpy.isin; equality and containment of strings (predicates of their codes, any strings)",
           "minimum and maximum of a non-empty array are attained bounds"]
BOUNDED = ["custom backends: lists of one and two words, dictionaries of one and two flags; two given frequency bands; a list of three indices (an index array of any length)"]
ASSUMPTIONS = ["the flags of a dictionary for custom_backends_dict have different labels (a label that two flags share stands for the TOAs of the last one)",
               "pulsars have at least one TOA"]
