"""C17: the attributes of a pulsar stay row-aligned under sorting and filtering."""
from cv.sym.contract import *

B = "enterprise.pulsar.BasePulsar."


def sorted_pulsar(V, sort):
    pm = V.load("pulsar")
    n, npar = V.size("ntoas"), V.size("npars")
    p = object.__new__(pm.BasePulsar)
    p._sort = sort
    p._toas = V.array("toas", n)
    p.sort_data()
    return p, n


@contract("C17", B + "sort_data")
def sorting(V):
    """_isort is a permutation of the TOAs in order of time (none when not sorting), _iisort its inverse."""
    pm = V.load("pulsar")
    n = V.size("ntoas")
    toas = V.array("toas", n)
    f = toas.snap()

    def mk(sort):
        p = object.__new__(pm.BasePulsar)
        p._sort, p._toas = sort, toas
        p.sort_data()
        return p

    def post(p):
        i, j = fresh("i"), fresh("i")
        ax = Axis(n)
        s, t = p._isort, p._iisort
        with assuming(ax.rng(i), ax.rng(j), cmp0("lt", i - j)):
            V.true("in order of time", cmp0("le", f(s.el(i)) - f(s.el(j))))
            V.true("an index", conj(cmp0("le", -s.el(i)), cmp0("lt", s.el(i) - n)))
            V.eq("no TOA twice", SNum(iverson(cmp0("eq", s.el(i) - s.el(j)))), SNum(P0))
        V.eq("iisort after isort", t[s], SArr((ax,), lambda i: i, "i"))
        V.eq("isort after iisort", s[t], SArr((ax,), lambda i: i, "i"))
        V.eq("TOAs in order", p.toas, SArr((ax,), lambda i: f(s.el(i))))
    V.returns(lambda: mk(True), post, label="sort")
    V.returns(lambda: mk(False), lambda p: V.eq("unsorted", p.toas, toas), label="no sort")


ATTR = dict(toas="_toas", stoas="_stoas", residuals="_residuals", toaerrs="_toaerrs", freqs="_ssbfreqs", telescope="_telescope", Mmat="_designmatrix", pos_t="_pos_t", planetssb="_planetssb", sunssb="_sunssb")
SHAPE = dict(_designmatrix=("npars",), _pos_t=(3,), _planetssb=(9, 6), _sunssb=(6,))


class Rec(E.Obj):
    """A structured array of flags."""

    def __cv_isinstance__(s, t):
        import numpy
        return t is numpy.ndarray

    @property
    def dtype(s):
        return E.Obj(names=tuple(s.cols))

    def __getitem__(s, k):
        return s.cols[k] if isinstance(k, str) else Rec(cols={a: v[k] for a, v in s.cols.items()})


class World:
    def __init__(self, V):
        self.V, self.pm = V, V.load("pulsar")
        self.n, self.npar, self.nf = V.size("ntoas"), V.size("npars"), V.size("nflags")
        self.arrays = {a: V.array(a, self.n, *[dict(npars=self.npar).get(k, k) if isinstance(k, str) else k for k in SHAPE.get(a, ())]) for a in ATTR.values()}
        self.at = {a: v.snap() for a, v in self.arrays.items()}
        self.flag = lambda k: SArr((Axis(self.n),), lambda i: app("flag", k, i))

    def pulsar(self, sort=True, flags="dict", without=(), none=()):
        p = object.__new__(self.pm.BasePulsar)
        p.name, p._sort = "psr", sort
        for a, v in self.arrays.items():
            if a not in without:
                setattr(p, a, None if a in none else v.copy())
        p._flags = E.family("flagname", self.nf, self.flag) if flags == "dict" else Rec(cols={k: self.flag(P(j)) for j, k in enumerate(("f", "be"))})
        p.fitpars = E.CvList(E.SSeq.of(self.npar, lambda k: E.key("fitpar", k)))
        p.designmatrix_units = E.CvList(E.SSeq.of(self.npar, lambda k: E.key("unit", k)))
        return p

    def flags(self, V, name, d, got):
        """Every flag of d, as got(flag number) says"""
        k = fresh("k")
        V.eq("every flag and no other", SNum(num(E.b_len(d))), SNum(self.nf))
        with assuming(Axis(self.nf).rng(k)):
            V.eq(name, d[E.key("flagname", k)], got(k))


@contract("C17 C18", *[B + a for a in ATTR], B + "flags", B + "set_flags")
def rows(V):
    """With the contract of sort_data: row i of every attribute belongs to TOA isort(i); flags that are set come back as they were given."""
    w = World(V)
    given = V.array("given", w.n)
    for sort, lab in ((True, "sorted"), (False, "not sorted")):
        def mk(**k):
            p = w.pulsar(sort, **k)
            p.sort_data()
            return p

        def where(p):
            return (lambda i: p._isort.el(i)) if sort else (lambda i: i)
        for a, under in ATTR.items():
            V.returns(lambda: (lambda p: (p, getattr(p, a)))(mk()),
                      lambda r: V.eq("rows of " + a, r[1], SArr(w.arrays[under].axes, lambda i, *j: w.at[under](where(r[0])(i), *j))), label=lab)
        V.returns(lambda: (lambda p: (p, p.flags))(mk()), lambda r: w.flags(V, "rows of the flags", r[1], lambda k: SArr((Axis(w.n),), lambda i: app("flag", k, where(r[0])(i)))), label=lab)

        def record(r):
            V.done("every column", list(r[1]) == ["f", "be"])
            for j, name in enumerate(("f", "be")):
                V.eq("rows of the columns", r[1][name], SArr((Axis(w.n),), lambda i: app("flag", P(j), where(r[0])(i))))
        V.returns(lambda: (lambda p: (p, p.flags))(mk(flags="record")), record, label=lab)

        def put():
            p = mk()
            p.set_flags("new", given)
            return p.flags
        E.APART.add(("flagname", "new"))

        def new(d):
            V.eq("a flag that was set", d["new"], given)
            V.eq("the other flags are still there", SNum(num(E.b_len(d))), SNum(w.nf + 1))
        V.returns(put, new, label=lab)
        name = PY.var("replaced", integer=True)

        def replace():
            p = mk()
            p.set_flags(E.key("flagname", name), given)
            return p, p.flags

        def replaced(r):
            p, d = r
            w.flags(V, "rows of the flags, with one replaced", d, lambda k: SArr((Axis(w.n),), lambda i: ite(cmp0("eq", k - name), app("given", i), app("flag", k, where(p)(i)))))
        with assuming(Axis(w.nf).rng(name)):
            V.returns(replace, replaced, label=lab)


@contract("C17", B + "filter_data", limit=200)
def filtering(V):
    """With the contract of sort_data: all attributes keep the rows of the TOAs in the closed interval, in their order;
    the design matrix loses the columns that are zero there, and these parameters their names and units."""
    w = World(V)
    t0, t1 = V.real("start"), V.real("end")
    day = P(86400)
    toa = w.at["_toas"]
    for lo, hi in ((t0, t1), (t0, None), (None, t1), (None, None)):
        for flags, without, none in (("dict", (), ()), ("record", ("_planetssb", "_sunssb"), ("_pos_t",))):
            inside = lambda i: conj(cmp0("le", lo.p * day - toa(i)) if lo is not None else TRUE, cmp0("le", toa(i) - hi.p * day) if hi is not None else TRUE)
            kept = Axis(w.n, inside if lo is not None or hi is not None else None)
            if lo is None and hi is None:
                kept = Axis(w.n, lambda i: TRUE)
            asked = []

            def mk():
                p = w.pulsar(flags=flags, without=without, none=none)
                del asked[:]
                p.sort_data = lambda: asked.append(p._toas)
                p.filter_data(lo, hi)
                return p

            def nonzero(k):
                i = fresh("i")
                with assuming(kept.rng(i)):
                    c = neg(cmp0("eq", w.at["_designmatrix"](i, k)))
                return neg(PY.forall(atom_of(i), w.n, neg(conj(inside(i), c))))

            def post(p):
                for a, v in w.arrays.items():
                    if a in without:
                        V.done("still without " + a, not hasattr(p, a))
                    elif a in none:
                        V.done("still none: " + a, getattr(p, a) is None)
                    elif a == "_designmatrix":
                        cols = Axis(w.npar, nonzero)
                        M = p._designmatrix
                        V.eq("rows and columns of the design matrix", M, SArr((kept, cols), w.at[a]))
                        for what, key in (("fitpars", "fitpar"), ("designmatrix_units", "unit")):
                            V.eqseq("names: " + what, getattr(p, what), E.SSeq([E.Seg(cols, lambda k: E.key(key, k))]))
                    else:
                        V.eq("rows of " + a, getattr(p, a), SArr((kept,) + v.axes[1:], w.at[a]))
                if flags == "dict":
                    w.flags(V, "rows of the flags", p._flags, lambda k: SArr((kept,), lambda i: app("flag", k, i)))
                else:
                    V.done("the same columns", sorted(p._flags.cols) == ["be", "f"])
                    for j, name in enumerate(("f", "be")):
                        V.eq("rows of the flags", p._flags[name], SArr((kept,), lambda i: app("flag", P(j), i)))
                V.done("sorted again, from the TOAs that are left", len(asked) == 1 and asked[0] is p._toas)
            V.returns(mk, post, label="%s, %s, %s" % ("start" if lo is not None else "no start", "end" if hi is not None else "no end", flags))


TRUSTED = ["numpy.argsort returns a permutation that puts the array in ascending order (in the order of appearance among equals for the stable kinds); indexing a permutation with its own argsort gives its inverse"]
ASSUMPTIONS = ["the arrays that the constructors take from PINT, tempo2 and the feather files have one row per TOA in a common order; this is checked at run time on stand-ins for the timing packages, not proved",
               "rows, flags and filter_data are verified against the contract of sort_data (a permutation in time order with its inverse)"]
