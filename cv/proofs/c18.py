"""C18: backend flags follow the documented precedence for every TOA."""
import itertools

from cv.sym.contract import *

from . import c17

B = "enterprise.pulsar.BasePulsar."
FIRST = ("group", "g", "sys", "i", "f")


def flag_array(name, n, width):
    """Labels by their codes (0: empty), any strings of up to `width` characters."""
    PY.INTS.add("label_" + name)
    PY.NONNEG.add("label_" + name)
    r = SArr((Axis(n),), lambda i: app("label_" + name, i), "s")
    r.width = width
    return r


def permutation(name, n):
    """The contract of sort_data (C17): _isort is a permutation of the TOAs."""
    inv = name + ".rank"
    PY.INTS.update([name, inv])
    PY.PERM[name] = PY.PERM[inv] = n
    PY.INVERSES[name], PY.INVERSES[inv] = inv, name
    v = fresh("v")
    PY.CTX.append(PY.forall(atom_of(v), n, conj(cmp0("le", -app(name, v)), cmp0("lt", app(name, v) - n))))
    return SArr((Axis(n),), lambda j: app(name, j), "i")


class Record(E.Obj):
    def __cv_isinstance__(s, t):
        import numpy
        return t is numpy.ndarray

    @property
    def dtype(s):
        return E.Obj(names=tuple(s.cols))

    def __getitem__(s, k):
        return s.cols[k]


@contract("C18", B + "backend_flags", B + "flags", limit=300)
def backend(V):
    """The first non-empty of group, g, sys, i, f; then fe_be when both are given; in the order of the TOAs, in an array wide enough for every label."""
    pm = V.load("pulsar")
    n = V.size("ntoas")
    toas = V.array("toas", n)
    names = FIRST + ("fe", "be")
    arrays = {}
    for k in names:
        PY.POS.add("width_" + k)
        arrays[k] = flag_array(k, n, PY.var("width_" + k, integer=True))
    order = permutation("isort", n)
    other = V.array("pta", n)     # a flag that is not a string
    for have in itertools.chain.from_iterable(itertools.combinations(names, r) for r in range(len(names) + 1)):
        for kind in ("dict", "record") if len(have) in (0, 2, 7) else ("dict",):
            for sort in (True, False) if len(have) in (0, 5, 7) else (True,):
                def mk():
                    p = object.__new__(pm.BasePulsar)
                    p.name, p._sort, p._toas = "psr", sort, toas
                    cols = dict(pta=other, **{k: arrays[k] for k in have})
                    p._flags = E.CvDict(cols) if kind == "dict" else Record(cols=cols)
                    p._isort = order if sort else slice(None, None, None)
                    return p, p.backend_flags

                def post(r):
                    p, v = r
                    if not V.done("labels", isinstance(v, SArr) and v.dtype_ == "s" and len(v.axes) == 1, repr(v)):
                        return
                    j = fresh("j")
                    V.eq("one for each TOA", SNum(v.axes[0].n), SNum(n))
                    with assuming(Axis(n).rng(j)):
                        i = p._isort.el(j) if sort else j
                        lab = lambda k: app("label_" + k, i)
                        empty = lambda k: cmp0("eq", lab(k))
                        cases, none = [], TRUE
                        for k in FIRST:
                            if k in have:
                                cases.append((conj(none, neg(empty(k))), lab(k), k))
                                none = conj(none, empty(k))
                        if "fe" in have and "be" in have:
                            both = conj(neg(empty("fe")), neg(empty("be")))
                            cases.append((conj(none, both), E.SStr(E.Chars(lab("fe")), "_", E.Chars(lab("be"))).__cv_code__(), "fe_be"))
                            none = conj(none, neg(both))
                        cases.append((none, P0, "empty"))
                        for c, want, what in cases:
                            with assuming(c):
                                V.eq("label " + what, SNum(v.el(j)), SNum(want))
                V.returns(mk, post, label="%s %s%s" % (kind, "+".join(have), "" if sort else " unsorted"))



TRUSTED = c17.TRUSTED + ["numpy string arrays: storing a label in an array narrower than it truncates it (an obligation here), numpy.dtype of strings compares by width"]
ASSUMPTIONS = ["backend_flags is verified against the contract of sort_data (C17)", "the flags of a pulsar are strings, one per TOA; other flags than those named may have any type"]
