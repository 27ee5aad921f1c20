"""Contracts of numpy and scipy as used by the code under contract (trusted: the numerical libraries themselves are
not verified). Calls with symbolic operands take the mathematical meaning documented for the function; calls on
concrete operands that are not numbers (strings, object arrays) go to the real library."""
import builtins, types
from fractions import Fraction
import numpy as _np
import scipy.constants as _sc
from . import poly as PY
from .poly import P, P0, P1, Poly, Cond, TRUE, FALSE, Unsupported, fresh, atom_of, conj, disj, neg, cmp0, iverson, decide, assuming
from . import arr as A
from .arr import SNum, SBool, SArr, Axis, num, arr, is_scalar, out, umap, tonum

USED = set()   # contracts of external functions used in this run


def symbolic(x):
    if isinstance(x, (SNum, SBool, SArr)) or hasattr(x, "__cv_array__") or hasattr(x, "__cv_dot__") or hasattr(x, "__cv_sym__"):
        return True
    if isinstance(x, (list, tuple)):
        return any(symbolic(e) for e in x) if type(x) in (list, tuple) or x.concrete() else True
    return False


def numeric(x):
    if symbolic(x) or is_scalar(x) or (hasattr(x, "concrete") and not x.concrete()):
        return True
    if isinstance(x, (list, tuple)):
        return all(numeric(e) for e in x)
    if isinstance(x, _np.ndarray):
        return x.dtype.kind in "biuf"
    return False


def real(name):
    o = _np
    for part in name.split("."):
        o = getattr(o, part)
    return o


def dual(name):
    """Symbolic implementation when an operand is symbolic, numpy's own otherwise."""

    def deco(f):
        def g(*a, **k):
            if builtins.any(symbolic(x) for x in a) or builtins.any(symbolic(x) for x in k.values()):
                USED.add("numpy." + name)
                return f(*a, **k)
            r = real(name)(*a, **k)
            return r

        g.__name__ = name
        NP[name] = g
        return g

    return deco


def always(name):
    def deco(f):
        def g(*a, **k):
            USED.add("numpy." + name)
            return f(*a, **k)

        NP[name] = g
        return g

    return deco


NP = {}


def ew(name, f):
    def g(x, *a, **k):
        if a or k:
            raise Unsupported("numpy.%s with options" % name)
        USED.add("numpy." + name)
        if is_scalar(x):
            return SNum(f(num(x)))
        return umap(f, x)

    NP[name] = g


for _n in ("exp", "sin", "cos", "tan", "sqrt", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh"):
    ew(_n, lambda p, _n=_n: PY.fn(_n, p))
ew("log", PY.mk_log)
ew("log10", lambda p: PY.mk_log(p) * PY.power(PY.mk_log(P(10)), Fraction(-1)))
ew("abs", lambda p: PY.fn("abs", p))
ew("absolute", lambda p: PY.fn("abs", p))
ew("square", lambda p: p * p)
ew("rint", lambda p: p if PY.is_int_poly(p) else PY.fn("rint", p))
ew("floor", lambda p: p if PY.is_int_poly(p) else PY.fn("floor", p))
ew("sign", lambda p: iverson(cmp0("lt", -p)) - iverson(cmp0("lt", p)))


def _kind(dt, default="f"):
    if dt is None:
        return default
    if dt in (builtins.float, "d", "f8", "float", _np.float64, _np.double, "double"):
        return "f"
    if getattr(dt, "base", None) in (builtins.float, builtins.int):
        return "f" if dt.base is builtins.float else "i"
    k = _np.dtype(dt).kind
    return "b" if k == "b" else "i" if k in "iu" else "f" if k == "f" else k


@always("dtype")
def dtype(x, *a, **k):
    if isinstance(x, A.SDtype):
        return x
    return _np.dtype(x, *a, **k)


@dual("argsort")
def argsort(x, axis=-1, kind=None, order=None, stable=None):
    """A permutation that sorts the array (and its inverse)."""
    x = arr(x)
    if len(x.axes) != 1 or axis not in (-1, 0) or order is not None or x.axes[0].cond is not None:
        raise Unsupported("argsort of this kind")
    n = x.axes[0].n
    i = fresh("i")
    with assuming(x.axes[0].rng(i)):
        e = x.el(i)
    if len(e.t) == 1:
        a = atom_of(e) if e.t and list(e.t.values())[0] == 1 and len(list(e.t)[0]) == 1 else None
        if a is not None and a.kind == "f" and a.name in PY.INVERSES and PY.PERM[a.name] is n and a.args[0] is i:
            return SArr(x.axes, lambda j: PY.app(PY.INVERSES[a.name], j), "i")
    e = PY.subst(e, {atom_of(i): PY.var("#argsort")})
    if PY.loop_variables(e, n) or "acc~" in e.key:
        raise Unsupported("sorting an array that depends on a loop")
    name, inv = "argsort%d" % SORTS.setdefault((e, n), len(SORTS)), "rank%d" % SORTS[(e, n)]
    if name not in PY.PERM:
        PY.INTS.update([name, inv])
        PY.PERM[name] = PY.PERM[inv] = n
        PY.INVERSES[name], PY.INVERSES[inv] = inv, name
    v, w = fresh("v"), fresh("v")
    for f in (name, inv):
        PY.CTX.append(PY.forall(atom_of(v), n, conj(cmp0("le", -PY.app(f, v)), cmp0("lt", PY.app(f, v) - n))))
    g = x.snap()
    at = lambda k: PY.subst(e, {atom_of(PY.var("#argsort")): PY.app(name, k)})
    # in order of the values; of equal values, the one that came first (stable kinds)
    both = cmp0("le", at(v) - at(w))
    if kind in ("mergesort", "stable") or stable:
        both = conj(both, disj(neg(cmp0("eq", at(v) - at(w))), cmp0("lt", PY.app(name, v) - PY.app(name, w))))
    PY.CTX.append(PY.forall(atom_of(v), n, PY.forall(atom_of(w), n, disj(cmp0("le", w - v), both))))
    return SArr(x.axes, lambda j: PY.app(name, j), "i")


SORTS = {}
UNIQUES = {}


@always("unique")
def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    """The different values, each once, in ascending order (of the strings for arrays of strings)."""
    x = arr(x)
    if len(x.axes) != 1 or axis not in (None, 0) or return_index or return_inverse or return_counts or k or x.axes[0].cond is not None:
        raise Unsupported("unique of this kind")
    n = x.axes[0].n
    i = fresh("i")
    with assuming(x.axes[0].rng(i)):
        e = x.el(i)
    g = x.snap()
    key = (PY.subst(e, {atom_of(i): PY.var("#unique")}), n)
    if PY.loop_variables(*key) or "acc~" in e.key:
        raise Unsupported("unique of an array that depends on a loop")
    j = UNIQUES.setdefault(key, len(UNIQUES))
    name, m, which, first = "unique%d" % j, PY.var("nunique%d" % j, integer=True), "which%d" % j, "first%d" % j
    PY.INJECTIVE.add(name)
    PY.INTS.update([which, first] + ([name] if x.dtype_ in "sib" else []))
    PY.NONNEG.add("nunique%d" % j)
    if x.dtype_ == "s":
        PY.NONNEG.add(name)
    v = fresh("v")
    PY.CTX.append(conj(cmp0("le", m - n), disj(cmp0("le", n), cmp0("lt", -m))))
    # every value is in the list; every entry of the list is a value
    PY.CTX.append(PY.forall(atom_of(v), n, conj(cmp0("le", -PY.app(which, v)), cmp0("lt", PY.app(which, v) - m), cmp0("eq", PY.app(name, PY.app(which, v)) - num(g(v))))))
    PY.CTX.append(PY.forall(atom_of(v), m, conj(cmp0("le", -PY.app(first, v)), cmp0("lt", PY.app(first, v) - n), cmp0("eq", PY.app(name, v) - num(g(PY.app(first, v)))))))
    if x.dtype_ != "s":
        w = fresh("v")
        PY.CTX.append(PY.forall(atom_of(v), m, PY.forall(atom_of(w), m, disj(cmp0("le", w - v), cmp0("lt", PY.app(name, v) - PY.app(name, w))))))
    r = SArr((Axis(m),), lambda u: PY.app(name, u), x.dtype_)
    if x.dtype_ == "s":
        r.width = getattr(x, "width", None)
    return r


@always("isin")
def isin(x, values, **k):
    """True where an element is one of the values."""
    if k:
        raise Unsupported("isin options")
    values = arr(values)
    if not values.axes:
        values = atleast_1d(values)
    if len(values.axes) != 1:
        values = values.flatten()
    ax, f = values.axes[0], values.snap()

    def one(p):
        v = fresh("v")
        with assuming(ax.rng(v)):
            c = cmp0("eq", p - num(f(v)))
        return neg(PY.forall(atom_of(v), ax.n, disj(neg(c), neg(ax.cond(v) if ax.cond else TRUE))))
    return umap(one, arr(x), "b")


@always("array")
def array(x, dtype=None, copy=True, **k):
    if not numeric(x):
        from .exec import CvList

        if isinstance(x, CvList):
            x = list(x)
        return _np.array(x, dtype=dtype, **k)
    a = arr(x)
    a = a.copy() if a.axes else a.copy()
    if a.dtype_ == "s":
        if dtype is not None and _kind(dtype) != "U":
            raise Unsupported("numbers from strings")
        a.width = PY.var(fresh("width").key, integer=True)       # wide enough for each of them
        return a
    if dtype is not None and _kind(dtype) != a.dtype_:
        return a.astype(_kind(dtype))
    return a


@always("asarray")
def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or _kind(dtype) == x.dtype_):
        return x
    return array(x, dtype, **k)


NP["asanyarray"] = NP["ascontiguousarray"] = asarray


def shape_of(s):
    from .exec import CvList, SSeq

    if isinstance(s, (list, tuple)):
        return tuple(s)
    return (s,)


@always("zeros")
def zeros(shape, dtype=None, **k):
    if dtype is not None and not isinstance(dtype, A.SDtype) and _kind(dtype) == "U":
        dtype = A.SDtype(builtins.max(_np.dtype(dtype).itemsize // 4, 1))
    if isinstance(dtype, A.SDtype):
        r = A.full_arr(shape_of(shape), P0, "s")      # empty strings
        r.width = dtype.width
        return r
    kd = _kind(dtype)
    if kd not in "bif":
        return _np.zeros(shape, dtype)
    return A.full_arr(shape_of(shape), P0, kd)


@always("ones")
def ones(shape, dtype=None, **k):
    return A.full_arr(shape_of(shape), P1, _kind(dtype))


@always("empty")
def empty(shape, dtype=None, **k):
    s = shape_of(shape)
    n = "garbage%d" % SArr._count
    axes = [x if isinstance(x, Axis) else Axis(num(x)) for x in s]
    kd = _kind(dtype)
    if kd == "b":
        return SArr(axes, lambda *i: PY.pred(n, *i), "b")
    if kd == "i":
        PY.INTS.add(n)
    return SArr(axes, lambda *i: PY.app(n, *i), kd)


@always("full")
def full(shape, v, dtype=None):
    kd = _kind(dtype) if dtype is not None else ("b" if isinstance(v, (bool, SBool)) else "i" if PY.is_int_poly(num(v)) and not isinstance(v, float) else "f")
    return A.full_arr(shape_of(shape), num(v), kd)


def like(x, p, dtype):
    x = arr(x)
    kd = _kind(dtype, x.dtype_)
    v = p
    if kd == "b":
        v = neg(cmp0("eq", p))
    if kd == "i" and not PY.is_int_poly(p):
        raise Unsupported("float stored in an integer array")
    r = SArr(x.axes, lambda *i: v, kd)
    return r


@always("zeros_like")
def zeros_like(x, dtype=None, **k):
    return like(x, P0, dtype)


@always("ones_like")
def ones_like(x, dtype=None, **k):
    return like(x, P1, dtype)


@always("empty_like")
def empty_like(x, dtype=None, **k):
    x = arr(x)
    return empty([a for a in x.axes], _np.dtype({"f": float, "i": int, "b": bool}[x.dtype_]) if dtype is None else dtype)


@always("full_like")
def full_like(x, v, dtype=None, **k):
    return like(x, num(v), dtype)


@always("arange")
def arange(*a, dtype=None, **k):
    r = A.arange(*a)
    return r if dtype is None else r.astype(_kind(dtype))


@always("eye")
def eye(n, m=None, dtype=None, **k):
    if m is not None:
        raise Unsupported("eye(n, m)")
    return A.eye(n)


NP["identity"] = eye


@always("linspace")
def linspace(a, b, num=50, **k):
    a, b, n = A.num(a), A.num(b), A.num(num)
    if k.pop("endpoint", True) is False:
        return SArr((Axis(n),), lambda i: a + i * (b - a) / n)
    for key, v in k.items():
        if (key, v) != ("retstep", False):
            raise Unsupported("linspace option %s" % key)
    # a + i (b - a)/(n - 1); n = 1 gives a
    if n.const is not None and n.const == 1:
        return SArr((Axis(P1),), lambda i: a)
    if decide(cmp0("le", P(2) - n)) is True:
        return SArr((Axis(n),), lambda i: a + i * (b - a) / (n - P1))
    with assuming(cmp0("le", P(2) - n)):
        pass
    one = cmp0("eq", n - P1)
    if A.EXPLORER[0].branch(one):
        return SArr((Axis(n),), lambda i: a)
    return SArr((Axis(n),), lambda i: a + i * (b - a) / (n - P1))


@always("logspace")
def logspace(a, b, num=50, base=10.0, **k):
    x = linspace(a, b, num, **k)
    return umap(lambda p: PY.power_sym(P(10) if base == 10.0 else A.num(base), p), x)


@dual("ndim")
def ndim(x):
    return 0 if is_scalar(x) else arr(x).ndim


@dual("shape")
def shape(x):
    return arr(x).shape


@dual("size")
def size(x):
    return arr(x).size


@always("sum")
def sum_(x, axis=None, **k):
    from . import exec as E

    if E.is_symbolic_iterable(x) and axis is None and not isinstance(x, SArr):
        t = P0
        for p in E.seq(x).parts:
            g = lambda v: A.asum(v, None) if not isinstance(v, builtins.tuple) else builtins.sum((A.asum(e, None) for e in v[1:]), A.asum(v[0], None))
            t = t + (num(g(p.value)) if isinstance(p, E.Elem) else p.axis.sum(lambda k: num(g(p.get(k)))))
        return SNum(t)
    if isinstance(x, (list, tuple)) and not numeric(x):
        raise Unsupported("sum of objects")
    return A.asum(x, axis)


@always("mean")
def mean(x, axis=None):
    return A.mean(x, axis)


@always("prod")
def prod(x, axis=None):
    x = arr(x)
    if axis is not None:
        raise Unsupported("prod axis")
    if not x.axes:
        return out(x)
    if len(x.axes) == 1 and x.axes[0].n.const is not None:
        r = P1
        for j in builtins.range(int(x.axes[0].n.const)):
            r = r * x.el(P(j))
        return SNum(r)
    f = x.snap()
    if len(x.axes) == 1 and x.axes[0].cond is None:
        return SNum(PY.lam_atom("prod", "", [x.axes[0].n], [lambda i: tonum(f(i))], []))
    raise Unsupported("prod")


@always("any")
def any_(x, axis=None):
    return A.a_any(x, axis)


@always("all")
def all_(x, axis=None):
    return A.a_all(x, axis)


for _n in ("min", "amin"):
    NP[_n] = lambda x, axis=None: A.EXPLORER[0].extremum("min", arr(x), axis)
for _n in ("max", "amax"):
    NP[_n] = lambda x, axis=None: A.EXPLORER[0].extremum("max", arr(x), axis)


@always("dot")
def dot(a, b):
    return A.dot(a, b)


NP["matmul"] = dot


@always("outer")
def outer(a, b):
    return A.outer(a, b)


@always("einsum")
def einsum(spec, *ops, **k):
    return A.einsum(spec, *ops)


@always("tensordot")
def tensordot(a, b, axes=2):
    a, b = arr(a), arr(b)
    if isinstance(axes, int):
        la = list(range(len(a.axes) - axes, len(a.axes)))
        lb = list(range(axes))
    else:
        la, lb = [list(x) if isinstance(x, (list, tuple)) else [x] for x in axes]
    na, nb = len(a.axes), len(b.axes)
    L = "abcdefghijklmnop"
    sa = L[:na]
    sb = list(L[na:na + nb])
    for x, y in zip(la, lb):
        sb[y % nb] = sa[x % na]
    sb = "".join(sb)
    res = "".join(c for c in sa if c not in sb) + "".join(c for c in sb if c not in sa)
    return A.einsum("%s,%s->%s" % (sa, sb, res), a, b)


def seqargs(xs):
    from .exec import CvList, SSeq

    if isinstance(xs, (CvList, SSeq)):
        return list(xs)
    if isinstance(xs, SArr):
        return list(xs)
    return list(xs)


def tri(lower):
    def f(x, k=0):
        if hasattr(x, "__cv_tri__") and k == 0:
            return x.__cv_tri__(lower)
        x, k = arr(x), num(k)
        f = x.snap()
        if len(x.axes) != 2:
            raise Unsupported("tril/triu")
        inside = lambda i, j: cmp0("le", j - i - k) if lower else cmp0("le", i - j + k)
        return SArr(x.axes, lambda i, j: iverson(inside(i, j)) * f(i, j), x.dtype_)
    return f


NP["tril"], NP["triu"] = tri(True), tri(False)


@always("concatenate")
def concatenate(xs, axis=0, **k):
    from .exec import is_symbolic_iterable, SSeq, CvList

    if is_symbolic_iterable(xs):
        return concat_seq(xs, axis)
    xs = seqargs(xs)
    if not builtins.all(numeric(x) for x in xs):
        return _np.concatenate(xs, axis=axis)
    return A.concat(xs, axis)


def concat_seq(xs, axis):
    from . import exec as E

    out = []
    for p in E.seq(xs).parts:
        if isinstance(p, E.Elem):
            out.append(arr(p.value))
            continue
        v = fresh("k")
        with assuming(p.axis.rng(v)):
            a = arr(p.get(v))
        if len(a.axes) != 1 or axis != 0:
            raise Unsupported("concatenation of a symbolic number of matrices")
        ax, grp, off = E.flatten(p.axis, lambda k, p=p: arr(p.get(k)).axes[0])
        out.append(SArr((ax,), lambda i, p=p, grp=grp, off=off: arr(p.get(grp(i))).el(off(i)), a.dtype_))
    return out[0] if len(out) == 1 else A.concat(out, 0)


@always("hstack")
def hstack(xs):
    xs = [atleast_1d(x) for x in seqargs(xs)]
    return A.concat(xs, 0 if len(xs[0].axes) == 1 else 1)


@always("vstack")
def vstack(xs):
    xs = [arr(x) for x in seqargs(xs)]
    return A.concat([x if len(x.axes) > 1 else x[None, :] for x in xs], 0)


@always("column_stack")
def column_stack(xs):
    xs = [arr(x) for x in seqargs(xs)]
    return A.concat([x if len(x.axes) > 1 else x[:, None] for x in xs], 1)


@always("stack")
def stack(xs, axis=0):
    return A.stack(seqargs(xs), axis)


@always("diff")
def diff(x, n=1, axis=-1, **k):
    return A.diff(x, n, axis, **k)


@always("repeat")
def repeat(x, r, axis=None):
    return A.repeat(x, r, axis)


@always("tile")
def tile(x, reps):
    return A.tile(x, reps)


@always("diag")
def diag(x, k=0):
    if k:
        raise Unsupported("diag offset")
    if hasattr(x, "__cv_diag__"):
        return x.__cv_diag__()
    return A.diag(x)


@always("cross")
def cross(a, b, **k):
    return A.cross(a, b)


@always("cumsum")
def cumsum(x, axis=None):
    x = arr(x)
    if len(x.axes) != 1 or x.axes[0].cond is not None:
        raise Unsupported("cumsum")
    f = x.snap()

    def g(i):
        v = fresh("s")
        with assuming(cmp0("le", -v), cmp0("le", v - i)):
            b = tonum(f(v))
        return PY.summation(v, i + P1, b)

    return SArr(x.axes, g, "i" if x.dtype_ in "bi" else "f")


@always("interp")
def interp(x, xp, fp, **k):
    """Piecewise linear interpolation: a linear combination of the ordinates whose weights depend on x and the abscissae only."""
    if k:
        raise Unsupported("interp options")
    xp, fp = arr(xp), arr(fp)
    if len(xp.axes) != 1 or len(fp.axes) != 1 or xp.axes[0].cond is not None or not xp.axes[0].same(fp.axes[0]):
        raise Unsupported("interp")
    f, g, n = fp.snap(), xp.snap(), xp.axes[0].n
    w = lambda p, j: PY.lam_atom("interp", "", [n], [lambda i: tonum(g(i))], [p, j])
    return umap(lambda p: xp.axes[0].sum(lambda j: w(p, j) * tonum(f(j))), x) if not is_scalar(x) else SNum(xp.axes[0].sum(lambda j: w(num(x), j) * tonum(f(j))))


@dual("where")
def where(c, *ab):
    return A.where(c, *ab)


@dual("array_equal")
def array_equal(a, b):
    return A.arr_equal(a, b)


def strings(x):
    """A list of strings, possibly of symbolic length."""
    from .exec import SStr, CvList, SSeq, Elem, seq

    if isinstance(x, CvList) and not x.concrete() or isinstance(x, SSeq):
        for p in seq(x).parts:
            v = fresh("v")
            if not isinstance(p.value if isinstance(p, Elem) else p.get(v), (str, SStr)):
                return False
        return bool(seq(x).parts)
    return isinstance(x, (list, tuple)) and len(x) > 0 and all(isinstance(e, (str, SStr)) for e in x)


@always("atleast_1d")
def atleast_1d(x):
    from .exec import CvList, SStr

    if isinstance(x, (str, SStr)):
        return CvList([x])
    if strings(x):
        return x
    x = arr(x)
    if not x.axes:
        f = x.snap()
        return SArr((Axis(P1),), lambda i: f(), x.dtype_)
    return x


@always("atleast_2d")
def atleast_2d(x):
    x = atleast_1d(x)
    return x[None, :] if len(x.axes) == 1 else x


@always("squeeze")
def squeeze(x):
    return arr(x).squeeze()


@always("transpose")
def transpose(x, axes=None):
    x = arr(x)
    return x.T if axes is None else x.transpose(*axes)


@always("ravel")
def ravel(x):
    return arr(x).flatten()


@always("isnan")
def isnan(x):
    if hasattr(x, "__cv_isnan__"):
        return SBool(TRUE)
    if is_scalar(x):
        return SBool(FALSE)
    return umap(lambda p: FALSE, x, "b")


@always("isfinite")
def isfinite(x):
    if is_scalar(x):
        return SBool(TRUE)
    return umap(lambda p: TRUE, x, "b")


def _logical(name, f):
    def g(a, b, **k):
        USED.add("numpy." + name)
        a, b = arr(a), arr(b)
        tc = lambda c: c if isinstance(c, Cond) else neg(cmp0("eq", c))
        return A.f_arr(lambda x, y: f(tc(x), tc(y)), a, b, True, raw=True)

    NP[name] = g


_logical("logical_and", conj)
_logical("logical_or", disj)


@always("logical_not")
def logical_not(x):
    if isinstance(x, (SBool, bool)):
        return SBool(neg(A.cnd(x)))
    x = arr(x)
    return ~(x if x.dtype_ == "b" else x.astype(bool))


def _mm(name, kind):
    def g(a, b):
        USED.add("numpy." + name)
        return A.f_arr(lambda x, y: PY.ite(cmp0("le", x - y) if kind == "min" else cmp0("le", y - x), x, y), a, b)

    NP[name] = g


_mm("minimum", "min")
_mm("maximum", "max")


@always("allclose")
def allclose(a, b, **k):
    raise Unsupported("allclose")


@always("meshgrid")
def meshgrid(a, b, indexing="xy", **k):
    a, b = arr(a), arr(b)
    fa, fb = a.snap(), b.snap()
    x, y = a.axes[0], b.axes[0]
    if indexing == "ij":
        return [SArr((x, y), lambda i, j: fa(i), a.dtype_), SArr((x, y), lambda i, j: fb(j), b.dtype_)]
    return [SArr((y, x), lambda i, j: fa(j), a.dtype_), SArr((y, x), lambda i, j: fb(i), b.dtype_)]


@always("ix_")
def ix_(*xs):
    return A.Ix([arr(x) for x in xs])


@always("heaviside")
def heaviside(x, h):
    return A.f_arr(lambda p, q: iverson(cmp0("lt", -p)) + iverson(cmp0("eq", p)) * q, x, h)


@always("flatnonzero")
def flatnonzero(x):
    return A.WhereIdx(arr(x))


@always("nonzero")
def nonzero(x):
    return (A.WhereIdx(arr(x)),)


class Random:
    """numpy.random: draw j after a seed is a function of the seed, of j and of the position only."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.state, self.count, self.log = P(0), 0, []

    def seed(self, s=None):
        self.state, self.count = num(s), 0
        self.log.append(("seed", self.state))

    def draw(self, kind, size, *params, **k):
        j, st = self.count, self.state
        self.count += 1
        self.log.append((kind, st, j))
        ps = [arr(p) for p in params if not is_scalar(p)]
        pa = A.broadcast(*ps) if ps else ()
        axes = list(pa) if size is None else [x if isinstance(x, Axis) else Axis(num(x)) for x in shape_of(size)]
        if size is not None and len(pa) == 1 and len(axes) == 1 and pa[0].cond is not None and decide(cmp0("eq", pa[0].length() - axes[0].n)) is True:
            axes = list(pa)   # as many draws as there are parameters
        r = SArr(axes, lambda *i: PY.app("random.%s" % kind, st, P(j), *i, **k))
        return out(r)

    def uniform(self, low=0.0, high=1.0, size=None):
        USED.add("numpy.random.uniform")
        return low + (high - low) * self.draw("uniform", size, low, high, nonneg=True)

    def normal(self, loc=0.0, scale=1.0, size=None):
        USED.add("numpy.random.normal")
        return loc + scale * self.draw("normal", size, loc, scale)

    def randn(self, *s):
        USED.add("numpy.random.randn")
        return self.draw("normal", s if s else None)

    def standard_normal(self, size=None):
        USED.add("numpy.random.standard_normal")
        return self.draw("normal", size)

    def __getattr__(self, a):
        raise Unsupported("no contract for numpy.random.%s" % a)


NP["random"] = RANDOM = Random()


class Mod(types.ModuleType):
    """A library module seen by the code under contract."""

    def __init__(self, name, table, real=None, consts=()):
        types.ModuleType.__init__(self, name)
        self.__dict__["_t"], self.__dict__["_r"], self.__dict__["_n"] = table, real, name

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        t = self.__dict__["_t"]
        if a in t:
            return t[a]
        r = getattr(self.__dict__["_r"], a)
        if isinstance(r, type) or not callable(r):
            return r
        full = self.__dict__["_n"] + "." + a

        def guarded(*x, **k):
            if builtins.any(symbolic(e) for e in x) or builtins.any(symbolic(e) for e in k.values()):
                raise Unsupported("no contract for %s" % full)
            return r(*x, **k)

        guarded.__name__ = a
        return guarded


LINALG = {}
NP["pi"] = SNum(PY.PI)
NP["linalg"] = None
NUMPY = Mod("numpy", NP, _np)

import scipy as _scipy, scipy.special, scipy.linalg, scipy.sparse, scipy.stats, scipy.interpolate, scipy.integrate  # noqa: E402

NP["linalg"] = NPLIN = Mod("numpy.linalg", LINALG, _np.linalg)


def abstract(name, arity, integer=False, pos=False, nonneg=False):
    """An elementwise library function of which nothing but extensionality is used."""

    def g(*a, **k):
        if k:
            raise Unsupported("%s with options" % name)
        USED.add(name + " (abstract)")
        f = lambda *p: PY.fn(name, *p)
        if builtins.all(is_scalar(x) for x in a):
            return SNum(f(*[num(x) for x in a]))
        xs = [arr(x) for x in a]
        axes = A.broadcast(*xs)
        fs = [A.bcast_fn(x, axes) for x in xs]
        return out(SArr(axes, lambda *i: f(*[tonum(h(*i)) for h in fs])))

    return g


SPECIAL = dict(erf=abstract("erf", 1), jn=abstract("jn", 2), sph_harm=abstract("sph_harm", 4))


class _Dist:
    def __init__(self, name, **defaults):
        self.name, self.defaults = name, defaults

    def _call(self, what, x, *a, **k):
        loc, scale = k.pop("loc", 0), k.pop("scale", 1)
        # standard distribution at (x - loc)/scale
        z = (x - loc) / scale if what == "pdf" else x
        g = abstract("%s.%s" % (self.name, what), 1)(z, *a)
        return g / scale if what == "pdf" else loc + scale * g

    def pdf(self, x, *a, **k):
        return self._call("pdf", x, *a, **k)

    def ppf(self, x, *a, **k):
        return self._call("ppf", x, *a, **k)


class _UniformDist(_Dist):
    def ppf(self, x, loc=0, scale=1):
        # on 0 <= x <= 1 (scipy: nan outside, and for scale <= 0)
        USED.add("scipy.stats.uniform.ppf")
        return loc + scale * x


STATS = dict(uniform=_UniformDist("uniform"), norm=_Dist("norm"), invgamma=_Dist("invgamma"))
SCIPY = {}
SL, SPS = {}, {}
SCIPY.update(special=Mod("scipy.special", SPECIAL, scipy.special), stats=Mod("scipy.stats", STATS, scipy.stats),
             linalg=Mod("scipy.linalg", SL, scipy.linalg), sparse=Mod("scipy.sparse", SPS, scipy.sparse),
             constants=_sc, interpolate=Mod("scipy.interpolate", {}, scipy.interpolate), integrate=Mod("scipy.integrate", {}, scipy.integrate))
SCIPYM = Mod("scipy", SCIPY, _scipy)
EXTRA = {}   # other modules given by contracts: name -> Mod


def external(name, fromlist):
    if name == "numpy":
        return NUMPY
    if name == "scipy":
        return SCIPYM
    if name.startswith("scipy."):
        sub = name.split(".")[1]
        if sub not in SCIPY:
            return None
        return SCIPY[sub] if fromlist else SCIPYM
    if name in EXTRA:
        return EXTRA[name]
    return None
