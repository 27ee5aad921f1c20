"""Symbolic numbers, conditions and arrays with the numpy interface the code under contract uses.

An array is a tuple of axes and a function from index terms to the element's term. An axis is a range of a symbolic
length, or the part of such a range on which a condition holds (what boolean-mask indexing gives); the index of an
element of a masked axis is the index it has in the full range."""
from fractions import Fraction
import builtins
import numpy as _np
from . import poly as PY
from .poly import P, P0, P1, Poly, Cond, TRUE, FALSE, Unsupported, fresh, atom_of, subst, csubst, conj, disj, neg, cmp0, pred, iverson, ite, decide, assuming, app

EXPLORER = [None]   # the path explorer in force (cv.sym.exec)
HOOKS = dict(mutate=lambda obj: None)


# ------------------------------------------------------------------------------------------------ scalars
def num(x):
    if isinstance(x, SNum):
        return x.p
    if isinstance(x, SBool):
        return iverson(x.c)
    if isinstance(x, SArr) and not x.axes:
        return x.el()
    return P(x)


def cnd(x):
    if isinstance(x, SBool):
        return x.c
    if isinstance(x, (bool, _np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, SArr) and not x.axes:
        return x.elc()
    if isinstance(x, Cond):
        return x
    return neg(cmp0("eq", num(x)))


def wrap(p):
    return SNum(p)


class SBool:
    __slots__ = ("c",)
    __array_ufunc__ = None

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return EXPLORER[0].branch(self.c)

    def __and__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(conj(self.c, cnd(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(disj(self.c, cnd(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(neg(self.c))

    def __eq__(self, o):
        if not isinstance(o, (SBool, bool, _np.bool_)):
            return NotImplemented
        o = cnd(o)
        return SBool(disj(conj(self.c, o), conj(neg(self.c), neg(o))))

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def _n(self):
        return SNum(iverson(self.c))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __repr__(self):
        return "SBool(%s)" % PY.show_cond(self.c)


def is_scalar(x):
    return isinstance(x, (SNum, SBool, int, float, Fraction, _np.number, _np.bool_)) and not isinstance(x, SArr)


class SNum:
    """A symbolic number (python or numpy scalar)."""
    __slots__ = ("p",)
    __array_ufunc__ = None
    shape = ()
    ndim = 0

    def __init__(self, p):
        self.p = P(p)

    def _b(self, o, f):
        if is_scalar(o):
            return SNum(f(self.p, num(o)))
        if isinstance(o, _np.ndarray):
            return f_arr(f, self, o)
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        if hasattr(o, "concrete"):
            return NotImplemented
        if isinstance(o, (list, str)):
            return o * self.__index__()
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, str)):
            return o * self.__index__()
        return self._b(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: b / a)

    def __floordiv__(self, o):
        return self._b(o, PY.floordiv)

    def __rfloordiv__(self, o):
        return self._b(o, lambda a, b: PY.floordiv(b, a))

    def __mod__(self, o):
        return self._b(o, PY.mod)

    def __pow__(self, o):
        return self._b(o, PY.power_sym)

    def __rpow__(self, o):
        return self._b(o, lambda a, b: PY.power_sym(b, a))

    def __neg__(self):
        return SNum(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(PY.fn("abs", self.p))

    def _c(self, o, f):
        if o is None or isinstance(o, str):
            return NotImplemented
        if is_scalar(o):
            return SBool(f(self.p, num(o)))
        if isinstance(o, _np.ndarray):
            return f_arr(f, self, o, True)
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: cmp0("lt", a - b))

    def __le__(self, o):
        return self._c(o, lambda a, b: cmp0("le", a - b))

    def __gt__(self, o):
        return self._c(o, lambda a, b: cmp0("lt", b - a))

    def __ge__(self, o):
        return self._c(o, lambda a, b: cmp0("le", b - a))

    def __eq__(self, o):
        return self._c(o, lambda a, b: cmp0("eq", a - b))

    def __ne__(self, o):
        return self._c(o, lambda a, b: neg(cmp0("eq", a - b)))

    def __hash__(self):
        return self.p._h

    def __bool__(self):
        return EXPLORER[0].branch(neg(cmp0("eq", self.p)))

    def __index__(self):
        c = self.p.const
        if c is None or c.denominator != 1:
            raise Unsupported("a concrete integer is needed, got %s" % self.p)
        return int(c)

    __int__ = __index__

    def __float__(self):
        if self.p.const is None:
            raise Unsupported("a concrete number is needed, got %s" % self.p)
        return float(self.p.const)

    # numpy scalar interface
    @property
    def T(self):
        return self

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        return self

    def flatten(self):
        return SArr((Axis(P1),), lambda i: self.p)

    def sum(self):
        return self

    def __repr__(self):
        return "SNum(%s)" % PY.show(self.p)


# ------------------------------------------------------------------------------------------------ axes and arrays
class Axis:
    __slots__ = ("n", "cond", "key")

    def __init__(self, n, cond=None):
        self.n = P(n)
        self.cond = cond
        if cond is None:
            self.key = self.n.key
        else:
            v = P(PY.Atom("v", "#axis"))
            self.key = self.n.key + "|" + cond(v).key

    def rng(self, i):
        c = conj(cmp0("le", -i), cmp0("lt", i - self.n))
        return c if self.cond is None else conj(c, self.cond(i))

    def sum(self, f):
        """Sum of f(i) over the axis."""
        v = fresh("s")
        with assuming(cmp0("le", -v), cmp0("lt", v - self.n)):
            b = f(v)
            if self.cond is not None:
                b = iverson(self.cond(v)) * b
        return PY.summation(v, self.n, b)

    def length(self):
        return self.n if self.cond is None else self.sum(lambda i: P1)

    def same(self, o):
        if self is o or self.key == o.key:
            return True
        if (self.cond is None) != (o.cond is None):
            # a mask that holds everywhere, or a plain axis of the same length
            return False
        if self.cond is None:
            return decide(cmp0("eq", self.n - o.n)) is True
        if decide(cmp0("eq", self.n - o.n)) is not True:
            return False
        v = fresh("x")
        with assuming(cmp0("le", -v), cmp0("lt", v - self.n)):
            a, b = self.cond(v), o.cond(v)
            return a is b or decide(disj(conj(a, b), conj(neg(a), neg(b)))) is True

    def one(self):
        return self.cond is None and self.n.const == 1

    def __repr__(self):
        return "Axis(%s)" % self.key


def memo(f):
    d = {}

    def g(*idx):
        k = (idx, tuple(PY.CTX))
        r = d.get(k)
        if r is None:
            r = d[k] = f(*idx)
        return r

    return g


class Ix:
    """np.ix_: every combination of the indices."""

    def __init__(self, idx):
        if any(k.dtype_ != "i" or len(k.axes) != 1 for k in idx):
            raise Unsupported("ix_ of other than index arrays")
        self.idx = idx

    def holds(self, at):
        cs = []
        for k, i in zip(self.idx, at):
            a, f = k.axes[0], k.snap()
            v = fresh("v")
            if f(v) is v:
                cs.append(a.rng(i))
            else:
                raise Unsupported("storing at computed indices by np.ix_")
        return conj(*cs)


class SArr:
    """dtype: 'f' numbers, 'i' integers, 'b' conditions."""
    __array_priority__ = 1000
    __array_ufunc__ = None
    _count = 0

    def __init__(self, axes, fn, dtype="f", vw=None, name=None):
        self.axes = tuple(axes)
        self._fn = fn if vw is not None else memo(fn)
        self.dtype_ = dtype
        self.vw = vw
        self.name = name
        self.version = 0
        SArr._count += 1
        self.uid = SArr._count

    # ---- element access
    def snap(self):
        """The present contents, as a function (later changes of the array do not show)."""
        if self.vw is not None:
            base, m, _ = self.vw
            f = base.snap()
            return lambda *i: f(*m(*i))
        return self._fn

    def el(self, *idx):
        r = self.snap()(*[P(i) for i in idx])
        return iverson(r) if isinstance(r, Cond) else r

    def elc(self, *idx):
        r = self.snap()(*[P(i) for i in idx])
        return r if isinstance(r, Cond) else neg(cmp0("eq", r))

    def set_fn(self, fn):
        if self.vw is not None:
            raise Unsupported("replacing a view's function")
        HOOKS["mutate"](self)
        self._fn = memo(fn)
        self.version += 1

    # ---- shape
    @property
    def dtype(self):
        if self.width is not None:
            return SDtype(self.width)
        return _np.dtype({"f": float, "i": int, "b": bool, "s": "U42"}[self.dtype_])

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(wrap_size(a.length()) for a in self.axes)

    @property
    def size(self):
        r = P1
        for a in self.axes:
            r = r * a.length()
        return wrap_size(r)

    def __len__(self):
        return EXPLORER[0].py_len(self)

    @property
    def T(self):
        if len(self.axes) < 2:
            return self
        return SArr(self.axes[::-1], None, self.dtype_, vw=(self, lambda *i: i[::-1], lambda *i: (TRUE, i[::-1])))

    def transpose(self, *ax):
        if not ax:
            return self.T
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        inv = [ax.index(i) for i in range(len(ax))]
        return SArr([self.axes[i] for i in ax], None, self.dtype_, vw=(self, lambda *i: tuple(i[j] for j in inv), lambda *i: (TRUE, tuple(i[j] for j in ax))))

    def copy(self, *a, **k):
        r = SArr(self.axes, self.snap(), self.dtype_)
        return r if self.tag is None else retag(r, self.tag)

    __copy__ = copy

    def astype(self, t, copy=True, **k):
        t = _np.dtype(t) if not isinstance(t, str) or True else t
        kind = "b" if t.kind == "b" else "i" if t.kind in "iu" else "f"
        f = self.snap()
        if kind == "b" and self.dtype_ != "b":
            return SArr(self.axes, lambda *i: neg(cmp0("eq", f(*i))), "b")
        if kind == "i" and self.dtype_ == "f":
            vs = [fresh("i") for _ in self.axes]
            with assuming(*[a.rng(v) for a, v in zip(self.axes, vs)]):
                if not PY.is_int_poly(f(*vs)):
                    raise Unsupported("float array cast to int")
        if kind != "b" and self.dtype_ == "b":
            return SArr(self.axes, lambda *i: iverson(f(*i)), kind)
        return SArr(self.axes, f, kind)

    def ravel(self):
        return self.flatten()

    def flatten(self, order="C"):
        if len(self.axes) == 1:
            return self.copy()
        if len(self.axes) == 0:
            f = self.snap()
            return SArr((Axis(P1),), lambda i: f(), self.dtype_)
        if len(self.axes) == 2 and all(a.cond is None for a in self.axes):
            f, n1 = self.snap(), self.axes[1].n
            if order == "F":
                n0 = self.axes[0].n
                return SArr((Axis(n0 * n1),), lambda i: f(PY.mod(i, n0), PY.floordiv(i, n0)), self.dtype_)
            return SArr((Axis(self.axes[0].n * n1),), lambda i: f(PY.floordiv(i, n1), PY.mod(i, n1)), self.dtype_)
        raise Unsupported("flatten")

    def reshape(self, *sh, **kw):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if len(sh) == 1 and isinstance(sh[0], int) and sh[0] == -1:
            return self.flatten()
        return self._reshape(sh)

    def _reshape(self, sh):
        if any(a.cond is not None for a in self.axes):
            raise Unsupported("reshape of a masked axis")
        new = [P(s.p if isinstance(s, SNum) else s) for s in sh]
        if any(s.const == -1 for s in new):
            known, tot = P1, P1
            for s in new:
                known = known * (s if s.const != -1 else P1)
            for a in self.axes:
                tot = tot * a.n
            new = [tot * PY.power(known, -1) if s.const == -1 else s for s in new]
        # groups of axes with equal products
        groups, i, j, old = [], 0, 0, [a.n for a in self.axes]
        while i < len(old) or j < len(new):
            a, b, po, pn = i, j, P1, P1
            first = True
            while first or decide(cmp0("eq", po - pn)) is not True:
                first = False
                if (len(po.t) and po.key.count("*") + (0 if po.const is None else 0) <= pn.key.count("*") and i < len(old) and not (po.const is not None and pn.const is not None and po.const > pn.const)) or j >= len(new):
                    if i >= len(old):
                        raise Unsupported("reshape")
                    po = po * old[i]
                    i += 1
                else:
                    pn = pn * new[j]
                    j += 1
            groups.append((list(range(a, i)), list(range(b, j))))
        f = self.snap()

        def g(*idx):
            full = [P0] * len(old)
            for os_, ns in groups:
                lin = P0
                for k in ns:
                    lin = lin * new[k] + idx[k]
                for n_, k in enumerate(os_):
                    stride = P1
                    for l in os_[n_ + 1:]:
                        stride = stride * old[l]
                    q = PY.floordiv(lin, stride)
                    full[k] = q if n_ == 0 else PY.mod(q, old[k])
            return f(*full)

        return SArr([Axis(x) for x in new], g, self.dtype_)

    def _reshape1(self, sh):
        # adding or dropping axes of length one only
        old = [a for a in self.axes if not a.one()]
        new, k = [], 0
        for s in sh:
            s = P(s.p if isinstance(s, SNum) else s)
            if s.const == 1:
                new.append(None)
            else:
                if k >= len(old) or (s.const != -1 and decide(cmp0("eq", s - old[k].n)) is not True):
                    raise Unsupported("reshape")
                new.append(k)
                k += 1
        if k != len(old):
            raise Unsupported("reshape")
        f, keep = self.snap(), [i for i, a in enumerate(self.axes) if not a.one()]

        def g(*idx):
            full = [P0] * len(self.axes)
            for j, s in enumerate(new):
                if s is not None:
                    full[keep[s]] = idx[j]
            return f(*full)

        return SArr([Axis(P1) if s is None else old[s] for s in new], g, self.dtype_)

    def squeeze(self):
        return self.reshape(*[a.n if a.cond is None else -1 for a in self.axes if not a.one()])

    # ---- indexing
    def _key(self, key):
        """(new axes, map from new indices to indices here, list of mask functions, scatter info)."""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n_real = builtins.sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, SArr) and k.dtype_ == "b" and len(k.axes) > 1))
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key[i:i + 1] = [slice(None)] * (len(self.axes) - n_real)
        used = builtins.sum(1 for k in key if k is not None)
        key += [slice(None)] * (len(self.axes) - used)
        axes, maps, ax = [], [], 0
        gathers = []
        for k in key:
            if k is None:
                axes.append(Axis(P1))
                maps.append(("new",))
                continue
            a = self.axes[ax]
            if hasattr(k, "__cv_indexset__"):
                k = k.__cv_indexset__(a)
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    axes.append(a)
                    maps.append(("ax", lambda i: i, lambda j: (TRUE, j)))
                else:
                    na, fwd, bwd = self._slice(a, k)
                    axes.append(na)
                    maps.append(("ax", fwd, bwd))
            elif isinstance(k, (SNum, int, _np.integer)) and not isinstance(k, bool):
                i = num(k)
                if a.cond is not None:
                    if i.const is None or i.const not in (0, -1):
                        raise Unsupported("element of a masked axis")
                    maps.append(("fix", HOOKS["extreme"](a, i.const == 0)))
                    ax += 1
                    continue
                if (i.const is not None and i.const < 0) or (i.const is None and decide(cmp0("lt", i)) is True):
                    i = i + a.n
                EXPLORER[0].need(conj(cmp0("le", -i), cmp0("lt", i - a.n)), IndexError, "index %s in an axis of length %s" % (i, a.n))
                maps.append(("fix", i))
            elif isinstance(k, SArr) and k.dtype_ == "b" or isinstance(k, _np.ndarray) and k.dtype == bool:
                k = arr(k)
                if len(k.axes) != 1:
                    raise Unsupported("mask of several dimensions")
                if not k.axes[0].same(a):
                    raise IndexError("mask of another length")
                f = k.snap()
                old = a.cond
                na = Axis(a.n, (lambda i, f=f, old=old: conj(f(i), old(i)) if old else f(i)))
                axes.append(na)
                maps.append(("ax", lambda i: i, lambda j, f=f: (f(j), j)))
            elif isinstance(k, (SArr, _np.ndarray, list)):
                k = arr(k)
                if len(k.axes) != 1:
                    raise Unsupported("gather by a matrix")
                f = k.snap()
                gathers.append(len(maps))
                axes.append(k.axes[0])
                maps.append(("gather", f, k.axes[0], a))
            else:
                raise Unsupported("index %r" % (k,))
            ax += 1
        if len(gathers) > 1:
            # x[i, j] with two index arrays: the elements pairwise
            g0 = gathers[0]
            keep = [i for i in range(len(maps))]
            axes2, pos = [], 0
            for i, m in enumerate(maps):
                if m[0] == "fix":
                    continue
                if i in gathers[1:]:
                    if not axes[pos].same(maps[g0][2]):
                        if axes[pos].one() or maps[g0][2].one():
                            raise Unsupported("broadcast of index arrays")
                        raise IndexError("index arrays of different lengths")
                    pos += 1
                    continue
                axes2.append(axes[pos])
                pos += 1
            for i in gathers[1:]:
                maps[i] = ("with", maps[i][1], g0)
            axes = axes2
        return axes, maps

    @staticmethod
    def _slice(a, k):
        step = 1 if k.step is None else k.step
        step = num(step)
        if a.cond is not None:
            raise Unsupported("slice of a masked axis")
        if step.const == -1 and k.start is None and k.stop is None:
            return a, (lambda i: a.n - P1 - i), (lambda j: (TRUE, a.n - P1 - j))

        def bound(x, dflt):
            if x is None:
                return dflt
            x = num(x)
            if (x.const is not None and x.const < 0) or (x.const is None and decide(cmp0("lt", x)) is True):
                x = x + a.n
            # clipped at the end of the axis
            if decide(cmp0("le", x - a.n)) is True:
                if decide(cmp0("le", -x)) is True:
                    return x
                return ite(cmp0("lt", x), P0, x)
            if decide(cmp0("lt", a.n - x)) is True:
                return a.n
            x = ite(cmp0("lt", x), P0, x)
            return ite(cmp0("le", x - a.n), x, a.n)

        lo, hi = bound(k.start, P0), bound(k.stop, a.n)
        ln = hi - lo
        if decide(cmp0("lt", ln)) is not False:
            ln = ite(cmp0("lt", ln), P0, ln)
        if step.const == 1:
            return Axis(ln), (lambda i: i + lo), (lambda j: (conj(cmp0("le", lo - j), cmp0("lt", j - lo - ln)), j - lo))
        if decide(cmp0("lt", -step)) is not True:
            raise Unsupported("slice step %s" % step)
        m = PY.floordiv(ln + step - P1, step)
        return (Axis(m), (lambda i: step * i + lo),
                (lambda j: (conj(cmp0("le", lo - j), cmp0("lt", j - lo - ln), cmp0("eq", PY.mod(j - lo, step))), PY.floordiv(j - lo, step))))

    def __getitem__(self, key):
        if isinstance(key, SArr) and key.dtype_ == "b" and len(key.axes) > 1:
            raise Unsupported("mask of several dimensions")
        axes, maps = self._key(key)

        def m(*idx):
            out, j, pos = [], 0, {}
            for i, x in enumerate(maps):
                if x[0] == "new":
                    j += 1
                elif x[0] == "fix":
                    out.append(x[1])
                elif x[0] == "with":
                    out.append(x[1](pos[x[2]]))
                else:
                    pos[i] = idx[j]
                    out.append(x[1](idx[j]))
                    j += 1
            return tuple(out)

        copy = any(x[0] in ("gather", "with") for x in maps) or any(a.cond is not None and not any(a is b for b in self.axes) for a in axes)
        if not axes:
            r = self.snap()(*m())
            return SBool(r) if self.dtype_ == "b" else HOOKS["string"](r) if self.dtype_ == "s" else SNum(r)
        if copy:
            f = self.snap()
            for x in maps:
                if x[0] == "gather":
                    EXPLORER[0].check_gather(x[1], x[2], x[3])
            r = SArr(axes, lambda *i: f(*m(*i)), self.dtype_)
            r.width = self.width
            return r

        def inv(*bi):
            cs, vi, j = [], [], 0
            for x in maps:
                if x[0] == "new":
                    vi.append(P0)
                    continue
                i = bi[j]
                j += 1
                if x[0] == "fix":
                    cs.append(cmp0("eq", i - x[1]))
                else:
                    c, t = x[2](i)
                    cs.append(c)
                    vi.append(t)
            return conj(*cs), tuple(vi)

        r = SArr(axes, None, self.dtype_, vw=(self, m, inv))
        r.width = self.width
        return r

    def __setitem__(self, key, val):
        if isinstance(key, Ix):
            if not is_scalar(val):
                raise Unsupported("storing an array at np.ix_")
            for k in key.idx:
                EXPLORER[0].check_gather(k.snap(), k.axes[0], self.axes[0])
            old, v = self.snap(), num(val)
            self._store(lambda *i: sel(key.holds(i), v, old(*i)))
            return
        if isinstance(key, SArr) and key.dtype_ == "b" and len(key.axes) == len(self.axes) > 1:
            f, old = key.snap(), self.snap()
            v = arr(val)
            g = bcast_fn(v, self.axes)
            self._store(lambda *i: sel(f(*i), g(*i), old(*i)))
            return
        axes, maps = self._key(key)
        v = arr(val)
        if len(v.axes) > len(axes):
            lead = v.axes[: len(v.axes) - len(axes)]
            if not all(a.one() for a in lead):
                raise ValueError("could not broadcast")
        if len(v.axes) == len(axes):
            for k, (a, b) in enumerate(zip(v.axes, axes)):
                if b.cond is not None and a.cond is None and not a.one() and decide(cmp0("eq", a.n - b.length())) is True:
                    # the elements in order at the selected positions
                    h, cd = v.snap(), b.cond

                    def rank(i, cd=cd):
                        w = fresh("w")
                        return PY.summation(w, i, iverson(cd(w)))

                    v = SArr(v.axes[:k] + (b,) + v.axes[k + 1:], lambda *i, h=h, k=k, rank=rank: h(*(i[:k] + (rank(i[k]),) + i[k + 1:])), v.dtype_)
        g = bcast_fn(v, axes)
        old = self.snap()
        conv = self._conv(v)
        if any(x[0] in ("gather", "with") for x in maps):
            gs = [x for x in maps if x[0] == "gather"]
            ws = [x for x in maps if x[0] == "with"]
            a, f, full = gs[0][2], gs[0][1], gs[0][3]
            EXPLORER[0].check_gather(f, a, full)

            def new(*idx):
                # positions: exists c with f(c) == idx (at most one: obligation)
                def at(c):
                    cs, vi, j = [], [], 0
                    for x in maps:
                        if x[0] == "new":
                            vi.append(P0)
                            continue
                        i = idx[j]
                        j += 1
                        if x[0] == "fix":
                            cs.append(cmp0("eq", i - x[1]))
                        elif x[0] == "gather":
                            cs.append(cmp0("eq", i - f(c)))
                            vi.append(c)
                        elif x[0] == "with":
                            cs.append(cmp0("eq", i - x[1](c)))
                        else:
                            cc, t = x[2](i)
                            cs.append(cc)
                            vi.append(t)
                    return conj(*cs), vi

                hit = a.sum(lambda c: iverson(at(c)[0]))
                val = a.sum(lambda c: iverson(at(c)[0]) * tonum(conv(g(*at(c)[1]))))
                o = tonum(old(*idx))
                return val + (P1 - hit) * o

            if self.dtype_ == "b":
                raise Unsupported("scatter into a boolean array")
            EXPLORER[0].check_injective([gs[0][1]] + [w[1] for w in ws], a)
            self._store(new)
            return

        def new(*idx):
            cs, vi, j = [], [], 0
            for x in maps:
                if x[0] == "new":
                    vi.append(P0)
                    continue
                i = idx[j]
                j += 1
                if x[0] == "fix":
                    cs.append(cmp0("eq", i - x[1]))
                else:
                    c, t = x[2](i)
                    cs.append(c)
                    vi.append(t)
            c = conj(*cs)
            d = decide(c)
            if d is True:
                return conv(g(*vi))
            if d is False:
                return old(*idx)
            with assuming(c):
                a = conv(g(*vi))
            with assuming(neg(c)):
                b = old(*idx)
            return sel(c, a, b)

        self._store(new)

    def _conv(self, v):
        if (self.dtype_ == "s") != (v.dtype_ == "s"):
            raise Unsupported("numbers stored in an array of strings, or strings in one of numbers")
        if self.dtype_ == "s":
            if self.width is not None:
                if v.width is None:
                    raise Unsupported("strings of unknown length stored")
                EXPLORER[0].need(SDtype(v.width).fits(SDtype(self.width)), ValueError, "labels are truncated")
            return lambda x: x
        if self.dtype_ == "b":
            return lambda x: x if isinstance(x, Cond) else neg(cmp0("eq", x))
        if self.dtype_ == "i" and v.dtype_ == "f":
            vs = [fresh("i") for _ in v.axes]
            with assuming(*[a.rng(i) for a, i in zip(v.axes, vs)]):
                if not PY.is_int_poly(v.el(*vs)):
                    raise Unsupported("float stored in an integer array (truncation)")
        return lambda x: iverson(x) if isinstance(x, Cond) else x

    def _store(self, fn):
        """Replace the contents (through a view: of the base at the viewed positions)."""
        if self.vw is None:
            self.set_fn(fn)
            return
        base, m, inv = self.vw
        old = base.snap()

        def new(*bi):
            c, vi = inv(*bi)
            d = decide(c)
            if d is True:
                return fn(*vi)
            if d is False:
                return old(*bi)
            with assuming(c):
                a = fn(*vi)
            with assuming(neg(c)):
                b = old(*bi)
            return sel(c, a, b)

        base._store(new)

    # ---- arithmetic
    def _b(self, o, f, boolean=False):
        if o is None:
            return NotImplemented
        if isinstance(o, str) or (self.dtype_ == "s" and not boolean):
            raise Unsupported("operation between an array and a string")
        if isinstance(o, (list, tuple)):
            o = arr(o)
        if not isinstance(o, (SArr, _np.ndarray)) and not is_scalar(o):
            return NotImplemented
        r = f_arr(f, self, o, boolean)
        tag = self.tag or getattr(o, "tag", None)
        return r if tag is None or not isinstance(r, SArr) else retag(r, tag)

    tag = None   # the array subclass, when there is one
    width = None   # arrays of strings: the number of characters an element holds, when it is known

    def view(self, cls=None, **k):
        if k or not isinstance(cls, type) or not issubclass(cls, _np.ndarray):
            raise Unsupported("ndarray.view")
        return retag(SArr(self.axes, None, self.dtype_, vw=(self, lambda *i: i, lambda *i: (TRUE, i))), cls)

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: b / a)

    def __floordiv__(self, o):
        return self._b(o, PY.floordiv)

    def __mod__(self, o):
        return self._b(o, PY.mod)

    def __pow__(self, o):
        return self._b(o, PY.power_sym)

    def __rpow__(self, o):
        return self._b(o, lambda a, b: PY.power_sym(b, a))

    def __neg__(self):
        f = self.snap()
        return SArr(self.axes, lambda *i: -tonum(f(*i)), self.dtype_)

    def __pos__(self):
        return self

    def __abs__(self):
        return umap(lambda p: PY.fn("abs", p), self)

    def _inplace(self, o, op):
        r = op(self, o)
        if r is NotImplemented:
            return r
        if len(r.axes) != len(self.axes) or not all(a.same(b) for a, b in zip(r.axes, self.axes)):
            raise ValueError("non-broadcastable output operand")
        if self.dtype_ == "i" and r.dtype_ == "f":
            raise Unsupported("float stored in an integer array")
        self._store(r.snap())
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: a / b)

    def __ipow__(self, o):
        return self._inplace(o, lambda a, b: a**b)

    def __lt__(self, o):
        return self._b(o, lambda a, b: cmp0("lt", a - b), True)

    def __le__(self, o):
        return self._b(o, lambda a, b: cmp0("le", a - b), True)

    def __gt__(self, o):
        return self._b(o, lambda a, b: cmp0("lt", b - a), True)

    def __ge__(self, o):
        return self._b(o, lambda a, b: cmp0("le", b - a), True)

    def __eq__(self, o):
        if self.dtype_ == "s":
            o = code(o)
        return self._b(o, lambda a, b: cmp0("eq", a - b), True)

    def __ne__(self, o):
        if self.dtype_ == "s":
            o = code(o)
        return self._b(o, lambda a, b: neg(cmp0("eq", a - b)), True)

    __hash__ = object.__hash__

    def _l(self, o, f):
        o = arr(o)
        if self.dtype_ != "b" or o.dtype_ != "b":
            raise Unsupported("bitwise operation on numbers")
        return f_arr(f, self, o, True, raw=True)

    def __and__(self, o):
        return self._l(o, conj)

    __rand__ = __and__

    def __or__(self, o):
        return self._l(o, disj)

    __ror__ = __or__

    def __invert__(self):
        f = self.snap()
        if self.dtype_ != "b":
            raise Unsupported("~ on numbers")
        return SArr(self.axes, lambda *i: neg(f(*i)), "b")

    def __bool__(self):
        if all(a.one() for a in self.axes):
            return bool(SBool(self.elc(*[P0] * len(self.axes))))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self):
        if all(a.one() for a in self.axes):
            return float(SNum(self.el(*[P0] * len(self.axes))))
        raise TypeError("only length-1 arrays can be converted")

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def dot(self, o):
        return dot(self, o)

    def __iter__(self):
        return EXPLORER[0].py_iter(self)

    # ---- reductions
    def sum(self, axis=None, **k):
        return asum(self, axis)

    def mean(self, axis=None):
        return mean(self, axis)

    def any(self, axis=None):
        return a_any(self, axis)

    def all(self, axis=None):
        return a_all(self, axis)

    def min(self, axis=None):
        return EXPLORER[0].extremum("min", self, axis)

    def max(self, axis=None):
        return EXPLORER[0].extremum("max", self, axis)

    def __repr__(self):
        return "SArr%s(%s)" % ("" if not self.name else ":" + self.name, ", ".join(a.key for a in self.axes))


SUB = {}


def retag(a, cls):
    """The array as an instance of an ndarray subclass: the methods the subclass defines are the ones called."""
    if cls is _np.ndarray:
        a.__class__ = SArr
        return a
    t = SUB.get(cls)
    if t is None:
        d = {"tag": cls}
        for c in cls.__mro__[::-1]:
            if c not in _np.ndarray.__mro__:
                d.update({k: v for k, v in vars(c).items() if k not in ("__new__", "__dict__", "__weakref__", "__module__", "__doc__")})
        if "__array_finalize__" in d or "__init__" in d or "__array_ufunc__" in d:
            raise Unsupported("array subclass with __array_finalize__")
        t = SUB[cls] = type("SArr_" + cls.__name__, (SArr,), d)
    a.__class__ = t
    return a


class SDtype:
    """The type of arrays of strings of up to max(width) characters."""
    kind = "U"

    def __init__(self, width):
        self.width = width if isinstance(width, frozenset) else frozenset([P(width)])

    @staticmethod
    def of(t):
        return t if isinstance(t, SDtype) else SDtype(_np.dtype(t).itemsize // 4)

    @staticmethod
    def widest(ts):
        ws = set()
        for t in ts:
            ws |= SDtype.of(t).width
        cs = [w for w in ws if w.const is not None]
        return SDtype(frozenset([w for w in ws if w.const is None] + ([max(cs, key=lambda w: w.const)] if cs else [])))

    def __cv_max__(self, ts):
        return SDtype.widest(ts)

    def fits(self, o):
        """at most as wide as o"""
        o = SDtype.of(o)
        if self.width <= o.width:
            return TRUE
        return conj(*[TRUE if a in o.width else disj(*[cmp0("le", a - b) for b in o.width]) for a in self.width])

    def __le__(self, o):
        return EXPLORER[0].branch(self.fits(o))

    def __lt__(self, o):
        return not SDtype.of(o) <= self

    def __gt__(self, o):
        return not self <= o

    def __ge__(self, o):
        return SDtype.of(o) <= self

    def __eq__(self, o):
        return self <= o and SDtype.of(o) <= self

    __hash__ = object.__hash__


CODES = {"": 0}


def code(s):
    """Strings in arrays are represented by integers, one for each string; 0 is the empty string."""
    if isinstance(s, str):
        return CODES.setdefault(s, 1000003 + 7 * len(CODES))
    if isinstance(s, SArr) and s.dtype_ == "s":
        return s
    if hasattr(s, "__cv_code__"):
        return SNum(s.__cv_code__())
    raise Unsupported("comparison of a string array with %r" % (s,))


def wrap_size(p):
    c = p.const
    if c is not None and c.denominator == 1:
        return int(c)
    return SNum(p)


def tonum(x):
    return iverson(x) if isinstance(x, Cond) else x


def sel(c, a, b):
    """a if c else b, for terms or conditions."""
    if a is b:
        return a
    if isinstance(a, Cond) or isinstance(b, Cond):
        a = a if isinstance(a, Cond) else neg(cmp0("eq", a))
        b = b if isinstance(b, Cond) else neg(cmp0("eq", b))
        return disj(conj(c, a), conj(neg(c), b))
    return ite(c, a, b)


def table(vals):
    """A function of one index given by a finite table of terms."""
    vals = list(vals)

    def f(i):
        if i.const is not None:
            return vals[int(i.const)]
        if len(vals) == 1:
            return vals[0]
        if isinstance(vals[0], Cond):
            return disj(*[conj(cmp0("eq", i - P(k)), v) for k, v in enumerate(vals)])
        if all(v is vals[0] for v in vals):
            return vals[0]
        r = P0
        for k, v in enumerate(vals):
            if v.t:
                r = r + iverson(cmp0("eq", i - P(k))) * v
        return r

    return f


def arr(x):
    """As an SArr."""
    if isinstance(x, SArr):
        return x
    if isinstance(x, SNum):
        return SArr((), lambda: x.p)
    if isinstance(x, SBool):
        return SArr((), lambda: x.c, "b")
    if isinstance(x, str) or hasattr(x, "__cv_code__"):
        r = SArr((), lambda c=P(code(x)) if isinstance(x, str) else x.__cv_code__(): c, "s")
        r.width = SDtype(max(len(x), 1)).width if isinstance(x, str) else None
        return r
    if hasattr(x, "__cv_array__"):
        return x.__cv_array__()
    if isinstance(x, (list, tuple)):
        if hasattr(x, "concrete") and not x.concrete():
            from .exec import SSeq

            return SSeq(x.parts()).__cv_array__()
        els = [arr(e) for e in x]
        if not els:
            return SArr((Axis(P0),), lambda i: P0)
        n = len(els)
        axes = els[0].axes
        for e in els:
            if len(e.axes) != len(axes) or not all(a.same(b) for a, b in zip(axes, e.axes)):
                raise Unsupported("ragged array")
        fs = [e.snap() for e in els]
        dt = common(els) or ("b" if all(e.dtype_ == "b" for e in els) else "i" if all(e.dtype_ in "bi" for e in els) else "f")
        if not axes:
            return SArr((Axis(P(n)),), table([f() if dt == "b" else tonum(f()) for f in fs]), dt)

        def g(i, *rest):
            if i.const is not None:
                r = fs[int(i.const)](*rest)
                return r if dt == "b" else tonum(r)
            return table([f(*rest) if dt == "b" else tonum(f(*rest)) for f in fs])(i)

        return SArr((Axis(P(n)),) + axes, g, dt)
    if isinstance(x, (bool, _np.bool_)):
        return SArr((), lambda: TRUE if x else FALSE, "b")
    if isinstance(x, (int, _np.integer)):
        return SArr((), lambda: P(int(x)), "i")
    if isinstance(x, (float, _np.floating, Fraction)):
        return SArr((), lambda: P(float(x)) if not isinstance(x, Fraction) else P(x))
    if isinstance(x, _np.ndarray):
        if x.dtype.kind not in "biufO":
            raise Unsupported("array of %s" % x.dtype)
        if x.dtype == object:
            return arr(x.tolist())
        x = x.copy()
        conv = (lambda v: TRUE if v else FALSE) if x.dtype.kind == "b" else (lambda v: P(v.item()))

        def g(*idx):
            if all(i.const is not None for i in idx):
                return conv(x[tuple(int(i.const) for i in idx)])
            if x.size > 400:
                raise Unsupported("symbolic index into a large concrete array")
            k = [i.const is not None for i in idx].index(False)
            sub = []
            for j in range(x.shape[k]):
                sub.append(g(*[P(j) if n == k else i for n, i in enumerate(idx)]))
            return table(sub)(idx[k])

        return SArr([Axis(P(n)) for n in x.shape], g, {"b": "b", "i": "i", "u": "i", "f": "f"}[x.dtype.kind])
    if hasattr(type(x), "__cv_resolve__"):
        r = x.__cv_resolve__()
        if r is not x:
            return arr(r)
    raise Unsupported("array of %r" % (type(x),))


def out(a):
    """Results without axes are scalars."""
    if isinstance(a, SArr) and not a.axes:
        return SBool(a.elc()) if a.dtype_ == "b" else HOOKS["string"](a.el()) if a.dtype_ == "s" else SNum(a.el())
    return a


def broadcast(*arrs):
    n = max(len(a.axes) for a in arrs)
    axes = []
    for k in range(n):
        best = None
        for a in arrs:
            j = k - (n - len(a.axes))
            if j < 0:
                continue
            x = a.axes[j]
            if best is None or (best.one() and not x.one()):
                best = x
            elif not x.one() and not best.same(x):
                raise ValueError("operands could not be broadcast together: %r, %r" % (best, x))
        axes.append(best)
    return axes


def bcast_fn(a, axes):
    """Element function of `a` seen with the given (broadcast) axes."""
    f, off = a.snap(), len(axes) - len(a.axes)
    if off < 0:
        drop = -off
        return lambda *i: f(*([P0] * drop), *i)
    ones = [x.one() for x in a.axes]
    for x, y in zip(a.axes, axes[off:]):
        if not x.one() and not x.same(y):
            raise ValueError("could not broadcast %r into %r" % (x, y))
    if not any(ones):
        return (lambda *i: f(*i[off:])) if off else f
    return lambda *i: f(*[P0 if o else j for o, j in zip(ones, i[off:])])


def f_arr(f, a, b, boolean=False, raw=False):
    a, b = arr(a), arr(b)
    axes = broadcast(a, b)
    fa, fb = bcast_fn(a, axes), bcast_fn(b, axes)
    dt = "b" if boolean else "i" if a.dtype_ in "bi" and b.dtype_ in "bi" else "f"
    if raw:
        return out(SArr(axes, lambda *i: f(fa(*i), fb(*i)), dt))
    return out(SArr(axes, lambda *i: f(tonum(fa(*i)), tonum(fb(*i))), dt))


def umap(f, x, dtype="f"):
    x = arr(x)
    g = x.snap()
    return out(SArr(x.axes, lambda *i: f(tonum(g(*i))), dtype))


def asum(x, axis=None):
    x = arr(x)
    f = x.snap()
    if axis is None:
        def go(k, idx):
            if k == len(x.axes):
                return tonum(f(*idx))
            return x.axes[k].sum(lambda i: go(k + 1, idx + [i]))

        return SNum(go(0, []))
    if isinstance(axis, tuple):
        for a in sorted([a % len(x.axes) for a in axis], reverse=True):
            x = arr(asum(x, a))
        return out(x)
    axis = axis % len(x.axes)
    return out(SArr(x.axes[:axis] + x.axes[axis + 1:], lambda *i: x.axes[axis].sum(lambda v: tonum(f(*i[:axis], v, *i[axis:]))), "i" if x.dtype_ in "bi" else "f"))


def mean(x, axis=None):
    x = arr(x)
    if axis is None:
        return asum(x) / x.size
    return asum(x, axis) / wrap_size(x.axes[axis % len(x.axes)].length())


def quant(x, c, exists):
    """for all / exists over the axes of x of the condition function c."""
    def go(k, idx):
        if k == len(x.axes):
            r = c(*idx)
            return neg(r) if exists else r
        a = x.axes[k]
        if a.cond is None and a.n.const is not None and a.n.const <= 64:
            return conj(*[go(k + 1, idx + [P(j)]) for j in range(int(a.n.const))])
        v = fresh("q")
        with assuming(a.rng(v)):
            r = go(k + 1, idx + [v])
        if a.cond is not None:
            r = disj(neg(a.cond(v)), r)
        if r is TRUE:
            return TRUE
        return PY.forall(atom_of(v), a.n, r) if atom_of(v) in r.fv else disj(r, cmp0("le", a.n))

    r = go(0, [])
    return neg(r) if exists else r


def a_all(x, axis=None):
    x = arr(x)
    if axis is not None:
        raise Unsupported("all with axis")
    f = x.snap()
    return SBool(quant(x, lambda *i: f(*i) if x.dtype_ == "b" else neg(cmp0("eq", f(*i))), False))


def a_any(x, axis=None):
    x = arr(x)
    f = x.snap()
    c = lambda *i: f(*i) if x.dtype_ == "b" else neg(cmp0("eq", f(*i)))
    if axis is not None:
        axis = axis % len(x.axes)
        sub = lambda idx: SArr((x.axes[axis],), lambda v: c(*idx[:axis], v, *idx[axis:]), "b")
        return out(SArr(x.axes[:axis] + x.axes[axis + 1:], lambda *idx: quant(sub(idx), sub(idx).snap(), True), "b"))
    return SBool(quant(x, c, True))


def dot(a, b):
    if hasattr(a, "__cv_dot__"):
        return a.__cv_dot__(b)
    if hasattr(b, "__cv_rdot__"):
        return b.__cv_rdot__(a)
    a, b = arr(a), arr(b)
    if not a.axes or not b.axes:
        return f_arr(lambda x, y: x * y, a, b)
    ka, kb = len(a.axes) - 1, max(len(b.axes) - 2, 0)
    if not a.axes[ka].same(b.axes[kb]):
        raise ValueError("shapes not aligned: %r, %r" % (a.axes[ka], b.axes[kb]))
    fa, fb, na = a.snap(), b.snap(), len(a.axes) - 1
    axes = a.axes[:-1] + b.axes[:kb] + b.axes[kb + 1:]

    def g(*i):
        ia, ib = i[:na], i[na:]
        return a.axes[ka].sum(lambda v: tonum(fa(*ia, v)) * tonum(fb(*ib[:kb], v, *ib[kb:])))

    return out(SArr(axes, g, "i" if a.dtype_ in "bi" and b.dtype_ in "bi" else "f"))


def einsum(spec, *ops, **kw):
    ops = [arr(o) for o in ops]
    spec = spec.replace(" ", "")
    ins, _, res = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        allc = "".join(ins)
        res = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ax = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.axes):
            raise ValueError("einsum: operand has the wrong number of dimensions")
        for c, a in zip(s, o.axes):
            if c in ax and not ax[c].same(a):
                raise ValueError("einsum: axes of different lengths")
            ax[c] = a
    fs = [o.snap() for o in ops]
    red = [c for c in ax if c not in res]

    def g(*idx):
        env = dict(zip(res, idx))

        def go(k):
            if k == len(red):
                r = P1
                for s, f in zip(ins, fs):
                    r = r * tonum(f(*[env[c] for c in s]))
                return r

            def at(v):
                env[red[k]] = v
                return go(k + 1)

            return ax[red[k]].sum(at)

        return go(0)

    return out(SArr([ax[c] for c in res], g))


def full_arr(shape, p, dtype="f"):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    axes = [s if isinstance(s, Axis) else Axis(num(s)) for s in shape]
    v = (TRUE if p is P1 else FALSE) if dtype == "b" else p
    return SArr(axes, lambda *i: v, dtype)


def concat(xs, axis=0):
    xs = [arr(x) for x in xs]
    nd = len(xs[0].axes)
    axis = axis % nd
    if len(xs) == 1:
        return xs[0].copy()
    for x in xs:
        if len(x.axes) != nd:
            raise ValueError("all the input array dimensions must match")
        for k in range(nd):
            if k != axis and not x.axes[k].same(xs[0].axes[k]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match")
        if x.axes[axis].cond is not None:
            raise Unsupported("concatenation along a masked axis")
    offs, tot = [], P0
    for x in xs:
        offs.append(tot)
        tot = tot + x.axes[axis].n
    fs = [x.snap() for x in xs]
    dt = common(xs) or ("b" if all(x.dtype_ == "b" for x in xs) else "i" if all(x.dtype_ in "bi" for x in xs) else "f")

    def g(*idx):
        i = idx[axis]

        def at(k):
            j = i - offs[k]
            r = None
            if k == len(xs) - 1:
                r = fs[k](*idx[:axis], j, *idx[axis + 1:])
                return r if dt == "b" else tonum(r)
            c = cmp0("lt", i - offs[k + 1])
            d = decide(c)
            if d is False:
                return at(k + 1)
            if d is True:
                r = fs[k](*idx[:axis], j, *idx[axis + 1:])
                return r if dt == "b" else tonum(r)
            with assuming(c):
                r = fs[k](*idx[:axis], j, *idx[axis + 1:])
            with assuming(neg(c)):
                r2 = at(k + 1)
            return sel(c, r if dt == "b" else tonum(r), r2)

        return at(0)

    return SArr(xs[0].axes[:axis] + (Axis(tot),) + xs[0].axes[axis + 1:], g, dt)


def stack(xs, axis=0):
    xs = [arr(x) for x in xs]
    a = arr(xs)
    if axis in (-1, len(a.axes) - 1) and len(a.axes) > 1:
        n = len(a.axes)
        return a.transpose(*(list(range(1, n)) + [0])).copy()
    if axis == 0:
        return a
    raise Unsupported("stack axis")


def diff(x, n=1, axis=-1, prepend=None):
    x = arr(x)
    if prepend is not None:
        x = concat([arr([prepend]) if is_scalar(prepend) else arr(prepend), x])
    if n != 1 or len(x.axes) != 1:
        raise Unsupported("diff")
    f = x.snap()
    ln = x.axes[0].n - P1
    return SArr((Axis(ln),), lambda i: tonum(f(i + P1)) - tonum(f(i)), x.dtype_)


def repeat(x, r, axis=None):
    x = arr(x)
    r = num(r) if not isinstance(r, SArr) else None
    if r is None:
        raise Unsupported("repeat by an array")
    if not x.axes:
        f = x.snap()
        return SArr((Axis(r),), lambda i: f(), x.dtype_)
    if axis is None and len(x.axes) > 1:
        x = x.flatten()
    axis = (axis or 0) % len(x.axes)
    f = x.snap()
    a = x.axes[axis]
    if a.cond is not None:
        raise Unsupported("repeat of a masked axis")
    return SArr(x.axes[:axis] + (Axis(a.n * r),) + x.axes[axis + 1:], lambda *i: f(*i[:axis], PY.floordiv(i[axis], r), *i[axis + 1:]), x.dtype_)


def tile(x, reps):
    x = arr(x)
    f = x.snap()
    if is_scalar(reps):
        reps = (reps,)
    reps = [num(r) for r in reps]
    nd = max(len(reps), len(x.axes))
    reps = [P1] * (nd - len(reps)) + reps
    off = nd - len(x.axes)
    axes = [Axis(r) if k < off else Axis(x.axes[k - off].n * r) for k, r in enumerate(reps)]
    return SArr(axes, lambda *i: f(*[j if reps[k + off].const == 1 else PY.mod(j, x.axes[k].n) for k, j in enumerate(i[off:])]), x.dtype_)


def outer(a, b):
    a, b = arr(a), arr(b)
    fa, fb = a.snap(), b.snap()
    return SArr(a.axes + b.axes, lambda i, j: tonum(fa(i)) * tonum(fb(j)), "i" if a.dtype_ in "bi" and b.dtype_ in "bi" else "f")


def diag(x):
    x = arr(x)
    f = x.snap()
    if len(x.axes) == 1:
        return SArr((x.axes[0], x.axes[0]), lambda i, j: iverson(cmp0("eq", i - j)) * tonum(f(i)), x.dtype_)
    return SArr((x.axes[0],), None, x.dtype_, vw=(x, lambda i: (i, i), lambda i, j: (cmp0("eq", i - j), (i,))))


def eye(n):
    n = num(n)
    return SArr((Axis(n), Axis(n)), lambda i, j: iverson(cmp0("eq", i - j)))


def arange(*a, **k):
    if len(a) == 1:
        lo, hi, st = P0, num(a[0]), P1
    else:
        lo, hi, st = num(a[0]), num(a[1]), (num(a[2]) if len(a) > 2 else P1)
    if all(PY.is_int_poly(x) for x in (lo, hi, st)):
        n = (hi - lo) if st.const == 1 else PY.floordiv(hi - lo + st - P1, st)
    else:
        # the least number of steps that reaches the end
        from . import smt

        if decide(cmp0("lt", -st)) is not True:
            raise Unsupported("arange with a step not known to be positive")
        PY.INTS.add("steps")
        PY.NONNEG.add("steps")

        def fact(at):
            a, b, d = at.args
            return disj(conj(cmp0("le", b - a), cmp0("eq", P(at))), conj(cmp0("lt", a - b), cmp0("lt", a + (P(at) - P1) * d - b), cmp0("le", b - a - P(at) * d)))
        smt.FACTS["steps"] = fact
        n = PY.app("steps", lo, hi, st)
    return SArr((Axis(n),), lambda i: lo + st * i, "i" if PY.is_int_poly(lo) and PY.is_int_poly(st) else "f")


def cross(a, b):
    a, b = arr(a), arr(b)
    axes = broadcast(a, b)
    if axes[-1].n.const != 3:
        raise Unsupported("cross")
    fa, fb = bcast_fn(a, axes), bcast_fn(b, axes)

    def g(*i):
        i0 = i[:-1]
        A = [tonum(fa(*i0, P(k))) for k in range(3)]
        B = [tonum(fb(*i0, P(k))) for k in range(3)]
        return table([A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]])(i[-1])

    return SArr(axes, g)


class WhereIdx:
    """The positions at which a mask holds (the result of where/flatnonzero), in increasing order."""

    def __init__(self, mask):
        if mask.dtype_ != "b":
            mask = mask.astype(bool)
        if len(mask.axes) != 1:
            raise Unsupported("where of a matrix")
        self.mask = mask

    def __cv_indexset__(self, axis):
        return self.mask

    def __cv_len__(self):
        return wrap_size(Axis(self.mask.axes[0].n, self.mask.snap()).length())

    @property
    def size(self):
        return self.__cv_len__()

    def __cv_subst__(self, env, ctx=()):
        from .exec import vsubst

        return WhereIdx(vsubst(self.mask, env, ctx))

    def __getitem__(self, i):
        from .exec import kept

        if isinstance(i, slice) or not is_scalar(i):
            raise Unsupported("slice of a where() result")
        i = num(i)
        total, get, _ = kept(Axis(self.mask.axes[0].n, self.mask.snap()))
        if i.const is not None and i.const < 0:
            i = i + total
        EXPLORER[0].need(conj(cmp0("le", -i), cmp0("lt", i - total)), IndexError, "index is out of bounds")
        return SNum(get(i))

    def __cv_array__(self):
        return SArr((Axis(self.mask.axes[0].n, self.mask.snap()),), lambda i: i, "i")


def common(xs):
    """The type of arrays of strings joined; None for numbers."""
    if any(x.dtype_ == "s" for x in xs):
        if not all(x.dtype_ == "s" for x in xs):
            raise Unsupported("strings and numbers in one array")
        return "s"


def where(c, *ab):
    if not ab:
        return (WhereIdx(arr(c)),)
    r = where_(c, *ab)
    if isinstance(r, SArr) and r.dtype_ == "s":
        ws = [arr(x).width for x in ab]
        if None not in ws:
            r.width = SDtype.widest([SDtype(w) for w in ws]).width
    return r


def where_(c, *ab):
    c, a, b = arr(c), arr(ab[0]), arr(ab[1])
    axes = broadcast(c, a, b)
    fc, fa, fb = bcast_fn(c, axes), bcast_fn(a, axes), bcast_fn(b, axes)
    dt = common([a, b]) or ("b" if a.dtype_ == b.dtype_ == "b" else "i" if a.dtype_ in "bi" and b.dtype_ in "bi" else "f")

    def g(*i):
        cc = fc(*i)
        cc = cc if isinstance(cc, Cond) else neg(cmp0("eq", cc))
        d = decide(cc)
        if d is True:
            return fa(*i) if dt == "b" else tonum(fa(*i))
        if d is False:
            return fb(*i) if dt == "b" else tonum(fb(*i))
        with assuming(cc):
            x = fa(*i)
        with assuming(neg(cc)):
            y = fb(*i)
        return sel(cc, x if dt == "b" else tonum(x), y if dt == "b" else tonum(y))

    return out(SArr(axes, g, dt))


def arr_equal(a, b):
    a, b = arr(a), arr(b)
    if len(a.axes) != len(b.axes):
        return SBool(FALSE)
    cs = [cmp0("eq", x.length() - y.length()) for x, y in zip(a.axes, b.axes)]
    if not all(x.same(y) for x, y in zip(a.axes, b.axes)):
        if any(decide(c) is False for c in cs):
            return SBool(FALSE)
        if any(x.cond is not None for x in a.axes + b.axes):
            raise Unsupported("array_equal with axes of unknown relation")
    else:
        cs = []
    fa, fb = a.snap(), b.snap()
    return SBool(conj(*cs, quant(a, lambda *i: cmp0("eq", tonum(fa(*i)) - tonum(fb(*i))), False)))


def sym(name, *axes, dtype="f", pos=False, nonneg=False):
    """A symbolic input array."""
    axes = [a if isinstance(a, Axis) else Axis(a.p if isinstance(a, SNum) else P(a)) for a in axes]
    if dtype == "b":
        return SArr(axes, lambda *i: pred(name, *i), "b", name=name)
    return SArr(axes, lambda *i: app(name, *i, integer=dtype == "i", pos=pos, nonneg=nonneg) if axes else PY.var(name, integer=dtype == "i", pos=pos, nonneg=nonneg), dtype, name=name)
