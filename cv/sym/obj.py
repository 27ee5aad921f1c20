"""Real numpy object arrays whose entries are symbolic real numbers: the unchanged modules of /repo run on them under CPython and
numpy, for concrete shapes and all values of the entries. The linear algebra of dense matrices is replaced by its contract."""
import contextlib, importlib, types
import numpy as np
import scipy.linalg as sl
from fractions import Fraction
from . import poly as PY, arr as A
from .poly import P, P0, Unsupported, cmp0, neg

_interned = {}


def S(p):
    """The entry of this value: one object for each term, so that two entries are the same object exactly if they are the same term."""
    if isinstance(p, Sym):
        return p
    if not isinstance(p, PY.Poly):
        if isinstance(p, (np.generic, np.ndarray)) and p.shape == ():
            return S(p.item())
        p = P(p)
    r = _interned.get(p)
    if r is None:
        r = _interned[p] = Sym(p)
    return r


def term(x):
    return x.p if isinstance(x, Sym) else S(x).p


OK = (int, float, np.integer, np.floating)


class Sym:
    __slots__ = ("p",)
    __array_priority__ = 0
    dtype = np.dtype(object)

    def __init__(self, p):
        self.p = p

    def _b(self, o, f):
        if isinstance(o, Sym) or isinstance(o, OK) and not isinstance(o, bool):
            return S(f(self.p, term(o)))
        if isinstance(o, complex):
            return f(Cx(self), Cx(o.real, o.imag))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: b / a)

    def __pow__(self, n):
        return self._b(n, lambda a, b: PY.power(a, b.const)) if term(n).const is not None else NotImplemented

    def __neg__(self):
        return S(P0 - self.p)

    def __pos__(self):
        return self

    def conjugate(self):
        return self

    def _c(self, o, kind):
        if not (isinstance(o, Sym) or isinstance(o, OK)):
            return NotImplemented
        return bool(A.EXPLORER[0].branch(cmp0(kind, self.p - term(o))))

    def __eq__(self, o):
        if self is o:
            return True
        r = self._c(o, "eq")
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.p)

    def __bool__(self):
        return not self.__eq__(0)

    def __float__(self):
        raise Unsupported("an entry converted to a floating-point number")

    def __abs__(self):
        return self if self >= 0 else -self

    def log(self):
        return S(PY.refn("log", [self.p]))

    def exp(self):
        return S(PY.refn("exp", [self.p]))

    def sqrt(self):
        return S(PY.power(self.p, Fraction(1, 2)))

    def sin(self):
        return S(PY.refn("sin", [self.p]))

    def cos(self):
        return S(PY.refn("cos", [self.p]))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S(0)

    def __repr__(self):
        return PY.show(self.p)


class Cx:
    """A complex number of two symbolic real numbers"""
    __slots__ = ("real", "imag")

    def __init__(self, re, im=0):
        self.real, self.imag = S(re), S(im)

    def _b(self, o, f):
        if isinstance(o, (Sym, Cx, complex) + OK):
            return f(self, cx(o))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: Cx(a.real + b.real, a.imag + b.imag))

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: Cx(a.real - b.real, a.imag - b.imag))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: Cx(a.real * b.real - a.imag * b.imag, a.real * b.imag + a.imag * b.real))

    __rmul__ = __mul__

    def __truediv__(self, o):
        def div(a, b):
            n = b.real * b.real + b.imag * b.imag
            return Cx((a.real * b.real + a.imag * b.imag) / n, (a.imag * b.real - a.real * b.imag) / n)
        return self._b(o, div)

    def __rtruediv__(self, o):
        return cx(o) / self

    def __neg__(self):
        return Cx(-self.real, -self.imag)

    def conjugate(self):
        return Cx(self.real, -self.imag)

    conj = conjugate

    def __repr__(self):
        return "(%r) + i (%r)" % (self.real, self.imag)


def cx(o):
    return o if isinstance(o, Cx) else Cx(o.real, o.imag)


class CxArray(np.ndarray):
    """An array of complex numbers, whose real and imaginary parts are those of its entries"""

    @staticmethod
    def of(re, im):
        a = np.empty(np.shape(re), object)
        for i in np.ndindex(*a.shape):
            a[i] = Cx(re[i], im[i])
        return a.view(CxArray)

    def _part(self, n):
        r = np.empty(self.shape, object)
        for i in np.ndindex(*self.shape):
            r[i] = getattr(self[i], n)
        return r

    real = property(lambda self: self._part("real"))
    imag = property(lambda self: self._part("imag"))


def of(name, *shape, f=None):
    """An array of entries name(i, j, ..)"""
    a = np.empty(shape, object)
    for i in np.ndindex(*shape):
        a[i] = S(f(*i) if f else PY.app(name, *[P(int(k)) for k in i]))
    return a


def mul(*xs):
    """The product of the matrices"""
    r = xs[0]
    for x in xs[1:]:
        o = np.empty(r.shape[:-1] + x.shape[1:], object)
        for i in np.ndindex(*o.shape):
            a = r[i[:r.ndim - 1]]
            b = x[(slice(None),) + i[r.ndim - 1:]]
            o[i] = S(sum((term(u) * term(v) for u, v in zip(a, b)), P0))
        r = o
    return r


# ---- inverse and determinant, by their contract. A matrix is taken apart into the classes of rows connected by entries other than zero
# (lemmas/C06.lean: the inverse is that of the classes, the determinant their product; a class of one row: 1/x), each in a fixed order

def classes(M):
    n = len(M)
    left, out = set(range(n)), []
    while left:
        todo, c = [min(left)], set()
        while todo:
            i = todo.pop()
            if i in c:
                continue
            c.add(i)
            todo += [j for j in range(n) if j not in c and (term(M[i, j]).t or term(M[j, i]).t)]
        left -= c
        out.append(sorted(c, key=lambda i: (term(M[i, i]).key, i)))
    return out


_known = {}


def block(M, c):
    key = tuple(term(M[i, j]) for i in c for j in c)
    r = _known.get(key)
    if r is None:
        r = _known[key] = len(_known)
    return r


def inverse(M):
    M = np.asarray(M)
    n = len(M)
    R = np.empty((n, n), object)
    R[:] = S(0)
    for c in classes(M):
        if len(c) == 1:
            if not term(M[c[0], c[0]]).t:
                raise np.linalg.LinAlgError("Singular matrix")
            R[c[0], c[0]] = 1 / S(term(M[c[0], c[0]]))
        else:
            sym = all(term(M[i, j]) == term(M[j, i]) for i in c for j in c)
            for a, i in enumerate(c):
                for b, j in enumerate(c):
                    x, y = (min(a, b), max(a, b)) if sym else (a, b)
                    R[i, j] = S(PY.app("inv%d" % block(M, c), P(x), P(y)))
    return R


def logdet(M):
    M = np.asarray(M)
    r = P0
    for c in classes(M):
        r = r + (PY.refn("log", [term(M[c[0], c[0]])]) if len(c) == 1 else PY.app("logdet%d" % block(M, c)))
    return S(r)


def symmetric(M):
    M = np.asarray(M)
    return all(term(M[i, j]) == term(M[j, i]) for i in range(len(M)) for j in range(i))


def singular(M):
    """Singular vectors (those to the left: of a symmetric matrix without negative eigenvalues, also those to the right) and values"""
    k, n = block(np.asarray(M), list(range(len(M)))), len(M)
    PY.POS.add("svd.s%d" % k)
    return of("svd.u%d" % k, n, n), of("svd.s%d" % k, n)


def svd(M, *a, **k):
    u, s = singular(M)
    if not symmetric(M) or a or k:
        raise Unsupported("the singular values of a matrix that is not symmetric")
    return u, s, u.T.copy()


class CF:
    """The result of cho_factor: (factor, lower). The factor's diagonal: the product of its squares is the determinant."""

    def __init__(self, M):
        self.M = np.array(M, dtype=object)
        n = len(self.M)
        f = np.empty((n, n), object)
        f[:] = S(0)
        k = block(self.M, list(range(n)))
        for i in range(n):
            for j in range(n):
                f[i, j] = S(PY.app("chol%d" % k, P(i), P(j)))
        # log |M| = 2 sum log diag: the logarithms of the diagonal entries are named; the last is determined by the others
        ld = logdet(self.M).p / P(2)
        for i in range(n):
            l = PY.app("logchol%d" % k, P(i)) if i < n - 1 else ld
            if i < n - 1:
                ld = ld - l
            f[i, i] = S(PY.refn("exp", [l]))
        self.f = f

    def __getitem__(self, i):
        return (self.f, False)[i]

    def __len__(self):
        return 2


class NPLinalg(types.SimpleNamespace):
    def __getattr__(self, n):
        return getattr(np.linalg, n)


class ObjNP:
    """numpy, with new arrays of symbolic entries"""

    def __init__(self):
        self.linalg = NPLinalg(inv=lambda M: inverse(np.asarray(M)) if np.asarray(M).dtype == object else np.linalg.inv(M), slogdet=lambda M: (1.0, logdet(M)) if np.asarray(M).dtype == object else np.linalg.slogdet(M), svd=svd)

    pi = S(PY.PI)

    def sqrt(self, x):
        if isinstance(x, (Sym,) + OK):
            p = term(x)
            if p.const is not None and p.const >= 0 and (PY.power(p, Fraction(1, 2))).const is not None:
                return float(PY.power(p, Fraction(1, 2)).const)
            return S(PY.power(p, Fraction(1, 2)))
        return np.sqrt(x)

    def __getattr__(self, n):
        return getattr(np, n)

    def _full(self, shape, dtype):
        if dtype in (complex, np.complex128, "complex", "D"):
            return CxArray.of(self._full(shape, None), self._full(shape, None))
        if dtype not in (None, "d", float, np.float64, np.double, object, "float", "float64"):
            return np.zeros(shape, dtype)
        a = np.empty(shape, object)
        a[...] = S(0)
        return a

    def zeros(self, shape, dtype=None, **k):
        return self._full(shape, dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self._full(np.shape(a), dtype or getattr(a, "dtype", None))

    def empty(self, shape, dtype=None, **k):
        return self._full(shape, dtype)


class ObjSL:
    FAILS = [False]

    def __getattr__(self, n):
        return getattr(sl, n)

    def inv(self, M, **k):
        return inverse(M)

    def cho_factor(self, M, **k):
        if self.FAILS[0]:
            raise np.linalg.LinAlgError("not positive definite")
        return CF(M)

    def cho_solve(self, cf, b, **k):
        b = np.asarray(b)
        if b.ndim == 2 and b.shape[0] == b.shape[1] and all(term(b[i, j]) == P(int(i == j)) for i in range(len(b)) for j in range(len(b))):
            return inverse(cf.M)
        return mul(inverse(cf.M), b)


class ObjCF:
    def __init__(self, M):
        self.M = M

    def inv(self):
        return inverse(self.M)

    def logdet(self):
        return logdet(self.M)

    def __call__(self, b):
        return mul(inverse(self.M), np.asarray(b))


class ObjSPS:
    def __init__(self, sps):
        self.sps = sps

    def __getattr__(self, n):
        return getattr(self.sps, n)

    def csc_matrix(self, M, *a, **k):
        return np.array(M, dtype=object)


def modules(*names):
    from .. import env   # noqa: F401  (the path of the source tree)
    return [importlib.import_module("enterprise.signals." + n) for n in names]


@contextlib.contextmanager
def running(*mods):
    """Within: the modules use numpy and scipy on symbolic entries."""
    old = []

    def put(m, n, v):
        if hasattr(m, n):
            old.append((m, n, getattr(m, n)))
            setattr(m, n, v)
    for m in mods:
        put(m, "np", ObjNP())
        put(m, "sl", ObjSL())
        if hasattr(m, "sps"):
            put(m, "sps", ObjSPS(m.sps))
        put(m, "cholesky", ObjCF)
    try:
        yield
    finally:
        for m, n, v in reversed(old):
            setattr(m, n, v)
