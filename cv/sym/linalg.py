"""Contracts of the linear-algebra libraries: factorisations, solves and log-determinants of matrices as abstract
functionals of their elements.

inv(A) is the inverse of A, choldiag(A) the diagonal of its Cholesky factor, log|A| = 2 sum log choldiag(A). Used of them:
they depend on the elements of A only; the inverse of a symmetric matrix is symmetric."""
import builtins, types
from . import poly as PY, arr as A, npf
from .poly import P, P0, P1, Poly, TRUE, FALSE, Unsupported, fresh, atom_of, subst, conj, cmp0, iverson
from .arr import SNum, SArr, Axis, arr, num

PD = [True]          # precondition set by the contracts: factorised matrices are positive definite
CALLS = []           # (what, matrix) in this run


def functional(kind, a, idx):
    """kind(a)[idx] for a square matrix over an axis (possibly masked)."""
    x, y = a.axes
    if not x.same(y):
        raise A_LinAlg("matrix is not square")
    f = a.snap()
    el = lambda i, j: f(i, j)
    bodies = [el]
    if x.cond is not None:
        bodies = [lambda i, j: f(i, j) * iverson(x.cond(i)) * iverson(y.cond(j)), lambda i, j: iverson(x.cond(i))]
    return PY.LAMNORM.get(kind, lambda r: r)(PY.lam_atom(kind, "", [x.n, x.n], bodies, idx))


def _sym(p):
    """The inverse of a symmetric matrix is symmetric: indices in a fixed order."""
    if not isinstance(p, Poly) or len(p.t) != 1:
        return p
    a = atom_of(p)
    i, j = a.idx
    if j.key < i.key:
        u, v = fresh("u"), fresh("v")
        at = lambda x, y: subst(a.bodies[0], {PY._bvar(a.depth, 0): x, PY._bvar(a.depth, 1): y})
        if at(u, v) is at(v, u):
            b0 = [(lambda b: lambda x, y: subst(b, {PY._bvar(a.depth, 0): x, PY._bvar(a.depth, 1): y}))(b) for b in a.bodies]
            return PY.lam_atom("inv", "", list(a.sizes), b0, [j, i])
    return p


PY.LAMNORM["inv"] = _sym
import numpy as _np  # noqa: E402

A_LinAlg = _np.linalg.LinAlgError


def square(a):
    a = arr(a)
    if len(a.axes) != 2 or not a.axes[0].same(a.axes[1]):
        raise A_LinAlg("expected a square matrix")
    return a


def inv(a):
    npf.USED.add("inv(A) is the inverse matrix of A")
    a = square(a)
    CALLS.append(("inv", a))
    b = SArr(a.axes, a.snap())
    return SArr(a.axes, lambda i, j: functional("inv", b, [i, j]))


def choldiag(a):
    b = SArr(a.axes, a.snap())
    return SArr((a.axes[0],), lambda i: functional("choldiag", b, [i]))


def logdet(a):
    """log|a| as twice the sum of the logarithms of the diagonal of the Cholesky factor."""
    d = choldiag(square(a))
    return SNum(a.axes[0].sum(lambda i: 2 * PY.mk_log(d.el(i))))


def apply_inv(a, b):
    """a^-1 b."""
    b = arr(b)
    if not b.axes or not a.axes[0].same(b.axes[0]):
        raise ValueError("dimensions do not match: %r, %r" % (a.axes, b.axes))
    f = b.snap()
    m = SArr(a.axes, a.snap())
    ax = a.axes[0]
    return SArr(b.axes, lambda i, *r: ax.sum(lambda j: functional("inv", m, [i, j]) * f(j, *r)))


class Factor:
    """A Cholesky factorisation: pair (factor, lower) of scipy, or the object of scikit-sparse."""

    def __init__(self, a, lower=False):
        self.a, self.lower = SArr(a.axes, a.snap()), lower
        CALLS.append(("cholesky", self.a))

    def __getitem__(self, i):
        if i == 0:
            return Triangle(self.a, self.lower)
        return self.lower

    def __iter__(self):
        return iter((Triangle(self.a, self.lower), self.lower))

    def __call__(self, b):
        return apply_inv(self.a, b)

    solve_A = __call__

    def logdet(self):
        return logdet(self.a)

    def inv(self):
        return inv(self.a)


class Triangle:
    """The Cholesky factor L (lower) or its transpose of a matrix; in the other triangle zeros (clean) or anything."""

    def __init__(self, a, lower, clean=False):
        self.a, self.lower, self.clean = a, lower, clean

    ndim = 2

    @property
    def shape(self):
        return self.a.shape

    @property
    def T(self):
        return Triangle(self.a, not self.lower, self.clean)

    def __cv_diag__(self):
        return choldiag(self.a)

    def diagonal(self):
        return choldiag(self.a)

    def __cv_tri__(self, lower):
        if lower != self.lower:
            raise Unsupported("the triangle of a Cholesky factorisation that is not the factor")
        return Triangle(self.a, self.lower, True)


def root(name, a, b, transposed=False):
    """name(a) b, or its transpose times b, for a matrix functional."""
    b = arr(b)
    if not b.axes or not a.axes[0].same(b.axes[0]):
        raise ValueError("dimensions do not match: %r, %r" % (a.axes, b.axes))
    f, ax, m = b.snap(), a.axes[0], SArr(a.axes, a.snap())
    return SArr(b.axes, lambda i, *r: ax.sum(lambda j: functional(name, m, [j, i] if transposed else [i, j]) * f(j, *r)))


def solve_triangular(t, b, trans=0, lower=False, **k):
    npf.USED.add("scipy.linalg.solve_triangular(t, b) solves with the triangle of t that `lower` names; the Cholesky factors of A are L and its transpose, A = L L^T")
    if not isinstance(t, Triangle) or set(k) - {"check_finite", "overwrite_b"}:
        raise Unsupported("solve_triangular")
    if bool(lower) != t.lower:
        raise Unsupported("solve_triangular with the triangle that is not the factor")
    return root("invchol", t.a, b, transposed=t.lower == (trans in (1, 2, "T", "C")))


def cholesky_dense(a, lower=False, **k):
    npf.USED.add("the Cholesky factor L of A: A = L L^T")
    return Triangle(Factor(pd(square(a)), lower).a, lower, True)


def cho_factor(a, lower=False, *args, **k):
    npf.USED.add("scipy.linalg.cho_factor/cho_solve solve with the factorised matrix; log|A| is twice the sum of the logs of the factor's diagonal")
    return Factor(pd(square(a)), bool(lower))


SVD_FAILS = [None]      # a matrix -> whether its singular value decomposition does not converge


def symmetric(a):
    i, j = fresh("i"), fresh("j")
    with PY.assuming(a.axes[0].rng(i)), PY.assuming(a.axes[1].rng(j)):
        from . import prove as PR
        return PR.zero(a.el(i, j) - a.el(j, i))


def svd(a, **k):
    npf.USED.add("the singular value decomposition of a symmetric positive definite matrix A is u diag(s) u^T with s > 0 and u^T u = 1")
    a = square(a)
    m = SArr(a.axes, a.snap())
    if k or not symmetric(m):
        raise Unsupported("svd of a matrix that is not symmetric")
    if SVD_FAILS[0] is not None and SVD_FAILS[0](m):
        raise A_LinAlg("SVD did not converge")
    PY.POS.add("svd.s:")
    return SArr(m.axes, lambda i, j: functional("svd.u", m, [i, j])), SArr((m.axes[0],), lambda i: functional("svd.s", m, [i])), SArr(m.axes, lambda i, j: functional("svd.u", m, [j, i]))


class QR:
    def __init__(self, a, part):
        self.a, self.part = a, part

    @property
    def T(self):
        return QR(self.a, {"q": "qt", "qt": "q"}[self.part])


def qr(a, **k):
    npf.USED.add("scipy.linalg.qr: A = Q R with Q^T Q = 1")
    if k:
        raise Unsupported("qr")
    a = square(a)
    m = SArr(a.axes, a.snap())
    return QR(m, "q"), QR(m, "r")


def solve(a, b, **k):
    npf.USED.add("scipy.linalg.solve(A, b) is A^-1 b")
    if isinstance(a, QR):
        if isinstance(b, QR) and b.a is a.a and (a.part, b.part) == ("r", "qt"):
            return inv(a.a)
        raise Unsupported("solve with a part of a QR decomposition")
    if set(k) - {"assume_a", "check_finite"}:
        raise Unsupported("solve")
    return apply_inv(square(a), b)


def pd(a):
    if PD[0] is not True and not PD[0](a):
        raise A_LinAlg("matrix is not positive definite")
    return a


def cho_solve(cf, b, **k):
    if isinstance(cf, tuple):
        cf = cf[0]
    return apply_inv(cf.a, b)


npf.SL.update(cho_factor=cho_factor, cho_solve=cho_solve, inv=inv, LinAlgError=A_LinAlg, solve_triangular=solve_triangular, svd=svd, qr=qr, solve=solve,
              cholesky=cholesky_dense)


def install():
    npf.LINALG.update(inv=inv, LinAlgError=A_LinAlg, svd=svd, solve=solve, cholesky=lambda a: cholesky_dense(a, lower=True))


class Sparse:
    """A two-dimensional scipy.sparse matrix, by its elements (trusted: stored zeros and the storage format do not matter)."""

    def __init__(self, x, shape=None, **k):
        self.a = dense(x, shape)
        npf.USED.add("scipy.sparse matrices are represented by their elements")

    def dense(self):
        return self.a

    toarray = todense = lambda self, *a, **k: self.a.copy()

    @property
    def shape(self):
        return self.a.shape

    ndim = 2

    @property
    def T(self):
        return self._new(self.a.T)

    def __setitem__(self, key, val):
        self.a[key] = val

    def __getitem__(self, key):
        return self.a[key]

    def _new(self, a):
        r = object.__new__(type(self))
        Sparse.__init__(r, a)
        return r

    def _binopt(self, o, op):
        if op != "_plus_":
            raise Unsupported("sparse operation " + op)
        return self._new(self.a + dense(o))

    def __add__(self, o):
        if A.is_scalar(o):
            if num(o) is P0:
                return self._new(self.a)
            raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")
        if isinstance(o, Sparse):
            return self._binopt(o, "_plus_")
        return self.a + o

    def __radd__(self, o):
        return self.__add__(o)

    def copy(self):
        return self._new(self.a)

    # the pattern of stored elements depends on the matrix only (as compressed columns); nothing else is known of it
    @property
    def indptr(self):
        m = SArr(self.a.axes, self.a.snap())
        return SArr((Axis(m.axes[1].n + 1),), lambda i: functional("indptr", m, [i]), "i")

    @property
    def indices(self):
        m = SArr(self.a.axes, self.a.snap())
        PY.INTS.add("nnz:")
        return SArr((Axis(functional("nnz", m, [])),), lambda i: functional("indices", m, [i]), "i")

    def tocsc(self, *a, **k):
        return csc_matrix(self)


def dense(x, shape=None):
    if isinstance(x, Sparse):
        return SArr(x.a.axes, x.a.snap())
    if isinstance(x, tuple):
        return A.full_arr(x, P0, "f")
    x = arr(x)
    if len(x.axes) != 2 or shape is not None:
        raise Unsupported("sparse matrix constructor")
    return SArr(x.axes, x.snap())


class csc_matrix(Sparse):
    pass


class lil_matrix(Sparse):
    pass


class dia_matrix(Sparse):
    """Of (data, [0]): the diagonal matrix."""

    def __init__(self, x, shape=None, **k):
        d, off = x
        d, off = arr(d), arr(off)
        if len(d.axes) != 1 or off.el(P0) is not P0 or off.axes[0].n is not P1 or shape is None or len(shape) != 2 or any(not SArr((Axis(num(n)),), None).axes[0].same(d.axes[0]) for n in shape):
            raise Unsupported("dia_matrix")
        f = d.snap()
        Sparse.__init__(self, SArr((d.axes[0], d.axes[0]), lambda i, j: iverson(cmp0("eq", i - j)) * f(i)))


npf.SPS.update(csc_matrix=csc_matrix, lil_matrix=lil_matrix, dia_matrix=dia_matrix)


def blocks(xs):
    """The block-diagonal matrix of the matrices of a sequence (of symbolic length)."""
    from . import exec as E

    npf.USED.add("block_diag(matrices) holds them along the diagonal and zeros elsewhere")
    parts = E.seq(xs).parts
    if all(isinstance(p, E.Elem) for p in parts):
        ms = [dense(p.value) for p in parts]
        if builtins.any(not m.axes[0].same(m.axes[1]) for m in ms):
            raise Unsupported("block_diag of matrices that are not square")
        if not ms:
            raise Unsupported("block_diag of nothing")
        n = P0
        out = A.full_arr((sum((SNum(m.axes[0].n) for m in ms), SNum(P0)),) * 2, P0, "f")
        for m in ms:
            if m.axes[0].cond is not None:
                raise Unsupported("block_diag of masked matrices")
            f, lo, hi = m.snap(), n, n + m.axes[0].n
            inside = lambda i, lo=lo, hi=hi: conj(cmp0("le", lo - i), cmp0("lt", i - hi))
            old = out.snap()
            out = SArr(out.axes, lambda i, j, f=f, lo=lo, inside=inside, old=old: A.sel(conj(inside(i), inside(j)), f(i - lo, j - lo), old(i, j)))
            n = hi
        return out
    if len(parts) != 1:
        raise Unsupported("block_diag of a mixed sequence")
    p = parts[0]
    v = fresh("k")
    with PY.assuming(p.axis.rng(v)):
        m = dense(p.get(v))
        if not m.axes[0].same(m.axes[1]):
            raise Unsupported("block_diag of matrices that are not square")
    ax, grp, off = E.flatten(p.axis, lambda k: dense(p.get(k)).axes[0])
    return SArr((ax, ax), lambda i, j: iverson(cmp0("eq", grp(i) - grp(j))) * dense(p.get(grp(i))).el(off(i), off(j)))


def sl_block_diag(*ms):
    return blocks(list(ms))


sl_block_diag.of_sequence = blocks


def sps_block_diag(ms, format=None):
    return csc_matrix(blocks(ms))


npf.SL.update(block_diag=sl_block_diag)
npf.SPS.update(block_diag=sps_block_diag)


class NaN:
    """The value nan."""

    __cv_isnan__ = True


SPARSE_PD = [None]      # a matrix -> "yes", "raises" or "nan", the two ways a matrix that is not positive definite shows


class SparseFactor(Factor):
    """The object of scikit-sparse: the analytical decomposition (for one pattern) and the numerical one (of one matrix)."""

    def __init__(self, a):
        self._factor(a)
        self.pattern = pattern(a)

    def _factor(self, a):
        a = a if isinstance(a, Sparse) else csc_matrix(a)
        self.how = SPARSE_PD[0](a.a) if SPARSE_PD[0] is not None else "yes"
        if self.how == "raises":
            raise CholmodError("matrix is not positive definite")
        Factor.__init__(self, square(a.a))

    def cholesky_inplace(self, a, *args, **k):
        npf.USED.add("sksparse.cholmod: factor.cholesky_inplace(A) makes it the factor of A, for A with the pattern it was made for")
        for x, y in zip(pattern(a), self.pattern):
            A.EXPLORER[0].need(A.cnd(A.arr_equal(x, y)), CholmodError, "the analytical decomposition is for another pattern of nonzero elements")
        self._factor(a)

    def logdet(self):
        return NaN() if self.how == "nan" else Factor.logdet(self)

    def __call__(self, b):
        if self.how == "nan":
            u = fresh("z")
            return SArr(arr(b).axes, lambda *i: PY.app("solution of a system that is not positive definite", u, *i))
        return Factor.__call__(self, b)

    solve_A = __call__

    # A = P^T L L^T P, with a permutation P
    def _once(self):
        npf.USED.add("sksparse.cholmod: P A P^T = L L^T for a permutation matrix P; apply_P, apply_Pt, solve_L, solve_Lt multiply with P, P^T, L^-1, L^-T (with use_LDLt_decomposition, the default: those of P A P^T = L D L^T)")
        if self.how == "nan":
            raise Unsupported("parts of the decomposition of a matrix that is not positive definite")

    def apply_P(self, b):
        self._once()
        return root("cholmod.P", self.a, b)

    def apply_Pt(self, b):
        self._once()
        return root("cholmod.P", self.a, b, True)

    def solve_L(self, b, use_LDLt_decomposition=True):
        self._once()
        return root("cholmod.invunitL" if use_LDLt_decomposition else "cholmod.invL", self.a, b)

    def solve_Lt(self, b, use_LDLt_decomposition=True):
        self._once()
        return root("cholmod.invunitL" if use_LDLt_decomposition else "cholmod.invL", self.a, b, True)

    def L(self):
        self._once()
        return SparseL(self.a)


class SparseL:
    """The factor L of the decomposition P A P^T = L L^T."""

    def __init__(self, a):
        self.a = a


def sps_inv(x):
    npf.USED.add("scipy.sparse.linalg.inv(A) is the inverse matrix of A")
    if isinstance(x, SparseL):
        return csc_matrix(SArr(x.a.axes, lambda i, j: functional("cholmod.invL", x.a, [i, j])))
    return csc_matrix(inv(dense(x)))


npf.SPS.update(linalg=types.SimpleNamespace(inv=sps_inv))


def pattern(a):
    a = a if isinstance(a, Sparse) else csc_matrix(a)
    return a.indptr, a.indices


class CholmodError(Exception):
    pass


def cholesky(a, *args, **k):
    npf.USED.add("sksparse.cholmod: factor(b) is the solution for b, factor.logdet() the log-determinant; a matrix that is not positive definite raises CholmodError or has logdet nan")
    return SparseFactor(a)


npf.EXTRA["sksparse"] = types.SimpleNamespace(cholmod=None)
npf.EXTRA["sksparse.cholmod"] = npf.Mod("sksparse.cholmod", dict(cholesky=cholesky, CholmodError=CholmodError))
npf.EXTRA["sksparse"].cholmod = npf.EXTRA["sksparse.cholmod"]
