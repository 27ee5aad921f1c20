"""C01: solves and log-determinants of every white-noise representation are those of one covariance matrix."""
from cv.sym.contract import *

S = "enterprise.signals.signal_base."


class Noise:
    """diag(nvec) + sum over blocks k of jvec(k) on the TOAs with epoch(i) == k, for blocks of more than one TOA."""

    def __init__(self, V):
        self.n, self.K = V.size("ntoas"), V.size("nblocks")
        n, K = self.n, self.K
        self.nvec, self.jvec = V.array("nvec", n, pos=True), V.array("jvec", K, pos=True)
        V.array("epoch", n, dtype="i")
        w = fresh("w")
        V.assume(PY.forall(atom_of(w), n, conj(cmp0("le", -self.ep(w) - 1), cmp0("lt", self.ep(w) - K))))
        self.slices = E.SSeq.of(K, lambda k: SArr((self.block(k),), lambda i: i, "i"))
        self.nv, self.jv = self.nvec.snap(), self.jvec.snap()

    def ep(self, i):
        return app("epoch", i, integer=True)

    def block(self, k):
        return Axis(self.n, lambda i: cmp0("eq", self.ep(i) - k))

    def count(self, k):
        return self.block(k).sum(lambda i: P1)

    def big(self, k):
        return cmp0("lt", P1 - self.count(k))

    def times(self, y):
        """i -> (N y)(i)"""
        return lambda i: self.nv(i) * y(i) + Axis(self.K).sum(lambda k: iverson(conj(cmp0("eq", self.ep(i) - k), self.big(k))) * self.jv(k) * self.block(k).sum(y))


@contract("C01", S + "ShermanMorrison.solve", S + "ShermanMorrison._solve_D1")
def sherman_morrison(V):
    m = V.load("signals.signal_base")
    N = Noise(V)
    n, K = N.n, N.K
    x = V.array("x", n)
    sm = lambda: m.ShermanMorrison(N.jvec, N.slices, N.nvec)
    f = x.snap()
    def post(v):
        V.eq("N times the solution is the right-hand side", SArr((Axis(n),), N.times(v.snap())), SArr((Axis(n),), f))
        V.done("operands not modified", x.snap() is f and N.nvec.snap() is N.nv)
    V.returns(lambda: sm().solve(x), post)


def mats(V, n):
    p, q = V.size("ncols_x"), V.size("ncols_z")
    return V.array("x", n), V.array("z", n), V.array("X", n, p), V.array("Z", n, q), p, q


@contract("C01", S + "ShermanMorrison.solve", S + "ShermanMorrison._solve_1D1", S + "ShermanMorrison._solve_2D2", S + "ShermanMorrison._get_logdet")
def sherman_morrison_products(V):
    """Products with left operands are the products with the solution; the log-determinant is that of the determinant lemma."""
    m = V.load("signals.signal_base")
    N = Noise(V)
    n, K = N.n, N.K
    x, z, X, Z, p, q = mats(V, n)
    sm = lambda: m.ShermanMorrison(N.jvec, N.slices, N.nvec)
    ax = Axis(n)

    def sol(f):
        """The solution for the right-hand side f (proved in sherman_morrison to be N^-1 f)."""
        s = lambda k, g: N.block(k).sum(lambda i: g(i) / N.nv(i))
        return lambda i: f(i) / N.nv(i) - Axis(K).sum(lambda k: iverson(conj(cmp0("eq", N.ep(i) - k), N.big(k))) * s(k, f) / (s(k, lambda i: P1) + 1 / N.jv(k)) / N.nv(i))

    def logdet():
        A_ = lambda k: N.block(k).sum(lambda i: 1 / N.nv(i))
        return SNum(ax.sum(lambda i: PY.mk_log(N.nv(i))) + Axis(K).sum(lambda k: iverson(N.big(k)) * PY.mk_log(1 + N.jv(k) * A_(k))))

    xf, zf = x.snap(), z.snap()
    Xf, Zf = X.snap(), Z.snap()
    y = sol(xf)
    col = lambda b: sol(lambda i: Xf(i, b))
    cases = [("vector", x, None, SArr((ax,), y)),
             ("vector, vector", x, z, SNum(ax.sum(lambda i: zf(i) * y(i)))),
             ("vector, matrix", x, Z, SArr((Axis(q),), lambda a: ax.sum(lambda i: Zf(i, a) * y(i)))),
             ("matrix, vector", X, z, SArr((Axis(p),), lambda b: ax.sum(lambda i: zf(i) * col(b)(i)))),
             ("matrix, matrix", X, Z, SArr((Axis(q), Axis(p)), lambda a, b: ax.sum(lambda i: Zf(i, a) * col(b)(i))))]
    for lab, o, l, want in cases:
        kw = {} if l is None else dict(left_array=l)
        V.returns(lambda: sm().solve(o, **kw), lambda v: V.eq("product with the solution", v, want), label=lab)
        def both(v):
            V.done("a pair", isinstance(v, tuple) and len(v) == 2)
            V.eq("product with the solution", v[0], want)
            V.eq("log-determinant", v[1], logdet())
        V.returns(lambda: sm().solve(o, logdet=True, **kw), both, label=lab + ", logdet")
    V.done("operands not modified", all(a.snap() is f for a, f in ((x, xf), (z, zf), (X, Xf), (Z, Zf), (N.nvec, N.nv), (N.jvec, N.jv))))
    V.rejects(lambda: sm().solve(X), NotImplementedError, "a matrix without left operand is refused")
    T3 = V.array("T3", n, n, n)
    V.rejects(lambda: sm().solve(T3), TypeError, "three dimensions are refused")
    V.rejects(lambda: sm().solve(x, left_array=T3), TypeError, "three dimensions are refused")
    V.rejects(lambda: sm().solve(X, left_array=T3), TypeError, "three dimensions are refused")


class Blocks(Noise):
    """diag(nvec) plus the matrix B(k) on the TOAs with epoch(i) == k, for blocks of more than one TOA."""

    def __init__(self, V):
        super().__init__(V)
        A.sym("B", self.K, self.n, self.n)
        PY.SYMMETRIC.add("B")
        self.B = lambda k, i, j: app("B", k, i, j)
        self.blocks = E.SSeq.of(self.K, lambda k: SArr((self.block(k), self.block(k)), lambda i, j: self.B(k, i, j)))

    def mat(self, k):
        """The covariance on the TOAs of block k."""
        return SArr((self.block(k), self.block(k)), lambda i, j: self.B(k, i, j) + iverson(cmp0("eq", i - j)) * self.nv(i))

    def sol(self, f):
        """i -> (N^-1 f)(i), block by block."""
        def y(i):
            e = self.ep(i)
            inside = conj(cmp0("le", -e), cmp0("lt", e - self.K), self.big(e))
            m = self.mat(e)
            return iverson(inside) * self.block(e).sum(lambda j: LA.functional("inv", m, [i, j]) * f(j)) + (1 - iverson(inside)) * f(i) / self.nv(i)
        return y

    def logdet(self):
        K = Axis(self.K)
        free = Axis(self.n).sum(lambda i: (1 - K.sum(lambda k: iverson(cmp0("eq", self.ep(i) - k)))) * PY.mk_log(self.nv(i)))
        blk = lambda k: ite(self.big(k), num(LA.logdet(self.mat(k))), self.block(k).sum(lambda i: PY.mk_log(self.nv(i))))
        return SNum(free + K.sum(blk))


@contract("C01", S + "BlockMatrix.solve", S + "BlockMatrix._solve_NX", S + "BlockMatrix._solve_ZNX", S + "BlockMatrix._get_logdet", S + "BlockMatrix.__init__")
def block_matrix(V):
    m = V.load("signals.signal_base")
    N = Blocks(V)
    n, K = N.n, N.K
    x, z, X, Z, p, q = mats(V, n)
    ax = Axis(n)
    bm = lambda: m.BlockMatrix(N.blocks, N.slices, N.nvec)
    xf, zf, Xf, Zf = x.snap(), z.snap(), X.snap(), Z.snap()
    y = N.sol(xf)
    col = lambda b: N.sol(lambda i: Xf(i, b))
    cases = [("vector", x, None, SArr((ax,), y)),
             ("matrix", X, None, SArr((ax, Axis(p)), lambda i, b: col(b)(i))),
             ("vector, vector", x, z, SNum(ax.sum(lambda i: zf(i) * y(i)))),
             ("vector, matrix", x, Z, SArr((Axis(q),), lambda a: ax.sum(lambda i: Zf(i, a) * y(i)))),
             ("matrix, vector", X, z, SArr((Axis(p),), lambda b: ax.sum(lambda i: zf(i) * col(b)(i)))),
             ("matrix, matrix", X, Z, SArr((Axis(q), Axis(p)), lambda a, b: ax.sum(lambda i: Zf(i, a) * col(b)(i))))]
    for lab, o, l, want in cases:
        kw = {} if l is None else dict(left_array=l)
        V.returns(lambda: bm().solve(o, **kw), lambda v: V.eq("product with the solution", v, want), label=lab)
        def both(v):
            V.done("a pair", isinstance(v, tuple) and len(v) == 2)
            V.eq("product with the solution", v[0], want)
            V.eq("log-determinant", v[1], N.logdet())
            V.done("operands not modified", all(a.snap() is f for a, f in ((x, xf), (z, zf), (X, Xf), (Z, Zf), (N.nvec, N.nv))))
        V.returns(lambda: bm().solve(o, logdet=True, **kw), both, label=lab + ", logdet")


@contract("C01", S + "ndarray_alt.solve", S + "ndarray_alt.__new__")
def diagonal(V):
    m = V.load("signals.signal_base")
    n = V.size("ntoas")
    d = V.array("nvec", n, pos=True)
    x, z, X, Z, p, q = mats(V, n)
    ax = Axis(n)
    fs = df, xf, zf, Xf, Zf = [a.snap() for a in (d, x, z, X, Z)]
    kept = lambda: all(a.snap() is f for a, f in zip((d, x, z, X, Z), fs))
    cases = [("vector", x, None, SArr((ax,), lambda i: xf(i) / df(i))),
             ("matrix", X, None, SArr((ax, Axis(p)), lambda i, b: Xf(i, b) / df(i))),
             ("vector, vector", x, z, SNum(ax.sum(lambda i: zf(i) * xf(i) / df(i)))),
             ("vector, matrix", x, Z, SArr((Axis(q),), lambda a: ax.sum(lambda i: Zf(i, a) * xf(i) / df(i)))),
             ("matrix, vector", X, z, SArr((Axis(p),), lambda b: ax.sum(lambda i: zf(i) * Xf(i, b) / df(i)))),
             ("matrix, matrix", X, Z, SArr((Axis(q), Axis(p)), lambda a, b: ax.sum(lambda i: Zf(i, a) * Xf(i, b) / df(i))))]
    for lab, o, l, want in cases:
        kw = {} if l is None else dict(left_array=l)
        V.returns(lambda: m.ndarray_alt(d).solve(o, **kw), lambda v: V.eq("product with the solution", v, want), label=lab)
        def both(v):
            V.done("a pair", isinstance(v, tuple) and len(v) == 2)
            V.eq("product with the solution", v[0], want)
            V.eq("log-determinant", v[1], SNum(ax.sum(lambda i: PY.mk_log(df(i)))))
            V.done("operands not modified", kept())
        V.returns(lambda: m.ndarray_alt(d).solve(o, logdet=True, **kw), both, label=lab + ", logdet")
    V.rejects(lambda: m.ndarray_alt(X), NotImplementedError, "only diagonals")


@contract("C01", S + "csc_matrix_alt.solve")
def sparse_matrix(V):
    """The sparse factorisation is of the matrix itself; the products are with its solution."""
    m = V.load("signals.signal_base")
    n = V.size("ntoas")
    M = V.array("M", n, n)
    PY.SYMMETRIC.add("M")
    x, z, X, Z, p, q = mats(V, n)
    ax = Axis(n)
    fs = xf, zf, Xf, Zf = [a.snap() for a in (x, z, X, Z)]
    inv = lambda i, j: LA.functional("inv", M, [i, j])
    y = lambda i: ax.sum(lambda j: inv(i, j) * xf(j))
    Y = lambda i, b: ax.sum(lambda j: inv(i, j) * Xf(j, b))
    cases = [("vector", x, None, SArr((ax,), y)),
             ("matrix", X, None, SArr((ax, Axis(p)), Y)),
             ("vector, vector", x, z, SNum(ax.sum(lambda i: zf(i) * y(i)))),
             ("vector, matrix", x, Z, SArr((Axis(q),), lambda a: ax.sum(lambda i: Zf(i, a) * y(i)))),
             ("matrix, vector", X, z, SArr((Axis(p),), lambda b: ax.sum(lambda i: zf(i) * Y(i, b)))),
             ("matrix, matrix", X, Z, SArr((Axis(q), Axis(p)), lambda a, b: ax.sum(lambda i: Zf(i, a) * Y(i, b))))]
    for lab, o, l, want in cases:
        kw = {} if l is None else dict(left_array=l)
        V.returns(lambda: m.csc_matrix_alt(M).solve(o, **kw), lambda v: V.eq("product with the solution", v, want), label=lab)
        def both(v):
            V.done("a pair", isinstance(v, tuple) and len(v) == 2)
            V.eq("product with the solution", v[0], want)
            V.eq("log-determinant", v[1], LA.logdet(M))
        V.returns(lambda: m.csc_matrix_alt(M).solve(o, logdet=True, **kw), both, label=lab + ", logdet")


@contract("C01", S + "ndarray_alt.__add__", S + "ShermanMorrison.__add__", S + "ShermanMorrison.__radd__", S + "BlockMatrix.__add__",
          S + "BlockMatrix.__radd__", S + "csc_matrix_alt.__add__", S + "csc_matrix_alt.__radd__", S + "csc_matrix_alt._add_diag")
def sums(V):
    """Sums of a block part with diagonals, in every order: one object, with the sum of the diagonals."""
    m = V.load("signals.signal_base")
    N = Blocks(V)
    n = N.n
    d1, d2 = V.array("d1", n, pos=True), V.array("d2", n, pos=True)
    M = V.array("M", n, n)
    f1, f2, fM = d1.snap(), d2.snap(), M.snap()
    tot = SArr((Axis(n),), lambda i: f1(i) + f2(i))
    D1, D2 = lambda: m.ndarray_alt(d1), lambda: m.ndarray_alt(d2)
    kinds = dict(sm=lambda: m.ShermanMorrison(N.jvec, N.slices), block=lambda: m.BlockMatrix(N.blocks, N.slices), sparse=lambda: m.csc_matrix_alt(M))

    def diag(v):
        V.done("a diagonal", type(v).tag is m.ndarray_alt)
        V.eq("diagonal", v, tot)
    V.returns(lambda: 0 + D1() + D2(), diag, label="diagonals")
    for kind, mk in kinds.items():
        def post(v, kind=kind):
            if kind == "sparse":
                V.done("same class", type(v) is m.csc_matrix_alt)
                V.eq("matrix", v.dense(), SArr((Axis(n), Axis(n)), lambda i, j: fM(i, j) + iverson(cmp0("eq", i - j)) * (f1(i) + f2(i))))
                return
            V.done("same class", type(v) is (m.ShermanMorrison if kind == "sm" else m.BlockMatrix))
            V.eq("diagonal", v._nvec, tot)
            V.done("blocks kept", v._slices is N.slices and (v._jvec is N.jvec if kind == "sm" else v._blocks is N.blocks))
        for lab, f in [("k, a, b", lambda: 0 + mk() + D1() + D2()), ("a, k, b", lambda: 0 + D1() + mk() + D2()), ("a, b, k", lambda: 0 + D1() + D2() + mk())]:
            V.returns(f, post, label="%s %s" % (kind, lab))
        V.returns(lambda: (0 + D1() + mk() + D2(), d1, d2), lambda v: V.done("the diagonals are not modified", d1.snap() is f1 and d2.snap() is f2), label="%s" % kind)
        V.rejects(lambda: 1 + mk(), (TypeError, NotImplementedError), "only 0 and diagonals are added")


TRUSTED = ["fastshermanmorrison.FastShermanMorrison (an external library: same contract as ShermanMorrison, checked at run time only)",
           "numpy: ndarray + object calls the object's __radd__ for each element, and fails when that raises; __add__ of a subclass is tried first"]
ASSUMPTIONS = ["the lemmas of lemmas/C01.lean (determinant lemma, uniqueness of the solution, block matrices) are about the matrices the contracts name; the correspondence is by reading",
               "epochs are given to the proof by a map from TOAs to epochs (disjoint slices); matrices that are factorised are positive definite",
               "a block of a single TOA carries no correlated noise (Sherman-Morrison and block classes: as documented, ECORR needs two TOAs)"]
