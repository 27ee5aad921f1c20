"""C03: the noise matrix with a marginalised timing model."""
from cv.sym.contract import *
from cv.proofs.c12 import load

G = "enterprise.signals.gp_signals."


class Noise:
    """Contract of a white-noise matrix (C01): products with its inverse, symmetric, and its log-determinant."""

    def __init__(self, n, name="Ninv", parts=()):
        self.n, self.name, self.parts = n, name, parts
        PY.SYMMETRIC.add(name)

    def __radd__(self, o):
        assert A.is_scalar(o) and num(o) is P0
        return self

    def __add__(self, o):
        return Noise(self.n, "Ninv_sum", (self, o))

    def bil(self, f, g):
        """left index, right index -> left^T N^-1 right"""
        ax = Axis(self.n)
        return lambda a, b: ax.sum(lambda i: ax.sum(lambda j: f(i, *a) * app(self.name, i, j) * g(j, *b)))

    def solve(self, right, left_array=None, logdet=False):
        assert left_array is not None
        r, l = right.snap(), left_array.snap()
        v = self.bil(l, r)
        nl = len(left_array.axes) - 1
        ret = SArr(left_array.axes[1:] + right.axes[1:], lambda *i: v(i[:nl], i[nl:]))
        ret = ret if ret.axes else SNum(ret.el())
        return (ret, SNum(var("logdet_" + self.name))) if logdet else ret


def world(V):
    sb, dec, gs = load(V, "gp_signals")
    n, m, p, q = V.size("ntoas"), V.size("npar"), V.size("nT"), V.size("nL")
    M = V.array("M", n, m)
    return sb, gs, n, m, p, q, M


def operator(N, M, n, m):
    """(left, right) -> left^T (N^-1 - N^-1 M (M^T N^-1 M)^-1 M^T N^-1) right, and the matrix M^T N^-1 M"""
    Mf = M.snap()
    mnm = N.bil(Mf, Mf)
    K = SArr((Axis(m), Axis(m)), lambda a, b: mnm((a,), (b,)))
    am = Axis(m)

    def op(l, r):
        lr, lm, mr = N.bil(l, r), N.bil(l, Mf), N.bil(Mf, r)
        return lambda a, b: lr(a, b) - am.sum(lambda c: am.sum(lambda d: lm(a, (c,)) * LA.functional("inv", K, [c, d]) * mr((d,), b)))

    return op, K


@contract("C03", G + "MarginalizingNmat.solve", G + "MarginalizingNmat.cf", G + "MarginalizingNmat.MNr", G + "MarginalizingNmat.MNF", G + "MarginalizingNmat.MNMMNF",
          "enterprise.signals.signal_base.simplememobyid")
def solve(V):
    sb, gs, n, m, p, q, M = world(V)
    N = Noise(n)
    op, K = operator(N, M, n, m)
    r, s, T, L = V.array("r", n), V.array("s", n), V.array("T", n, p), V.array("L", n, q)
    fr, fs, fT, fL, fM = r.snap(), s.snap(), T.snap(), L.snap(), M.snap()
    ax, ap, aq = Axis(n), Axis(p), Axis(q)
    ld = lambda: num(LA.logdet(K)) + var("logdet_Ninv") + m * PY.mk_log(P(10) ** 40)
    rr = lambda f, g: SNum(op(f, g)((), ()))
    cases = {"vector, itself": (r, r, lambda: rr(fr, fr)), "vector, matrix": (r, T, lambda: SArr((ap,), lambda a: op(fT, fr)((a,), ()))),
             "matrix, itself": (T, T, lambda: SArr((ap, ap), lambda a, b: op(fT, fT)((a,), (b,)))),
             "matrix, matrix": (T, L, lambda: SArr((aq, ap), lambda a, b: op(fL, fT)((a,), (b,)))),
             "vector, vector": (r, s, lambda: rr(fs, fr))}
    kept = lambda: V.done("operands not modified", (r.snap(), s.snap(), T.snap(), L.snap(), M.snap()) == (fr, fs, fT, fL, fM))
    for lab, (right, left, want) in cases.items():
        V.returns(lambda: gs.MarginalizingNmat(M, N).solve(right, left_array=left), lambda v: (V.eq("product", v, want()), kept()), label=lab)

    def both(v):
        V.eq("product", v[0], rr(fr, fr))
        V.eq("log-determinant", v[1], SNum(ld()))
    V.returns(lambda: gs.MarginalizingNmat(M, N).solve(r, left_array=r, logdet=True), both, label="with log-determinant")
    # one object asked again and again
    order = ["vector, itself", "matrix, itself", "vector, matrix", "matrix, matrix", "vector, vector", "matrix, matrix", "vector, matrix", "vector, itself", "matrix, itself"]
    V.returns(lambda: (lambda o: [o.solve(cases[x][0], left_array=cases[x][1]) for x in order])(gs.MarginalizingNmat(M, N)),
              lambda vs: [V.eq("%s (%d)" % (x, i), v, cases[x][2]()) for i, (x, v) in enumerate(zip(order, vs))], label="sequence")
    # a second noise matrix does not see the first
    N2 = Noise(n, "Ninv2")
    op2, K2 = operator(N2, M, n, m)
    V.returns(lambda: (gs.MarginalizingNmat(M, N).solve(r, left_array=r, logdet=True), gs.MarginalizingNmat(M, N2).solve(r, left_array=r, logdet=True)),
              lambda v: (V.eq("first", v[0][0], rr(fr, fr)), V.eq("second", v[1][0], SNum(op2(fr, fr)((), ()))),
                         V.eq("second log-determinant", v[1][1], SNum(num(LA.logdet(K2)) + var("logdet_Ninv2") + m * PY.mk_log(P(10) ** 40)))), label="two matrices")
    V.rejects(lambda: gs.MarginalizingNmat(M, N).solve(T), ValueError, "no left operand for a matrix")


@contract("C03", G + "MarginalizingTimingModel", G + "MarginalizingNmat.__add__", G + "MarginalizingNmat.__radd__")
def assembly(V):
    """The signal's matrix has the timing basis; white-noise terms added on either side enter N."""
    sb, gs, n, m, p, q, M = world(V)
    psr = E.Obj(name="psr")
    made = []

    def basis(**k):
        def f(name, psr=None):
            made.append((k, name, psr))
            return lambda: (M, V.array("labels", m))
        return f

    gs.get_timing_model_basis = lambda use_svd=False, normed=True: basis(use_svd=use_svd, normed=normed)
    for svd in (False, True):
        def post(o):
            V.done("a marginalising matrix", isinstance(o, gs.MarginalizingNmat) and o.Mmat is M)
            V.done("the basis asked for, for the pulsar", made[-1] == (dict(use_svd=svd, normed=True), "psr_tm", psr), repr(made[-1]))
        V.returns(lambda: gs.MarginalizingTimingModel(name="tm", use_svd=svd)(psr).get_ndiag({}), post, label="svd" if svd else "normalised")
    N1, N2 = Noise(n, "N1"), Noise(n, "N2")
    tm = lambda: gs.MarginalizingNmat(M)
    d = sb.ndarray_alt(V.array("d", n))
    f = d.snap()

    def is_sum(o, *terms):
        V.done("the basis is kept", isinstance(o, gs.MarginalizingNmat) and o.Mmat is M)
        got = o.Nmat.parts if isinstance(o.Nmat, Noise) and o.Nmat.parts else (o.Nmat,)
        V.done("the terms enter N", len(got) == len(terms) and all(a is b for a, b in zip(got, terms)), repr(o.Nmat))

    V.returns(lambda: tm() + N1, lambda o: is_sum(o, N1), label="one term")
    V.returns(lambda: tm() + N1 + N2, lambda o: is_sum(o, N1, N2), label="two terms")
    V.returns(lambda: sum([tm(), N1, N2]), lambda o: is_sum(o, N1, N2), label="sum")
    V.returns(lambda: N1.__radd__(0) and (tm().__radd__(N1)), lambda o: is_sum(o, N1), label="term on the left")
    V.returns(lambda: tm() + d, lambda o: V.eq("diagonal term", o.Nmat, SArr((Axis(n),), f)), label="diagonal")
    V.returns(lambda: d + tm(), lambda o: V.eq("diagonal term", o.Nmat, SArr((Axis(n),), f)), label="diagonal on the left")
    V.returns(lambda: sum([tm(), d, d]), lambda o: V.eq("diagonal terms", o.Nmat, SArr((Axis(n),), lambda i: 2 * f(i))), label="diagonals")
    V.rejects(lambda: tm() + tm(), ValueError, "two marginalised timing models")


TRUSTED = ["numpy, scipy.sparse, scikit-sparse: the contracts listed with the obligations", "white-noise matrices: solve() is the product with the symmetric inverse (C01); the bases: C22"]
ASSUMPTIONS = ["M has full column rank, so that M^T N^-1 M is positive definite", "the agreement with a prior of variance 1e40 is the limit proved in lemmas/C03.lean (1e-40 in place of 0)"]
