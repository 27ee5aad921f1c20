"""C22: the timing-model bases and their prior, for every design matrix and every list of excluded columns."""
from cv.sym.contract import *

U = "enterprise.signals.utils."
TRUSTED = ["numpy.linalg.svd(M, full_matrices=False) returns orthonormal left singular vectors that span the columns of M"]


def design(V):
    nt, nm, nx = V.size("ntoas"), V.size("ncolumns"), V.size("nexcluded")
    M, X = V.array("M", nt, nm), V.array("excluded", nx, dtype="i")
    xs = X.snap()
    excl = E.SSeq.of(nx, lambda k: SNum(xs(k)))
    w = fresh("w")
    out = lambda j: neg(PY.forall(atom_of(w), nx, neg(cmp0("eq", xs(w) - j))))   # is column j excluded
    return nt, nm, M, M.snap(), excl, out


def cases(V):
    nt, nm, M, f, excl, out = design(V)
    yield "all columns", M, f, Axis(nt), Axis(nm), None
    yield "no exclusions", M, f, Axis(nt), Axis(nm), []
    yield "excluded columns", M, f, Axis(nt), Axis(nm, lambda j: neg(out(j))), excl


def check(V, v, want, M, f):
    B, w = v
    V.eq("columns", B, want)
    ones(V, w, want.axes[1])
    V.done("design matrix not modified", M.snap() is f)


def ones(V, w, axis):
    """Weight one for every column: a single one or one per column."""
    w = arr(w)
    V.done("one weight for all columns or one per column", not w.axes or len(w.axes) == 1 and (w.axes[0].same(axis) or w.axes[0].one()))
    V.eq("unit weights", w, SArr(w.axes, lambda *i: P1))


@contract("C22", U + "unnormed_tm_basis")
def unnormed(V):
    m = V.load("signals.utils")
    for lab, M, f, a, b, ex in cases(V):
        V.returns(lambda: m.unnormed_tm_basis(M, idx_exclude=ex), lambda v: check(V, v, SArr((a, b), f), M, f), label=lab)


@contract("C22", U + "normed_tm_basis")
def normed(V):
    m = V.load("signals.utils")
    for lab, M, f, a, b, ex in cases(V):
        def want(norm):
            def el(i, j):
                z = cmp0("eq", norm(j))
                with assuming(neg(z)):
                    q = f(i, j) / norm(j)
                return ite(z, P0, q)
            return SArr((a, b), el)
        euclid = lambda j: PY.fn("sqrt", a.sum(lambda i: f(i, j) ** 2))
        V.returns(lambda: m.normed_tm_basis(M, idx_exclude=ex), lambda v: check(V, v, want(euclid), M, f), label=lab)
        if ex is not None and b.cond is not None:
            continue
        g = V.array("norm", b.n)
        gs = g.snap()
        def given(v):
            check(V, v, want(gs), M, f)
            V.done("norms not modified", g.snap() is gs)
        V.returns(lambda: m.normed_tm_basis(M, norm=g, idx_exclude=ex), given, label=lab + ", given norms")


@contract("C22", U + "svd_tm_basis")
def svd(V):
    m = V.load("signals.utils")
    for lab, M, f, a, b, ex in cases(V):
        calls = []
        K = V.size("rank_" + str(len(lab)))
        def stub(x, full_matrices=True):
            calls.append((x, full_matrices))
            return A.sym("u", a, K), A.sym("s", K), A.sym("v", K, b)
        npf.LINALG["svd"] = stub
        def post(v):
            u, w = v
            V.done("one decomposition, reduced", len(calls) == 1 and calls[0][1] is False)
            V.eq("of the columns kept", calls[0][0], SArr((a, b), f))
            V.eq("left singular vectors", u, A.sym("u", a, K))
            ones(V, w, Axis(K))
            V.done("design matrix not modified", M.snap() is f)
        def run():
            del calls[:]
            return m.svd_tm_basis(M, idx_exclude=ex)
        try:
            V.returns(run, post, label=lab)
        finally:
            del npf.LINALG["svd"]


@contract("C22", U + "tm_prior")
def prior(V):
    m = V.load("signals.utils")
    n = V.size("n")
    w = V.array("weights", n)
    ws = w.snap()
    V.returns(lambda: m.tm_prior(w), lambda v: V.eq("weights times 1e40", v, SArr((Axis(n),), lambda k: ws(k) * P(10) ** 40)))
    x = V.real("w")
    V.returns(lambda: m.tm_prior(x), lambda v: V.eq("weight times 1e40", v, SNum(num(x) * P(10) ** 40)), label="scalar")


@contract("C22", "enterprise.signals.gp_signals.get_timing_model_basis", "enterprise.signals.gp_signals.TimingModel")
def factory(V):
    g = V.load("signals.gp_signals")
    ut = V.load("signals.utils")
    nt, nm = V.size("ntoas"), V.size("ncolumns")
    M = V.array("M", nt, nm)
    f = M.snap()
    norms = V.array("norms", nm)
    ex = object()
    for lab, kw, name in (("SVD", dict(use_svd=True), "svd_tm_basis"), ("normalised", dict(), "normed_tm_basis"),
                          ("unnormalised", dict(normed=False), "unnormed_tm_basis"), ("given norms", dict(normed=norms), "normed_tm_basis")):
        calls = []
        def basis(**k):
            calls.append(k)
            def fn(Mmat, **kk):
                raise AssertionError
            return calls
        old = getattr(ut, name)
        setattr(ut, name, lambda **k: (calls.append(k), "the basis")[1])
        try:
            def post(v):
                w = dict(idx_exclude=ex)
                if lab == "given norms":
                    w["norm"] = norms
                V.done("the documented basis with the given options", v == "the basis" and len(calls) == 1 and {k: x for k, x in calls[0].items() if x is not None} == w, "%r" % calls)
            V.returns(lambda: (calls.clear(), g.get_timing_model_basis(idx_exclude=ex, **kw))[1], post, label=lab)
        finally:
            setattr(ut, name, old)
    V.rejects(lambda: g.get_timing_model_basis(use_svd=True, normed=False), ValueError, "an SVD basis cannot be unnormalised")
    # the signal: basis as above, prior variance 1e40 for every column
    for lab, kw, want in (("normalised", {}, None), ("unnormalised", dict(normed=False), f)):
        sig = g.TimingModel(**kw)(E.Obj(name="psr", toas=V.array("toas", nt), Mmat=M))
        V.returns(lambda: sig.get_phi({}), lambda v: V.eq("prior variance", v, SArr((Axis(nm),), lambda k: P(10) ** 40)), label=lab + " signal")
        def pb(v):
            if want is not None:
                V.eq("basis", v, SArr((Axis(nt), Axis(nm)), want))
            V.done("design matrix not modified", M.snap() is f)
        V.returns(lambda: sig.get_basis({}), pb, label=lab + " signal")
        V.returns(lambda: sig.get_phiinv({}), lambda v: V.eq("inverse prior variance", v, SArr((Axis(nm),), lambda k: P(10) ** -40)), label=lab + " signal")
