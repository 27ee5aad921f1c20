"""C23: conditional GP samples have the posterior mean and covariance."""
from cv.sym.contract import *
from cv.sym import prove as PR
from cv.sym.npf import NP

U = "enterprise.signals.utils."
BOUNDED = ["1 to 3 pulsars with up to 4 signals each and up to 2 samples (the numbers of columns of the bases, the matrices and the residuals are arbitrary)"]
TRUSTED = ["PTA.get_phiinv (C06) and PTA.get_TNr, get_TNT (C04): T^T N^-1 r, T^T N^-1 T and Phi^-1, symmetric matrices, Sigma positive definite"]

# (pulsar -> signals): type, timing model?; b: own basis, c: common basis, x: a Gaussian process with explicit coefficients (no basis),
# w: white noise, t: timing model
QUICK = ["b", "w,x", "bx,w,cbt"]
THOROUGH = ["bb,xbw", "wtb,w,bct", "cxb,bc", "t,tw"]


class World:
    def __init__(self, V, layout, common, kind, n=None):
        self.V, self.common, self.kind = V, common, kind
        self.params = E.CvDict(a=SNum(app("a")))
        PY.SYMMETRIC.update(("TNT", "Phiinv"))
        self.pulsars = []
        for k, ch in enumerate(layout.split(",")):
            sigs = []
            for s, c in enumerate(ch):
                name = "p%d_%s%d" % (k, "linear_timing_model" if c == "t" else c, s)
                size = V.size("n%d%d" % (k, s)) if c in "bct" else None
                sigs.append((c, name, size))
            self.pulsars.append(sigs)
        self.nt = [V.size("toas%d" % k) for k in range(len(self.pulsars))]
        self.cols = [sum((z for c, m, z in sigs if z is not None), P0) for sigs in self.pulsars]
        self.has = [any(z is not None for c, m, z in sigs) for sigs in self.pulsars]
        self.with_gp = [k for k in range(len(self.pulsars)) if self.has[k]]
        self.total = sum((self.cols[k] for k in self.with_gp), P0)

    def basis(self, k, s, z):
        return SArr((Axis(self.nt[k]), Axis(z)), lambda i, j: app("F", P(k), P(s), i, j))

    def TNr(self, k):
        return SArr((Axis(self.cols[k]),), lambda i: app("TNr", P(k), i)) if self.has[k] else None

    def TNT(self, k):
        return SArr((Axis(self.cols[k]),) * 2, lambda i, j: app("TNT", P(k), i, j)) if self.has[k] else None

    def phiinv(self, k):
        if self.kind == "vector":
            return SArr((Axis(self.cols[k]),), lambda i: app("phiinv", P(k), i)) if self.has[k] else None
        return SArr((Axis(self.cols[k]),) * 2, lambda i, j: app("Phiinv", P(k), i, j)) if self.has[k] else None

    def check(self, p):
        if p is not self.params:
            raise AssertionError("evaluated at other parameters")

    def pta(self, method):
        q = self

        def signal(k, s, c, name, z):
            def get_basis(params):
                q.check(params)
                return q.basis(k, s, z) if z is not None else None
            return E.Obj(name=name, signal_type={"c": "common basis", "w": "white noise"}.get(c, "basis"), get_basis=get_basis, psrname="p%d" % k)

        class PTA(E.Obj):
            _commonsignals = {"common": {}} if q.common else {}
            pulsarmodels = [E.Obj(_signals=[signal(k, s, *x) for s, x in enumerate(sigs)]) for k, sigs in enumerate(q.pulsars)]

            def get_TNr(self, params):
                q.check(params)
                return [q.TNr(k) for k in range(len(q.pulsars))]

            def get_TNT(self, params):
                q.check(params)
                return [q.TNT(k) for k in range(len(q.pulsars))]

            def get_phiinv(self, params, logdet=False, method="cliques"):
                q.check(params)
                assert not logdet
                if method is not q.method:
                    raise AssertionError("another method to invert the prior")
                if q.common:
                    m = SArr((Axis(q.total),) * 2, lambda i, j: app("Phiinv", i, j))
                    return LA.csc_matrix(m) if q.kind == "sparse" else m
                return [q.phiinv(k) for k in range(len(q.pulsars))]
        self.method = method
        return PTA()

    def sigma(self, k=None):
        """The conditional inverse covariance of one pulsar, or of all"""
        if k is None:
            m = LA.blocks([self.TNT(k) for k in self.with_gp]).snap()
            return SArr((Axis(self.total),) * 2, lambda i, j: m(i, j) + app("Phiinv", i, j))
        f = (lambda i, j: iverson(cmp0("eq", i - j)) * app("phiinv", P(k), i)) if self.kind == "vector" else (lambda i, j: app("Phiinv", P(k), i, j))
        return SArr((Axis(self.cols[k]),) * 2, lambda i, j: app("TNT", P(k), i, j) + f(i, j))

    def systems(self):
        """(matrix, right-hand side, offset of its coefficients among all)"""
        if self.common:
            if self.with_gp:
                d = NP["concatenate"]([self.TNr(k) for k in self.with_gp])
                yield self.sigma(), d, P0
            return
        n = P0
        for k in self.with_gp:
            yield self.sigma(k), self.TNr(k), n
            n = n + self.cols[k]

    def places(self):
        """(signal, its basis, number of its system, position of its coefficients there)"""
        n = P0
        for j, k in enumerate(self.with_gp):
            m = P0
            for s, (c, name, z) in enumerate(self.pulsars[k]):
                if z is not None:
                    yield k, s, c, name, z, (0 if self.common else j), (n + m if self.common else m)
                    m = m + z
            n = n + self.cols[k]


MEANS = ["inv", "svd"]
ROOTS = ["chol", "cholmod", "svd", "svd of the inverse"]


def mean(how, S, d):
    """Sigma^-1 d (lemmas/C23.lean: the two are equal)"""
    ax, f = S.axes[0], d.snap()
    if how == "inv":
        return LA.apply_inv(S, d).snap()
    u, s = (lambda i, j: LA.functional("svd.u", S, [i, j])), (lambda j: LA.functional("svd.s", S, [j]))
    return lambda i: ax.sum(lambda j: u(i, j) * ax.sum(lambda l: u(l, j) * f(l)) / s(j))


def spread(how, S, x):
    """B x for one of the B with B B^T = Sigma^-1 (lemmas/C23.lean)"""
    ax, F = S.axes[0], LA.functional
    if how == "chol":
        return lambda i: ax.sum(lambda j: F("invchol", S, [j, i]) * x(j))
    if how == "cholmod":
        return lambda i: ax.sum(lambda m: F("cholmod.P", S, [m, i]) * ax.sum(lambda j: F("cholmod.invL", S, [j, m]) * x(j)))
    PY.POS.add("svd.s:")
    if how == "svd":
        return lambda i: ax.sum(lambda j: F("svd.u", S, [i, j]) * PY.power(F("svd.s", S, [j]), -0.5) * x(j))
    I = LA.inv(S)
    return lambda i: ax.sum(lambda j: F("svd.u", I, [i, j]) * PY.power(F("svd.s", I, [j]), 0.5) * x(j))


def same(f, g, n):
    v = fresh("i")
    ax = Axis(n)
    PR._budget[0] = 0
    with assuming(ax.rng(v)):
        return PR.zero(f(v) - g(v))


COMBOS = [(m, r) for m in MEANS for r in ROOTS]


class Sample:
    """One of the samples that are returned: which mean, root and deviates it is made of is found on the first signal of a system, and
    then an obligation for all of them."""

    def __init__(self, q, draws, variance):
        self.q, self.draws, self.variance = q, draws, variance
        self.systems = list(q.systems())
        self.made = {}

    def of(self, j, got, n, lift):
        """The coefficients b of system j, from what is returned, lift(b)"""
        if j not in self.made:
            self.made[j] = self.find(j, got, n, lift) or mean("inv", *self.systems[j][:2])
        return self.made[j]

    def find(self, j, got, n, lift):
        S, d, off = self.systems[j]
        if not self.variance:
            return next((m for m in (mean(how, S, d) for how in MEANS) if same(got, lift(m), n)), None)
        for combo in list(COMBOS):
            m = mean(combo[0], S, d)
            for draw in list(self.draws):
                b = spread(combo[1], S, lambda i: app("random.normal", draw[1], P(draw[2]), i))
                if same(got, lift(lambda i: m(i) + b(i)), n):
                    self.draws.remove(draw)
                    COMBOS.remove(combo)
                    COMBOS.insert(0, combo)
                    return lambda i: m(i) + b(i)


def judge(V, q, r, n, variance, processes=False, extra=(), given=None):
    """The samples ds have exactly the coefficients (or processes) of the PTA's signals."""
    ds, log = r
    draws = [x for x in log if x[0] == "normal"]
    V.done("no other random numbers", len(draws) == len(log), repr(log))
    V.done("one for each sample", len(ds) == n, "%d" % len(ds))
    V.done("every sample is a dictionary of its own", all(d is not e for i, d in enumerate(ds) for e in ds[:i]) and all(d is not q.params for d in ds), "")
    names = [name + ("" if processes else "_coefficients") for k, s, c, name, z, j, at in q.places()] + list(extra) + list(given or ())
    for d in ds:
        smp = Sample(q, draws, variance)
        V.done("exactly the names of the signals with coefficients", sorted(d) == sorted(names), "%s, want %s" % (sorted(d), sorted(names)))
        for g in given or ():
            V.eq("the parameters given", d[g], given[g])
        for k, s, c, name, z, j, at in q.places():
            key = name + ("" if processes else "_coefficients")
            if key not in d:
                continue
            if processes:
                n, what = q.nt[k], "its basis times its coefficients, "
                lift = lambda b: lambda i: Axis(z).sum(lambda c: app("F", P(k), P(s), i, c) * b(at + c))
            else:
                n, what = z, ""
                lift = lambda b: lambda i: b(at + i)
            b = smp.of(j, d[key].snap(), n, lift)
            V.eq("%s: %sthe posterior mean%s" % (name, what, " plus B x with B B^T the posterior covariance" if variance else ""), d[key], SArr((Axis(n),), lift(b)))
        yield d, smp


def cases(worlds):
    for lay in worlds:
        for common in (False, True):
            if common and not any(c in lay for c in "bct"):
                continue
            for kind in (("dense", "sparse") if common else ("vector", "matrix")):
                yield lay, common, kind


def conditional_in(V, worlds):
    u = V.load("signals.utils")
    for lay, common, kind in cases(worlds):
        q = World(V, lay, common, kind)
        for how, n in (("mean", 1), ("sample", 2)):
            def run():
                npf.RANDOM.reset()
                g = u.ConditionalGP(q.pta("the method"), phiinv_method="the method")
                ds = [g.get_mean_coefficients(q.params)] if how == "mean" else g.sample_coefficients(q.params, n=n)
                return ds, list(npf.RANDOM.log)
            V.returns(run, lambda r: list(judge(V, q, r, n, how != "mean")), label="%s, %s, %s, %s of %d" % (lay, "common" if common else "independent", kind, how, n))


C = [U + "ConditionalGP." + m for m in ("__init__", "_make_conditional", "_sample_conditional", "get_mean_coefficients", "sample_coefficients")]


@contract("C23", *C, limit=400)
def conditional(V):
    """Mean and samples of the coefficients."""
    conditional_in(V, QUICK)


@contract("C23", *C, thorough=True, limit=900)
def conditional_more(V):
    """Mean and samples of the coefficients, of further models."""
    conditional_in(V, THOROUGH)


def processes_in(V, worlds):
    u = V.load("signals.utils")
    for lay, common, kind in cases(worlds):
        if kind not in ("dense", "vector"):
            continue
        q = World(V, lay, common, kind)
        for how, n in (("mean", 1), ("sample", 2)):
            def run():
                npf.RANDOM.reset()
                g = u.ConditionalGP(q.pta("the method"), phiinv_method="the method")
                ds = [g.get_mean_processes(q.params)] if how == "mean" else g.sample_processes(q.params, n=n)
                return ds, list(npf.RANDOM.log)
            V.returns(run, lambda r: list(judge(V, q, r, n, how != "mean", processes=True)), label="%s, %s, %s of %d" % (lay, "common" if common else "independent", how, n))


R = [U + "ConditionalGP." + m for m in ("_sample_conditional", "get_mean_processes", "sample_processes")]


@contract("C23", *R, limit=400)
def processes(V):
    """The processes are the bases times such coefficients."""
    processes_in(V, QUICK)


@contract("C23", *R, thorough=True, limit=900)
def processes_more(V):
    """The processes are the bases times such coefficients, of further models."""
    processes_in(V, THOROUGH)


def coefficients_in(V, worlds):
    u = V.load("signals.utils")
    for lay, common, kind in cases(worlds):
        q = World(V, lay, common, kind)

        def fails(m):
            i, j = fresh("i"), fresh("j")
            for k in q.with_gp:
                if m.el(i, j) is q.sigma(k).el(i, j):
                    return A.EXPLORER[0].branch(PY.pred("fails", P(k)))
            return False

        for n, variance in ((1, False), (2, True)):
            for sparse in (True, False):
                if sparse and not common or not sparse and kind == "sparse":
                    continue
                LA.SVD_FAILS[0] = None if common else fails
                try:
                    def run():
                        npf.RANDOM.reset()
                        r = u.get_coefficients(q.pta("the method"), q.params, n=n, phiinv_method="the method", variance=variance, common_sparse=sparse)
                        return [r] if n == 1 else list(r), list(npf.RANDOM.log)
                    V.returns(run, lambda r: list(judge(V, q, r, n, variance, given=q.params)), label="%s, %s, %s, %s%s of %d" % (lay, "common" if common else "independent", kind, "sparse " if sparse else "", "sample" if variance else "mean", n))
                finally:
                    LA.SVD_FAILS[0] = None


@contract("C23", U + "get_coefficients", limit=400)
def coefficients(V):
    """The parameters given together with such coefficients; also when the singular value decomposition does not converge."""
    coefficients_in(V, QUICK)


@contract("C23", U + "get_coefficients", thorough=True, limit=900)
def coefficients_more(V):
    """The same, of further models."""
    coefficients_in(V, THOROUGH)


@contract("C23", U + "ConditionalGP._sample_conditional", U + "get_coefficients")
def shared(V):
    """Processes that share columns are refused: then there are fewer coefficients than the bases have columns."""
    u = V.load("signals.utils")
    for lay in ("bb", "b,tb"):
        for common in (False, True):
            for f in (lambda p, x: u.ConditionalGP(p, phiinv_method="m").get_mean_coefficients(x), lambda p, x: u.ConditionalGP(p, phiinv_method="m").sample_processes(x), lambda p, x: u.get_coefficients(p, x, phiinv_method="m"),
                      lambda p, x: u.get_coefficients(p, x, phiinv_method="m", common_sparse=True)):
                q = World(V, lay, common, "dense" if common else "matrix")
                k = len(q.pulsars) - 1
                less = V.size("shared")                    # columns shared
                q.cols[k] = q.cols[k] - less
                V.assume(cmp0("lt", -q.cols[k]))
                q.total = q.total - less
                V.rejects(lambda: f(q.pta("m"), q.params), IndexError)


@contract("C23", U + "ConditionalGP._sample_conditional")
def named(V):
    """Named timing-model coefficients: of the given pulsar only, in the column of its fit parameter; an error without the pulsar."""
    u = V.load("signals.utils")
    for lay, common in (("t", False), ("bt,w,tb", False), ("tb,t", True)):
        for gp in (False, True):
            q = World(V, lay, common, "dense" if common else "vector")
            last = len(q.pulsars) - 1
            s, (c, name, z) = [(s, x) for s, x in enumerate(q.pulsars[last]) if x[0] == "t"][0]
            q.pulsars[last][s] = (c, name, P(3))           # the fit parameters are named
            q.cols = [sum((w for c, m, w in sigs if w is not None), P0) for sigs in q.pulsars]
            q.total = sum((q.cols[k] for k in q.with_gp), P0)
            psr = E.Obj(name="p%d" % last, fitpars=["Offset", "F0", "F1"])
            tm = ["F1", "Offset"]

            def run(who=psr):
                npf.RANDOM.reset()
                g = u.ConditionalGP(q.pta("m"), phiinv_method="m", tm_params=tm, psr=who)
                return (g.sample_processes if gp else g.sample_coefficients)(q.params, n=1), list(npf.RANDOM.log)

            first = name.split("_")[0]
            key = {p: first + "_" + p + ("" if gp else "_coefficients") for p in tm}

            def post(r):
                for d, smp in judge(V, q, r, 1, True, processes=gp, extra=list(key.values())):
                    j, at = [(j, at) for k, s2, c2, n2, z2, j, at in q.places() if n2 == name][0]
                    b = smp.made[j]
                    for p in tm:
                        i = ["Offset", "F0", "F1"].index(p)
                        if gp:
                            V.eq("the process of " + p, d[key[p]], SArr((Axis(q.nt[last]),), lambda t: app("F", P(last), P(s), t, P(i)) * b(at + P(i))))
                        else:
                            V.eq("the coefficient of " + p, d[key[p]], SNum(b(at + P(i))))
            V.returns(run, post, label="%s, %s" % (lay, "processes" if gp else "coefficients"))
            V.rejects(lambda: run(None), ValueError, "%s: refused without the pulsar" % lay)
