"""C06: the prior covariance of a PTA, and its inverse and determinant. The unchanged classes of /repo run on symbolic entries."""
import itertools, types
import numpy as np
from cv.sym.contract import *
from cv.sym import obj as O
from cv.sym.obj import S, term
from cv.proofs.c05 import column, pos, diag, full, same, ROWS

TRUSTED = ["numpy's indexing, assembly and elementwise operations on arrays of objects are those on arrays of numbers (the code runs unchanged, its arrays hold symbolic numbers)",
           "numpy.linalg.inv and slogdet, scipy.linalg.cho_factor and cho_solve, sksparse.cholmod.cholesky: the inverse and the logarithm of the determinant of a positive definite matrix"]
BOUNDED = ["two or three pulsars, two rows (TOAs), up to two private and two common signals per pulsar of up to three columns each, in all patterns of sharing of a set of cases; all values of the columns' entries, priors, correlations and parameters"]
SB, GS, KM = "enterprise.signals.signal_base.", "enterprise.signals.gp_signals.BasisCommonGP.", "enterprise.signals.utils.KernelMatrix."
PHI = [SB + "PTA.get_phi", SB + "PTA._get_slices", SB + "SignalCollection.get_phi", GS + "get_phi", GS + "get_phicross", KM + "add"]
INV = [SB + "PTA.get_phiinv", SB + "PTA.get_phiinv_byfreq_cliques", SB + "PTA.get_phiinv_byfreq_partition", SB + "PTA.get_phiinv_sparse", SB + "PTA._setcliques", SB + "PTA._setpulsarcliques", SB + "PTA._resetcliques", KM + "inv", KM + "_setcliques"]


def prior(name, dense, p, m):
    if dense:
        return np.array([[pos("phi_" + name, min(i, j), max(i, j), p) for j in range(m)] for i in range(m)], dtype=object)
    return np.array([pos("phi_" + name, i, p) for i in range(m)], dtype=object)


def orf(name, a, b):
    n = "orf_%s_%s_%s" % ((name,) + tuple(sorted((a, b))))
    if a == b:
        PY.POS.add(n)
    return S(PY.app(n))


def columns(cols):
    F = np.empty((ROWS, len(cols)), object)
    for j, c in enumerate(cols):
        F[:, j] = column(c)
    return F


class World:
    """privates: for each pulsar, a list of (columns, dense, combine); commons: a list of (columns, dense, combine, the pulsars that carry it)"""

    def __init__(self, privates, commons, first=False):
        sb, gs, pm, ut = self.mods = O.modules("signal_base", "gp_signals", "parameter", "utils")
        self.n, self.privates, self.commons = len(privates), privates, commons
        coms = [self.common("c%d" % i, *c[:3]) for i, c in enumerate(commons)]

        class Plain(sb.Signal):
            signal_type, signal_name, signal_id = "plain", "plain", "plain"

            def __init__(self, psr):
                super().__init__(psr)
                self.name = psr.name + "_plain"
                self._params = {}
        scs = []
        for k, own in enumerate(privates):
            metas = [self.private("P%d" % k, "s%d" % i, *sp) for i, sp in enumerate(own)]
            cs = [c for c, spec in zip(coms, commons) if k in spec[3]]
            metas = cs + metas if first else metas + cs
            psr = types.SimpleNamespace(name="P%d" % k, toas=np.arange(float(ROWS)), residuals=np.zeros(ROWS), pos="P%d" % k)
            scs.append(sb.SignalCollection(metas + [Plain])(psr))
        self.scs, self.pta = scs, sb.PTA(scs)

    def private(self, psr, name, cols, dense=False, combine=True):
        sb, gs, pm, ut = self.mods
        return gs.BasisGP(pm.Function(lambda labels, p=None: prior(psr + name, dense, p, len(labels)), p=pm.Uniform(0, 1)),
                          pm.Function(lambda: (columns(cols), np.arange(1.0, len(cols) + 1))), combine=combine, name=name)

    def common(self, name, cols, dense, combine):
        sb, gs, pm, ut = self.mods
        return gs.BasisCommonGP(pm.Function(lambda labels, p=None: prior(name, dense, p, len(labels)), p=pm.Uniform(0, 1)),
                                pm.Function(lambda name: (columns(self.its(cols, name)), np.arange(1.0, len(self.its(cols, name)) + 1))),
                                pm.Function(lambda pos1, pos2: orf(name, pos1, pos2)), combine=combine, name=name)

    def its(self, cols, psr):
        """The columns of the common signal in this pulsar: given for all, or for each"""
        return cols[int(psr[1:])] if isinstance(cols[0], tuple) else cols

    def params(self, k):
        out = {}
        for i, own in enumerate(self.privates):
            for j in range(len(own)):
                out["P%d_s%d_p" % (i, j)] = S(PY.var("p%d_%d_%d" % (k, i, j)))
        for j in range(len(self.commons)):
            out["c%d_p" % j] = S(PY.var("q%d_%d" % (k, j)))
        return out

    def expected(self, params):
        """F Phi F^T over all pulsars that have a Gaussian process, and which they are"""
        n = self.n
        has = [bool(own) or any(k in c[3] for c in self.commons) for k, own in enumerate(self.privates)]
        W = np.empty((n, n), object)
        for i in range(n):
            for j in range(n):
                w = np.empty((ROWS, ROWS), object)
                w[:] = S(0)
                if i == j:
                    for k, (cols, dense, _) in enumerate(self.privates[i]):
                        F, phi = columns(cols), prior("P%ds%d" % (i, k), dense, params["P%d_s%d_p" % (i, k)], len(cols))
                        w = w + O.mul(F, full(phi), F.T)
                for k, (cols, dense, _, who) in enumerate(self.commons):
                    if i in who and j in who:
                        F, G = columns(self.its(cols, "P%d" % i)), columns(self.its(cols, "P%d" % j))
                        phi = full(prior("c%d" % k, dense, params["c%d_p" % k], F.shape[1]))
                        w = w + O.mul(F, phi, G.T) * orf("c%d" % k, "P%d" % i, "P%d" % j)
                W[i, j] = w
        return W, has


def judge_phi(V, w, params, lab):
    W, has = w.expected(params)
    phi, Fs = w.pta.get_phi(params), w.pta.get_basis(params)
    if isinstance(phi, list):
        V.done(lab + "a list only without correlated signals", not any(len(c[3]) for c in w.commons))
        for i in range(w.n):
            if not V.done(lab + "no basis, no prior", (phi[i] is None) == (Fs[i] is None) == (not has[i])) or not has[i]:
                continue
            V.done(lab + "pulsar %d: F Phi F^T" % i, same(O.mul(Fs[i], full(phi[i]), Fs[i].T), W[i, i]))
        return phi
    phi = np.asarray(phi)
    V.done(lab + "symmetric", O.symmetric(phi))
    off, o = [], 0
    for i in range(w.n):
        off.append(o)
        o += 0 if Fs[i] is None else Fs[i].shape[1]
        V.done(lab + "no basis", (Fs[i] is None) == (not has[i]))
    if not V.done(lab + "size", phi.shape == (o, o), "%s %s" % (phi.shape, o)):
        return phi
    for i in range(w.n):
        for j in range(w.n):
            if has[i] and has[j]:
                b = phi[off[i]: off[i] + Fs[i].shape[1], off[j]: off[j] + Fs[j].shape[1]]
                got = O.mul(Fs[i], b, Fs[j].T)
                ok = same(got, W[i, j])
                V.done(lab + "pulsars %d, %d: F Phi F^T" % (i, j), ok, "" if ok else "%s\nwant %s" % (got, W[i, j]))
    return phi


def judge_inv(V, w, params, phi, method, lab):
    f = lambda x: np.asarray(x.toarray() if hasattr(x, "toarray") else x)
    try:
        r = w.pta.get_phiinv(params, logdet=True, method=method)
        r0 = w.pta.get_phiinv(params, logdet=False, method=method)
    except NotImplementedError:
        return V.done(lab + method + ": only 'partition' may decline", method == "partition")
    if isinstance(phi, list):
        for i, p in enumerate(phi):
            if p is None:
                V.done(lab + "%s: pulsar %d: none" % (method, i), r[i] is None and r0[i] is None)
            else:
                V.done(lab + "%s: pulsar %d: inverse" % (method, i), same(full(r[i][0]), O.inverse(full(p))) and same(full(r0[i]), O.inverse(full(p))))
                V.done(lab + "%s: pulsar %d: determinant" % (method, i), term(r[i][1]) == O.logdet(full(p)).p)
        return
    ok = same(f(r[0]), O.inverse(phi)) and same(f(r0), O.inverse(phi))
    V.done(lab + method + ": inverse", ok, "" if ok else "of\n%s\ngives\n%s" % (phi, f(r[0])))
    ok = term(r[1]) == O.logdet(phi).p
    V.done(lab + method + ": determinant", ok, "" if ok else "%s, want %s" % (r[1], O.logdet(phi)))


def model(V, privates, commons, first=False, methods=("cliques", "sparse", "partition")):
    if len(V.failed) > 20:
        return
    lab = "; ".join(" + ".join("%s%s%s" % ("".join(c), " dense" if d else "", "" if cb else " own") for c, d, cb in own) or "-" for own in privates)
    lab += " | " + " + ".join("%s%s%s in %s" % ("".join("".join(x) for x in c), " dense" if d else "", "" if cb else " own", "".join(map(str, who))) for c, d, cb, who in commons)

    def run():
        with O.running(*O.modules("signal_base", "gp_signals", "utils")):
            w = World(privates, commons, first)
            for k, q in enumerate((w.params(0), w.params(1))):
                l = ("", "other parameters: ")[k]
                before = dict(q)
                phi = judge_phi(V, w, q, l)
                for m in methods if k == 0 else methods[:1]:
                    judge_inv(V, w, q, phi, m, l)
                V.done(l + "the parameters are as they were", q == before)
    V.returns(run, label=lab + (" (common first)" if first else ""))


NONE = []
A, AB, DAB, DBE = [(("A",), False, True)], [(("A", "B"), False, True)], [(("A", "B"), True, True)], [(("B", "E"), True, True)]
MIX = [(("A", "E"), False, True), (("B", "E"), True, True)]
OWN = [(("A", "B"), False, False)]
TWODENSE = [(("A", "B"), True, True), (("C", "E"), True, True)]
CHAIN = [(("A", "B"), True, True), (("B", "E"), True, True)]
OPTIONS = [NONE, A, AB, DAB, DBE, MIX, OWN, TWODENSE, CHAIN]
COMMON = [(("A",), False, True), (("A", "B"), False, True), (("B", "A"), False, True), (("A", "C"), True, True), (("A", "C", "E"), False, True), (("A", "B"), False, False), ((("A", "B"), ("E", "A"), ("B", "C")), False, True)]


@contract("C06", *PHI, *INV)
def two(V):
    """Two pulsars, one common signal"""
    for a, b, c, first in itertools.product(OPTIONS, OPTIONS, COMMON, (False, True)):
        if not first or a in (DAB, AB):
            model(V, [a, b], [c + ((0, 1),)], first)


ALL3 = (0, 1, 2)


@contract("C06", *PHI, *INV)
def three(V):
    """Three pulsars, one common signal in all or in two of them"""
    for a, b, c in itertools.product([NONE, AB, DAB, CHAIN], [NONE, DAB, DBE], [A, DAB, MIX]):
        for com, who in ((("A", "B"), False, True), ALL3), ((("E", "B"), False, True), (0, 2)):
            model(V, [a, b, c], [com + (who,)])
            if a is b:
                model(V, [c, a, b], [com + (who,)], first=True)


@contract("C06", *PHI, *INV)
def shared(V):
    """Two common signals, of which the second is in all pulsars or in some, with the same columns or others"""
    firsts = [(("A", "B"), False, True), (("A", "B"), True, True)]
    seconds = [(("A", "B"), False, True), (("B", "A"), False, True), (("B", "E"), False, True), (("C",), False, True), (("A", "E"), True, True), (("A", "B"), False, False)]
    for c1, c2, own in itertools.product(firsts, seconds, ([NONE, NONE, NONE], [AB, DAB, NONE], [DBE, DBE, DBE], [CHAIN, A, DAB])):
        for who1, who2 in ((ALL3, ALL3), (ALL3, (1, 2)), ((0, 1), (1, 2)), ((0, 1), (0, 1))):
            model(V, own, [c1 + (who1,), c2 + (who2,)])
            if own[0] is NONE and who2 != ALL3:
                model(V, own[:2], [c1 + ((0, 1),), c2 + ((0, 1),)])


@contract("C06", SB + "PTA.get_phi", SB + "PTA.get_phiinv", KM + "inv")
def independent(V):
    """No common signal (or only in one pulsar): each pulsar for itself"""
    for a, b in itertools.product(OPTIONS, OPTIONS):
        model(V, [a, b], [])
        model(V, [a, NONE, b], [])
    # a matrix that scipy does not find positive definite: the inverse is made of its singular vectors
    for own in (DAB, MIX, CHAIN):
        def run():
            with O.running(*O.modules("signal_base", "gp_signals", "utils")):
                w = World([own], [])
                q = w.params(0)
                O.ObjSL.FAILS[0] = True
                try:
                    phi = w.pta.get_phi(q)[0]
                    for m in ("cliques", "sparse", "partition"):
                        (inv, ld), inv0 = w.pta.get_phiinv(q, logdet=True, method=m)[0], w.pta.get_phiinv(q, logdet=False, method=m)[0]
                        u, s = O.singular(np.asarray(phi))
                        want = O.mul(u, diag([1 / x for x in s]), u.T)
                        V.done("%s: the inverse by the singular values" % m, same(inv, want) and same(inv0, want))
                        V.done("%s: the determinant by the singular values" % m, term(ld) == sum((x.log().p for x in s), P0))
                finally:
                    O.ObjSL.FAILS[0] = False
        V.returns(run, label="not positive definite: " + str(own))


@contract("C06", SB + "PTA.get_phiinv")
def methods(V):
    """Any other method is refused"""
    def run():
        with O.running(*O.modules("signal_base", "gp_signals", "utils")):
            w = World([AB, AB], [COMMON[0] + ((0, 1),)])
            return w.pta.get_phiinv(w.params(0), method="nosuch")
    V.rejects(run, NotImplementedError)

    # the standard model is accepted by all
    def run2():
        with O.running(*O.modules("signal_base", "gp_signals", "utils")):
            w = World([AB, AB, A], [(("A", "B"), False, True, ALL3), (("A", "B"), False, True, ALL3)])
            for m in ("cliques", "sparse", "partition"):
                w.pta.get_phiinv(w.params(0), method=m)
    V.returns(run2, label="the standard model")


@contract("C06", KM + "add", KM + "set", KM + "__new__")
def kernel(V):
    """Sequences of additions and assignments of vectors and matrices at slices and at index arrays"""
    ut, = O.modules("utils")
    n = 3
    sel = [slice(0, 2), slice(1, 3), slice(0, 3), np.array([2, 0]), np.array([1]), np.array([0, 2])]
    steps = [(op, i, dense) for op in ("add", "set") for i in range(len(sel)) for dense in (False, True)]
    for a, b in itertools.product(steps, steps):
        for c in (None, ("add", 2, False)):
            def run():
                with O.running(ut):
                    km = ut.KernelMatrix(n)
                    V.done("starts as zeros", np.asarray(km).shape == (n,) and all(not term(x).t for x in km))
                    ref = O.of("", n, n, f=lambda i, j: P0)
                    for k, st in enumerate(x for x in (a, b, c) if x):
                        op, i, dense = st
                        ii = np.arange(n)[sel[i]]
                        val = O.of("v%d" % k, len(ii), len(ii)) if dense else O.of("v%d" % k, len(ii))
                        old = val.copy()
                        km = getattr(km, op)(val, sel[i].copy() if isinstance(sel[i], np.ndarray) else sel[i])
                        V.done("the operand is as it was", all(x is y for x, y in zip(val.flat, old.flat)))
                        for x, p in enumerate(ii):
                            for y, q in enumerate(ii):
                                if dense or x == y:
                                    v = val[x, y] if dense else val[x]
                                    ref[p, q] = v if op == "set" else ref[p, q] + v
                        got = full(km)
                        ok = same(got, ref)
                        V.done("%s %s" % (op, "matrix" if dense else "vector"), ok, "" if ok else "%s\nwant %s" % (got, ref))
                        if not ok:
                            return
            V.returns(run, label="%s, %s, %s" % (a, b, c))
            if len(V.failed) > 20:
                return
