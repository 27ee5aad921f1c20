"""C05: merging identical basis columns preserves the GP covariance. The unchanged classes of /repo run on symbolic entries."""
import itertools, types
import numpy as np
from cv.sym.contract import *
from cv.sym import obj as O
from cv.sym.obj import S, term

BOUNDED = ["two rows (TOAs), up to three (thorough: four) signals of up to three columns each, in patterns of coinciding columns; all values of the columns' entries, priors and parameters"]
TRUSTED = ["numpy's indexing, assembly and elementwise operations on arrays of objects are those on arrays of numbers (the code runs unchanged, its arrays hold symbolic numbers)",
           "different columns have different hashes (64 bits of their bytes)"]
ROWS = 2
SB, GS = "enterprise.signals.signal_base.", "enterprise.signals.gp_signals.BasisGP."
FN = [SB + "SignalCollection._combine_basis_columns", SB + "SignalCollection.get_basis", SB + "SignalCollection.get_phi", "enterprise.signals.utils.KernelMatrix.add", "enterprise.signals.utils.KernelMatrix._setcliques", GS + "get_basis", GS + "_construct_basis", GS + "get_phi", GS + "basis_params"]

# the pool of columns: they differ in one row only, or in both, or are exchanged
POOL = dict(A="xy", B="xz", C="wy", D="yx", E="uv")


def column(c):
    return np.array([S(PY.var("col_" + e)) for e in POOL[c]], dtype=object)


def pos(name, *args):
    PY.POS.add(name)
    return S(PY.app(name, *[a.p if isinstance(a, O.Sym) else P(int(a)) for a in args]))


class Sig:
    """One signal of the model, and what it should contribute: cols are names of columns of the pool, or None for a basis that
    depends on a parameter; kind: vec / dense"""

    def __init__(self, mods, name, cols, dense=False, combine=True, varying=False):
        sb, gs, pm, ut = mods
        self.name, self.cols, self.dense, self.combine, self.varying = name, cols, dense, combine, varying
        me, m = self, len(cols)

        def prior(labels, p=None):
            # only the number of columns matters; it is that of the labels
            return me.prior(p, len(labels))

        def basis(b=None):
            return me.basis(b), np.arange(1.0, m + 1)
        self.prior_function = pm.Function(prior, p=pm.Uniform(0, 1))
        pargs = dict(b=pm.Uniform(0, 1)) if varying else {}
        self.basis_function = pm.Function(basis, **pargs)
        self.cls = gs.BasisGP(self.prior_function, self.basis_function, combine=combine, name=name)

    def prior(self, p, m):
        if self.dense:
            return np.array([[pos("phi_" + self.name, min(i, j), max(i, j), p) for j in range(m)] for i in range(m)], dtype=object)
        return np.array([pos("phi_" + self.name, i, p) for i in range(m)], dtype=object)

    def basis(self, b):
        F = np.empty((ROWS, len(self.cols)), object)
        for j, c in enumerate(self.cols):
            F[:, j] = [S(PY.app("F_" + self.name, P(r), P(j), b.p)) for r in range(ROWS)] if self.varying and b is not None else column(c)     # (at its default parameter, a varying basis may well have another's columns)
        return F

    def wants(self, params):
        """F_s, Phi_s at these parameters"""
        g = lambda x: params.get("psr_%s_%s" % (self.name, x))
        phi = self.prior(g("p"), len(self.cols))
        return self.basis(g("b")), (phi if self.dense else diag(phi))


def diag(v):
    M = np.empty((len(v), len(v)), object)
    M[:] = S(0)
    for i, x in enumerate(v):
        M[i, i] = x
    return M


def full(phi):
    phi = np.asarray(phi)
    return diag(phi) if phi.ndim == 1 else phi


def params_of(sigs, k, psr="psr"):
    out = {}
    for s in sigs:
        out["%s_%s_p" % (psr, s.name)] = S(PY.var("p%d_%s" % (k, s.name)))
        if s.varying:
            out["%s_%s_b" % (psr, s.name)] = S(PY.var("b%d_%s" % (k, s.name)))
    return out


def pulsar(name="psr"):
    return types.SimpleNamespace(name=name, toas=np.arange(float(ROWS)), residuals=np.zeros(ROWS), pos=name)


def same(M, W):
    M, W = np.asarray(M), np.asarray(W)
    return M.shape == W.shape and all(term(M[i]) == term(W[i]) for i in np.ndindex(*M.shape))


def owners(t, sigs):
    """The prior entries of which the term is the sum, [] if it is not the sum of diagonal prior entries: (signal, index)"""
    out = []
    for m, k in t.t.items():
        a = m[0][0]
        if len(m) != 1 or m[0][1] != 1 or k != 1 or a.kind != "f" or not a.name.startswith("phi_"):
            return None
        s = [s for s in sigs if "phi_" + s.name == a.name][0]
        idx = [x.const for x in a.args[:-1]]
        if s.dense and idx[0] != idx[1]:
            return None
        out.append((s, int(idx[0])))
    return out


def judge(V, sc, sigs, params, lab):
    F, phi = sc.get_basis(params), sc.get_phi(params)
    F, phi = np.asarray(F), full(phi)
    V.done(lab + "as many columns as prior entries", F.shape == (ROWS, len(phi)), "%s %s" % (F.shape, phi.shape))
    if F.shape[1] != len(phi):
        return
    got = O.mul(F, phi, F.T)
    want = None
    for s in sigs:
        Fs, Ps = s.wants(params)
        w = O.mul(Fs, Ps, Fs.T)
        want = w if want is None else want + w
    ok = same(got, want)
    V.done(lab + "F Phi F^T is the sum over the signals", ok, "" if ok else "%s\nwant %s" % (got, want))
    # who owns which column
    own = [owners(term(phi[i, i]), sigs) for i in range(len(phi))]
    if any(o is None for o in own):
        return V.fail(lab + "the diagonal holds the signals' priors", str([phi[i, i] for i in range(len(phi))]))
    order = {s.name: i for i, s in enumerate(sigs)}
    for o in own:
        o.sort(key=lambda x: order[x[0].name])
    V.done(lab + "no signal reuses a column for itself", all(len({s.name for s, _ in o}) == len(o) for o in own))
    V.done(lab + "signals that ask not to be combined reuse no column", all(s.combine for o in own for s, _ in o[1:]), "")
    V.done(lab + "columns that depend on parameters are not merged", all(len(o) == 1 or not any(s.varying for s, _ in o) for o in own), "")


def model(V, specs, lab):
    mods = O.modules("signal_base", "gp_signals", "parameter", "utils")

    def run():
        with O.running(mods[0], mods[1], mods[3]):
            sigs = [Sig(mods, "s%d" % i, *sp) for i, sp in enumerate(specs)]
            sc = mods[0].SignalCollection([s.cls for s in sigs])(pulsar())
            for k, q in enumerate((params_of(sigs, 0), params_of(sigs, 1), params_of(sigs, 0))):
                judge(V, sc, sigs, q, ("", "other parameters: ", "the first parameters again: ")[k])
    V.returns(run, label=lab)


def show(specs):
    return " + ".join("%s%s%s%s" % ("".join(c), " dense" if d else "", "" if cb else " own", " varying" if v else "") for c, d, cb, v in specs)


def patterns(pool, lo, hi):
    return [c for m in range(lo, hi + 1) for c in itertools.product(pool, repeat=m)]


def canonical(specs):
    """Models that differ only by the names of the unrelated columns are checked once"""
    seen = []
    for c, *_ in specs:
        for x in c:
            if x not in seen:
                seen.append(x)
    return seen == sorted(seen)


def every(V, choices, keep=lambda specs: True):
    for specs in itertools.product(*choices):
        if len(V.failed) > 20:
            return
        if keep(specs):
            model(V, list(specs), show(specs))


FLAGS = [(d, cb, v) for d in (False, True) for cb in (True, False) for v in (False, True)]
FIXED = [f for f in FLAGS if not f[2]]


@contract("C05", *FN)
def two(V):
    """Two signals of one or two columns, with all flags"""
    every(V, [[(c,) + f for c in patterns("AE", 1, 2) if c[0] == "A" for f in FLAGS], [(c,) + f for c in patterns("AEB", 1, 2) for f in FLAGS]])


@contract("C05", *FN)
def lookalikes(V):
    """Columns that agree in some of their entries, or hold the same entries in another order"""
    every(V, [[(c, False, True, False) for c in patterns("AD", 1, 2)], [(c, d, True, False) for c in patterns("ABCDE", 1, 2) for d in (False, True)]])


@contract("C05", *FN)
def three(V):
    """Three signals"""
    every(V, [[(c,) + f for c in (("A",), ("A", "E")) for f in FIXED], [(c,) + f for c in (("A",), ("E", "A"), ("E", "B")) for f in FLAGS], [(c,) + f for c in (("A",), ("E", "A"), ("B", "A")) for f in FIXED]])


@contract("C05", *FN)
def single(V):
    """One signal, of up to three columns that may be the same"""
    every(V, [[(c,) + f for c in patterns("AEB", 1, 3) for f in FLAGS]])


@contract("C05", *FN)
def wide(V):
    """Two signals of up to three columns"""
    every(V, [[(c, d, True, False) for c in patterns("AE", 3, 3) if c[0] == "A" for d in (False, True)], [(c, d, True, False) for c in patterns("AEB", 1, 3) for d in (False, True)]])


@contract("C05", *FN, thorough=True, limit=900)
def four(V):
    """Four signals of two columns"""
    cols = (("A", "E"), ("E", "A"), ("A", "B"), ("E", "B"), ("A", "A"))
    every(V, [[(c,) + f for c in cols[:1] for f in FIXED]] + [[(c,) + f for c in cols for f in FIXED]] * 2 + [[(c, d, True, False) for c in cols for d in (False, True)]])
