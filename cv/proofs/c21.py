"""C21: the wideband timing model."""
from fractions import Fraction

from cv.sym.contract import *
from cv.sym.poly import power
from cv.proofs.c12 import load

G = "enterprise.signals.gp_signals.WidebandTimingModel"


def part(name, what):
    k = [p for p in name.parts if not isinstance(p, str)]
    assert len(k) == 1 and k[0][0] == what, name
    return k[0][1][0]


class World:
    """Any number of noise groups, DM-jump groups and DMX bins; every TOA in one of each."""

    def __init__(self, V, covered=True):
        self.n, self.ng, self.nj, self.nb, self.np = V.size("ntoas"), V.size("ngroups"), V.size("njumps"), V.size("nbins"), V.size("npars")
        PY.DISJOINT["noise"] = PY.DISJOINT["jump"] = 0
        mask = lambda what: lambda k: SArr((Axis(self.n),), lambda i: PY.pred(what, k, i), "b")
        self.sel = {"noise": lambda psr: E.Obj(masks=E.family("noisekey", self.ng, mask("noise"))), "jump": lambda psr: E.Obj(masks=E.family("jumpkey", self.nj, mask("jump")))}
        # R1(b) <= t(i) < R2(b) for b the bin of TOA i and no other
        PY.INTS.update(["bin", "col"])
        self.bin = lambda i: app("bin", i)
        t = lambda i: app("stoas", i) / P(86400)
        lo, hi = (lambda b, i: cmp0("le", app("R1", b) - t(i))), (lambda b, i: cmp0("lt", t(i) - app("R2", b)))
        PY.INTERVALS.append(("R1", "stoas", lo, hi, lambda b, i: cmp0("eq", self.bin(i) - b)))
        v = fresh("i")
        ok = conj(cmp0("le", -self.bin(v)), cmp0("lt", self.bin(v) - self.nb))
        if covered:
            V.assume(PY.forall(atom_of(v), self.n, ok))
        self.inb = lambda b, i: iverson(cmp0("eq", self.bin(i) - b))

        class FitPars:
            """The names of the columns; those of the DMX parameters at positions col(b), all different."""

            __cv_len__ = lambda s: SNum(self.np)

            def index(s, key):
                return SNum(app("col", part(key, "dmx")))

            def __contains__(s, key):
                assert isinstance(key, str)
                return key in s.more

        self.fitpars = FitPars()
        self.fitpars.more = ["RAJ"]
        b, c = fresh("b"), fresh("b")
        V.assume(PY.forall(atom_of(b), self.nb, conj(cmp0("le", -app("col", b)), cmp0("lt", app("col", b) - self.np))))
        PY.INJECTIVE.add("col")
        self.fit = lambda b: True
        PY.ONTO.add("bin")     # no bin is empty
        V.assume(PY.forall(atom_of(b), self.nb, neg(PY.forall(atom_of(v), self.n, neg(cmp0("eq", self.bin(v) - b))))))
        entry = lambda b: E.CvDict(DMX=SNum(app("DMX", b)), DMXR1=SNum(app("R1", b)), DMXR2=SNum(app("R2", b)), fit=self.fit(b))
        self.dm, self.dmerr = V.array("pp_dm", self.n), V.array("pp_dme", self.n, pos=True)
        self.psr = E.Obj(name="psr", toas=V.array("toas", self.n), stoas=V.array("stoas", self.n), residuals=V.array("res", self.n), freqs=V.array("freqs", self.n, pos=True), _inflated=None,
                         dm=V.real("DM"), flags={"pp_dm": self.dm, "pp_dme": self.dmerr}, fitpars=self.fitpars, dmx=E.family("dmx", self.nb, entry), Mmat=V.array("M", self.n, self.np))


class Params:
    """The parameter dict of a call: has an entry for some of the names (the free parameters), not for the others."""
    KINDS = {"_dmefac": ("noisekey", "efac"), "_log10_dmequad": ("noisekey", "equad"), "_dmjump": ("jumpkey", "jump")}

    def which(self, name):
        for suffix, (fam, what) in self.KINDS.items():
            if name.parts[-1] == suffix:
                assert name.parts[0] == "psr_"
                return what, part(name, fam)
        raise Unsupported("name of a parameter: %r" % (name,))

    def __contains__(self, name):
        what, k = self.which(name)
        return A.EXPLORER[0].branch(PY.pred("free_" + what, k))

    def __getitem__(self, name):
        what, k = self.which(name)
        if not A.EXPLORER[0].branch(PY.pred("free_" + what, k)):
            raise KeyError(name)
        return SNum(app(what, k))

    def value(self, what, k):
        return ite(PY.pred("free_" + what, k), app(what, k), app(what + "_constant", k))


def par(what):
    def make(name):
        got, k = Params().which(name)
        if got != what:
            raise Unsupported("parameter class used under the name of another")
        return E.Obj(name=name, value=SNum(app(what + "_constant", k)))
    return make


def build(V, gs, w, equad=True, jump=True, **k):
    gs.BasisGP = lambda prior, basis, coefficients=False, name="": type("Base", (), dict(made=(prior, basis, coefficients, name), __init__=lambda s, psr: setattr(s, "psrname", psr.name)))
    return lambda: gs.WidebandTimingModel(**k, dmefac=par("efac"), log10_dmequad=par("equad") if equad else None, dmjump=par("jump") if jump else None,
                                          selection=w.sel["noise"], dmjump_selection=w.sel["jump"] if jump else w.sel["noise"], name="wb")(w.psr)


def labels():
    return [(e, j, ("" if e else "no equad") + (" " if not (e or j) else "") + ("" if j else "no jumps")) for e in (True, False) for j in (True, False)]


def value(w, q, equad, jump):
    """Adjusted DM and squared error of TOA i."""
    ind = lambda what, k, i: iverson(PY.pred(what, k, i))
    fd, fe = w.dm.snap(), w.dmerr.snap()
    efac = lambda i: Axis(w.ng).sum(lambda k: ind("noise", k, i) * q.value("efac", k))
    eq2 = lambda i: Axis(w.ng).sum(lambda k: ind("noise", k, i) * PY.power_sym(P(10), 2 * q.value("equad", k))) if equad else P0
    return lambda i: fd(i) + (Axis(w.nj).sum(lambda k: ind("jump", k, i) * q.value("jump", k)) if jump else P0), lambda i: efac(i) ** 2 * (fe(i) ** 2 + eq2(i))


@contract("C21", G + ".get_dm", G + ".get_dme")
def measurements(V):
    """DM shifted by the jump of the TOA's group; error efac sqrt(err^2 + equad^2) with the values of the TOA's group."""
    sb, dec, gs = load(V, "gp_signals")
    w, q = World(V), Params()
    ax = Axis(w.n)
    for equad, jump, lab in labels():
        make = build(V, gs, w, equad, jump)
        dm, dme2 = value(w, q, equad, jump)
        V.returns(lambda: make().get_dm(q), lambda v: V.eq("DM with the jump of the TOA's group", v, SArr((ax,), dm)), label=lab)
        V.returns(lambda: make().get_dme(q), lambda v: V.eq("squared error of the TOA", v * v, SArr((ax,), dme2)), label=lab)


@contract("C21", G + ".get_phi", G + ".get_phiinv", G + ".get_mean_dm", G + ".get_mean_dme", G + ".get_delay", G + ".get_logsignalprior", "enterprise.signals.utils.KernelMatrix.set", limit=200)
def likelihood(V):
    """With the contracts of get_dm and get_dme: dm(i), and dme(i) > 0."""
    sb, dec, gs = load(V, "gp_signals")
    w, q = World(V), Params()
    ax, ab = Axis(w.n), Axis(w.nb)
    make0 = build(V, gs, w)
    PY.POS.add("dme")

    def asked(p, v):
        assert p is q
        return v

    def make():
        o = make0()
        o.get_dm = lambda p: asked(p, SArr((ax,), dm))
        o.get_dme = lambda p: asked(p, SArr((ax,), dme))
        return o

    dm, dme = lambda i: app("dm", i), lambda i: app("dme", i)
    wt = lambda i: dme(i) ** -2
    W = lambda b: ax.sum(lambda i: w.inb(b, i) * wt(i))
    mean = lambda b: ax.sum(lambda i: w.inb(b, i) * dm(i) * wt(i)) * power(W(b), -1)
    here = lambda c, b: iverson(cmp0("eq", c - app("col", b)))
    phi = lambda c: P(10) ** 40 + ab.sum(lambda b: here(c, b) * (power(W(b), -1) - P(10) ** 40))
    nu, DM = w.psr.freqs.snap(), num(w.psr.dm)
    bin = w.bin
    delay = lambda i: (mean(bin(i)) - DM - app("DMX", bin(i))) * power(P(Fraction("2.41e-4")) * nu(i) ** 2, -1)
    # log of the density of the measurements, marginalised over the DM of each bin, without the factors 2 pi
    half = P(Fraction(1, 2))
    lnp = lambda: ab.sum(lambda b: half * mean(b) ** 2 * W(b) - half * PY.mk_log(W(b))) - ax.sum(lambda i: half * dm(i) ** 2 * wt(i) + PY.mk_log(dme(i)))
    for what, name, get, want in (
            ("get_phi", "variance of the DMX columns, 1e40 for the others", lambda v: v, lambda: SArr((Axis(w.np),), phi)),
            ("get_phiinv", "inverse", lambda v: v * SArr((Axis(w.np),), phi), lambda: SArr((Axis(w.np),), lambda c: P1)),
            ("get_mean_dm", "weighted mean of the TOA's bin", lambda v: v, lambda: SArr((ax,), lambda i: mean(bin(i)))),
            ("get_mean_dme", "squared error of the mean", lambda v: v * v, lambda: SArr((ax,), lambda i: power(W(bin(i)), -1))),
            ("get_delay", "mean DM minus the model, over 2.41e-4 f^2", lambda v: v, lambda: SArr((ax,), delay)),
            ("get_logsignalprior", "marginalised density of the DM measurements", lambda v: v, lambda: SNum(lnp()))):
        V.returns(lambda: getattr(make(), what)(q), lambda v: V.eq(name, get(v), want()), label=what)
    V.done("results are cached by all efacs, equads and jumps", dec.count(["delay_params"]) == len(dec) and dec, repr(dec))


@contract("C21", G)
def reference(V):
    """The jump of the reference group is zero, those of the others are parameters."""
    sb, dec, gs = load(V, "gp_signals")
    w, q = World(V), Params()
    r = V.int("ref", 0, w.nj)
    gs.parameter.Constant = lambda val=None: lambda name: E.Obj(name=name, value=SNum(P(0)) if val == 0.0 else None)
    V.assume(neg(PY.pred("free_jump", num(r))))      # a Constant is not sampled
    make = build(V, gs, w, dmjump_ref=E.key("jumpkey", num(r)))
    fd = w.dm.snap()
    other = lambda k: P1 - iverson(cmp0("eq", k - num(r)))
    V.returns(lambda: make().get_dm(q), lambda v: V.eq("DM with the jump of the TOA's group", v, SArr((Axis(w.n),), lambda i: fd(i) + Axis(w.nj).sum(lambda k: other(k) * iverson(PY.pred("jump", k, i)) * q.value("jump", k)))))


@contract("C21", G)
def assembly(V):
    sb, dec, gs = load(V, "gp_signals")
    w, q = World(V), Params()
    ut = gs.utils
    ut.unnormed_tm_basis, ut.tm_prior = lambda: "basis", lambda: "prior"
    make = build(V, gs, w)
    ls = lambda o: [E.seq(x) for x in (o._dmefacs, o._log10_dmequads, o._dmjumps)]

    def post(o):
        V.done("unnormalised design matrix, its own columns", o.made == ("prior", "basis", False, "wb") and o.basis_combine is False and o.signal_type == "basis", repr(o.made))
        V.eq("cache parameters: efacs, equads, jumps", o.delay_params, E.SSeq(sum([[E.Seg(p.axis, lambda k, p=p: p.get(k).name) for p in s.parts] for s in ls(o)], [])))
        V.done("name", o.name == "psr_wb")
    V.returns(make, post)
    b0 = V.int("b0", 0, w.nb)
    w.fit = lambda b: SBool(neg(cmp0("eq", b - num(b0))))
    V.rejects(build(V, gs, w), ValueError, "a DMX parameter that is not fitted")
    w.fit = lambda b: True
    w.fitpars.more = ["RAJ", "DM"]
    V.rejects(build(V, gs, w), ValueError, "DM fitted besides the DMX parameters")
    w.fitpars.more = ["RAJ"]
    one = lambda psr: E.Obj(masks=E.CvDict({"": SArr((Axis(w.n),), lambda i: TRUE, "b")}))
    w.sel["jump"] = one
    V.rejects(build(V, gs, w), ValueError, "jumps with a single group")


@contract("C21", G)
def uncovered(V):
    """A TOA in no bin is refused."""
    sb, dec, gs = load(V, "gp_signals")
    w = World(V, covered=False)
    i0 = V.int("i0", 0, w.n)
    V.assume(disj(cmp0("lt", w.bin(num(i0))), cmp0("le", w.nb - w.bin(num(i0)))))
    V.rejects(build(V, gs, w), ValueError, "a TOA in no bin")


TRUSTED = ["numpy: the contracts listed with the obligations", "list.index of distinct column names; cache_call returns what the method returns (C07)", "the names, suffixes and presence of parameters are as make of parameter classes gives them (C08)", "BasisGP: get_basis is the basis function's (C12), which is the unnormalised design matrix (C22)"]
ASSUMPTIONS = ["the groups of a selection do not overlap (C11)", "DMX bins do not overlap and none is empty"]
