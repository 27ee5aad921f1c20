"""C20: ephemeris perturbations are linear in masses and orbital elements and proper rotations under frame drift."""
from cv.sym.contract import *

U = "enterprise.signals.utils."
TRUSTED = ["numpy.interp is a linear combination of the ordinates with weights that depend on the abscissae only", "numpy.load of the ephemeris data files"]
ASSUMPTIONS = ["quant2ind's slices are represented by the boolean masks of the same elements (contract of quant2ind: C12)"]
MASS = (("d_jupiter_mass", 4), ("d_saturn_mass", 5), ("d_uranus_mass", 6), ("d_neptune_mass", 7))
MJUP, MSAT = P(0.0009547918983127075), P(0.00028588567008942334)
ORDER = ["frame_drift_rate"] + [m for m, _ in MASS] + ["jup_orb_elements", "sat_orb_elements"]
EPS = P(23.43704) * PY.PI / P(180)
S, C = PY.fn("sin", EPS), PY.fn("cos", EPS)
R = [[P1, P0, P0], [P0, C, -S], [P0, S, C]]   # ecliptic to equatorial
RT = [[R[j][i] for j in range(3)] for i in range(3)]


def mul(m, v):
    return [sum((m[a][b] * v[b] for b in range(3)), P0) for a in range(3)]


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), P0) for j in range(3)] for i in range(3)]


def rz(t):
    s, c = PY.fn("sin", t), PY.fn("cos", t)
    return [[c, -s, P0], [s, c, P0], [P0, P0, P1]]


def ry(t):
    s, c = PY.fn("sin", t), PY.fn("cos", t)
    return [[c, P0, s], [P0, P1, P0], [-s, P0, c]]


def rx(t):
    s, c = PY.fn("sin", t), PY.fn("cos", t)
    return [[P1, P0, P0], [P0, c, -s], [P0, s, c]]


def vec(f, i):
    return [f(i, P(a)) for a in range(3)]


def pick(l, a):
    """Element a of three, for a symbolic index a."""
    return ite(cmp0("eq", a), l[0], ite(cmp0("eq", a - 1), l[1], l[2]))


def field(n, fn):
    return SArr((Axis(n), Axis(P(3))), lambda i, a: pick(fn(i), a))


def frame(mjd, v, rate, equatorial):
    r = rz(rate * (mjd - 55197) / P(365.25))
    return mul(R, mul(r, mul(RT, v))) if equatorial else mul(r, v)


@contract("C20", U + "ecl2eq_vec", U + "eq2ecl_vec")
def conversions(V):
    m = V.load("signals.utils")
    n = V.size("n")
    x = V.array("x", n, 3)
    f = x.snap()
    kept = lambda: V.done("vectors not modified", x.snap() is f)
    V.returns(lambda: m.ecl2eq_vec(x), lambda v: (V.eq("rotation about the x axis by the obliquity", v, field(n, lambda i: mul(R, vec(f, i)))), kept()))
    V.returns(lambda: m.eq2ecl_vec(x), lambda v: (V.eq("the opposite rotation", v, field(n, lambda i: mul(RT, vec(f, i)))), kept()))
    V.returns(lambda: m.eq2ecl_vec(m.ecl2eq_vec(x)), lambda v: V.eq("inverse", v, field(n, lambda i: vec(f, i))))
    V.returns(lambda: m.ecl2eq_vec(m.eq2ecl_vec(x)), lambda v: V.eq("inverse, other order", v, field(n, lambda i: vec(f, i))))
    length = lambda a: SArr((a.axes[0],), lambda i, g=a.snap(): sum((g(i, P(k)) ** 2 for k in range(3)), P0))
    for fn in (m.ecl2eq_vec, m.eq2ecl_vec):
        V.returns(lambda: fn(x), lambda v: V.eq("length preserved", length(v), length(x)))


@contract("C20", U + "euler_vec")
def euler(V):
    m = V.load("signals.utils")
    n = V.size("n")
    for lab in ("numbers", "arrays"):
        a, b, c = (V.real(s) for s in "abc") if lab == "numbers" else (V.array(s + "s", n) for s in "abc")
        at_ = (lambda x, i: num(x)) if lab == "numbers" else (lambda x, i: x.el(i))
        def post(v):
            E3 = lambda i: mm(mm(rx(at_(c, i)), ry(at_(b, i))), rz(at_(a, i)))
            V.eq("Rx Ry Rz", v, SArr((Axis(n), Axis(P(3)), Axis(P(3))), lambda i, j, k: pick([pick(r, k) for r in E3(i)], j)))
            g = v.snap()
            V.eq("orthogonal", SArr((Axis(n), Axis(P(3)), Axis(P(3))), lambda i, j, k: sum((g(i, j, P(x)) * g(i, k, P(x)) for x in range(3)), P0)),
                 SArr((Axis(n), Axis(P(3)), Axis(P(3))), lambda i, j, k: iverson(cmp0("eq", j - k))))
            def det(i):
                M = [[g(i, P(j), P(k)) for k in range(3)] for j in range(3)]
                return sum((M[0][j] * (M[1][(j + 1) % 3] * M[2][(j + 2) % 3] - M[1][(j + 2) % 3] * M[2][(j + 1) % 3]) for j in range(3)), P0)
            V.eq("proper", SArr((Axis(n),), det), SArr((Axis(n),), lambda i: P1))
        V.returns(lambda: m.euler_vec(a, b, c, n), post, label=lab)


@contract("C20", U + "ss_framerotate")
def frame_drift(V):
    m = V.load("signals.utils")
    n = V.size("n")
    x, mjd, off = V.array("x", n, 3), V.array("mjd", n), V.array("offset", n, 3)
    rate = V.real("rate")
    f, t, o = x.snap(), mjd.snap(), off.snap()
    for eq in (False, True):
        def post(v, shift=False):
            if not shift:
                w = lambda i: frame(t(i), vec(f, i), num(rate), eq)
            else:
                def w(i):
                    e = [p + q for p, q in zip(vec(o, i), mul(rz(num(rate) * (t(i) - 55197) / P(365.25)), mul(RT, vec(f, i)) if eq else vec(f, i)))]
                    return mul(R, e) if eq else e
            V.eq("rotation about the ecliptic pole by rate times years since MJD 55197", v, field(n, w))
            V.done("positions not modified", x.snap() is f and mjd.snap() is t and off.snap() is o)
            if not shift:
                g = v.snap()
                V.eq("length preserved", SArr((Axis(n),), lambda i: sum((y ** 2 for y in vec(g, i)), P0)), SArr((Axis(n),), lambda i: sum((y ** 2 for y in vec(f, i)), P0)))
        V.returns(lambda: m.ss_framerotate(mjd, x, 0.0, 0.0, 0.0, rate, offset=None, equatorial=eq), post, label="equatorial" if eq else "ecliptic")
        V.returns(lambda: m.ss_framerotate(mjd, x, 0.0, 0.0, 0.0, rate, offset=off, equatorial=eq), lambda v: post(v, True), label="offset, equatorial" if eq else "offset, ecliptic")
        V.returns(lambda: m.ss_framerotate(mjd, x, 0.0, 0.0, 0.0, 0.0, offset=None, equatorial=eq), lambda v: V.eq("no drift, no change", v, field(n, lambda i: vec(f, i))), label="equatorial" if eq else "ecliptic")


@contract("C20", U + "dmass")
def mass(V):
    m = V.load("signals.utils")
    n = V.size("n")
    x, d = V.array("x", n, 3), V.real("dm")
    f = x.snap()
    V.returns(lambda: m.dmass(x, d), lambda v: (V.eq("mass change times position", v, SArr(x.axes, lambda i, a: num(d) * f(i, a))), V.done("position not modified", x.snap() is f)))


class Orbits:
    """Times and orbital-element derivatives of the two planets, all unknown."""

    def __init__(self, V):
        self.m = V.size("nephem")
        self.times = V.array("times", self.m)
        self.jup, self.sat = V.array("jup", 6, self.m, 3), V.array("sat", 6, self.m, 3)

    def at(self, orbit, mjd, a, k):
        """Component k of the derivative by element a, at a time."""
        f, t = orbit.snap(), self.times
        w = npf.interp(SNum(mjd), t, SArr((Axis(self.m),), lambda j: f(a, j, P(k))))
        return num(w)


def expected(orb, toas, pl, pos, par, equatorial=True):
    """delay(i): minus the projection of the change of the Earth position."""
    def delay(i):
        mjd = toas(i) / 86400
        e = [pl(i, P(2), P(a)) for a in range(3)]
        new = frame(mjd, e, par.get("frame_drift_rate", P0), equatorial)
        for nm, k in MASS:
            new = [x + par.get(nm, P0) * pl(i, P(k), P(a)) for a, x in enumerate(new)]
        for nm, mass, o in (("jup_orb_elements", MJUP, "jup"), ("sat_orb_elements", MSAT, "sat")):
            if nm in par:
                new = [x + mass * Axis(P(6)).sum(lambda q: par[nm](q) * orb.at(getattr(orb, o), mjd, q, a)) for a, x in enumerate(new)]
        return -sum(((x - y) * pos(i, P(a)) for a, (x, y) in enumerate(zip(new, e))), P0)
    return delay


def inputs(V, n=None):
    n = n or V.size("ntoas")
    A_ = [V.array("toas", n), V.array("planetssb", n, 9, 6), V.array("pos_t", n, 3)]
    return n, A_, [a.snap() for a in A_]


@contract("C20", U + "physical_ephem_delay")
def delay(V):
    m = V.load("signals.utils")
    n, (toas, pl, pos), (ft, fp, fx) = inputs(V)
    orb = Orbits(V)
    reals = {k: V.real(k) for k in ORDER[:5]}
    els = {k: V.array(k, 6) for k in ORDER[5:]}
    olds = [a.snap() for a in els.values()]
    kept = lambda: V.done("stored positions and parameters not modified",
                          all(a.snap() is b for a, b in zip([toas, pl, pos] + list(els.values()), [ft, fp, fx] + olds)) )
    ax = Axis(n)
    def go(label, kw, par, equatorial=True):
        V.returns(lambda: m.physical_ephem_delay(toas, pl, pos, equatorial=equatorial, **kw),
                  lambda v: (V.eq("minus the projection of the Earth's displacement", v, SArr((ax,), expected(orb, ft, fp, fx, par, equatorial))), kept()), label=label)
    od = dict(times=orb.times, jup_orbit=orb.jup, sat_orbit=orb.sat)
    p5 = {k: num(v) for k, v in reals.items()}
    go("nothing perturbed", {}, {})
    go("masses and frame drift", reals, p5)
    go("masses and frame drift, ecliptic", reals, p5, False)
    for k in reals:
        go(k + " alone", {k: reals[k]}, {k: p5[k]})
    for k in els:
        go(k, dict({k: els[k]}, **od), {k: els[k].snap()})
    go("everything", dict(reals, **els, **od), dict(p5, **{k: a.snap() for k, a in els.items()}))


@contract("C20", U + "createfourierdesignmatrix_physicalephem", U + "physicalephem_spectrum")
def basis(V):
    m = V.load("signals.utils")
    n, (toas, pl, pos), (ft, fp, fx) = inputs(V)
    orb = Orbits(V)
    asked = []
    m.get_planet_orbital_elements = lambda model="setIII": (asked.append(model), (orb.times, orb.jup, orb.sat))[1]
    D = P(1e-5)
    sig = {k: V.real("s_" + k, pos=True) for k in ORDER}
    def column(k, q=None):
        par = {k: D} if q is None else {k: lambda x: iverson(cmp0("eq", x - q)) * D}
        d = expected(orb, ft, fp, fx, par)
        return lambda i: d(i) / D
    def go(label, on, model=None):
        cols, width = [], []
        for k in ORDER:
            if k in on:
                for q in [None] if "orb" not in k else range(6):
                    cols.append(column(k, q))
                    width.append(num(sig[k]))
        kw = {k: (sig[k] if k in on else None) for k in ORDER}
        if model:
            kw["model"] = model
        def post(v):
            F, w = v
            g = F.snap()
            V.done("%d columns" % len(cols), len(F.axes) == 2 and F.axes[0].same(Axis(n)) and F.axes[1].n.const == len(cols))
            for j, c in enumerate(cols):
                V.eq("unit derivative %d" % j, SArr((Axis(n),), lambda i: g(i, P(j))), SArr((Axis(n),), c))
            V.eq("prior widths", w, [SNum(x) for x in width])
            V.done("ephemeris model asked for", set(asked) == {model or "setIII"})
            V.done("stored positions not modified", toas.snap() is ft and pl.snap() is fp and pos.snap() is fx)
        V.returns(lambda: (asked.clear(), m.createfourierdesignmatrix_physicalephem(toas, pl, pos, **kw))[1], post, label=label)
    go("all", ORDER)
    go("none but Saturn's mass", ["d_saturn_mass"])
    go("orbits", ORDER[5:], "orbel")
    go("without Jupiter's orbit", [k for k in ORDER if k != "jup_orb_elements"])
    k = V.size("k")
    s = V.array("sigma", k)
    sf = s.snap()
    V.returns(lambda: m.physicalephem_spectrum(s), lambda v: V.eq("prior variance", v, SArr((Axis(k),), lambda i: sf(i) ** 2)))


@contract("C20", "enterprise.signals.deterministic_signals.PhysicalEphemerisSignal")
def signal(V):
    d, m = V.load("signals.deterministic_signals"), V.load("signals.utils")
    n, (toas, pl, pos), (ft, fp, fx) = inputs(V)
    orb = Orbits(V)
    m.get_planet_orbital_elements = lambda model="setIII": (orb.times, orb.jup, orb.sat)
    # epochs: epoch(i) of TOA i (contract of the quantisation: C12)
    ne = V.size("nepochs")
    V.array("epoch", n, dtype="i")
    ep = lambda i: app("epoch", i, integer=True)
    w = fresh("w")
    V.assume(PY.forall(atom_of(w), n, conj(cmp0("le", -ep(w)), cmp0("lt", ep(w) - ne))))
    U_ = object()
    quant = []
    m.create_quantization_matrix = lambda t, dt=1, nmin=2: (quant.append((t, dt, nmin)), (U_, None))[1]
    m.quant2ind = lambda u, as_slice=True: E.SSeq.of(ne, lambda k: SArr((Axis(n),), lambda i: cmp0("eq", ep(i) - k), "b")) if u is U_ else None
    psr = E.Obj(name="psr", toas=toas, planetssb=pl, pos_t=pos)
    names = {k: k for k in ORDER}
    vals = {k: V.real(k) for k in ORDER[:5]}
    vals.update({k: V.array(k, 6) for k in ORDER[5:]})
    par = {k: num(v) if k in ORDER[:5] else v.snap() for k, v in vals.items()}
    stored = lambda: V.done("stored positions not modified", toas.snap() is ft and pl.snap() is fp and pos.snap() is fx)
    def go(label, par, vals, epochs, **kw):
        cls = d.PhysicalEphemerisSignal(use_epoch_toas=epochs, **kw)
        if epochs:
            def want(i):
                k = ep(i)
                ave = lambda k: Axis(n).sum(lambda j: iverson(cmp0("eq", ep(j) - k)) * ft(j)) / Axis(n).sum(lambda j: iverson(cmp0("eq", ep(j) - k)))
                at_ = lambda f: num(npf.interp(SNum(ave(k)), toas, SArr((Axis(n),), f)))
                x = expected(orb, lambda j: ave(k), lambda j, p, a: at_(lambda t: fp(t, p, a)), lambda j, a: at_(lambda t: fx(t, a)), par)
                return x(i)
        else:
            want = expected(orb, ft, fp, fx, par)
        def post(v):
            sig, v = v
            V.eq("delay", v, SArr((Axis(n),), want))
            V.done("parameters", sorted(p.name for p in sig.params) == sorted(vals), "%r" % sorted(sig._params))
            V.done("quantisation of the TOAs, single ones included", bool(quant) == epochs and all(q[0] is toas and q[2] == 1 for q in quant))
            stored()
        def once():
            quant.clear()
            s = cls(psr)
            return s, s.get_delay(vals)
        V.returns(once, post, label=label)
        # an earlier delay is not changed by a later one
        def twice():
            s = cls(psr)
            a = s.get_delay(vals)
            b = s.get_delay({k: (SNum(num(v) + 1) if k in ORDER[:5] else v) for k, v in vals.items()})
            return a, b
        def post2(v):
            V.eq("first delay unchanged by a second call", v[0], SArr((Axis(n),), want))
            V.done("a new array", v[0] is not v[1])
            stored()
        V.returns(twice, post2, label=label)
    go("all TOAs", {k: par[k] for k in ORDER[:5]}, {k: vals[k] for k in ORDER[:5]}, False, jup_orb_elements=False)
    go("all TOAs, everything", par, vals, False, sat_orb_elements=True)
    go("epochs", {k: par[k] for k in ORDER[:5]}, {k: vals[k] for k in ORDER[:5]}, True, jup_orb_elements=False)
    off = ("frame_drift_rate", "d_saturn_mass")
    go("epochs, Jupiter's orbit, some disabled", {k: v for k, v in par.items() if k not in off and k != "sat_orb_elements"},
       {k: v for k, v in vals.items() if k not in off and k != "sat_orb_elements"}, True, **{k: False for k in off})
