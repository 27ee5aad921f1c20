"""C28: the gravitational-waveform helpers are their documented closed forms, for all arguments; arguments are not modified."""
from cv.sym.contract import *

U = "enterprise.signals.utils."
TRUSTED = ["scipy.integrate.odeint integrates the system it is given (the solution curves are checked at run time only)"]
BOUNDED = ["that the curves of solve_coupled_ecc_solution and solve_coupled_constecc_solution follow their rates (scipy's integrator): run-time contracts"]


def sincos(x):
    x = num(x)
    return PY.fn("sin", x), PY.fn("cos", x)


def patterns(p, th, ph):
    (st, ct), (sp, cp) = sincos(th), sincos(ph)
    m, n, o = (sp, -cp, P0), (-ct * cp, -ct * sp, st), (-st * cp, -st * sp, -ct)
    d = lambda v: sum((a * b for a, b in zip(v, p)), P0)
    return (d(m) ** 2 - d(n) ** 2) / 2 / (1 + d(o)), d(m) * d(n) / (1 + d(o)), -d(o)


@contract("C28", U + "create_gw_antenna_pattern")
def antenna(V):
    m = V.load("signals.utils")
    pos, th, ph = V.array("pos", 3), V.real("gwtheta"), V.real("gwphi")
    ps = pos.snap()
    def post(v):
        w = patterns([ps(P(k)) for k in range(3)], th, ph)
        for g, x, l in zip(v, w, ("F+", "Fx", "cos mu")):
            V.eq(l, g, SNum(x))
        V.done("position not modified", pos.snap() is ps)
    V.returns(lambda: m.create_gw_antenna_pattern(pos, th, ph), post)
    # cos mu is the scalar product with the source direction, and the pattern's modulus a function of it alone:
    # both are unchanged by a common rotation of pulsar and source
    (sa, ca), (sb, cb) = sincos(V.real("a")), sincos(V.real("b"))
    u = arr([SNum(sa * cb), SNum(sa * sb), SNum(ca)])
    (st, ct), (sp, cp) = sincos(th), sincos(ph)
    def unit(v):
        fp, fc, mu = [num(x) for x in v]
        V.eq("cos mu is the scalar product of the directions", SNum(mu), SNum(st * cp * sa * cb + st * sp * sa * sb + ct * ca))
        V.eq("F+^2 + Fx^2 = ((1 + cos mu)/2)^2", SNum(fp**2 + fc**2), SNum((1 + mu) ** 2 / 4))
    V.returns(lambda: m.create_gw_antenna_pattern(u, th, ph), unit, label="unit vector")


@contract("C28", U + "bwm_delay")
def burst(V):
    m = V.load("signals.utils")
    n = V.size("ntoas")
    t, pos = V.array("toas", n), V.array("pos", 3)
    ts, ps = t.snap(), pos.snap()
    lh, cg, ph, pol, t0 = [V.real(x) for x in ("log10_h", "cos_gwtheta", "gwphi", "gwpol", "t0")]
    calls = []
    def pattern(p, th, phi):
        calls.append((p, th, phi))
        return SNum(var("fp")), SNum(var("fc")), SNum(var("mu"))
    m.create_gw_antenna_pattern = pattern
    def post(lh, cg, ph, pol, t0):
        def f(v):
            c2, s2 = PY.fn("cos", 2 * num(pol)), PY.fn("sin", 2 * num(pol))
            amp = PY.power_sym(P(10), num(lh)) * (c2 * var("fp") + s2 * var("fc"))
            x = lambda i: ts(i) - num(t0) * 86400
            V.eq("zero before the epoch, linear after it", v, SArr((Axis(n),), lambda i: iverson(cmp0("lt", -x(i))) * amp * x(i)))
            V.done("patterns of the pulsar position", len(calls) == 1 and calls[0][0] is pos)
            V.eq("source angle", SNum(PY.fn("cos", num(calls[0][1]))), cg)
            V.eq("source azimuth", calls[0][2], ph)
            V.done("inputs not modified", t.snap() is ts and pos.snap() is ps)
        return f
    def run(fn):
        def go():
            del calls[:]
            return fn()
        return go
    V.returns(run(lambda: m.bwm_delay(t, pos, log10_h=lh, cos_gwtheta=cg, gwphi=ph, gwpol=pol, t0=t0)), post(lh, cg, ph, pol, t0))
    V.returns(run(lambda: m.bwm_delay(t, pos)), post(P(-14), SNum(P0), SNum(P0), P0, P(55000)), label="defaults")
    V.returns(run(lambda: m.bwm_delay(t, pos, log10_h=lh, cos_gwtheta=cg, gwphi=ph, gwpol=pol, t0=t0, antenna_pattern_fn=pattern)), post(lh, cg, ph, pol, t0), label="own patterns")


def binary(V, m):
    # solar mass in seconds; megaparsec in seconds
    c = V.load("constants")
    V.done("constants: GM_sun/c^3", abs(float(c.Tsun) / (1.32712440041e20 / 299792458.0**3) - 1) < 1e-6)
    V.done("constants: megaparsec", abs(float(c.Mpc) / 3.0856775814913673e22 - 1) < 1e-9 and float(c.c) == 299792458.0)
    return P(float(c.Tsun)), P(float(c.Mpc)) / P(float(c.c))


def rates(TS):
    def fdot(F, mc, e):
        M = mc * TS
        return 48 / (5 * PY.PI * M**2) * PY.power(2 * PY.PI * M * F, "11/3") * (1 + P(PY.Fraction(73, 24)) * e**2 + P(PY.Fraction(37, 96)) * e**4) * PY.power(1 - e**2, "-7/2")
    def edot(F, mc, e):
        M = mc * TS
        return P(-304) / (15 * M) * PY.power(2 * PY.PI * M * F, "8/3") * e * (1 + P(PY.Fraction(121, 304)) * e**2) * PY.power(1 - e**2, "-5/2")
    def gdot(F, mc, q, e):
        mt = PY.power((1 + q) ** 2 / q, "3/5") * mc * TS
        x = PY.power(2 * PY.PI * F * mt, "2/3") / (1 - e**2)
        return 6 * PY.PI * F * x * (1 + x / 4 * (26 - 15 * e**2))
    return fdot, edot, gdot


def orbit(V):
    F, mc, q = V.real("F", pos=True), V.real("mc", pos=True), V.real("q", pos=True)
    e = V.real("e", nonneg=True)
    V.assume(cmp0("lt", num(e) - 1))
    V.assume(cmp0("lt", num(e) ** 2 - 1))   # a consequence of 0 <= e < 1
    return F, mc, q, e


@contract("C28", U + "get_edot", U + "get_Fdot", U + "get_gammadot")
def orbital_rates(V):
    m = V.load("signals.utils")
    TS, _ = binary(V, m)
    F, mc, q, e = orbit(V)
    fdot, edot, gdot = rates(TS)
    V.returns(lambda: m.get_Fdot(F, mc, e), lambda v: V.eq("dF/dt", v, SNum(fdot(num(F), num(mc), num(e)))))
    V.returns(lambda: m.get_edot(F, mc, e), lambda v: V.eq("de/dt", v, SNum(edot(num(F), num(mc), num(e)))))
    V.returns(lambda: m.get_gammadot(F, mc, q, e), lambda v: V.eq("dgamma/dt", v, SNum(gdot(num(F), num(mc), num(q), num(e)))))
    # arrays of frequencies and eccentricities, element by element
    n = V.size("n")
    Fa, ea = V.array("Fa", n, pos=True), V.array("ea", n, nonneg=True)
    fs, es = Fa.snap(), ea.snap()
    i = fresh("i")
    V.assume(PY.forall(atom_of(i), n, cmp0("lt", es(i) ** 2 - 1)))
    for lab, call, f in (("dF/dt", lambda: m.get_Fdot(Fa, mc, ea), lambda a, b: fdot(a, num(mc), b)), ("de/dt", lambda: m.get_edot(Fa, mc, ea), lambda a, b: edot(a, num(mc), b)),
                         ("dgamma/dt", lambda: m.get_gammadot(Fa, mc, q, ea), lambda a, b: gdot(a, num(mc), num(q), b))):
        def post(v):
            V.eq(lab, v, SArr((Axis(n),), lambda i: f(fs(i), es(i))))
            V.done("inputs not modified", Fa.snap() is fs and ea.snap() is es)
        V.returns(call, post, label="arrays")


@contract("C28", U + "get_coupled_ecc_eqns", U + "get_coupled_constecc_eqns", U + "solve_coupled_ecc_solution", U + "solve_coupled_constecc_solution")
def evolution(V):
    m = V.load("signals.utils")
    F, mc, q, e = orbit(V)
    m.get_Fdot = lambda F, mc, e: SNum(app("fdot", num(F), num(mc), num(e)))
    m.get_edot = lambda F, mc, e: SNum(app("edot", num(F), num(mc), num(e)))
    m.get_gammadot = lambda F, mc, q, e: SNum(app("gdot", num(F), num(mc), num(q), num(e)))
    t = V.real("t")
    fd, ed, gd = app("fdot", num(F), num(mc), num(e)), app("edot", num(F), num(mc), num(e)), app("gdot", num(F), num(mc), num(q), num(e))
    y = arr([F, e, V.real("gamma"), V.real("phase")])
    V.returns(lambda: m.get_coupled_ecc_eqns(y, t, mc, q), lambda v: V.eq("rates of F, e, gamma, phase", v, arr([SNum(x) for x in (fd, ed, gd, 2 * PY.PI * num(F))])))
    y2 = arr([F, V.real("phase")])
    V.returns(lambda: m.get_coupled_constecc_eqns(y2, t, mc, e), lambda v: V.eq("rates of F, phase", v, arr([SNum(fd), SNum(2 * PY.PI * num(F))])))
    # the integrator gets the rates, the initial values in their order, the times and the constants
    nt = V.size("nt")
    ta = V.array("t", nt)
    tsn = ta.snap()
    calls = []
    def odeint(f, y0, t, args=(), full_output=False, **kw):
        calls.append((f, y0, t, args, kw))
        Y = A.sym("Y", nt, arr(y0).axes[0].n)
        return (Y, {"message": "Integration successful."}) if full_output else Y
    m.odeint = odeint
    g0, l0 = V.real("gamma0"), V.real("phase0")
    def run(fn):
        def go():
            del calls[:]
            return fn()
        return go
    def post(f, y0, args):
        def g(v):
            V.done("integrates the stated rates", len(calls) == 1 and calls[0][0] is f and calls[0][2] is ta and not calls[0][4] and ta.snap() is tsn)
            V.eq("initial values", calls[0][1], arr(y0))
            V.eq("constants", tuple(calls[0][3]), tuple(args))
            V.eq("the integrator's result", v, A.sym("Y", nt, len(y0)))
        return g
    V.returns(run(lambda: m.solve_coupled_ecc_solution(F, e, g0, l0, mc, q, ta)), post(m.get_coupled_ecc_eqns, [F, e, g0, l0], (mc, q)), label="eccentric")
    V.returns(run(lambda: m.solve_coupled_constecc_solution(F, e, l0, mc, ta)), post(m.get_coupled_constecc_eqns, [F, l0], (mc, e)), label="constant e")


def amplitudes(TS, MPC, F, mc, dl, h0, e):
    w = 2 * PY.PI * F
    h = h0 if h0 is not None else 2 * PY.power(mc * TS, "5/3") * PY.power(w, "2/3") / (dl * MPC)
    jn = lambda k, x: PY.fn("jn", k, x)
    def an(n):
        return -n * h / 2 * (jn(n - 2, n * e) - 2 * e * jn(n - 1, n * e) + 2 / n * jn(n, n * e) + 2 * e * jn(n + 1, n * e) - jn(n + 2, n * e))
    def bn(n):
        return -n * h / 2 * PY.power(1 - e**2, "1/2") * (jn(n - 2, n * e) - 2 * jn(n, n * e) + jn(n + 2, n * e))
    def cn(n):
        return h * jn(n, n * e) / (n * w)
    return an, bn, cn


@contract("C28", U + "get_an", U + "get_bn", U + "get_cn")
def harmonic_amplitudes(V):
    m = V.load("signals.utils")
    TS, MPC = binary(V, m)
    F, mc, q, e = orbit(V)
    dl, h0 = V.real("dl", pos=True), V.real("h0", pos=True)
    k = V.size("n")
    nm = V.size("nn")
    ns = SArr((Axis(nm),), lambda i: i + 1, "i")
    for h in (None, h0):
        fs = amplitudes(TS, MPC, num(F), num(mc), num(dl), None if h is None else num(h), num(e))
        for name, f in zip(("get_an", "get_bn", "get_cn"), fs):
            fn = getattr(m, name)
            V.returns(lambda: fn(SNum(k), mc, dl, h, F, e), lambda v: V.eq(name, v, SNum(f(k))), label="h0 %s" % (h is not None))
            s0 = ns.snap()
            def post(v):
                V.eq(name, v, SArr((Axis(nm),), lambda i: f(i + 1)))
                V.done("harmonic numbers not modified", ns.snap() is s0)
            V.returns(lambda: fn(ns, mc, dl, h, F, e), post, label="array, h0 %s" % (h is not None))


@contract("C28", U + "calculate_splus_scross")
def waveforms(V):
    m = V.load("signals.utils")
    F, mc, q, e = orbit(V)
    nm, nt = V.size("nmax", least=2), V.size("nt")
    t = V.array("t", nt)
    ts = t.snap()
    l0, g0, gd, inc, dl, h0 = [V.real(x) for x in ("l0", "gamma", "gammadot", "inc", "dl", "h0")]
    def amp(name):
        def f(n, mc_, dl_, h_, F_, e_):
            n = arr(n)
            same = all(a is b for a, b in ((mc_, mc), (dl_, dl), (h_, h0), (F_, F), (e_, e)))
            V.done("amplitudes asked for with the arguments given", same)
            s = n.snap()
            return SArr(n.axes, lambda i: app(name, s(i)))
        return f
    m.get_an, m.get_bn, m.get_cn = amp("an"), amp("bn"), amp("cn")
    w = 2 * PY.PI * num(F)
    ci = PY.fn("cos", num(inc))
    G = num(gd)
    def total(i, term):
        return Axis(nm - 1).sum(lambda k: term(k + 1, num(l0) + w * ts(i), num(g0) + G * ts(i)))
    def parts(n, l, g):
        um, up = n * w - 2 * G, n * w + 2 * G
        S, C = (lambda s: PY.fn("sin", n * l + s * 2 * g)), (lambda s: PY.fn("cos", n * l + s * 2 * g))
        return S(-1) / um, S(1) / up, C(-1) / um, C(1) / up
    def plus(n, l, g):
        sm, sp, _, _ = parts(n, l, g)
        return -(1 + ci**2) / 2 * (app("an", n) * (sm + sp) - app("bn", n) * (sm - sp)) + (1 - ci**2) * app("cn", n) * PY.fn("sin", n * l)
    def cross(n, l, g):
        _, _, cm, cp = parts(n, l, g)
        return ci * (app("an", n) * (cm - cp) - app("bn", n) * (cm + cp))
    def post(v):
        V.eq("plus", v[0], SArr((Axis(nt),), lambda i: total(i, plus)))
        V.eq("cross", v[1], SArr((Axis(nt),), lambda i: total(i, cross)))
        V.done("times not modified", t.snap() is ts)
    V.returns(lambda: m.calculate_splus_scross(SNum(nm), mc, dl, h0, F, e, t, l0, g0, gd, inc), post)
