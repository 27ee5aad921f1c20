"""C14: every prior function of gp_priors returns its documented spectral density times the bin width, entry by entry,
for every number of modes, every components-per-mode and every parameter value."""
from cv.sym.contract import *

M = "enterprise.signals.gp_priors."
TRUSTED = ["scipy.stats.invgamma is the inverse-gamma distribution"]


def grid(V, per):
    """Frequencies of m modes, each repeated `per` times (per symbolic or a number); positive."""
    m = V.size("m")
    f = V.array("f", P(per) * m, pos=True)
    return m, f, f.snap()


def width(fs, per):
    """Bin width of column i: the distance to the previous mode's frequency, of the first mode to zero."""
    per = P(per)

    def df(i):
        k = PY.floordiv(i, per)
        first = cmp0("le", k)
        return ite(first, fs(k * per), fs(k * per) - fs((k - P1) * per))

    return df


def amp(la):
    return PY.power_sym(P(10), 2 * num(la))


def check(V, fn, want, f, label=""):
    before = f.snap()
    def post(v):
        V.eq("value of every entry", v, SArr(f.axes, want))
        V.done("the frequency array is not modified", f.snap() is before)
    V.returns(fn, post, label=label)


def fyr(V):
    c = V.load("constants")
    V.true("constants: fyr is one over the Julian year", cmp0("eq", num(c.fyr) * P(31557600) - P1))
    return P1 / P(31557600)


@contract("C14", M + "powerlaw")
def powerlaw(V):
    m = V.load("signals.gp_priors")
    per = V.size("c")
    n, f, fs = grid(V, per)
    la, g = V.real("log10_A"), V.real("gamma")
    y = fyr(V)
    df = width(fs, per)
    dens = lambda i: amp(la) / 12 / PY.PI**2 * PY.power_sym(y, num(g) - 3) * PY.power_sym(fs(i), -num(g))
    check(V, lambda: m.powerlaw(f, la, g, components=SNum(per)), lambda i: dens(i) * df(i), f)
    # two columns per mode is the default
    n2 = V.size("m2")
    f2 = V.array("f2", 2 * n2, pos=True)
    s2 = f2.snap()
    df2 = width(s2, 2)
    check(V, lambda: m.powerlaw(f2, log10_A=la, gamma=g),
          lambda i: amp(la) / 12 / PY.PI**2 * PY.power_sym(y, num(g) - 3) * PY.power_sym(s2(i), -num(g)) * df2(i), f2, "default components")
    check(V, lambda: m.powerlaw(f2),
          lambda i: amp(P(-16)) / 12 / PY.PI**2 * PY.power_sym(y, P(2)) * PY.power(s2(i), -5) * df2(i), f2, "default parameters")
    # positive on increasing grids whose columns come in groups of one frequency; columns of one frequency get one value
    i = fresh("i")
    inc = lambda k: cmp0("lt", fs(k * per) - fs((k + P1) * per))
    k = fresh("k")
    with assuming(cmp0("le", -i), cmp0("lt", i - n * per), PY.forall(atom_of(k), n - P1, inc(k))):
        q = PY.floordiv(i, per)
        with assuming(neg(cmp0("le", q)), cmp0("lt", q - n), inc(q - P1)):
            V.true("positive: bin widths of an increasing grid", cmp0("lt", -df(i)))
        with assuming(cmp0("le", q), cmp0("le", -q)):
            V.true("positive: first bin", cmp0("lt", -df(i)))
        V.done("positive: density", PY.is_pos(dens(i)))
    # columns a, b < c of one mode k: equal frequencies, equal values
    k, a, b = fresh("k"), fresh("a"), fresh("b")
    with assuming(*[cmp0("le", -x) for x in (k, a, b)], cmp0("lt", k - n), cmp0("lt", a - per), cmp0("lt", b - per)):
        x, y2 = df(k * per + a), df(k * per + b)
        V.true("columns of one frequency get one value", cmp0("eq", x - y2))


@contract("C14", M + "powerlaw_genmodes")
def powerlaw_genmodes(V):
    m = V.load("signals.gp_priors")
    per = V.size("c")
    n, f, fs = grid(V, per)
    la, g = V.real("log10_A"), V.real("gamma")
    y = fyr(V)
    df = width(fs, per)
    dens = lambda i: amp(la) / 12 / PY.PI**2 * PY.power_sym(y, num(g) - 3) * PY.power_sym(fs(i), -num(g))
    check(V, lambda: m.powerlaw_genmodes(f, la, g, components=SNum(per)), lambda i: dens(i) * df(i), f, "without weights")
    w = V.array("w", n)
    ws = w.snap()
    check(V, lambda: m.powerlaw_genmodes(f, la, g, components=SNum(per), wgts=w), lambda i: dens(i) * ws(PY.floordiv(i, per)) ** 2, f, "with weights")


def psd(h2, i, fs, df):
    return h2 / 12 / PY.PI**2 / fs(i) ** 3 * df(i)


@contract("C14", M + "turnover")
def turnover(V):
    m = V.load("signals.gp_priors")
    n, f, fs = grid(V, 2)
    la, g, lf, ka, be = [V.real(x) for x in ("log10_A", "gamma", "lf0", "kappa", "beta")]
    y, df = fyr(V), width(fs, 2)
    pw = PY.power_sym

    def h2(i, la, g, lf, ka, be):
        return pw(P(10), 2 * la) * pw(fs(i) / y, 3 - g) * pw(1 + pw(pw(P(10), lf) / fs(i), ka), -2 * be)

    check(V, lambda: m.turnover(f, la, g, lf, ka, be), lambda i: psd(h2(i, *[num(x) for x in (la, g, lf, ka, be)]), i, fs, df), f)
    check(V, lambda: m.turnover(f), lambda i: psd(h2(i, P(-15), P(4.33), P(-8.5), P(10) / 3, P(0.5)), i, fs, df), f, "default parameters")


@contract("C14", M + "turnover_knee")
def turnover_knee(V):
    m = V.load("signals.gp_priors")
    n, f, fs = grid(V, 2)
    ps = [V.real(x) for x in ("log10_A", "gamma", "lfb", "lfk", "kappa", "delta")]
    y, df, pw = fyr(V), width(fs, 2), PY.power_sym
    la, g, lb, lk, ka, de = [num(x) for x in ps]
    h2 = lambda i: pw(P(10), 2 * la) * pw(fs(i) / y, 3 - g) * pw(1 + fs(i) / pw(P(10), lk), 2 * de) / (1 + pw(pw(P(10), lb) / fs(i), ka))
    check(V, lambda: m.turnover_knee(f, *ps), lambda i: psd(h2(i), i, fs, df), f)


@contract("C14", M + "broken_powerlaw")
def broken_powerlaw(V):
    m = V.load("signals.gp_priors")
    n, f, fs = grid(V, 2)
    la, g, de, lf = [V.real(x) for x in ("log10_A", "gamma", "delta", "log10_fb")]
    ka = V.real("kappa", pos=True)
    y, df, pw = fyr(V), width(fs, 2), PY.power_sym

    def h2(i, k):
        return pw(P(10), 2 * num(la)) * pw(fs(i) / y, 3 - num(g)) * pw(1 + pw(fs(i) / pw(P(10), num(lf)), 1 / k), k * (num(g) - num(de)))

    check(V, lambda: m.broken_powerlaw(f, la, g, de, lf, ka), lambda i: psd(h2(i, num(ka)), i, fs, df), f)
    check(V, lambda: m.broken_powerlaw(f, la, g, de, lf), lambda i: psd(h2(i, P(0.1)), i, fs, df), f, "default kappa")


@contract("C14", M + "free_spectrum")
def free_spectrum(V):
    m = V.load("signals.gp_priors")
    n, f, fs = grid(V, 2)
    rho = V.array("log10_rho", n)
    rs = rho.snap()
    check(V, lambda: m.free_spectrum(f, log10_rho=rho), lambda i: PY.power_sym(P(10), 2 * rs(PY.floordiv(i, P(2)))), f)


def stub_powerlaw(V, m):
    """The contract of powerlaw at its call sites: a function of the grid, the parameters and the column."""
    calls = []

    def powerlaw(f, log10_A=-16, gamma=5, components=2):
        calls.append((f, log10_A, gamma, components))
        return SArr(f.axes, lambda i: app("powerlaw", num(log10_A), num(gamma), P(num(components)), i, pos=True))

    m.powerlaw = powerlaw
    return calls


@contract("C14", M + "t_process")
def t_process(V):
    m = V.load("signals.gp_priors")
    calls = stub_powerlaw(V, m)
    n, f, fs = grid(V, 2)
    la, g = V.real("log10_A"), V.real("gamma")
    al = V.array("alphas", n)
    als = al.snap()
    base = lambda a, b: lambda i: app("powerlaw", a, b, P(2), i)
    check(V, lambda: m.t_process(f, la, g, alphas=al), lambda i: base(num(la), num(g))(i) * als(PY.floordiv(i, P(2))), f, "with factors")
    check(V, lambda: m.t_process(f, la, g), base(num(la), num(g)), f, "without factors")
    check(V, lambda: m.t_process(f), base(P(-15), P(4.33)), f, "default parameters")
    V.done("the power law of the given frequencies is used", all(c[0] is f for c in calls))


@contract("C14", M + "t_process_adapt")
def t_process_adapt(V):
    m = V.load("signals.gp_priors")
    calls = stub_powerlaw(V, m)
    n, f, fs = grid(V, 2)
    la, g = V.real("log10_A"), V.real("gamma")
    al = V.array("alphas", n)
    als = al.snap()
    base = lambda i: app("powerlaw", num(la), num(g), P(2), i)
    check(V, lambda: m.t_process_adapt(f, la, g), base, f, "without factors")
    check(V, lambda: m.t_process_adapt(f, la, g, alphas_adapt=al), lambda i: base(i) * als(PY.floordiv(i, P(2))), f, "a factor per mode")
    a1 = V.real("alpha1")
    # nfreq in [0, m - 1/2): its rounding is a mode number
    nf = V.real("nfreq")
    r = PY.fn("rint", num(nf))
    V.assume(conj(cmp0("le", -r), cmp0("lt", r - n)))
    check(V, lambda: m.t_process_adapt(f, la, g, alphas_adapt=a1, nfreq=nf),
          lambda i: base(i) * ite(cmp0("eq", PY.floordiv(i, P(2)) - r), num(a1), P1), f, "a factor for one mode")
    V.done("the power law of the given frequencies is used", all(c[0] is f for c in calls))


@contract("C14", M + "infinitepower")
def infinitepower(V):
    m = V.load("signals.gp_priors")
    n = V.size("n")
    for dt in "fi":
        f = V.array("f" + dt, n, dtype=dt)
        check(V, lambda: m.infinitepower(f), lambda i: P(10) ** 40, f, "%s grid" % dt)


@contract("C14", M + "InvGammaPrior")
def invgamma(V):
    m = V.load("signals.gp_priors")
    x, a, g = V.real("x", pos=True), V.real("alpha", pos=True), V.real("gamma", pos=True)
    V.returns(lambda: m.InvGammaPrior(x, a, g), lambda v: V.eq("density", v, SNum(PY.fn("invgamma.pdf", num(x) / num(g), num(a)) / num(g))))
