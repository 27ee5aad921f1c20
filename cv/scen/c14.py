import numpy as np
from scipy import stats
from enterprise.signals import gp_priors as gp, utils, gp_signals as gs, parameter
from ..rac import scenario
from ..fakes import mkpsr

FYR = 1 / (365.25 * 86400)


def df_of(f):
    """Bin widths of distinct frequencies, the first bin starting at zero."""
    return np.array([f[0]] + [f[i] - f[i - 1] for i in range(1, len(f))])


def psd_pl(f, lA, g):
    return 10 ** (2 * lA) / (12 * np.pi**2) * (f / FYR) ** (-g) / FYR**3


def psd_hc(f, hc):
    return hc**2 / (12 * np.pi**2 * f**3)


@scenario("C14", quick=120)
def formulas(ck, rng, k):
    n = int(rng.randint(1, 12))
    T = 10 ** rng.uniform(8, 8.8)
    f = np.arange(1, n + 1) / T if k % 2 else np.cumsum(10 ** rng.uniform(-9, -8, n))
    df = df_of(f)
    F2 = np.repeat(f, 2)
    keep = F2.copy()
    lA, g = rng.uniform(-16, -12), rng.uniform(0, 7)
    R = lambda p, m=2: np.repeat(p * df, m)
    E = dict(rtol=1e-9, elem=True)
    out = []

    def chk(lab, got, want):
        ck.close(lab, got, want, **E)
        ck.true(lab + ": positive", np.all(np.asarray(got) > 0))
        out.append(got)

    chk("powerlaw", gp.powerlaw(F2, log10_A=lA, gamma=g), R(psd_pl(f, lA, g)))
    chk("powerlaw (defaults)", gp.powerlaw(F2), R(psd_pl(f, -16, 5)))
    for m in (1, 3, 6):
        chk("powerlaw components=%d" % m, gp.powerlaw(np.repeat(f, m), log10_A=lA, gamma=g, components=m), R(psd_pl(f, lA, g), m))
        chk("powerlaw_genmodes components=%d" % m, gp.powerlaw_genmodes(np.repeat(f, m), log10_A=lA, gamma=g, components=m), R(psd_pl(f, lA, g), m))
        w = 10 ** rng.uniform(-5, -4, n)
        chk("powerlaw_genmodes weights", gp.powerlaw_genmodes(np.repeat(f, m), log10_A=lA, gamma=g, components=m, wgts=w), np.repeat(psd_pl(f, lA, g) * w**2, m))
    chk("powerlaw_genmodes", gp.powerlaw_genmodes(F2, log10_A=lA, gamma=g), R(psd_pl(f, lA, g)))
    chk("powerlaw_genmodes (defaults)", gp.powerlaw_genmodes(F2), R(psd_pl(f, -16, 5)))
    lf0, kap, bet = rng.uniform(-9.5, -7.5), rng.uniform(0.5, 6), rng.uniform(0.1, 1.5)
    hc = 10**lA * (f / FYR) ** ((3 - g) / 2)
    chk("turnover", gp.turnover(F2, log10_A=lA, gamma=g, lf0=lf0, kappa=kap, beta=bet), R(psd_hc(f, hc / (1 + (10**lf0 / f) ** kap) ** bet)))
    chk("turnover (defaults)", gp.turnover(F2), R(psd_hc(f, 1e-15 * (f / FYR) ** ((3 - 4.33) / 2) / (1 + (10**-8.5 / f) ** (10 / 3.0)) ** 0.5)))
    lfk, dl = rng.uniform(-8.5, -7), rng.uniform(-3, 0.5)
    chk("turnover_knee", gp.turnover_knee(F2, lA, g, lf0, lfk, kap, dl), R(psd_hc(f, hc * (1 + f / 10**lfk) ** dl / np.sqrt(1 + (10**lf0 / f) ** kap))))
    kb = rng.uniform(0.05, 1)
    chk("broken_powerlaw", gp.broken_powerlaw(F2, lA, g, dl, lf0, kappa=kb), R(psd_hc(f, hc * (1 + (f / 10**lf0) ** (1 / kb)) ** (kb * (g - dl) / 2))))
    chk("broken_powerlaw (default)", gp.broken_powerlaw(F2, lA, g, dl, lf0), R(psd_hc(f, hc * (1 + (f / 10**lf0) ** 10.0) ** (0.1 * (g - dl) / 2))))
    al = 10 ** rng.uniform(-1, 1, n)
    chk("t_process", gp.t_process(F2, log10_A=lA, gamma=g, alphas=al), R(psd_pl(f, lA, g) * al))
    chk("t_process without alphas", gp.t_process(F2, log10_A=lA, gamma=g), R(psd_pl(f, lA, g)))
    chk("t_process (defaults)", gp.t_process(F2), R(psd_pl(f, -15, 4.33)))
    chk("t_process_adapt vector", gp.t_process_adapt(F2, log10_A=lA, gamma=g, alphas_adapt=al), R(psd_pl(f, lA, g) * al))
    chk("t_process_adapt without alphas", gp.t_process_adapt(F2, log10_A=lA, gamma=g), R(psd_pl(f, lA, g)))
    chk("t_process_adapt (defaults)", gp.t_process_adapt(F2), R(psd_pl(f, -15, 4.33)))
    i = rng.randint(n)
    for nf in [float(i), i + rng.uniform(-0.45, 0.45), int(i)]:
        if -0.5 < nf:
            a2 = np.ones(n)
            a2[i] = al[0]
            chk("t_process_adapt one frequency", gp.t_process_adapt(F2, log10_A=lA, gamma=g, alphas_adapt=al[0], nfreq=nf), R(psd_pl(f, lA, g) * a2))
    rho = rng.uniform(-10, -4, n)
    chk("free_spectrum", gp.free_spectrum(F2, log10_rho=rho), np.repeat(10 ** (2 * rho), 2))
    chk("free_spectrum list", gp.free_spectrum(F2, log10_rho=list(rho)), np.repeat(10 ** (2 * rho), 2))
    ck.close("infinitepower", gp.infinitepower(F2), np.full(2 * n, 1e40), 1e-15)
    ck.close("infinitepower of integers", gp.infinitepower(np.arange(4)), np.full(4, 1e40), 1e-15)
    for o in out:
        ck.true("one value per frequency", True)
    ck.same("frequencies unchanged", F2, keep)
    ck.close("names exported by utils", [utils.powerlaw(F2, log10_A=lA, gamma=g), utils.turnover(F2)], [gp.powerlaw(F2, log10_A=lA, gamma=g), gp.turnover(F2)], 1e-14)


@scenario("C14", quick=10)
def in_signals(ck, rng, k):
    psr = mkpsr(rng)
    T, n = 2e8, 4
    f = np.arange(1, n + 1) / T
    U = parameter.Uniform
    mk = lambda pr: gs.FourierBasisGP(pr, components=n, Tspan=T, name="r")(psr)
    lA, g, al, rho = rng.uniform(-15, -13), rng.uniform(1, 6), 10 ** rng.uniform(-1, 1, n), rng.uniform(-8, -6, n)
    P = lambda **q: {"%s_r_%s" % (psr.name, x): v for x, v in q.items()}
    s = mk(gp.powerlaw(log10_A=U(-18, -11), gamma=U(0, 7)))
    ck.close("powerlaw signal", np.asarray(s.get_phi(P(log10_A=lA, gamma=g))), np.repeat(psd_pl(f, lA, g) / T, 2), 1e-9)
    s = mk(gp.t_process(log10_A=U(-18, -11), gamma=U(0, 7), alphas=gp.InvGamma(alpha=1, gamma=1, size=n)))
    ck.close("t-process signal", np.asarray(s.get_phi(P(log10_A=lA, gamma=g, alphas=al))), np.repeat(psd_pl(f, lA, g) / T * al, 2), 1e-9)
    s = mk(gp.free_spectrum(log10_rho=U(-10, -4, size=n)))
    ck.close("free-spectrum signal", np.asarray(s.get_phi(P(log10_rho=rho))), np.repeat(10 ** (2 * rho), 2), 1e-9)
    s = mk(gp.infinitepower())
    ck.close("infinite prior signal", np.asarray(s.get_phi({})), np.full(2 * n, 1e40), 1e-12)


@scenario("C14", quick=6)
def inverse_gamma(ck, rng, k):
    a, g = rng.uniform(0.5, 4), rng.uniform(0.5, 4)
    par = gp.InvGamma(alpha=a, gamma=g, size=[None, 3][k % 2])("x")
    v = 10 ** rng.uniform(-1, 1, [None, 3][k % 2])
    from scipy.special import gammaln
    lp = np.sum(a * np.log(g) - gammaln(a) - (a + 1) * np.log(v) - g / v)
    ck.close("inverse-gamma prior", par.get_logpdf(v), lp, 1e-9)
    d = np.array([par.sample() for _ in range(500)]).ravel()
    ck.true("inverse-gamma samples", stats.kstest(d, lambda x: stats.gamma.sf(1 / x, a, scale=1 / g)).pvalue > 1e-7)
