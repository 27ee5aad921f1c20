import numpy as np
from enterprise.signals import gp_bases as gb, utils, gp_signals as gs, gp_priors, parameter
from ..rac import scenario
from ..fakes import mkpsr, unit


def freqs_ref(toas, nmodes, Tspan, logf, fmin, fmax, modes):
    T = Tspan if Tspan is not None else max(toas) - min(toas)
    if modes is not None:
        return np.array(list(modes), float)
    lo = 1 / T if fmin is None else fmin
    hi = nmodes / T if fmax is None else fmax
    if nmodes == 1:
        return np.array([lo])
    x = np.arange(nmodes) / (nmodes - 1.0)
    return 10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * x) if logf else lo + (hi - lo) * x


def four(toas, f, phase=None):
    F = np.zeros((len(toas), 2 * len(f)))
    ph = np.zeros(len(f)) if phase is None else phase
    for k in range(len(f)):
        F[:, 2 * k] = np.sin(2 * np.pi * f[k] * toas + ph[k])
        F[:, 2 * k + 1] = np.cos(2 * np.pi * f[k] * toas + ph[k])
    return F


def options(rng, toas, k):
    T = toas.max() - toas.min()
    nm = int(rng.randint(1, 9))
    o = dict(nmodes=nm)
    if rng.randint(2):
        o["Tspan"] = T * rng.uniform(0.8, 3)
    if rng.randint(2):
        o["logf"] = bool(rng.randint(2))
    if rng.randint(2):
        o["fmin"] = rng.uniform(0.1, 1) / T
    if rng.randint(2):
        o["fmax"] = rng.uniform(3, 20) / T
    if rng.randint(4) == 0:
        m = np.sort(rng.uniform(0.3, 9, rng.randint(1, 6))) / T
        o["modes"] = [list(m), m, tuple(m), m[::-1].copy()][rng.randint(4)]
    if rng.randint(5) == 0 and "modes" not in o:
        del o["nmodes"]
    return o


def want_freqs(toas, o):
    return freqs_ref(toas, o.get("nmodes", 30), o.get("Tspan"), o.get("logf", False), o.get("fmin"), o.get("fmax"), o.get("modes"))


# the phases 2 pi f t are large, so entries are compared with an absolute tolerance
TOL = 1e-8


def check(ck, lab, got, toas, f, scale, rtol=1e-9):
    F, lf = got
    ck.close(lab + ": labels", lf, np.repeat(f, 2), 1e-12)
    ck.same(lab + ": shape", F.shape, (len(toas), 2 * len(f)))
    s = np.broadcast_to(scale, (len(toas),))
    ck.close(lab + ": sine/cosine columns", F / s[:, None], four(toas, f), 0.0, atol=TOL)
    nz = np.sum((F / s[:, None])[:, ::2] ** 2 + (F / s[:, None])[:, 1::2] ** 2 - 1)
    ck.close(lab + ": row norms", np.sqrt(F[:, ::2] ** 2 + F[:, 1::2] ** 2) / np.abs(s)[:, None], np.ones((len(toas), len(f))), 1e-9)


@scenario("C13", quick=80)
def bases(ck, rng, k):
    n = int(rng.randint(3, 30))
    toas = 4.6e9 + np.sort(rng.uniform(0, 3e8, n))
    if k % 3 == 0:
        toas = toas[rng.permutation(n)]
    if k % 5 == 0:
        toas = toas - 4.6e9  # small times
    nu = rng.uniform(300, 3000, n)
    pos = unit(rng)
    keep = toas.copy(), nu.copy()
    o = options(rng, toas, k)
    f = want_freqs(toas, o)
    check(ck, "red", gb.createfourierdesignmatrix_red(toas, **o), toas, f, 1.0)
    fr = [1400, 1000.0][rng.randint(2)]
    kw = dict(o) if fr == 1400 else dict(o, fref=fr)
    check(ck, "dm", gb.createfourierdesignmatrix_dm(toas, nu, **kw), toas, f, (fr / nu) ** 2)
    ix = rng.uniform(-1, 5)
    c = np.sqrt(12) * np.pi / 1400**2 / 2.41e-4
    check(ck, "dm_tn", gb.createfourierdesignmatrix_dm_tn(toas, nu, **kw), toas, f, (fr / nu) ** 2 * c)
    check(ck, "dm_tn idx", gb.createfourierdesignmatrix_dm_tn(toas, nu, idx=ix, **kw), toas, f, (fr / nu) ** ix * c)
    check(ck, "chromatic", gb.createfourierdesignmatrix_chromatic(toas, nu, **o), toas, f, (1400 / nu) ** 4)
    check(ck, "chromatic idx", gb.createfourierdesignmatrix_chromatic(toas, nu, idx=ix, **o), toas, f, (1400 / nu) ** ix)
    lA, lQ, t0 = rng.uniform(-8, -5), rng.uniform(2.5, 4), toas.mean() + rng.uniform(-1e8, 1e8)
    env = 10**lA * np.exp(-((toas - t0) ** 2) / (2 * (10**lQ * 86400) ** 2))
    if env.min() > 1e-250:
        check(ck, "env", gb.createfourierdesignmatrix_env(toas, log10_Amp=lA, log10_Q=lQ, t0=t0, **o), toas, f, env)
    t0d = 53000 * 86400
    envd = 1e-7 * np.exp(-((toas - t0d) ** 2) / (2 * (300 * 86400.0) ** 2))
    if envd.min() > 1e-250:
        check(ck, "env defaults", gb.createfourierdesignmatrix_env(toas, **o), toas, f, envd)
    # ephemeris
    oo = {x: v for x, v in o.items() if x in ("nmodes", "Tspan")}
    fe = want_freqs(toas, oo)
    for p in [pos, pos + 1e-3 * rng.randn(3)]:
        F, lf = gb.createfourierdesignmatrix_ephem(toas, p, **oo)
        base = four(toas, fe)
        want = np.zeros((n, 6 * len(fe)))
        for i in range(len(fe)):
            for sc in range(2):
                for a in range(3):
                    want[:, 6 * i + 3 * sc + a] = base[:, 2 * i + sc] * p[a]
        ck.close("ephem columns", F, want, 0.0, atol=TOL)
        ck.close("ephem labels", lf, np.repeat(fe, 6), 1e-12)
    # general
    grp = np.array(["a", "b", "cc"])[rng.randint(0, 3, n)]
    grp[:2] = "b"
    flags = {"group": grp, "fx": grp[::-1].copy()}
    check(ck, "general", gb.createfourierdesignmatrix_general(toas, nu, flags, **o), toas, f, 1.0)
    check(ck, "general idx", gb.createfourierdesignmatrix_general(toas, nu, flags, idx=ix, **o), toas, f, (1400 / nu) ** ix)
    check(ck, "general tndm", gb.createfourierdesignmatrix_general(toas, nu, flags, idx=ix, tndm=True, **o), toas, f, (1400 / nu) ** ix * c)
    for fname in ["group", "fx"]:
        m = flags[fname] == "b"
        for pt in [True, False]:
            kw = dict(o) if pt else dict(o, psrTspan=False)
            if fname != "group":
                kw["flagname"] = fname
            F, lf = gb.createfourierdesignmatrix_general(toas, nu, flags, flagval="b", idx=ix, **kw)
            o2 = dict(o) if pt else dict(o, Tspan=toas[m].max() - toas[m].min())
            f2 = want_freqs(toas, o2)
            ck.close("general selection labels", lf, np.repeat(f2, 2), 1e-12)
            s = (1400 / nu) ** ix
            ck.close("general selection", F / s[:, None], four(toas, f2) * m[:, None], 0.0, atol=TOL)
            ck.true("general selection: zero elsewhere", np.all(F[~m] == 0))
    ck.same("toas unchanged", toas, keep[0])
    ck.same("freqs unchanged", nu, keep[1])


@scenario("C13", quick=30)
def phases(ck, rng, k):
    n = int(rng.randint(5, 20))
    toas = 4.6e9 + np.sort(rng.uniform(0, 3e8, n))
    nu = rng.uniform(300, 3000, n)
    o = options(rng, toas, k)
    f = want_freqs(toas, o)
    flags = {"group": np.array(["a"] * n)}

    def phase_of(F, s):
        s = np.broadcast_to(s, (n,))[:, None]
        z = (F[:, 1::2] + 1j * F[:, ::2]) / s * np.exp(-2j * np.pi * toas[:, None] * f[None, :])
        ck.close("one phase per mode", z, np.broadcast_to(z[0], z.shape), 0.0, atol=3 * TOL)
        ck.close("unit modulus", np.abs(z), np.ones(z.shape), 1e-9)
        return np.angle(z.mean(0))

    cases = [("red", lambda **q: gb.createfourierdesignmatrix_red(toas, **o, **q), 1.0), ("dm", lambda **q: gb.createfourierdesignmatrix_dm(toas, nu, **o, **q), (1400 / nu) ** 2),
             ("dm_tn", lambda **q: gb.createfourierdesignmatrix_dm_tn(toas, nu, **o, **q), (1400 / nu) ** 2 * np.sqrt(12) * np.pi / 1400**2 / 2.41e-4),
             ("general", lambda **q: gb.createfourierdesignmatrix_general(toas, nu, flags, **o, **q), 1.0)]
    for lab, fn, s in cases:
        opts = [dict(pshift=True)] + ([dict(pseed=5), dict(pshift=True, pseed=12)] if lab in ("red", "general") else [])
        for q in opts:
            F, lf = fn(**q)
            ck.close(lab + ": labels", lf, np.repeat(f, 2), 1e-12)
            ph = phase_of(F, s)
            F2, _ = fn(**q)
            if "pseed" in q:
                ck.same(lab + ": seeded phases are reproducible", F, F2)
            else:
                ck.true(lab + ": random phases differ between calls", not np.allclose(F, F2))
            if len(f) > 3:
                ck.true(lab + ": different phase for each mode", len(np.unique(np.round(ph, 6))) > 1)
        ck.close(lab + ": no shift by default", phase_of(fn()[0], s), np.zeros(len(f)), 0.0, atol=3 * TOL)
        ck.close(lab + ": pshift=False", phase_of(fn(pshift=False)[0], s), np.zeros(len(f)), 0.0, atol=3 * TOL)
    # pseed=0 is a seed
    a, b = gb.createfourierdesignmatrix_red(toas, nmodes=4, pseed=0)[0], gb.createfourierdesignmatrix_red(toas, nmodes=4, pseed=0)[0]
    ck.same("pseed=0 reproducible", a, b)
    ck.true("pseed=0 shifts", not np.allclose(a, gb.createfourierdesignmatrix_red(toas, nmodes=4)[0]))


@scenario("C13", quick=16)
def in_signals(ck, rng, k):
    """Options given to the GP factories reach the basis."""
    psr = mkpsr(rng)
    o = options(rng, psr.toas, k)
    if "nmodes" not in o:
        o["nmodes"] = 5
    f = want_freqs(psr.toas, o)
    kw = {("components" if x == "nmodes" else x): v for x, v in o.items()}
    pl = gp_priors.powerlaw(log10_A=parameter.Constant(-14.0), gamma=parameter.Constant(3.0))
    g = gs.FourierBasisGP(pl, **kw)(psr)
    ck.close("FourierBasisGP", g.get_basis(), four(psr.toas, f), 0.0, atol=TOL)
    c = gs.FourierBasisCommonGP(pl, utils.hd_orf(), **kw)(psr)
    ck.close("FourierBasisCommonGP", c.get_basis(), four(psr.toas, f), 0.0, atol=TOL)
    if "Tspan" not in o:
        psr2 = mkpsr(rng, name="other")
        C = gs.FourierBasisCommonGP(pl, utils.hd_orf(), **kw)
        s1, s2 = C(psr), C(psr2)
        T = max(psr.toas.max(), psr2.toas.max()) - min(psr.toas.min(), psr2.toas.min())
        for s, p in [(s1, psr), (s2, psr2)]:
            ff = want_freqs(p.toas, dict(o, Tspan=T))
            ck.close("common span of all pulsars", s.get_basis(), four(p.toas, ff), 0.0, atol=TOL)
    e = gs.FourierBasisCommonGP_ephem(gp_priors.powerlaw(log10_A=parameter.Constant(-14.0), gamma=parameter.Constant(3.0), components=6), 3, 2e8)(psr)
    F = four(psr.toas, np.arange(1, 4) / 2e8)
    ck.close("ephemeris GP basis", np.asarray(e.get_basis()).reshape(len(psr.toas), 6, 3), F[:, :, None] * psr.pos, 0.0, atol=TOL)
