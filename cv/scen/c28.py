import numpy as np
from math import pi
from scipy.special import jv
from enterprise.signals import utils, deterministic_signals as ds, parameter, signal_base as sb, white_signals as ws
from ..rac import scenario
from ..fakes import mkpsr, unit, snapshot, check_unchanged

GMsun = 1.327124400e20
c = 299792458.0
TS = GMsun / c**3
Mpc = 3.0856775814671916e16 * 1e6


def frozen(*arrs):
    return [a.copy() if isinstance(a, np.ndarray) else a for a in arrs]


def vecs(th, ph):
    st, ct, sp, cp = np.sin(th), np.cos(th), np.sin(ph), np.cos(ph)
    return np.array([sp, -cp, 0]), np.array([-ct * cp, -ct * sp, st]), -np.array([st * cp, st * sp, ct])


def pattern(pos, th, ph):
    m, n, om = vecs(th, ph)
    return 0.5 * ((m @ pos) ** 2 - (n @ pos) ** 2) / (1 + om @ pos), (m @ pos) * (n @ pos) / (1 + om @ pos), -om @ pos


def rot(rng):
    q, r = np.linalg.qr(rng.randn(3, 3))
    q = q * np.sign(np.diag(r))
    return q * np.linalg.det(q)


@scenario("C28", quick=30, thorough=300)
def antenna(ck, rng, k):
    pos, th, ph = unit(rng), np.arccos(rng.uniform(-1, 1)), rng.uniform(0, 2 * pi)
    if k % 6 == 0:
        pos = np.eye(3)[k // 6 % 3]
    p0 = pos.copy()
    got = utils.create_gw_antenna_pattern(pos, th, ph)
    for g, w, l in zip(got, pattern(pos, th, ph), ("F+", "Fx", "cos mu")):
        ck.close(l, g, w, 1e-9, atol=1e-10)
    ck.close("F+^2 + Fx^2", got[0] ** 2 + got[1] ** 2, (0.5 * (1 + got[2])) ** 2, 1e-7, atol=1e-9)
    # a rotation about the z axis leaves everything as it is; any common rotation leaves the modulus
    a = rng.uniform(0, 2 * pi)
    R = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    g2 = utils.create_gw_antenna_pattern(R @ pos, th, ph + a)
    ck.close("rotation about z", g2, got, 1e-7, atol=1e-8)
    R = rot(rng)
    s = R @ -vecs(th, ph)[2]
    g3 = utils.create_gw_antenna_pattern(R @ pos, np.arccos(np.clip(s[2], -1, 1)), np.arctan2(s[1], s[0]))
    ck.close("rotation, modulus", np.hypot(g3[0], g3[1]), np.hypot(got[0], got[1]), 1e-5, atol=1e-6)
    ck.close("rotation, cos mu", g3[2], got[2], 1e-7, atol=1e-7)
    ck.same("position kept", pos, p0)


@scenario("C28", quick=12, thorough=120)
def burst(ck, rng, k):
    n = 30
    toas = np.sort(rng.uniform(4.6e9, 5e9, n))
    if k % 3 == 0:
        toas = toas[rng.permutation(n)]
    t0 = rng.uniform(4.6e9, 5e9) / 86400
    if k % 4 == 0:
        toas[3] = t0 * 86400
    pos = unit(rng)
    lh, cg, ph, pol = rng.uniform(-16, -11), rng.uniform(-1, 1), rng.uniform(0, 2 * pi), rng.uniform(0, pi)
    fr = frozen(toas, pos)
    fp, fc, _ = pattern(pos, np.arccos(cg), ph)
    amp = 10**lh * (np.cos(2 * pol) * fp + np.sin(2 * pol) * fc)
    want = np.array([amp * (t - t0 * 86400) if t > t0 * 86400 else 0.0 for t in toas])
    f = lambda: utils.bwm_delay(toas, pos, log10_h=lh, cos_gwtheta=cg, gwphi=ph, gwpol=pol, t0=t0)
    ck.close("bwm", f(), want, 1e-7)
    ck.close("bwm again", f(), want, 1e-7)
    calls = []

    def mine(p, th, phi):
        calls.append((p.copy(), th, phi))
        return 0.25, -0.5

    got = utils.bwm_delay(toas, pos, log10_h=lh, cos_gwtheta=cg, gwphi=ph, gwpol=pol, t0=t0, antenna_pattern_fn=mine)
    amp = 10**lh * (np.cos(2 * pol) * 0.25 - np.sin(2 * pol) * 0.5)
    ck.close("own patterns", got, [amp * max(t - t0 * 86400, 0) for t in toas], 1e-9)
    ck.true("pattern arguments", len(calls) == 1)
    ck.close("pattern args", np.concatenate([calls[0][0], calls[0][1:]]), np.concatenate([pos, [np.arccos(cg), ph]]), 1e-12)
    ck.same("toas kept", toas, fr[0])
    ck.same("position kept", pos, fr[1])
    # in a signal
    psr = mkpsr(rng, n=25)
    snap = snapshot(psr)
    wf = utils.bwm_delay(log10_h=parameter.Uniform(-18, -11)("bwm_h"), cos_gwtheta=parameter.Uniform(-1, 1)("bwm_ct"), gwphi=parameter.Constant(1.5),
                         gwpol=parameter.Constant(0.4), t0=parameter.Uniform(50000, 60000)("bwm_t0"))
    sig = ds.Deterministic(wf, name="bwm")(psr)
    t0 = np.median(psr.toas) / 86400
    pars = {"bwm_h": -13.0, "bwm_ct": 0.3, "bwm_t0": t0}
    fp, fc, _ = pattern(psr.pos, np.arccos(0.3), 1.5)
    want = 1e-13 * (np.cos(0.8) * fp + np.sin(0.8) * fc) * np.maximum(psr.toas - t0 * 86400, 0)
    for rep in range(2):
        ck.close("burst signal", sig.get_delay(params=pars), want, 1e-6)
    check_unchanged(ck, "pulsar", psr, snap)


@scenario("C28", quick=20, thorough=200)
def eccentric_rates(ck, rng, k):
    F, mc, e, q = 10 ** rng.uniform(-9.5, -7), 10 ** rng.uniform(7, 10), rng.uniform(0, 0.95), rng.uniform(0.05, 1)
    M_ = mc * TS
    w = 2 * pi * F
    fd = 48 / (5 * pi * M_**2) * (M_ * w) ** (11 / 3) * (1 + 73 / 24 * e**2 + 37 / 96 * e**4) / (1 - e**2) ** 3.5
    ed = -304 / 15 / M_ * (M_ * w) ** (8 / 3) * e * (1 + 121 / 304 * e**2) / (1 - e**2) ** 2.5
    mt = ((1 + q) ** 2 / q) ** 0.6 * M_
    x = (w * mt) ** (2 / 3) / (1 - e**2)
    gd = 3 * w * x * (1 + 0.25 * x * (26 - 15 * e**2))
    t = 1e-6
    ck.close("Fdot", utils.get_Fdot(F, mc, e), fd, t)
    ck.close("edot", utils.get_edot(F, mc, e), ed, t)
    ck.close("gammadot", utils.get_gammadot(F, mc, q, e), gd, t)
    y = np.array([F, e, 0.3, 0.7])
    y0 = y.copy()
    ck.close("coupled", utils.get_coupled_ecc_eqns(y, 1e3, mc, q), [fd, ed, gd, w], t, elem=True)
    y2 = np.array([F, 0.7])
    ck.close("coupled, constant e", utils.get_coupled_constecc_eqns(y2, 1e3, mc, e), [fd, w], t, elem=True)
    ck.same("state kept", y, y0)
    # arrays
    Fs, es = 10 ** rng.uniform(-9, -8, 4), rng.uniform(0, 0.9, 4)
    fr = frozen(Fs, es)
    ck.close("Fdot arrays", utils.get_Fdot(Fs, mc, es), [utils.get_Fdot(a, mc, b) for a, b in zip(Fs, es)], 1e-10, elem=True)
    ck.close("edot arrays", utils.get_edot(Fs, mc, es), [utils.get_edot(a, mc, b) for a, b in zip(Fs, es)], 1e-10, elem=True)
    ck.close("gammadot arrays", utils.get_gammadot(Fs, mc, q, es), [utils.get_gammadot(a, mc, q, b) for a, b in zip(Fs, es)], 1e-10, elem=True)
    ck.same("F kept", Fs, fr[0])
    ck.same("e kept", es, fr[1])


@scenario("C28", quick=4, thorough=20)
def eccentric_evolution(ck, rng, k):
    """The solutions obey the rates: slope over a short step, and initial values."""
    F, mc, e, q = 1e-8, 10 ** rng.uniform(8.5, 9.2), rng.uniform(0.05, 0.6), 0.5
    t = np.linspace(0, 3e8, 40)
    t0 = t.copy()
    y = utils.solve_coupled_ecc_solution(F, e, 0.2, 0.4, mc, q, t)
    ck.close("start", y[0], [F, e, 0.2, 0.4], 1e-12, elem=True)
    mid = 0.5 * (y[1:] + y[:-1])
    rate = np.array([utils.get_coupled_ecc_eqns(m, 0.0, mc, q) for m in mid])
    d = np.diff(y, axis=0) / np.diff(t)[:, None]
    for j, l in enumerate(("F", "e", "gamma", "phase")):
        if j >= 2:
            ck.close("rate of " + l, d[:, j], rate[:, j], 1e-3)
    ck.close("total change of e", y[-1, 1] - y[0, 1], np.sum(rate[:, 1] * np.diff(t)), 2e-2, atol=1e-7)
    y = utils.solve_coupled_constecc_solution(F, e, 0.4, mc, t)
    ck.close("start, constant e", y[0], [F, 0.4], 1e-12, elem=True)
    ck.close("phase rate, constant e", np.diff(y[:, 1]) / np.diff(t), pi * (y[1:, 0] + y[:-1, 0]), 1e-3)
    ck.same("times kept", t, t0)


@scenario("C28", quick=20, thorough=200)
def harmonics(ck, rng, k):
    F, mc, e, dl, inc = 10 ** rng.uniform(-9, -7.5), 10 ** rng.uniform(7, 10), rng.uniform(0, 0.8), 10 ** rng.uniform(0, 3), rng.uniform(0, pi)
    h0 = None if k % 2 else 10 ** rng.uniform(-16, -12)
    w = 2 * pi * F
    h = h0 if h0 is not None else 2 * (mc * TS) ** (5 / 3) * w ** (2 / 3) / (dl * Mpc / c)
    nmax = 2 + k % 12
    n = np.arange(1, nmax)
    a, b, cn = [], [], []
    for m in n:
        x = m * e
        A = m * h / 2
        a.append(-A * (jv(m - 2, x) - 2 * e * jv(m - 1, x) + 2 / m * jv(m, x) + 2 * e * jv(m + 1, x) - jv(m + 2, x)))
        b.append(-A * np.sqrt(1 - e**2) * (jv(m - 2, x) - 2 * jv(m, x) + jv(m + 2, x)))
        cn.append(h * jv(m, x) / (m * w))
    n0 = n.copy()
    for f, want, l in ((utils.get_an, a, "a_n"), (utils.get_bn, b, "b_n"), (utils.get_cn, cn, "c_n")):
        ck.close(l, f(n, mc, dl, h0, F, e), want, 1e-5)
        ck.close(l + " scalar", f(int(n[-1]), mc, dl, h0, F, e), want[-1], 1e-5, atol=1e-9 * np.max(np.abs(want)))
    ck.same("n kept", n, n0)
    t = rng.uniform(0, 5e8, 9)
    t_ = t.copy()
    l0, g0, gd = rng.uniform(0, 2 * pi), rng.uniform(0, 2 * pi), rng.uniform(0, 0.1) * w
    sp, sc = np.zeros(len(t)), np.zeros(len(t))
    ci = np.cos(inc)
    for i, ti in enumerate(t):
        l, g = l0 + w * ti, g0 + gd * ti
        for m, an, bn, c_ in zip(n, a, b, cn):
            um, up = m * w - 2 * gd, m * w + 2 * gd
            sm, sp_ = np.sin(m * l - 2 * g) / um, np.sin(m * l + 2 * g) / up
            cm, cp_ = np.cos(m * l - 2 * g) / um, np.cos(m * l + 2 * g) / up
            sp[i] += -0.5 * (1 + ci**2) * (an * (sm + sp_) - bn * (sm - sp_)) + (1 - ci**2) * c_ * np.sin(m * l)
            sc[i] += ci * (an * (cm - cp_) - bn * (cm + cp_))
    for rep in range(2):
        g1, g2 = utils.calculate_splus_scross(nmax, mc, dl, h0, F, e, t, l0, g0, gd, inc)
        ck.close("plus", g1, sp, 1e-5)
        ck.close("cross", g2, sc, 1e-5)
    ck.same("times kept", t, t_)
