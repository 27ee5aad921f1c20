"""C20: ephemeris perturbations. Oracle: rotation matrices and projections written out here, in ecliptic axes."""
import numpy as np
from ..rac import scenario
from ..fakes import mkpsr, snapshot, check_unchanged
from enterprise.signals import utils, deterministic_signals as ds, parameter, gp_signals as gs, signal_base as sb
import enterprise.constants as const

EPS = 23.43704 * np.pi / 180
R = np.array([[1, 0, 0], [0, np.cos(EPS), -np.sin(EPS)], [0, np.sin(EPS), np.cos(EPS)]])  # ecliptic -> equatorial
MJUP, MSAT = 0.0009547918983127075, 0.00028588567008942334
MASS = {"d_jupiter_mass": 4, "d_saturn_mass": 5, "d_uranus_mass": 6, "d_neptune_mass": 7}
SIG = dict(frame_drift_rate=1e-9, d_jupiter_mass=1.54976690e-11, d_saturn_mass=8.17306184e-12, d_uranus_mass=5.71923361e-11,
           d_neptune_mass=7.96103855e-11, jup_orb_elements=0.05, sat_orb_elements=0.5)


def rz(a):
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.0]])


def frame(mjd, v, rate, equatorial=True):
    B = R if equatorial else np.eye(3)
    return np.array([B @ rz(rate * (m - 55197.0) / 365.25) @ B.T @ x for m, x in zip(mjd, v)])


def delay(toas, pl, pos_t, par, orb=None, equatorial=True):
    mjd = toas / 86400
    e = pl[:, 2, :3]
    new = frame(mjd, e, par.get("frame_drift_rate", 0.0), equatorial)
    for k, i in MASS.items():
        new = new + par.get(k, 0.0) * pl[:, i, :3]
    for k, mass, j in (("jup_orb_elements", MJUP, 1), ("sat_orb_elements", MSAT, 2)):
        c = par.get(k)
        if c is not None:
            for a in range(6):
                for x in range(3):
                    new[:, x] = new[:, x] + mass * c[a] * np.interp(mjd, orb[0], orb[j][a][:, x])
    return -np.einsum("ij,ij->i", new - e, pos_t)


def mk(rng, n=25):
    p = mkpsr(rng, n=n, nback=1)
    p.toas = np.sort(rng.uniform(52000, 58000, n)) * 86400
    return p


def rnd(rng, big=1.0):
    return dict(frame_drift_rate=rng.uniform(-1, 1) * 1e-2 * big, d_jupiter_mass=rng.randn() * 1e-3 * big, d_saturn_mass=rng.randn() * 1e-3 * big,
                d_uranus_mass=rng.randn() * 1e-3 * big, d_neptune_mass=rng.randn() * 1e-3 * big,
                jup_orb_elements=rng.randn(6) * big, sat_orb_elements=rng.randn(6) * big)


@scenario("C20", quick=30, thorough=300)
def rotations(ck, rng, k):
    n = int(rng.randint(1, 12))
    x = rng.randn(n, 3) * 10 ** rng.uniform(-3, 3)
    x0 = x.copy()
    q = utils.ecl2eq_vec(x)
    ck.close("ecl2eq", q, x @ R.T, 1e-12)
    ck.close("eq2ecl", utils.eq2ecl_vec(x), x @ R, 1e-12)
    ck.close("inverse", utils.eq2ecl_vec(q), x, 1e-12)
    ck.close("inverse", utils.ecl2eq_vec(utils.eq2ecl_vec(x)), x, 1e-12)
    ck.close("length", np.linalg.norm(q, axis=1), np.linalg.norm(x, axis=1), 1e-12)
    ck.same("argument kept", x, x0)
    a, b, c = rng.uniform(-7, 7, (3, n)) if k % 2 else rng.uniform(-7, 7, 3)
    E = utils.euler_vec(a, b, c, n)
    ck.true("shape", E.shape == (n, 3, 3))
    for i in range(n):
        ai, bi, ci = (z[i] if np.ndim(z) else z for z in (a, b, c))
        rx = np.array([[1, 0, 0], [0, np.cos(ci), -np.sin(ci)], [0, np.sin(ci), np.cos(ci)]])
        ry = np.array([[np.cos(bi), 0, np.sin(bi)], [0, 1, 0], [-np.sin(bi), 0, np.cos(bi)]])
        ck.close("Euler rotation", E[i], rx @ ry @ rz(ai), 1e-11, atol=1e-12)
        ck.close("orthogonal", E[i] @ E[i].T, np.eye(3), 1e-11, atol=1e-12)
        ck.close("proper", np.linalg.det(E[i]), 1.0, 1e-11)
    mjd = rng.uniform(50000, 60000, n)
    if k % 3 == 0:
        mjd[0] = 55197.0
    rate = rng.uniform(-1, 1) * 10 ** rng.uniform(-4, 0)
    for eq in (False, True):
        got = utils.ss_framerotate(mjd, x, 0.0, 0.0, 0.0, rate, offset=None, equatorial=eq)
        ck.close("frame drift (equatorial=%s)" % eq, got, frame(mjd, x, rate, eq), 1e-10)
        ck.close("length", np.linalg.norm(got, axis=1), np.linalg.norm(x, axis=1), 1e-11)
        pole = R[:, 2] if eq else np.array([0, 0, 1.0])
        ck.close("about the pole", got @ pole, x @ pole, 1e-10, atol=1e-12 * np.abs(x).max())
        off = rng.randn(3)
        B = R if eq else np.eye(3)
        ck.close("offset", utils.ss_framerotate(mjd, x, 0.0, 0.0, 0.0, rate, offset=off, equatorial=eq), got + B @ off, 1e-10)
        full = utils.ss_framerotate(mjd, x, 0.3, -0.2, 0.1, rate, equatorial=eq)
        w = []
        for m, v in zip(mjd, x):
            rx = np.array([[1, 0, 0], [0, np.cos(0.3), -np.sin(0.3)], [0, np.sin(0.3), np.cos(0.3)]])
            ry = np.array([[np.cos(-0.2), 0, np.sin(-0.2)], [0, 1, 0], [-np.sin(-0.2), 0, np.cos(-0.2)]])
            w.append(B @ rx @ ry @ rz(0.1 + rate * (m - 55197.0) / 365.25) @ B.T @ v)
        ck.close("all three angles", full, np.array(w), 1e-10)
    ck.same("argument kept", x, x0)
    ck.close("mass perturbation", utils.dmass(x, 0.3), 0.3 * x, 1e-14)


@scenario("C20", quick=30, thorough=300)
def delays(ck, rng, k):
    p = mk(rng)
    model = ["setIII", "orbel-v2", "orbel"][k % 3]
    orb = utils.get_planet_orbital_elements(model)
    ok = dict(times=orb[0], jup_orbit=orb[1], sat_orbit=orb[2])
    snap = snapshot(p)
    par = rnd(rng)
    names = list(par)
    if k % 4:  # one perturbation at a time
        par = {names[k % 7]: par[names[k % 7]]}
    d = lambda q, **kw: utils.physical_ephem_delay(p.toas, p.planetssb, p.pos_t, **q, **ok, **kw)
    first = d(par)
    keep = first.copy()
    sc = dict(rtol=1e-9, atol=1e-10)
    ck.close("delay", first, delay(p.toas, p.planetssb, p.pos_t, par, orb), **sc)
    ck.close("delay (ecliptic data)", d(par, equatorial=False), delay(p.toas, p.planetssb, p.pos_t, par, orb, False), **sc)
    ck.close("zero perturbation", d({}), np.zeros(len(p.toas)), atol=1e-10)
    ck.close("zero perturbation", d({a: 0 * np.asarray(b) for a, b in par.items()}), np.zeros(len(p.toas)), atol=1e-10)
    lin = {a: b for a, b in rnd(rng).items() if a != "frame_drift_rate"}
    lin2 = {a: b for a, b in rnd(rng).items() if a != "frame_drift_rate"}
    al, be = rng.randn(2)
    ck.close("linear", d({a: al * lin[a] + be * lin2[a] for a in lin}), al * d(lin) + be * d(lin2), 1e-9, atol=1e-9)
    one = np.zeros(6)
    one[k % 6] = rng.randn()
    one0 = one.copy()
    for a in ("jup_orb_elements", "sat_orb_elements"):
        ck.close("single element of " + a, d({a: one}), delay(p.toas, p.planetssb, p.pos_t, {a: one}, orb), **sc)
    ck.same("elements kept", one, one0)
    ck.same("earlier delay kept", first, keep)
    ck.close("again", d(par), keep, rtol=1e-13)
    check_unchanged(ck, "delays", p, snap)
    o2 = utils.get_planet_orbital_elements(model)
    for a, b in zip(orb, o2):
        ck.same("orbit tables kept", a, b)


@scenario("C20", quick=16, thorough=160)
def basis(ck, rng, k):
    p = mk(rng)
    snap = snapshot(p)
    model = ["setIII", "orbel-v2"][k % 2]
    orb = utils.get_planet_orbital_elements(model)
    sig = {a: s * rng.uniform(0.5, 2) for a, s in SIG.items()}
    for i, a in enumerate(SIG):
        if k and rng.uniform() < 0.35:
            sig[a] = None
    if k == 0:
        sig = {}
    full = dict(SIG, **sig)
    if all(v is None for v in full.values()):
        full["d_saturn_mass"] = sig["d_saturn_mass"] = 1e-11
    F, s = utils.createfourierdesignmatrix_physicalephem(p.toas, p.planetssb, p.pos_t, model=model, **sig) if k else utils.createfourierdesignmatrix_physicalephem(p.toas, p.planetssb, p.pos_t)
    if not k:
        orb = utils.get_planet_orbital_elements("setIII")
    cols, widths = [], []
    for a, v in full.items():
        if v is None:
            continue
        if a.endswith("elements"):
            for i in range(6):
                c = np.zeros(6)
                c[i] = 1.0
                cols.append(delay(p.toas, p.planetssb, p.pos_t, {a: c}, orb))
                widths.append(v)
        elif a == "frame_drift_rate":  # exact derivative of the rotation at zero rate
            om = R[:, 2]
            cols.append(-np.einsum("ij,ij->i", np.cross(om, p.planetssb[:, 2, :3]), p.pos_t) * (p.toas / 86400 - 55197.0) / 365.25)
            widths.append(v)
        else:
            cols.append(-np.einsum("ij,ij->i", p.planetssb[:, MASS[a], :3], p.pos_t))
            widths.append(v)
    ck.true("one column per enabled perturbation", F.shape == (len(p.toas), len(cols)))
    for i, c in enumerate(cols):
        ck.close("column %d" % i, F[:, i], c, rtol=2e-3, atol=1e-7)
    ck.close("prior widths", s, np.array(widths), 1e-14)
    s0 = np.array(s)
    ck.close("prior variances", utils.physicalephem_spectrum(s), np.array(widths) ** 2, 1e-14)
    ck.same("widths kept", np.array(s), s0)
    check_unchanged(ck, "basis", p, snap)
    g = gs.FourierBasisCommonGP_physicalephem(model=model, **sig)(p)
    ck.close("as a common GP: basis", g.get_basis({}), F, 1e-12)
    ck.close("as a common GP: prior", np.asarray(g.get_phi({})), np.array(widths) ** 2 * (1 + 1e-5), 1e-12)
    check_unchanged(ck, "common GP", p, snap)


@scenario("C20", quick=16, thorough=160)
def signal(ck, rng, k):
    p = mkpsr(rng, n=30, nback=2)
    p.toas = p.toas - 4.6e9 + 54500 * 86400
    # planet positions that are smooth in time, so that interpolating within an epoch is exact to rounding
    t = p.toas / 86400
    p.planetssb = np.zeros((30, 9, 6))
    A, B = rng.randn(9, 6) * 500, rng.randn(9, 6)
    p.planetssb[:] = A + B * ((t - t[0]) / 1000)[:, None, None]
    v = rng.randn(3)
    p.pos_t = (v / np.linalg.norm(v))[None, :] + 1e-4 * ((t - t[0]) / 1000)[:, None] * rng.randn(3)
    snap = snapshot(p)
    model = ["setIII", "orbel-v2"][k % 2]
    epoch = bool((k // 2) % 2)
    orb = utils.get_planet_orbital_elements(model)
    on = {a: bool(rng.randint(2)) for a in SIG}
    on["d_jupiter_mass"] = True
    kw = {a: (True if o else (0.0 if not a.endswith("elements") else np.zeros(6))) for a, o in on.items()}
    s = ds.PhysicalEphemerisSignal(model=model, use_epoch_toas=epoch, **kw)(p)
    ck.true("parameters", sorted(q.name for q in s.params) == sorted(a for a in on if on[a]), repr(s.params))
    rec = []
    for rep in range(3):
        par = {a: b for a, b in rnd(rng).items() if on[a]}
        d = s.get_delay(params=par)
        rec.append((par, d, d.copy()))
        if epoch:
            U = [np.flatnonzero(np.abs(p.toas - t0) < 0.9) for t0 in p.toas]
            w = delay(np.array([p.toas[u].mean() for u in U]), np.array([p.planetssb[u].mean(axis=0) for u in U]),
                      np.array([p.pos_t[u].mean(axis=0) for u in U]), par, orb)
            ck.close("epoch-averaged delay", d, w, rtol=1e-6, atol=1e-7)
        else:
            ck.close("delay", d, delay(p.toas, p.planetssb, p.pos_t, par, orb), rtol=1e-9, atol=1e-10)
    for par, d, kp in rec:
        ck.same("earlier delay kept", d, kp)
    for par, d, kp in rec:
        ck.close("again", s.get_delay(params=par), kp, rtol=1e-12)
    check_unchanged(ck, "signal", p, snap)
