"""C17: row alignment. Reference: the table of observations the timing package handed over."""
import numpy as np
from ..rac import scenario
from ..timing_fakes import obs_data, install, pint_objects
from enterprise.signals import utils

_m = {}



def make(rng, k, **kw):
    if "m" not in _m:
        _m["m"] = install()
    mod, mods = _m["m"]
    d = obs_data(rng, order=["random", "reverse", "sorted"][k % 3], dmx=int(rng.randint(1, 4)), **kw)
    sort = k % 4 != 3
    if k % 2 == 0:
        p = mod.Pulsar(mods.tempopulsar(data=d), sort=sort)
    else:
        p = mod.Pulsar(*pint_objects(mods, d), sort=sort)
        d.flags = {f: v for f, v in d.flags.items() if np.any(v != "")}  # PINT knows no flag that no TOA has
    return p, d, sort, mod, mods


def table(d, pint, keep=None, order=None):
    """Every per-TOA attribute for the rows `order` of the observation table."""
    r = order
    pl = d.planets[r].copy()
    su = d.sun[r].copy()
    if pint:
        keepers = [2, 4, 5, 6, 7]
        mask = np.ones(pl.shape, bool)
        mask[:, keepers, :3] = False
        pl[mask] = np.nan
        su[:, 3:] = 0
    return dict(
        toas=d.mjd[r] * 86400, stoas=d.smjd[r] * 86400, residuals=d.resid[r], toaerrs=d.err_us[r] * 1e-6, freqs=d.freq[r],
        Mmat=d.M[r], pos_t=d.pos_t[r], planetssb=pl, sunssb=su,
    )


def check(ck, lab, p, d, pint, order, cols=None):
    t = table(d, pint, order=order)
    if cols is not None:
        t["Mmat"] = t["Mmat"][:, cols]
    for a, w in t.items():
        ck.close("%s.%s" % (lab, a), getattr(p, a), w, 1e-13, elem=False)
    ck.same(lab + ".telescope", np.asarray(p.telescope, "U"), d.tel[order].astype("U"))
    fl = p.flags
    ck.true(lab + ".flag names", set(fl) == set(d.flags))
    for f in d.flags:
        ck.same("%s.flags[%s]" % (lab, f), np.asarray(fl[f], "U"), d.flags[f][order].astype("U"))
    from ..timing_fakes import backend_rule
    ck.true(lab + ".backend_flags", [str(x) for x in p.backend_flags] == [backend_rule(d.flags, d.n)[i] for i in order])


@scenario("C17", quick=24, thorough=240)
def alignment(ck, rng, k):
    p, d, sort, _, _ = make(rng, k)
    pint = k % 2 == 1
    order = np.argsort(d.mjd, kind="stable") if sort else np.arange(d.n)
    check(ck, "loaded", p, d, pint, order)
    ck.true("fitpars", list(p.fitpars) == ["Offset"] + d.fit)
    if sort:
        ck.true("time ordered", np.all(np.diff(p.toas) >= 0))
        ck.same("isort/iisort inverse", np.asarray(p.isort)[p.iisort], np.arange(d.n))
    ck.close("theta", p.theta, np.pi / 2 - d.decj, 1e-14)
    ck.close("phi", p.phi, d.raj, 1e-14)
    ck.close("pos", p.pos, [np.cos(d.raj) * np.cos(d.decj), np.sin(d.raj) * np.cos(d.decj), np.sin(d.decj)], 1e-13)
    check(ck, "read twice", p, d, pint, order)


@scenario("C17", quick=32, thorough=320)
def time_filter(ck, rng, k):
    p, d, sort, _, _ = make(rng, k, n=int(rng.randint(8, 30)))
    pint = k % 2 == 1
    s = np.sort(d.mjd)
    kind = (k // 2) % 5
    a, b = s[rng.randint(0, d.n // 2)], s[rng.randint(d.n // 2, d.n)]  # exactly on TOAs: the interval is closed
    if kind == 0:
        a, b = a - 0.01, b + 0.01
    elif kind == 1:
        a, b = None, b
    elif kind == 2:
        a, b = a, None
    elif kind == 4:
        b = b + 0.3
    keep = np.ones(d.n, bool)
    sec = d.mjd * 86400
    if a is not None:
        keep &= sec >= a * 86400
    if b is not None:
        keep &= sec <= b * 86400
    p.filter_data(start_time=a, end_time=b)
    rows = np.flatnonzero(keep)
    order = rows[np.argsort(d.mjd[rows], kind="stable")] if sort else rows
    cols = np.any(d.M[rows] != 0, axis=0)
    check(ck, "filtered", p, d, pint, order, cols)
    ck.true("fitpars follow the columns", list(p.fitpars) == [x for x, c in zip(["Offset"] + d.fit, cols) if c])
    # a second, narrower filter acts on what is left
    if len(rows) > 4:
        c = np.sort(d.mjd[rows])[2]
        p.filter_data(start_time=c)
        rows = rows[sec[rows] >= c * 86400]
        order = rows[np.argsort(d.mjd[rows], kind="stable")] if sort else rows
        cols = np.any(d.M[rows] != 0, axis=0)
        check(ck, "filtered twice", p, d, pint, order, cols)
        ck.true("fitpars follow the columns", list(p.fitpars) == [x for x, c in zip(["Offset"] + d.fit, cols) if c])
    p.filter_data()
    check(ck, "filter without limits", p, d, pint, order, cols)


@scenario("C17", quick=8, thorough=80)
def ecliptic_positions(ck, rng, k):
    """libstempo vectors of a pulsar fitted in ecliptic coordinates are rotated row by row."""
    if "m" not in _m:
        _m["m"] = install()
    mod, mods = _m["m"]
    from ..timing_fakes import Par
    d = obs_data(rng, order=["random", "reverse"][k % 2])
    t = mods.tempopulsar(data=d)
    t._pars["ELONG"], t._pars["ELAT"] = Par(d.raj), Par(d.decj)
    p = mod.Pulsar(t)
    order = np.argsort(d.mjd, kind="stable")
    eps = np.arctan2(utils.ecl2eq_vec(np.array([[0, 1.0, 0]]))[0, 2], utils.ecl2eq_vec(np.array([[0, 1.0, 0]]))[0, 1])
    R = np.array([[1, 0, 0], [0, np.cos(eps), -np.sin(eps)], [0, np.sin(eps), np.cos(eps)]])
    ck.close("obliquity", np.rad2deg(eps), 23.439, atol=5e-3)
    ck.close("pos_t", p.pos_t, d.pos_t[order] @ R.T, 1e-12)
    ck.close("planets", p.planetssb[:, :, :3], np.einsum("ij,npj->npi", R, d.planets[order][:, :, :3]), 1e-12)
    ck.close("planet velocities", p.planetssb[:, :, 3:], np.einsum("ij,npj->npi", R, d.planets[order][:, :, 3:]), 1e-12)
    ck.close("sun", p.sunssb, np.concatenate([d.sun[order][:, :3] @ R.T, d.sun[order][:, 3:] @ R.T], axis=1), 1e-12)
