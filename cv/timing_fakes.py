"""Stand-ins for the two timing packages (neither is installed here): duck-typed libstempo pulsars and PINT
model/TOAs objects, so that the real Tempo2Pulsar / PintPulsar / Pulsar() code runs.

install() puts fake `libstempo` / `pint` packages in sys.modules and loads a private copy of enterprise.pulsar."""
import importlib.util, os, sys, types
import numpy as np
from . import env

PLANETS = ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"]


class Par:
    def __init__(self, val=0.0, err=0.0):
        self.val, self.err = val, err


def obs_data(rng, n=None, order="random", dmx=2, flags="mixed", name=None):
    """One table of observations in file order, plus the pulsar's model: the reference for every check."""
    n = n or int(rng.randint(6, 30))
    d = types.SimpleNamespace(n=n)
    d.name = name or ["J1713+0747", "B1855+09", "J0030+0451", "XX1234"][rng.randint(4)]
    mjd = 53000 + np.sort(rng.uniform(0, 3000, n))
    if n > 5:
        mjd[3] = mjd[4]  # simultaneous TOAs
    if order == "random":
        mjd = mjd[rng.permutation(n)]
    elif order == "reverse":
        mjd = mjd[::-1].copy()
    d.mjd = mjd
    d.smjd = mjd + rng.uniform(-0.005, 0.005, n)
    d.resid = rng.randn(n) * 1e-6
    d.err_us = rng.uniform(0.1, 5, n)
    d.freq = rng.uniform(300, 3000, n)
    d.tel = np.array(["arecibo", "gbt", "vla", "effelsberg"])[rng.randint(0, 4, n)]
    d.fit = ["F0", "F1"] + ["DMX_%04d" % (i + 1) for i in range(dmx)] + ["PX"]
    lo, hi = mjd.min(), mjd.max()
    edges = np.linspace(lo, hi + 1e-3, dmx + 1)
    cols = [np.ones(n), (mjd - lo), (mjd - lo) ** 2]
    d.dmxr = {}
    for i in range(dmx):
        inb = (mjd >= edges[i]) & (mjd < edges[i + 1])
        cols.append(np.where(inb, 1e3 / d.freq**2, 0.0))
        d.dmxr["DMX_%04d" % (i + 1)] = (rng.randn() * 1e-3, rng.uniform(1e-5, 1e-3), edges[i], edges[i + 1])
    cols.append(np.cos(mjd))
    d.M = np.array(cols).T
    d.pos_t = rng.randn(n, 3)
    d.pos_t /= np.linalg.norm(d.pos_t, axis=1)[:, None]
    d.planets = rng.randn(n, 9, 6) * 500
    d.sun = rng.randn(n, 6) * 500
    d.raj, d.decj = rng.uniform(0, 6.28), rng.uniform(-1.5, 1.5)
    d.dm = rng.uniform(1, 100)
    d.flags = make_flags(rng, n, flags)
    return d


def make_flags(rng, n, kind):
    """dict name -> string array in file order; '' where the TOA lacks the flag."""
    def part(vals, p):
        v = np.array(vals)[rng.randint(0, len(vals), n)].astype("U40")
        v[rng.uniform(size=n) > p] = ""
        return np.array([str(x) for x in v])

    out = {}
    if kind == "none":
        return out
    if kind == "plain":
        return {"f": part(["L-wide_PUPPI", "430_ASP"], 1.1), "pta": part(["NANOGrav"], 1.1)}
    names = ["fe", "be", "f", "i", "sys", "g", "group", "pta", "zz"]
    rng.shuffle(names)
    for nme in names:
        if rng.uniform() < 0.7:
            vals = {
                "fe": ["Rcvr_800", "L-wide", "430"], "be": ["GUPPI", "ASP", "X"], "f": ["L-wide_PUPPI", "S"],
                "i": ["i1", "interference-long-name"], "sys": ["PKS.MULTI", "s"], "g": ["g_1", "gggggggggg"],
                "group": ["EFF.P217.1360", "JB"], "pta": ["NANOGrav", "PPTA"], "zz": ["1", "22"],
            }[nme]
            out[nme] = part(vals, [0.0, 0.3, 0.7, 1.1][rng.randint(4)])
    if not out:
        out["pta"] = part(["EPTA"], 1.1)
    return out


def backend_rule(flags, n):
    """The documented precedence, TOA by TOA."""
    out = []
    for i in range(n):
        lab = ""
        for f in ["group", "g", "sys", "i", "f"]:
            if f in flags and flags[f][i] != "":
                lab = flags[f][i]
                break
        else:
            if "fe" in flags and "be" in flags and flags["fe"][i] != "" and flags["be"][i] != "":
                lab = flags["fe"][i] + "_" + flags["be"][i]
        out.append(str(lab))
    return out


class FakeT2:
    """libstempo.tempopulsar look-alike."""

    def __init__(self, *args, **kwargs):
        d = kwargs.pop("data", None)
        self.args, self.kwargs, self.cwd = args, kwargs, os.getcwd()
        type(self).last = self
        if d is None:
            hook = type(self).hook
            d = hook(self) if hook else obs_data(np.random.RandomState(0))
        self._d = d
        self._pars = {"RAJ": Par(d.raj), "DECJ": Par(d.decj), "DM": Par(d.dm, 0.1)}
        for k, (v, e, a, b) in d.dmxr.items():
            self._pars[k] = Par(v, e)
            self._pars[k.replace("DMX_", "DMXR1_")] = Par(a)
            self._pars[k.replace("DMX_", "DMXR2_")] = Par(b)
        for p in d.fit:
            self._pars.setdefault(p, Par(1.0, 0.1))
        for i in range(1, 10):
            self._pars["DMASSPLANET%d" % i] = Par(0.0)
        self.name = d.name
        self.stoas = d.smjd.astype(np.longdouble)
        self.toaerrs = d.err_us.copy()
        self.psrPos = d.pos_t.copy()
        for i, p in enumerate(PLANETS):
            setattr(self, p + "_ssb", d.planets[:, i, :].copy())
        self.sun_ssb = d.sun.copy()

    hook = None
    last = None

    def __getitem__(self, k):
        return self._pars[k]

    def toas(self):
        return self._d.mjd.astype(np.longdouble)

    def residuals(self):
        return self._d.resid.astype(np.longdouble)

    def designmatrix(self):
        return self._d.M.astype(np.longdouble)

    def ssbfreqs(self):
        return self._d.freq * 1e6

    def telescope(self):
        return np.char.encode(self._d.tel, "ascii")

    def pars(self, which="fit"):
        if which == "fit":
            return tuple(self._d.fit)
        return tuple(k for k in self._pars if not k.startswith("DMASSPLANET"))

    def flags(self):
        return list(self._d.flags)

    def flagvals(self, k):
        return self._d.flags[k].copy()

    def formbats(self):
        pass


def pint_objects(mods, d):
    """PINT (toas, model) for the observations d."""
    import astropy.units as u
    import astropy.constants as const

    class Q:
        def __init__(self, v, frozen=True, unit=None):
            self.value, self.frozen, self.uncertainty_value = v, frozen, 0.01
            self.quantity = v * unit if unit is not None else v

    class Model(mods.TimingModel):
        def __getitem__(self, k):
            return getattr(self, k)

        def get_barycentric_toas(self, toas):
            return d.mjd * u.d

        def designmatrix(self, toas):
            return d.M.copy(), ["Offset"] + list(d.fit), ["s"] * d.M.shape[1]

        def barycentric_radio_freq(self, toas):
            return d.freq.copy()

        def as_parfile(self):
            return "PSR " + d.name

    m = Model()
    m.PSR = Q(d.name)
    m.params = ["PSR", "DM", "RAJ", "DECJ"] + list(d.fit)
    m.DM = Q(d.dm)
    m.RAJ, m.DECJ = Q(d.raj, unit=u.rad), Q(d.decj, unit=u.rad)
    for p in d.fit:
        setattr(m, p, Q(1.0, frozen=False))
    for k, (v, e, a, b) in d.dmxr.items():
        setattr(m, k, Q(v, frozen=False))
        getattr(m, k).uncertainty_value = e
        m.params += [k.replace("DMX_", "DMXR1_"), k.replace("DMX_", "DMXR2_")]
        setattr(m, k.replace("DMX_", "DMXR1_"), Q(a))
        setattr(m, k.replace("DMX_", "DMXR2_"), Q(b))

    class Astro:
        def ssb_to_psb_xyz_ICRS(self, t):
            class R:
                value = d.pos_t.copy()

            return R

    m.components = {"AstrometryEquatorial": Astro()}

    class TOAs(mods.TOAs):
        def get_mjds(self):
            return d.smjd * u.d

        def get_errors(self):
            return d.err_us * u.us

        def get_obss(self):
            return list(d.tel)

        def get_flags(self):
            return [{k: v[i] for k, v in d.flags.items() if v[i] != ""} for i in range(d.n)]

        def write_TOA_file(self, f):
            f.write("FORMAT 1\n")

    t = TOAs()
    t.ntoas = d.n
    c = const.c.to("km/s").value
    tab = {"ssb_obs_pos": np.zeros((d.n, 3)) * u.km}
    for nme, i in (("earth", 2), ("jupiter", 4), ("saturn", 5), ("uranus", 6), ("neptune", 7)):
        tab["obs_%s_pos" % nme] = d.planets[:, i, :3] * c * u.km
    tab["obs_sun_pos"] = d.sun[:, :3] * c * u.km
    t.table = type("T", (dict,), {"colnames": list(tab)})(tab)
    t._d = d
    return t, m


def install(t2=True, pint=True):
    """A private copy of enterprise.pulsar that sees the chosen timing packages. Returns (module, mods)."""
    mods = types.SimpleNamespace()
    saved = {k: sys.modules.get(k) for k in ("libstempo", "pint", "pint.models", "pint.residuals", "pint.toa")}
    for k in saved:
        sys.modules.pop(k, None)

    class T2(FakeT2):
        pass

    mods.tempopulsar = T2
    mods.TimingModel = type("TimingModel", (), {})
    mods.TOAs = type("TOAs", (), {})
    mods.calls = []
    mods.pint_hook = None

    def get_model_and_toas(par, tim, **kw):
        mods.calls.append((par, tim, kw, os.getcwd()))
        return mods.pint_hook(par, tim)

    class Residuals:
        def __init__(self, toas, model):
            import astropy.units as u

            self.time_resids = toas._d.resid * u.s

    if t2:
        m = types.ModuleType("libstempo")
        m.tempopulsar = T2
        sys.modules["libstempo"] = m
    else:
        sys.modules["libstempo"] = None
    if pint:
        p, pm, pr, pt = (types.ModuleType(x) for x in ("pint", "pint.models", "pint.residuals", "pint.toa"))
        p.__path__ = []
        pm.TimingModel, pm.get_model_and_toas = mods.TimingModel, get_model_and_toas
        pr.Residuals, pt.TOAs = Residuals, mods.TOAs
        p.models, p.residuals, p.toa = pm, pr, pt
        sys.modules.update({"pint": p, "pint.models": pm, "pint.residuals": pr, "pint.toa": pt})
    else:
        sys.modules["pint"] = None
    try:
        spec = importlib.util.spec_from_file_location("enterprise.pulsar_cv_%d%d" % (t2, pint), os.path.join(env.REPO, "enterprise", "pulsar.py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return mod, mods
