"""C19: feather round trip."""
import contextlib, io, os, shutil, tempfile
import numpy as np
from ..rac import scenario
from .c17 import make, _m
from enterprise.pulsar import FeatherPulsar, Pulsar

ARR = ["toas", "stoas", "toaerrs", "residuals", "freqs", "Mmat", "sunssb", "pos_t", "planetssb", "pos"]


def snap(p):
    s = {a: np.array(getattr(p, a), copy=True) for a in ARR}
    s.update({"backend_flags": np.array(p.backend_flags, "U"), "telescope": np.array(p.telescope, "U")})
    s["flags"] = {f: np.array(v) for f, v in p.flags.items()}
    for a in ("name", "dm", "dmx", "pdist", "theta", "phi"):
        s[a] = getattr(p, a)
    return s


def compare(ck, lab, q, s):
    for a in ARR:
        g = np.asarray(getattr(q, a))
        ck.true("%s.%s float64" % (lab, a), g.dtype == np.float64)
        ck.same("%s.%s" % (lab, a), g, s[a])
    for a in ("backend_flags", "telescope"):
        ck.same("%s.%s" % (lab, a), np.asarray(getattr(q, a), "U"), s[a])
    ck.true(lab + " flag names", set(q.flags) == set(s["flags"]))
    for f, v in s["flags"].items():
        ck.same("%s.flags[%s]" % (lab, f), np.asarray(q.flags[f], "U"), v.astype("U"))
    ck.true(lab + ".name", q.name == s["name"])
    ck.true(lab + ".dm", q.dm == s["dm"])
    ck.true(lab + ".dmx", q.dmx == s["dmx"], "%r vs %r" % (q.dmx, s["dmx"]))
    ck.true(lab + ".pdist", tuple(q.pdist) == tuple(s["pdist"]))
    ck.true(lab + ".angles", q.theta == s["theta"] and q.phi == s["phi"])
    ck.true(lab + ".pos is an array", isinstance(q.pos, np.ndarray))


@scenario("C19", quick=16, thorough=160)
def round_trip(ck, rng, k):
    tmp = tempfile.mkdtemp(prefix="cv19_")
    try:
        p, d, sort, mod, mods = make(rng, k, flags=["mixed", "plain"][k % 2])
        if k % 5 == 4:  # many design-matrix columns: more than ten
            d.M = np.concatenate([d.M, rng.randn(d.n, 14)], axis=1)
            p = mod.Pulsar(mods.tempopulsar(data=d), sort=sort)
        nd = {p.name + "_efac": 1.1, p.name + "_L-wide_PUPPI_log10_ecorr": -6.123456789012345, "J9999+99_efac": 0.3, "gw_log10_A": -15.0, "X" + p.name + "_efac": 2.0}
        mine = {a: b for a, b in nd.items() if a.startswith(p.name)}
        how = k % 4
        if how == 1:
            p.noisedict = dict(nd)
        if how == 2:
            p.noisedict = {p.name + "_efac": 9.0}
        s = snap(p)
        fn = os.path.join(tmp, ["a.feather", "b.c.feather"][k % 2])
        nd0 = dict(nd)
        with contextlib.redirect_stdout(io.StringIO()):
            if how in (0, 2):
                p.to_feather(fn, noisedict=nd)
            elif how == 1:
                FeatherPulsar.save_feather(p, fn)
            else:
                p.to_feather(fn)
            ck.true("caller's noisedict kept", nd == nd0)
            compare(ck, "saved pulsar", p, s)
            if how == 1:
                ck.true("saved pulsar's noisedict kept", p.noisedict == nd)
            q = [FeatherPulsar.read_feather, Pulsar, lambda f: Pulsar(filepath=f)][k % 3](fn)
        compare(ck, "loaded", q, s)
        if how == 3:
            ck.true("no noisedict", not getattr(q, "noisedict", None))
        else:
            ck.true("noisedict restricted to the pulsar", q.noisedict == mine, repr(q.noisedict))
        # second generation
        fn2 = os.path.join(tmp, "second.feather")
        s2 = snap(q)
        with contextlib.redirect_stdout(io.StringIO()):
            FeatherPulsar.save_feather(q, fn2)
            compare(ck, "loaded pulsar after saving", q, s2)
            q2 = FeatherPulsar.read_feather(fn2)
        compare(ck, "second generation", q2, s)
        if how != 3:
            ck.true("noisedict kept", q2.noisedict == mine)
        with contextlib.redirect_stdout(io.StringIO()):
            q3 = FeatherPulsar.read_feather(fn)
        q3.toas[...] if q3.toas.flags.writeable else None
        compare(ck, "loaded twice", q3, s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@scenario("C19", quick=8, thorough=80)
def shapes(ck, rng, k):
    """Any number of design-matrix columns, planets and coordinates; flags with underscores, or none."""
    n = int(rng.randint(2, 30))
    np_, nc = [9, 12, 1, 11, 101, 10, 2, 25][k % 8], [6, 3, 12, 6, 3, 11, 1, 6][k % 8]
    p = FeatherPulsar()
    p.name = ["J0030+0451", "B1855+09"][k % 2]
    for a in ("toas", "stoas", "toaerrs", "residuals", "freqs"):
        setattr(p, a, np.sort(rng.rand(n)) if a == "toas" else rng.rand(n))
    p.backend_flags = np.array(["b%d" % (i % 3) for i in range(n)])
    p.telescope = np.array([["gbt", "arecibo"][i % 2] for i in range(n)])
    p.Mmat, p.sunssb, p.pos_t = rng.rand(n, [12, 1, 101, 3][k % 4]), rng.rand(n, 6), rng.rand(n, 3)
    p.planetssb = rng.rand(n, np_, nc)
    p.flags = {f: np.array(["%s%d" % (f, rng.randint(4)) for i in range(n)]) for f in [(), ("f", "f_1", "f_1_2", "_x", "toas", "y_"), ("pta",)][k % 3]}
    p.dm, p.dmx, p.pdist = 13.0 + rng.rand(), {"DMX_0001": {"DMX": rng.rand(), "DMX_R1": 1.0, "fit": True}}, (1.1, 0.2)
    p.pos, p.phi, p.theta = rng.rand(3), rng.rand(), rng.rand()
    s = snap(p)
    tmp = tempfile.mkdtemp(prefix="cv19_")
    try:
        fn = os.path.join(tmp, "p.feather")
        with contextlib.redirect_stdout(io.StringIO()):
            FeatherPulsar.save_feather(p, fn)
            compare(ck, "saved pulsar", p, s)
            compare(ck, "loaded", FeatherPulsar.read_feather(fn), s)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
