"""C24: Pulsar() dispatch and working directory, with stand-ins for both timing packages."""
import contextlib, io, os, shutil, tempfile
import numpy as np
from ..rac import scenario
from ..timing_fakes import obs_data, install, pint_objects

_mods = {}


def mods_for(t2, pint):
    if (t2, pint) not in _mods:
        _mods[(t2, pint)] = install(t2=t2, pint=pint)
    return _mods[(t2, pint)]


class Boom(Exception):
    pass


@contextlib.contextmanager
def scratch():
    old, tmp = os.getcwd(), os.path.realpath(tempfile.mkdtemp(prefix="cv24_"))
    try:
        for dname in ("run", "data", "data/par", "data/tim"):
            os.makedirs(os.path.join(tmp, dname))
        for f in ("data/par/a.par", "data/tim/a.tim", "data/tim/a.par", "run/a.par", "run/a.tim", "data/tim/b.x.toa", "data/tim/sub.tim"):
            with open(os.path.join(tmp, f), "w") as fl:
                fl.write("PSR X\n" if f.endswith("par") else "FORMAT 1\n a 1400 53000.1 1.0 ao\n a 1400 53001.1 1.0 ao\nC comment\n")
        with open(os.path.join(tmp, "data/tim/inc.tim"), "w") as fl:
            fl.write("FORMAT 1\nINCLUDE sub.tim\n")
        os.chdir(os.path.join(tmp, "run"))
        yield tmp
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


@scenario("C24", quick=48, thorough=240)
def par_and_tim(ck, rng, k):
    t2, pint = [(True, True), (True, False), (False, True), (False, False)][k % 4]
    want = [None, "tempo2", "pint", "Tempo2", "PINT", "nosuch"][(k // 4) % 6]
    mod, mods = mods_for(t2, pint)
    fail = [None, "load", "attr"][(k // 24) % 3] if k >= 24 else [None, None, "load"][k % 3]
    d = obs_data(rng)
    rel = k % 3 == 0
    with scratch() as tmp, contextlib.redirect_stdout(io.StringIO()):
        cwd = os.getcwd()
        par, tim = [("data/par/a.par", "data/tim/a.tim"), ("run/a.par", "run/a.tim"), ("data/tim/a.par", "data/tim/b.x.toa"),
                    ("data/par/a.par", "data/tim/inc.tim")][k % 4 if k % 5 else 1]
        full = [os.path.join(tmp, par), os.path.join(tmp, tim)]
        args = [os.path.relpath(f, cwd) if rel else f for f in full]
        if k % 2:
            args = args[::-1]
        seen = {}

        def t2hook(self):
            seen["pkg"], seen["cwd"] = "tempo2", os.getcwd()
            seen["files"] = [os.path.realpath(a) for a in self.args[:2]]
            if fail == "load":
                raise Boom("timing package failed")
            if fail == "attr":
                dd = obs_data(rng)
                dd.planets = dd.planets[:, :2]
                return dd
            return d

        def phook(p, t):
            seen["pkg"], seen["cwd"] = "pint", os.getcwd()
            seen["files"] = [os.path.realpath(p), os.path.realpath(t)]
            if fail == "load":
                raise Boom("timing package failed")
            toas, model = pint_objects(mods, d)
            if fail == "attr":
                model.components = {}
            return model, toas

        mods.tempopulsar.hook, mods.pint_hook = t2hook, phook
        kw = {} if want is None else {"timing_package": want}
        if k % 7 == 6:
            kw.update(planets=False) if fail != "attr" else None
        pkg = (want or ("tempo2" if t2 else "pint" if pint else "none")).lower()
        avail = {"tempo2": t2, "pint": pint}.get(pkg, False)
        try:
            psr = mod.Pulsar(*args, **kw)
        except Exception as e:
            psr = e
        finally:
            mods.tempopulsar.hook = mods.pint_hook = None
        ck.true("working directory unchanged", os.getcwd() == cwd, "now %s" % os.getcwd())
        if not avail or fail:
            ck.true("raises", isinstance(psr, Exception), "returned %r for package %r" % (psr, want))
            if not avail:
                ck.true("no timing package was run", not seen, repr(seen))
                ck.true("ValueError", isinstance(psr, ValueError), repr(psr))
            elif fail == "load":
                ck.true("the package's own error is raised", isinstance(psr, Boom), repr(psr))
            return
        ck.true("loads", not isinstance(psr, Exception), repr(psr))
        ck.true("package used", seen["pkg"] == pkg, "used %r for %r" % (seen["pkg"], want))
        ck.true("files of the call", seen["files"] == full, "%r vs %r" % (seen["files"], full))
        ck.true("run in the tim file's directory", seen["cwd"] == os.path.dirname(full[1]))
        ck.true("class", type(psr).__name__ == {"tempo2": "Tempo2Pulsar", "pint": "PintPulsar"}[pkg])
        ck.close("data", psr.toas, np.sort(d.mjd) * 86400, 1e-14)


@scenario("C24", quick=24, thorough=96)
def other_inputs(ck, rng, k):
    t2, pint = [(True, True), (True, False), (False, True), (False, False)][k % 4]
    mod, mods = mods_for(t2, pint)
    d = obs_data(rng)
    with scratch() as tmp, contextlib.redirect_stdout(io.StringIO()):
        cwd = os.getcwd()

        def bad(label, *a, exc=Exception, **kw):
            ck.raises(label, lambda: mod.Pulsar(*a, **kw), exc)
            ck.true(label + ": working directory unchanged", os.getcwd() == cwd)

        D = os.path.join(tmp, "data")
        bad("missing par file", D + "/par/nope.par", D + "/tim/a.tim", exc=IOError)
        bad("missing tim file", D + "/par/a.par", D + "/tim/nope.tim", exc=IOError)
        bad("missing directory", D + "/par/a.par", D + "/nodir/a.tim", exc=IOError)
        bad("only a par file", D + "/par/a.par", exc=ValueError)
        bad("only a tim file", D + "/tim/a.tim", exc=ValueError)
        bad("nothing", exc=ValueError)
        bad("unrecognised input", 3, exc=ValueError)
        bad("unrecognised extension", D + "/par/a.txt", D + "/tim/a.dat", exc=ValueError)
        bad("missing feather", D + "/nope.feather")
        bad("missing feather (keyword)", filepath=D + "/nope.feather")
        if t2:
            sort = bool(k % 2)
            t = mods.tempopulsar(data=d)
            p = mod.Pulsar(t, sort=sort, drop_t2pulsar=bool(k % 3))
            ck.true("libstempo object wrapped", type(p).__name__ == "Tempo2Pulsar")
            ck.close("its data", p.toas, (np.sort(d.mjd) if sort else d.mjd) * 86400, 1e-14)
            ck.true("kept or dropped as asked", (getattr(p, "t2pulsar", None) is t) == (not k % 3))
        if pint:
            toas, model = pint_objects(mods, d)
            sort = bool(k % 2)
            p = mod.Pulsar(*([toas, model] if k % 3 else [model, toas]), sort=sort, drop_pintpsr=bool(k % 3))
            ck.true("PINT objects wrapped", type(p).__name__ == "PintPulsar")
            ck.close("their data", p.toas, (np.sort(d.mjd) if sort else d.mjd) * 86400, 1e-14)
            ck.true("kept or dropped as asked", (getattr(p, "model", None) is model) == (not k % 3))
            bad("PINT TOAs without a model", toas, exc=ValueError)
            bad("PINT model without TOAs", model, exc=ValueError)
        ck.true("working directory unchanged", os.getcwd() == cwd)
        # feather: no timing package is consulted
        src = p if (t2 or pint) else None
        if src is None:
            m2, mo2 = mods_for(True, True)
            src = m2.Pulsar(mo2.tempopulsar(data=d))
        for c in ("x.feather", "y.z.feather"):
            f = os.path.join(tmp, "run", c)
            src.to_feather(f)
            mods.tempopulsar.last = None
            n0 = len(mods.calls)
            for q in (mod.Pulsar(f), mod.Pulsar(c), mod.Pulsar(filepath=f), mod.Pulsar(f, timing_package="pint")):
                ck.true("feather class", type(q).__name__ == "FeatherPulsar")
                ck.same("feather data", q.toas, src.toas)
                ck.true("feather name", q.name == src.name)
            ck.true("no timing package consulted", mods.tempopulsar.last is None and len(mods.calls) == n0)
        ck.true("working directory unchanged", os.getcwd() == cwd)
        # a feather file is preferred over par and tim files given with it
        q = mod.Pulsar(D + "/par/a.par", D + "/tim/a.tim", f)
        ck.true("feather wins", type(q).__name__ == "FeatherPulsar")
