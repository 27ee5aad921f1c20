"""C24: loading a pulsar leaves the working directory unchanged and dispatches by input."""
import itertools
from cv.sym.contract import *

BOUNDED = ["up to three positional arguments (of any of the kinds, in any order); file names are arbitrary (their directory and stem are not known), arguments and failure points are all combinations"]
TRUSTED = ["os.getcwd, chdir, path.split, path.relpath, path.isfile by their documentation: chdir changes the working directory or raises leaving it, returning to the directory one came from succeeds",
           "the timing packages, get_maxobs and the constructors of the pulsars leave the working directory alone, and may raise anything"]
START = "the working directory"


class Boom(Exception):
    pass


class World:
    """The process: its working directory, the file system, the timing packages."""

    def __init__(self):
        self.cwd = START
        self.calls = []

    def fails(self, what):
        if A.EXPLORER[0].branch(PY.pred("fails_" + what, P(len(self.calls)))):
            self.calls.append(("failed", what))
            raise Boom(what)


class Text:
    """A string that is only known by its parts."""

    def __cv_isinstance__(self, t):
        return t in (str, object)

    def __getattr__(self, name):
        raise Unsupported("str.%s of a file name" % name)


class Name(Text):
    """A file name given: of kind "par", "tim", "toa", "feather" or other."""

    def __init__(self, w, kind, num):
        self.__dict__.update(w=w, kind=kind, num=num)

    def endswith(self, s):
        if isinstance(s, tuple):
            return any(self.endswith(x) for x in s)
        if s not in (".par", ".tim", ".toa", ".feather"):
            raise Unsupported("endswith(%r)" % s)
        return s == "." + self.kind

    def split(self, sep=None, maxsplit=-1):
        if sep != ".":
            raise Unsupported("split(%r)" % sep)
        return ["stem", self.kind]

    rsplit = split

    def here(self, cwd):
        return cwd == START and self

    @property
    def dir(self):
        """Whether it has a directory part"""
        return A.EXPLORER[0].branch(PY.pred("hasdir", P(self.num)))

    def __repr__(self):
        return "%s%d" % (self.kind, self.num)


class Dir(Text):
    def __init__(self, f):
        self.__dict__.update(f=f)

    def __bool__(self):
        return self.f.dir


class Part(Text):
    """A path that names file f seen from some working directories."""

    def __init__(self, f, seen, kind):
        self.__dict__.update(f=f, seen=seen, kind=kind)

    def here(self, cwd):
        return self.seen(cwd) and self.f


def where(d, cwd):
    """The directory that the path d is, seen from the directory cwd: START, or the directory of a file"""
    if isinstance(d, str):
        if d in ("./", ".", START):
            return START if d == START else cwd
        raise Unsupported("directory %r" % d)
    if isinstance(d, Dir):
        if not d.f.dir:
            raise FileNotFoundError("''")
        return d.f if cwd == START else ("lost", d.f, cwd)
    if isinstance(d, tuple) and d[:1] == ("abs",):
        return d[1]
    raise Unsupported("directory %r" % (d,))


def home(f):
    return f if f.dir else START


class Path:
    def __init__(self, w):
        self.w = w

    def isfile(self, f):
        if f.here(self.w.cwd) is False:
            return False
        return not A.EXPLORER[0].branch(PY.pred("missing", P(f.here(self.w.cwd).num)))

    exists = isfile

    def dirname(self, f):
        return Dir(f)

    def basename(self, f):
        return Part(f, lambda cwd: cwd == home(f), f.kind)

    def split(self, f):
        return self.dirname(f), self.basename(f)

    def relpath(self, f, start="."):
        d = where(start, self.w.cwd)
        return Part(f, lambda cwd: cwd == d, f.kind)

    def abspath(self, f):
        return Part(f, lambda cwd: True, f.kind)

    realpath = abspath

    def __getattr__(self, a):
        raise Unsupported("os.path." + a)


class OS:
    def __init__(self, w):
        self.w, self.path = w, Path(w)

    def getcwd(self):
        return self.w.cwd if self.w.cwd == START else ("abs", self.w.cwd)

    def chdir(self, d):
        to = where(d, self.w.cwd)
        if to != START:
            self.w.fails("chdir")
        self.w.cwd = to

    def __getattr__(self, a):
        raise Unsupported("os." + a)


class TOAs(E.Obj):
    pass


class Model(E.Obj):
    pass


class Other(E.Obj):
    pass


def stand_ins(pm, w, t2, pint):
    pm.os = OS(w)

    def made(kind):
        def make(*a, **k):
            w.fails(kind)
            r = E.Obj(kind=kind, a=a, k=k)
            return r
        return make
    pm.PintPulsar, pm.Tempo2Pulsar = made("PintPulsar"), made("Tempo2Pulsar")
    pm.FeatherPulsar = E.Obj(read_feather=lambda f: made("feather")(f))

    def reads(*fs):
        """the files that the paths name from where the process is"""
        w.calls.append(("read", [f.here(w.cwd) for f in fs], w.cwd))

    def get_maxobs(f):
        reads(f)
        w.fails("get_maxobs")
        return w.V.int("nobs", 0)
    pm.get_maxobs = get_maxobs

    class tempopulsar(E.Obj):
        def __init__(self, *a, **k):
            if "given" in k:
                return
            w.calls.append(("tempo2", [f.here(w.cwd) for f in a], w.cwd, k))
            w.fails("tempo2")

    def get_model_and_toas(*a, **k):
        w.calls.append(("pint", [f.here(w.cwd) for f in a], w.cwd, k))
        w.fails("pint")
        return Model(w=w), TOAs(w=w)
    if not hasattr(w, "given"):
        w.given = tempopulsar(given=True)
    pm.t2 = E.Obj(tempopulsar=tempopulsar) if t2 else None
    pm.pint = E.Obj() if pint else None
    for a, v in (("TOAs", TOAs), ("TimingModel", Model), ("get_model_and_toas", get_model_and_toas)):
        if pint:
            setattr(pm, a, v)
        elif hasattr(pm, a):
            delattr(pm, a)
    return tempopulsar


KINDS = ["par", "tim", "toa", "feather", "x", "toas", "model", "t2pulsar", "object"]


def dispatch(V, packages, kinds_list, options):
    pm = V.load("pulsar")
    for t2, pint in packages:
        for kinds in kinds_list:
            for opt in options:
                def run():
                    w = World()
                    w.V = V
                    tp = stand_ins(pm, w, t2, pint)
                    obj = dict(toas=lambda: TOAs(), model=lambda: Model(), t2pulsar=lambda: tp(given=True), object=lambda: Other())
                    args = [obj[k]() if k in obj else Name(w, k, j) for j, k in enumerate(kinds)]
                    kw = dict(opt)
                    if kw.pop("feather", False):
                        kw["filepath"] = Name(w, "feather", 9)
                    try:
                        r = ("ret", pm.Pulsar(*args, **kw))
                    except Unsupported:
                        raise
                    except Exception as e:
                        r = ("raise", e)
                    return w, args, kw, r
                V.returns(run, lambda r: judge(V, t2, pint, *r), label="%s%s, %s, %s" % ("tempo2 " if t2 else "", "pint" if pint else "", "+".join(kinds), opt))


def judge(V, t2, pint, w, args, kw, r):
    kind, v = r
    V.done("the working directory is that of before", w.cwd == START, str(w.cwd))
    failed = [c[1] for c in w.calls if c[0] == "failed"]
    if isinstance(v, Boom):
        V.done("one failure, and no other attempt", len(failed) == 1, str(w.calls))
    else:
        V.done("a failure is not hidden", not failed, str(w.calls))
    first = lambda p: next((x for x in args if p(x)), None)
    of = lambda *ks: first(lambda x: isinstance(x, Name) and x.kind in ks)
    wrap = {k: kw.get(k, True) for k in ("sort", "planets")}
    has = lambda got, want: all(k in got and (got[k] is want[k] or got[k] == want[k]) for k in want)
    feather = of("feather") or kw.get("filepath")
    toas, model, t2p = first(lambda x: isinstance(x, TOAs)), first(lambda x: isinstance(x, Model)), first(lambda x: t2 and type(x).__name__ == "tempopulsar")
    par, tim = of("par"), of("tim", "toa")
    used = [c for c in w.calls if c[0] in ("tempo2", "pint", "read")]
    if feather is not None:
        V.done("no timing package", not used, str(used))
        if kind == "ret":
            V.done("read from the feather file", getattr(v, "kind", None) == "feather" and v.a[0] is feather, repr(v))
        else:
            V.done("an error of the loader", isinstance(v, Boom), repr(v))
        return
    if pint and toas is not None and model is not None:
        V.done("no file is read", not used, str(used))
        ok = isinstance(v, Boom) if kind == "raise" else v.kind == "PintPulsar" and v.a == (toas, model) and has(v.k, dict(wrap, drop_pintpsr=kw.get("drop_pintpsr", True)))
        V.done("wraps the objects of PINT", ok, repr(v))
        return
    if t2p is not None:
        V.done("no file is read", not used, str(used))
        ok = isinstance(v, Boom) if kind == "raise" else v.kind == "Tempo2Pulsar" and v.a == (t2p,) and has(v.k, dict(wrap, drop_t2pulsar=kw.get("drop_t2pulsar", True)))
        V.done("wraps the object of libstempo", ok, repr(v))
        return
    pkg = kw.get("timing_package")
    pkg = pkg.lower() if pkg is not None else "tempo2" if t2 else "pint" if pint else None
    missing = lambda f: decide(PY.pred("missing", P(f.num))) is True
    if par is None or tim is None or missing(par) or missing(tim) or (pkg, True) not in (("tempo2", t2), ("pint", pint)):
        V.done("an error", kind == "raise", repr(v))
        V.done("no timing package", not [c for c in used if c[0] != "read"], str(used))
        if par is not None and tim is not None and (missing(par) or missing(tim)):
            V.done("a missing file is an OSError", isinstance(v, OSError), repr(v))
        return
    runs = [c for c in used if c[0] in ("tempo2", "pint")]
    for c in runs:
        V.done("by the package requested or the default one, of these files, in the directory of the TOAs", c[0] == pkg and c[1] == [par, tim] and c[2] == home_of(tim), str(c))
        V.done("with the options given", has(c[3], dict(ephem=kw.get("ephem"))), str(c[3]))
        if pkg == "tempo2":
            V.done("with the clock given", has(c[3], dict(clk=kw.get("clk"))), str(c[3]))
            V.true("room for the observations", cmp0("le", var("nobs", integer=True) - num(c[3]["maxobs"])))
        else:
            b = kw.get("bipm_version") or (kw["clk"].split("(")[1][:-1] if kw.get("clk") else None)
            V.done("with the clock version given", has(c[3], dict(bipm_version=b, planets=kw.get("planets", True))), str(c[3]))
    if kind == "raise":
        V.done("an error of the loading", isinstance(v, Boom), repr(v))
        return
    V.done("loaded once", len(runs) == 1, str(runs))
    want = dict(wrap, drop_t2pulsar=kw.get("drop_t2pulsar", True)) if pkg == "tempo2" else dict(wrap, drop_pintpsr=kw.get("drop_pintpsr", True))
    V.done("a pulsar of the package, with the options given", v.kind == dict(tempo2="Tempo2Pulsar", pint="PintPulsar")[pkg] and has(v.k, want), repr(v))
    if pkg == "pint":
        V.done("of the TOAs and the model", isinstance(v.a[0], TOAs) and isinstance(v.a[1], Model), repr(v.a))


def home_of(f):
    return f if decide(PY.pred("hasdir", P(f.num))) is True else START


ALL = [(True, True), (True, False), (False, True), (False, False)]


@contract("C24", "enterprise.pulsar.Pulsar")
def files(V):
    """par and tim files, with every failure."""
    dispatch(V, ALL, [("par", "tim"), ("toa", "par")], [dict(timing_package=p) if p else {} for p in (None, "tempo2", "PINT", "Tempo2", "pint", "nosuch")])


@contract("C24", "enterprise.pulsar.Pulsar")
def given(V):
    """Every combination of up to two arguments."""
    dispatch(V, ALL, [k for n in range(3) for k in itertools.product(KINDS, repeat=n)], [{}, dict(feather=True)])


@contract("C24", "enterprise.pulsar.Pulsar")
def options(V):
    """The options reach the timing package and the pulsar."""
    opts = [dict(sort=False, planets=False), dict(drop_t2pulsar=False, ephem="DE440"), dict(drop_pintpsr=False, clk="TT(BIPM2019)"), dict(clk="TT(BIPM2019)", bipm_version="BIPM2015"), dict(planets=False, timing_package="pint", ephem="DE421", clk="TT(BIPM2017)")]
    dispatch(V, ALL, [("par", "tim"), ("toas", "model"), ("t2pulsar",), ("feather",)], opts)


@contract("C24", "enterprise.pulsar.Pulsar", thorough=True, limit=900)
def three(V):
    """Every combination of three arguments."""
    dispatch(V, ALL, itertools.product(KINDS, repeat=3), [{}])
