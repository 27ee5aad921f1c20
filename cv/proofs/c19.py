"""C19: feather files. The unchanged enterprise.pulsar runs on symbolic numbers; the file is the table that pyarrow's contract gives back."""
import contextlib, importlib, io, itertools, types
import numpy as np
from cv.sym.contract import *
from cv.sym import obj as O
from cv.sym.obj import S, Sym, term

M = "enterprise.pulsar."
TRUSTED = ["pyarrow: a table made with Table.from_pydict, written with feather.write_feather and read with feather.read_table has the same columns (names, order, values) and schema metadata (checked at run time)",
           "json.loads(json.dumps(x)) is x with tuples as lists and the keys of dictionaries as strings; arrays are refused (checked at run time)",
           "numpy's indexing and assembly of arrays of objects are those of arrays of numbers (the code runs unchanged, its arrays hold symbolic numbers); a conversion to float keeps the values of double-precision arrays"]
BOUNDED = ["three TOAs in every order (stored unsorted and sorted), 1, 2 and 12 design-matrix columns, 9 and 12 planets, up to six flags; all values of the data"]
ASSUMPTIONS = []
N = 3


class Col(np.ndarray):
    """An array of symbolic values that can be converted to numbers and to strings, keeping its values"""
    def astype(self, dtype, *a, copy=True, **k):
        if dtype in (float, np.float64, "float", "d", np.double, "U", str):
            return np.array(self, dtype=object).view(Col)
        raise Unsupported("conversion of an array to %r" % (dtype,))


class Column:
    def __init__(self, name, v):
        v = np.asarray(v)
        if v.ndim != 1:
            raise TypeError("a column of shape %s" % (v.shape,))
        self.name, self.v = name, np.array(v)

    def to_numpy(self, **k):
        r = self.v.copy()
        return r.view(Col) if r.dtype == object else r.astype(object).view(Col)   # strings come back as objects

    def to_pylist(self):
        return list(self.v)

    def __len__(self):
        return len(self.v)


class Table:
    def __init__(self, cols, metadata):
        n = {len(c) for c in cols}
        if len(n) > 1:
            raise ValueError("columns of different lengths: %s" % n)
        self.cols = cols
        enc = lambda x: x.encode() if isinstance(x, str) else x
        self.schema = types.SimpleNamespace(metadata=None if metadata is None else {enc(k): v for k, v in metadata.items()}, names=[c.name for c in cols])
        self.column_names = [c.name for c in cols]
        self.num_columns, self.num_rows = len(cols), max(n or {0})

    @staticmethod
    def from_pydict(d, schema=None, metadata=None):
        if schema is not None:
            raise Unsupported("Table.from_pydict with a schema")
        for k in d:
            if not isinstance(k, str):
                raise TypeError("column name %r" % (k,))
        return Table([Column(k, v) for k, v in d.items()], metadata)

    @staticmethod
    def from_arrays(arrays, names=None, metadata=None):
        return Table([Column(k, v) for k, v in zip(names, arrays)], metadata)

    def column(self, i):
        return self[i]

    def __getitem__(self, i):
        if isinstance(i, int):
            return self.cols[i]
        c = [c for c in self.cols if c.name == i]
        if len(c) != 1:
            raise KeyError(i)
        return c[0]


class Feather:
    def __init__(self):
        self.files = {}

    def write_feather(self, table, dest, **k):
        if not isinstance(table, Table):
            raise TypeError("not a table")
        self.files[str(dest)] = table

    def read_table(self, source, **k):
        if k:
            raise Unsupported("feather.read_table(%s)" % k)
        return self.files[str(source)]


class Text:
    """What json.dumps gives"""
    def __init__(self, v):
        self.v = v

    def encode(self, *a):
        return self

    decode = encode


class JSON:
    @staticmethod
    def norm(x):
        if isinstance(x, (list, tuple)):
            return [JSON.norm(y) for y in x]
        if isinstance(x, dict):
            for k in x:
                if not isinstance(k, (str, int, float, bool, type(None))):
                    raise TypeError("keys must be str, int, float, bool or None")
            return {str(k): JSON.norm(v) for k, v in x.items()}
        if x is None or isinstance(x, (str, int, float, bool, Sym)):
            return x
        raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)

    def dumps(self, x, **k):
        return Text(self.norm(x))

    def loads(self, t, **k):
        if not isinstance(t, Text):
            raise TypeError("not a JSON text")
        return self.norm(t.v)


def module():
    from cv import env   # noqa: F401
    return importlib.import_module("enterprise.pulsar")


def arr(name, *shape):
    return O.of(name, *shape).view(Col)


ROWS = {"toas": (), "stoas": (), "toaerrs": (), "residuals": (), "freqs": (), "telescope": ()}


def tables(ncol, nplan, ncoord):
    """The expected value of each attribute with one row per TOA, in TOA order"""
    t = {a: arr(a, N) for a in ROWS}
    t.update(Mmat=arr("Mmat", N, ncol), sunssb=arr("sun", N, 6), pos_t=arr("pos_t", N, 3), planetssb=arr("planet", N, nplan, ncoord))
    return t


FLAGS = {"none": [], "one": ["pta"], "many": ["x", "x_1", "x_1_2", "_y", "z_", "toas", "flags_x"]}


def meta():
    return dict(dm=S(PY.var("dm")), dmx={"DMX_0001": {"DMX": S(PY.var("dmx1")), "fit": True, "DMX_R1": S(PY.var("r1"))}, "DMX_0002": {"DMX": S(PY.var("dmx2")), "fit": False}}, pdist=(S(PY.var("pd")), S(PY.var("pderr"))), pos=arr("pos", 3))


def base(pm, t, flags, m, isort):
    """A pulsar of a timing package, whose rows are stored such that isort puts them in TOA order"""
    class Psr(pm.BasePulsar):
        def __init__(self):
            pass
    p = Psr()
    inv = isort if isinstance(isort, slice) else np.argsort(isort)
    for a, priv in [("toas", "_toas"), ("stoas", "_stoas"), ("toaerrs", "_toaerrs"), ("residuals", "_residuals"), ("freqs", "_ssbfreqs"), ("telescope", "_telescope"), ("Mmat", "_designmatrix"), ("sunssb", "_sunssb"), ("pos_t", "_pos_t"), ("planetssb", "_planetssb")]:
        setattr(p, priv, t[a][inv].copy())
    p._flags = {f: v[inv].copy() for f, v in flags.items()}
    p._isort, p._iisort, p._sort = isort, inv, not isinstance(isort, slice)
    p.name, p._dm, p._dmx, p._pdist, p._pos = "J0030+0451", m["dm"], m["dmx"], m["pdist"], m["pos"]
    p._raj, p._decj = S(PY.var("raj")), S(PY.var("decj"))
    return p, dict(phi=p._raj, theta=S(PY.PI / 2) - p._decj, backend_flags=np.array([""] * N))


def plain(pm, t, flags, m, isort=None):
    p = pm.FeatherPulsar()
    for a, v in t.items():
        setattr(p, a, v.copy())
    p.flags = {f: v.copy() for f, v in flags.items()}
    p.name = "J0030+0451"
    for a in ("dm", "dmx", "pdist", "pos"):
        setattr(p, a, m[a])
    p.phi, p.theta, p.backend_flags = S(PY.var("phi")), S(PY.var("theta")), arr("backend", N)
    return p, dict(phi=p.phi, theta=p.theta, backend_flags=p.backend_flags.copy())


def same(a, b):
    """Equal: arrays entry by entry, lists and tuples alike"""
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and all(same(x, y) for x, y in zip(a.flat, b.flat))
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, Sym):
        return isinstance(a, Sym) and term(a) == term(b)
    return type(a) is type(b) and a == b or isinstance(a, (int, float, Sym)) and isinstance(b, (int, float)) and not isinstance(b, bool) and term(a) == term(b) or isinstance(a, str) and isinstance(b, str) and a == b


def copied(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(copied(v) for v in x)
    return x


def compare(V, lab, q, want, flags):
    for a, w in want.items():
        if not hasattr(q, a):
            V.done("%s: %s" % (lab, a), False, "missing")
            continue
        g = getattr(q, a)
        V.done("%s: %s" % (lab, a), same(g, w), "" if same(g, w) else "%s\nwant %s" % (str(g)[:2000], str(w)[:2000]))
    V.done(lab + ": flags", same(dict(q.flags), flags), str(q.flags)[:2000])
    V.done(lab + ": the position is an array", isinstance(getattr(q, "pos", np.zeros(3)), np.ndarray))


@contextlib.contextmanager
def world(pm):
    with O.running(pm):
        old = pm.feather, pm.Table, pm.json
        pm.feather, pm.Table, pm.json = Feather(), Table, JSON()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield pm.feather
        finally:
            pm.feather, pm.Table, pm.json = old


NOISE = {"J0030+0451_efac": 1, "J0030+0451_L-wide_log10_ecorr": 2, "J9999+99_efac": 3, "gw_log10_A": 4, "xJ0030+0451_efac": 5, "J0030+0451": 6, "J0030+045_efac": 7}


def noise(kind):
    return None if kind is None else {} if kind == 0 else {k: S(PY.var("noise%d%s" % (v, kind))) for k, v in NOISE.items()}


def mine(d):
    return {k: v for k, v in d.items() if k.startswith("J0030+0451")}


def trip(V, build, isort, ncol, nplan, ncoord, flagset, given, attached, load, label, drop=()):
    pm = module()
    seen = []
    if not isinstance(isort, slice):   # a sorted pulsar: the TOAs ascend
        T = tables(1, 1, 1)["toas"]
        for i in range(N - 1):
            V.assume(cmp0("le", term(T[i]) - term(T[i + 1])))

    def go():
        if V.failed and len(V.failed) > 20:
            return
        with world(pm) as f:
            t, m = tables(ncol, nplan, ncoord), meta()
            flags = {x: arr("flag_" + x, N) for x in FLAGS[flagset]}
            p, more = build(pm, t, flags, m, isort)
            want = dict(t, name="J0030+0451", **m, **more)
            for a in drop:
                delattr(p, a)
            kept = {a: w for a, w in want.items() if a not in drop}
            if attached is not None:
                p.noisedict = noise(attached)
            nd = noise(given)
            before = {k: copied(v) for k, v in vars(p).items()}
            if given is None and isinstance(p, pm.FeatherPulsar):
                pm.FeatherPulsar.save_feather(p, "a/p.feather")
            elif isinstance(p, pm.FeatherPulsar):
                pm.FeatherPulsar.save_feather(p, "a/p.feather", noisedict=nd)
            else:
                p.to_feather("a/p.feather", noisedict=nd)
            V.done(label + ": one file is written", list(f.files) == ["a/p.feather"])
            compare(V, label + ": saved pulsar", p, kept, flags)
            V.done(label + ": no attribute of the saved pulsar is changed, added or removed", same(vars(p), before), str([k for k in set(before) | set(vars(p)) if not same(vars(p).get(k), before.get(k))]))
            V.done(label + ": the caller's noise dictionary", nd is None and given is None or same(nd, noise(given)))
            q = load(pm)("a/p.feather")
            V.done(label + ": type", type(q) is pm.FeatherPulsar)
            compare(V, label + ": loaded", q, kept, flags)
            for a in drop:
                V.done(label + ": %s absent" % a, not hasattr(q, a))
            # what is given, else what is attached
            src = nd if nd is not None else getattr(p, "noisedict", None)
            got = getattr(q, "noisedict", None)
            V.done(label + ": noise dictionary", not got if not src else same(got, mine(src)), str(got))
            o = list(q._isort) if not isinstance(q._isort, slice) else list(range(N))
            s = [q.toas[i] for i in o]
            V.done(label + ": sorting index", sorted(o) == list(range(N)) and all(bool(a <= b) for a, b in zip(s, s[1:])))
            compare(V, label + ": after sorting", q, kept, flags)
            seen.append(q)
            # again
            more2 = q
            pm.FeatherPulsar.save_feather(more2, "b.feather")
            compare(V, label + ": second generation", pm.FeatherPulsar.read_feather("b.feather"), kept, flags)
            V.done(label + ": the first is as it was", same(q.noisedict if hasattr(q, "noisedict") else None, mine(src) if src else got))
    V.returns(go, label=label)
    V.done(label + ": runs", bool(seen) or bool(V.failed))


def reader(k):
    return [lambda pm: pm.FeatherPulsar.read_feather, lambda pm: pm.Pulsar, lambda pm: lambda f: pm.Pulsar(filepath=f)][k % 3]


@contract("C19", M + "FeatherPulsar.save_feather", M + "FeatherPulsar.read_feather", M + "FeatherPulsar.to_list", M + "BasePulsar.to_feather", M + "Pulsar", limit=300)
def order(V):
    """Rows stored in any order"""
    for k, o in enumerate([np.array(x) for x in itertools.permutations(range(N))]):
        trip(V, base, o, 2, 9, 6, ["one", "many", "none"][k % 3], None, None, reader(k), "order %s" % (o,))


@contract("C19", M + "FeatherPulsar.save_feather", M + "FeatherPulsar.read_feather", M + "FeatherPulsar.sort_data", limit=300)
def unsorted(V):
    """A pulsar whose rows are left as they are: TOAs in any order"""
    for k, build in enumerate([base, plain]):
        trip(V, build, slice(None, None, None), 2, 9, 6, "one", None, "a", reader(k), "unsorted")


@contract("C19", M + "FeatherPulsar.save_feather", M + "FeatherPulsar.read_feather", limit=300)
def shapes(V):
    """Any numbers of columns, planets and coordinates; columns and flags whose names begin alike"""
    for k, (a, b, c) in enumerate([(1, 1, 3), (12, 9, 6), (2, 12, 2), (101, 2, 12), (11, 11, 1)]):
        for build in (base, plain):
            trip(V, build, np.array([2, 0, 1]), a, b, c, ["many", "none", "one"][k % 3], None, None, reader(k), "%d columns, %d planets, %d coordinates, %s" % (a, b, c, build.__name__))


@contract("C19", M + "FeatherPulsar.save_feather", M + "FeatherPulsar.read_feather", limit=300)
def dictionaries(V):
    """Noise dictionaries given, attached, both, or empty"""
    for build in (base, plain):
        for k, (g, a) in enumerate([("g", None), (None, "a"), ("g", "a"), (0, "a"), (0, None), (None, 0), ("g", 0)]):
            trip(V, build, np.array([1, 2, 0]), 2, 9, 6, "one", g, a, reader(k), "%s: given %s, attached %s" % (build.__name__, g, a))


@contract("C19", M + "FeatherPulsar.save_feather", M + "FeatherPulsar.read_feather", limit=300)
def missing(V):
    """Attributes the saved pulsar does not have"""
    for k, d in enumerate([("dm",), ("dmx", "pdist"), ("pos",), ("phi", "theta")]):
        trip(V, plain, np.array([0, 1, 2]), 2, 9, 6, "one", None, "a", reader(k), "without " + ", ".join(d), drop=d)


@contract("C19", M + "FeatherPulsar.save_feather", M + "FeatherPulsar.read_feather", limit=300)
def several(V):
    """Several pulsars, saved and loaded in turn, have nothing in common"""
    pm = module()
    iso = np.array([0, 1, 2])

    def go():
        with world(pm):
            made = []
            for i, name in enumerate(["J0030+0451", "J9999+99", "B1855+09"]):
                n = lambda a: S(PY.app("%s%d" % (a, i), P(0)))
                t = {a: np.array([S(PY.app("%s.%d" % (a, i), *[P(int(j)) for j in x])) for x in np.ndindex(*v.shape)], dtype=object).reshape(v.shape).view(Col) for a, v in tables(2 + i, 9, 6).items()}
                T = [term(x) for x in t["toas"]]
                V.assume(cmp0("le", T[0] - T[1]))
                V.assume(cmp0("le", T[1] - T[2]))
                flags = {f: arr("flag%d_%s" % (i, f), N) for f in ["f", "g%d" % i]}
                m = dict(dm=n("dm"), dmx={"DMX_%d" % i: {"DMX": n("dmx")}}, pdist=(n("pd"), n("pe")), pos=arr("pos%d" % i, 3))
                p, more = plain(pm, t, flags, m)
                p.name, p.phi, p.theta = name, n("phi"), n("theta")
                if i < 2:
                    p.noisedict = noise("n%d" % i)
                made.append((p, dict(t, **m, backend_flags=more["backend_flags"], name=name, phi=p.phi, theta=p.theta), flags, {k: v for k, v in noise("n%d" % i).items() if k.startswith(name)} if i < 2 else None))
            for i, (p, *_) in enumerate(made):
                pm.FeatherPulsar.save_feather(p, "p%d.feather" % i)
            got = [pm.FeatherPulsar.read_feather("p%d.feather" % i) for i in (2, 0, 1)]
            for q, i in zip(got, (2, 0, 1)):
                p, want, flags, nd = made[i]
                compare(V, "pulsar %d" % i, q, want, flags)
                compare(V, "saved pulsar %d" % i, p, want, flags)
                g = getattr(q, "noisedict", None)
                V.done("pulsar %d: noise dictionary" % i, not g if not nd else same(g, nd))
                V.done("pulsar %d: the inverse sorting index" % i, [q._iisort[j] for j in q._isort] == list(range(N)))
    V.returns(go, label="several")
