"""C25: deflate / inflate through shared memory. Segments are named by the code under test and unlinked here."""
import os, pickle, subprocess, sys, tempfile, shutil
import numpy as np
from multiprocessing import shared_memory
from .. import env
from ..rac import scenario
from ..timing_fakes import obs_data, FakeT2
from enterprise.pulsar import Tempo2Pulsar
from enterprise.pulsar_inflate import PulsarInflater

BIG = ["Mmat", "planetssb", "sunssb"]
REST = ["toas", "stoas", "residuals", "toaerrs", "freqs", "pos", "pos_t"]


def snap(p):
    s = {a: np.array(getattr(p, a)) for a in BIG + REST}
    s["flags"] = {f: np.array(v) for f, v in p.flags.items()}
    s["backend_flags"] = np.array(p.backend_flags)
    s["telescope"] = np.array(p.telescope)
    return s


def compare(ck, lab, p, s, deflated=False):
    for a in REST + ([] if deflated else BIG):
        g = getattr(p, a)
        ck.true("%s.%s dtype" % (lab, a), g.dtype == s[a].dtype)
        ck.same("%s.%s" % (lab, a), np.array(g), s[a])
    ck.same(lab + ".telescope", np.array(p.telescope), s["telescope"])
    ck.true(lab + " name etc.", p.name == s.get("name", p.name))
    if not deflated:
        ck.true(lab + " flag names", set(p.flags) == set(s["flags"]))
        for f in s["flags"]:
            g = p.flags[f]
            ck.true(lab + " flag dtype", g.dtype == s["flags"][f].dtype)
            ck.same("%s.flags[%s]" % (lab, f), np.array(g), s["flags"][f])
        ck.same(lab + ".backend_flags", np.array(p.backend_flags), s["backend_flags"])


def handles(p):
    return {a: v for a, v in vars(p).items() if isinstance(v, PulsarInflater)}


def arrays(p):
    return {a: v for a, v in vars(p).items() if isinstance(v, np.ndarray)}


def cleanup(hs):
    for h in hs.values():
        try:
            h.destroy()
        except FileNotFoundError:
            pass


@scenario("C25", quick=10, thorough=100)
def life_cycle(ck, rng, k):
    d = obs_data(rng, order=["random", "sorted"][k % 2], flags=["mixed", "plain"][k % 2])
    p = Tempo2Pulsar(FakeT2(data=d), sort=k % 3 != 2)
    s = snap(p)
    before = dict(vars(p))
    big = {a: np.array(v) for a, v in arrays(p).items() if a in ("_designmatrix", "_planetssb", "_sunssb", "_flags")}
    p.deflate()
    hs = dict(handles(p))
    try:
        ck.true("four arrays in shared memory", len(hs) == 4)
        for a, v in before.items():
            if a not in hs and a != "_deflated":
                ck.true("attribute %s untouched" % a, vars(p)[a] is v)
        ck.true("no attribute added or removed", set(vars(p)) - {"_deflated"} == set(before) - {"_deflated"})
        compare(ck, "deflated", p, s, deflated=True)
        again = dict(vars(p))
        p.deflate()
        ck.true("deflating twice", all(vars(p)[a] is again[a] for a in again if a != "_deflated") and set(vars(p)) == set(again))
        pk = pickle.dumps(p)
        p.inflate()
        compare(ck, "inflated", p, s)
        for a, h in hs.items():
            v = vars(p)[a]
            ck.true("inflated %s is an array" % a, isinstance(v, np.ndarray))
            ck.true("%s shape/dtype" % a, v.shape == before[a].shape and v.dtype == before[a].dtype)
            ck.same("%s contents" % a, np.array(v), np.array(before[a]))
            ck.true("%s in shared memory, not the original buffer" % a, not np.shares_memory(v, before[a]))
        again = dict(vars(p))
        p.inflate()
        ck.true("inflating twice", all(vars(p)[a] is again[a] for a in again if a != "_deflated"))
        p.deflate()
        compare(ck, "deflate after inflate", p, s)
        # an unpickled copy shares the memory
        q = pickle.loads(pk)
        q.inflate()
        compare(ck, "unpickled and inflated", q, s)
        attr = [a for a in hs if before[a].dtype.kind == "f" and before[a].ndim == 2][0]
        old = float(vars(p)[attr][0, 0])
        vars(q)[attr][0, 0] = 12345.0
        ck.true("same memory", float(vars(p)[attr][0, 0]) == 12345.0)
        vars(p)[attr][0, 0] = old
        r = pickle.loads(pk)
        r.inflate()
        del q
        compare(ck, "third user", r, s)
        compare(ck, "first user", p, s)
        r2 = pickle.loads(pk)
        ck.true("pickled handles are handles", set(handles(r2)) == set(hs))
    finally:
        cleanup(hs)


CHILD = """
import sys, pickle
sys.path.insert(0, %r)
from cv import env
import numpy as np
p, want = pickle.load(open(sys.argv[1], "rb"))
p.inflate()
for a, w in want.items():
    v = vars(p)[a]
    assert v.shape == w.shape and v.dtype == w.dtype and (np.array_equal(v, w)), a
    if len(sys.argv) > 2 and v.dtype.kind == "f" and v.ndim == 2:
        v[0, 0] = float(sys.argv[2])
print("same")
"""


@scenario("C25", quick=1, thorough=6)
def other_process(ck, rng, k):
    d = obs_data(rng, flags="mixed")
    p = Tempo2Pulsar(FakeT2(data=d))
    want = {a: np.array(v) for a, v in arrays(p).items()}
    tmp = tempfile.mkdtemp(prefix="cv25_")
    p.deflate()
    hs = dict(handles(p))
    try:
        fn = os.path.join(tmp, "p.pkl")
        with open(fn, "wb") as f:
            pickle.dump((p, want), f)
        sc = os.path.join(tmp, "child.py")
        with open(sc, "w") as f:
            f.write(CHILD % env.VERIF)
        for i in range(2):  # the second user comes after the first one has exited
            r = subprocess.run([sys.executable, sc, fn], capture_output=True, text=True, timeout=120)
            ck.true("user %d in another process reads the same data" % (i + 1), r.stdout.strip() == "same", r.stderr[-800:])
        r = subprocess.run([sys.executable, sc, fn, "777.0"], capture_output=True, text=True, timeout=120)
        ck.true("third user", r.stdout.strip() == "same", r.stderr[-800:])
        p.inflate()
        a = [a for a in hs if want[a].dtype.kind == "f" and want[a].ndim == 2][0]
        ck.true("writes of another process are seen here", float(vars(p)[a][0, 0]) == 777.0)
    finally:
        cleanup(hs)
        shutil.rmtree(tmp, ignore_errors=True)


@scenario("C25", quick=12, thorough=120)
def any_array(ck, rng, k):
    shapes = [(5,), (3, 4), (2, 3, 6), (1,), (7, 1)]
    a = rng.randn(*shapes[k % 5])
    kinds = [lambda: a, lambda: a.astype("f4"), lambda: (a * 10).astype(int), lambda: a > 0, lambda: np.asfortranarray(a),
             lambda: np.array(["a", "bcd", ""]), lambda: a[::-1], lambda: a.astype(complex)]
    v = kinds[k % 8]()
    keep = v.copy()
    h = PulsarInflater(v)
    try:
        ck.same("source kept", v, keep)
        b = pickle.loads(pickle.dumps(h)).inflate()
        ck.true("dtype", b.dtype == keep.dtype)
        ck.same("contents", np.array(b), keep)
        c = h.inflate()
        ck.same("contents", np.array(c), keep)
        b[...] = c[::-1].copy()
        ck.same("shared", np.array(c), keep[::-1])
        v2 = v.copy()
        ck.same("source not aliased", v2, keep)
    finally:
        cleanup({"h": h})
    ck.raises("destroyed handles cannot be inflated", h.inflate, FileNotFoundError)
