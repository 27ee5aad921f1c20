"""Runtime assertion checking: contracts evaluated on the real code with concrete, seeded inputs.

This is the replay side of the framework: a failed proof obligation is looked for here as a concrete failing
input on the real code, and the scenarios that cover whole-object behaviour (several functions together) are the
bounded stand-ins; nothing counted here is counted as proved."""
import hashlib, os, random, signal, time, traceback
import numpy as np
from . import env  # noqa: F401

SCEN = {}  # property -> list of (name, func, n_quick, n_thorough)


class Violation(Exception):
    pass


def scenario(prop, quick=6, thorough=None):
    def deco(f):
        SCEN.setdefault(prop, []).append((f.__name__, f, quick, thorough or quick * 12))
        return f

    return deco


def _short(a):
    try:
        return np.array2string(np.asarray(a), precision=8, threshold=12, edgeitems=3)
    except Exception:
        return repr(a)[:300]


class Ck:
    def __init__(self, where):
        self.where, self.n, self.notes = where, 0, []

    def fail(self, label, msg):
        raise Violation("%s: %s: %s" % (self.where, label, msg))

    def true(self, label, cond, msg=""):
        self.n += 1
        if not cond:
            self.fail(label, msg or "does not hold")

    def same(self, label, got, want):
        """Exact equality (arrays: shape, values)."""
        self.n += 1
        if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            ok = g.shape == w.shape and (
                np.array_equal(g, w, equal_nan=True) if g.dtype.kind in "fc" and w.dtype.kind in "fc" else np.array_equal(g, w)
            )
        else:
            ok = got == want
        if not ok:
            self.fail(label, "got %s, want %s" % (_short(got), _short(want)))

    def close(self, label, got, want, rtol=1e-9, atol=0.0, elem=False):
        """|got-want| <= rtol*scale + atol; scale is the largest |want| (or per element)."""
        self.n += 1
        if got is None:
            self.fail(label, "got None")
        try:
            g = np.asarray(got.toarray() if hasattr(got, "toarray") else got, dtype=None)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(float)
        except Exception as e:
            self.fail(label, "not comparable: %r (%s)" % (got, e))
        if g.shape != w.shape:
            self.fail(label, "shape %s, want %s" % (g.shape, w.shape))
        if w.size == 0:
            return
        if g.dtype.kind not in "biufc" or w.dtype.kind not in "biufc":
            self.fail(label, "not numeric: %r" % (g.dtype,))
        nan = np.isnan(w)
        if not np.array_equal(np.isnan(g), nan):
            self.fail(label, "NaN pattern differs: got %s, want %s" % (_short(g), _short(w)))
        inf = np.isinf(w)
        if not np.array_equal(np.where(inf, g, 0)[inf], w[inf]) or not np.array_equal(np.isinf(g), inf):
            self.fail(label, "infinities differ: got %s, want %s" % (_short(g), _short(w)))
        fin = ~(nan | inf)
        if not fin.any():
            return
        d = np.abs(np.where(fin, g, 0) - np.where(fin, w, 0))
        sc = np.abs(np.where(fin, w, 0))
        bound = rtol * (sc if elem else sc.max()) + atol
        if np.any(d > bound):
            i = np.unravel_index(np.argmax(d - bound), d.shape) if d.shape else ()
            self.fail(label, "max deviation %.3e (bound %.3e) at %s: got %s, want %s"
                      % (d[i], np.max(bound), i, _short(g[i] if i else g), _short(w[i] if i else w)))

    def raises(self, label, fn, exc=Exception):
        self.n += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            self.fail(label, "raised %r, expected %s" % (e, exc))
        self.fail(label, "returned %s, expected an exception" % _short(r))


LIMIT = 150  # seconds


def _overtime(signum, frame):
    raise TimeoutError("the case did not end within %d s" % LIMIT)


def seed_of(seed, prop, name, k):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, name, k)).encode()).digest()
    return int.from_bytes(h[:4], "big")


def run_one(prop, name, fn, seed, k):
    s = seed_of(seed, prop, name, k)
    rng = np.random.RandomState(s)
    np.random.seed(s % (2**31))
    random.seed(s)
    ck = Ck("%s/%s[case %d, seed %d]" % (prop, name, k, seed))
    t0 = time.time()
    err = None
    with np.errstate(all="ignore"):
        try:
            # the functions under contract terminate; cases take well under a second
            signal.signal(signal.SIGALRM, _overtime)
            signal.alarm(LIMIT)
            try:
                fn(ck, rng, k)
            finally:
                signal.alarm(0)
        except Violation as e:
            err = str(e)
        except Exception as e:
            err = "%s: raised %s: %s\n%s" % (ck.where, type(e).__name__, e, traceback.format_exc())
    return err, ck, time.time() - t0


def run(prop, seed, thorough=False, budget=None, only=None):
    """Returns (violations, stats)."""
    t0 = time.time()
    viol, nev, ncase, samples, names, seen = [], 0, 0, [], [], set()
    for name, fn, nq, nt in SCEN.get(prop, []):
        if only and name != only:
            continue
        n0 = nev
        for k in range(nt if thorough else nq):
            if budget and time.time() - t0 > budget:
                break
            err, ck, dt = run_one(prop, name, fn, seed, k)
            nev += ck.n
            ncase += 1
            if ck.n:
                seen.add((name, k))
            if k == 0:
                samples.append({"scenario": name, "case": k, "assertions": ck.n, "notes": ck.notes[:6]})
            if err:
                viol.append({"scenario": name, "case": k, "seed": seed, "message": err})
                break
        names.append(name)
        if nev == n0 and not viol:
            viol.append({"scenario": name, "case": -1, "seed": seed, "message": "scenario evaluated no assertion (vacuous)"})
    return viol, dict(scenarios=names, cases=ncase, nontrivial=len(seen), assertions=nev, samples=samples, wall=time.time() - t0)
