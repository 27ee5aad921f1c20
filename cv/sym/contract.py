"""Contracts: registration, and the obligations each one generates from the current source."""
import contextlib, signal, time, traceback
from .. import env
from . import poly as PY
from .poly import P, P0, P1, Poly, Cond, TRUE, FALSE, Unsupported, fresh, atom_of, subst, csubst, conj, disj, neg, cmp0, iverson, ite, decide, assuming, var, app
from . import arr as A
from .arr import SNum, SBool, SArr, Axis, num, arr
from . import exec as E
from . import npf, smt, prove as PR, linalg as LA

REG = {}     # property -> [(functions, name, fn)]


def contract(prop, *functions, thorough=False, limit=120):
    """Registers fn(V) as a contract of the given functions (dotted paths below enterprise.)."""

    def deco(fn):
        for p in prop.split():
            REG.setdefault(p, []).append((functions, fn.__name__, fn, thorough, limit))
        return fn

    return deco


class Failed(Exception):
    pass


class Late(BaseException):
    pass


class V:
    """One contract being verified."""

    def __init__(self, functions, name):
        self.functions, self.name = functions, name
        self.results, self.failed = [], []
        self.loader = E.Loader(env.REPO)
        self.label = ""
        self.returned = 0
        self.writable = []      # arguments that the contract lets a function write to

    # ---- inputs
    def load(self, mod):
        return self.loader.load("enterprise." + mod if not mod.startswith("enterprise") else mod)

    def size(self, name, least=1):
        v = var(name, integer=True)
        PY.SIZES.add(name)
        if least >= 1:
            PY.POS.add(name)
        else:
            PY.NONNEG.add(name)
        if least > 1:
            PY.CTX.append(cmp0("le", P(least) - v))
        return v

    def real(self, name, **k):
        return SNum(var(name, **k))

    def int(self, name, lo=None, hi=None):
        v = var(name, integer=True)
        if lo is not None:
            PY.CTX.append(cmp0("le", P(lo) - v))
        if hi is not None:
            PY.CTX.append(cmp0("lt", v - P(hi)))
        return SNum(v)

    def array(self, name, *sizes, **k):
        return A.sym(name, *sizes, **k)

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.c
        PY.CTX.append(c)

    # ---- execution
    def paths(self, fn):
        ex = E.Explorer(self.name)
        self.ex = ex
        rs = ex.run(fn)
        self.wrote = list(ex.written)
        done = set()
        for name, c, ctx in ex.obls:
            k = (name, c, tuple(ctx))
            if k in done:
                continue
            done.add(k)
            with at(ctx):
                self.record("%s%s" % (self.label, name), c)
        return rs

    def returns(self, fn, post=None, raises=None, label=""):
        """Every feasible path returns and satisfies post(value); or raises an exception allowed by raises(exc) -> condition
        under which it must be raised."""
        old, self.label = self.label, label and label + ": "
        n = 0
        try:
            with explored():
                rs = self.paths(fn)
                for kind, v, ctx in rs:
                    with at(ctx):
                        if not PY.consistent():
                            continue
                        if kind == "ret":
                            n += 1
                            if post is not None:
                                post(v)
                        else:
                            c = raises(v) if raises is not None else None
                            if c is None:
                                self.fail("does not raise", "%s: %s (path: %s)" % (type(v).__name__, v, [PY.show_cond(x) for x in ctx][-4:]),
                                          "".join(traceback.format_exception(v)[-3:]))
                            else:
                                self.record("raises %s only when specified" % type(v).__name__, A.cnd(c))
                self.returned += n
                bad = [x for x in self.wrote if not any(x is y for y in self.writable)]
                self.done("what it is given is not written to", not bad, "%s of %s" % (type(bad[0]).__name__, getattr(bad[0], "name", None) or getattr(bad[0], "axes", "")) if bad else "")
                return n
        finally:
            self.label = old

    def rejects(self, fn, exc=Exception, label="rejected"):
        """Every feasible path raises exc."""
        with explored():
            for kind, v, ctx in self.paths(fn):
                with at(ctx):
                    if not PY.consistent():
                        continue
                    ok = kind == "raise" and isinstance(v, exc)
                    self.done(label, ok, "returned %r" % (v,) if kind == "ret" else "raised %r" % (v,))
        self.returned += 1

    # ---- obligations
    def done(self, name, ok, why="", backend="normal form"):
        name = self.label + name
        (self.results.append(dict(function=", ".join(self.functions), name="%s: %s" % (self.name, name), backend=backend)) if ok
         else self.failed.append(dict(function=", ".join(self.functions), obligation="%s: %s" % (self.name, name), reason=why)))
        return ok

    def fail(self, name, why, extra=""):
        return self.done(name, False, why + ("\n" + extra if extra else ""))

    def record(self, name, c):
        c = A.cnd(c)
        z0 = PY.STAT["z3"]
        ok = PR.holds(c)
        return self.done(name, ok is True, "not proved: %s\n  under %s" % (PY.show_cond(c)[:1500], [PY.show_cond(x) for x in PY.CTX][:12]), "z3" if PY.STAT["z3"] > z0 else "normal form")

    def true(self, name, c):
        return self.record(name, c)

    def eq(self, name, got, want):
        """Equality of numbers, arrays (shape and every element), strings, sequences."""
        try:
            return self._eq(name, got, want)
        except Unsupported as e:
            return self.fail(name, "cannot be compared: %s" % e)

    def _eq(self, name, got, want):
        if want is None or isinstance(want, (str, bool, type)) and not isinstance(want, SArr):
            if isinstance(got, (SBool,)):
                return self.record(name, got == want)
            if isinstance(got, E.SStr):
                return self.record(name, got.eqc(want))
            return self.done(name, type(got) is type(want) and got == want, "got %r, want %r" % (got, want))
        if isinstance(want, E.SStr) or isinstance(got, E.SStr):
            return self.record(name, E.eqcond(got, want))
        if isinstance(want, (tuple, list, E.SSeq)) and not isinstance(got, (SArr,)):
            return self.eqseq(name, got, want)
        z0 = PY.STAT["z3"]
        if got is None or isinstance(got, (str, dict)):
            return self.fail(name, "got %r" % (got,))
        a, b = arr(got), arr(want)
        if len(a.axes) != len(b.axes):
            return self.fail(name, "got %d dimensions, want %d" % (len(a.axes), len(b.axes)))
        for k, (x, y) in enumerate(zip(a.axes, b.axes)):
            if not x.same(y):
                return self.fail(name, "axis %d: got %r, want %r" % (k, x, y))
        vs = [fresh("i") for _ in a.axes]
        if a.dtype_ == "b" and b.dtype_ == "b":
            with assuming(*[x.rng(v) for x, v in zip(a.axes, vs)]):
                p, q = a.elc(*vs), b.elc(*vs)
                c = disj(conj(p, q), conj(neg(p), neg(q)))
                ok = p is q or PR.holds(c)
            return self.done(name, ok is True, "not proved: %s" % PY.show_cond(c)[:1500])
        tr = []
        PR._budget[0] = 0
        with assuming(*[x.rng(v) for x, v in zip(a.axes, vs)]):
            d = a.el(*vs) - b.el(*vs)
            ok = PR.zero(d, trace=tr)
            why = ""
            if not ok:
                why = "at index %s: got %s\n  want %s\n  remaining: %s\n  under %s" % (
                    [v.key for v in vs], PY.show(a.el(*vs))[:1500], PY.show(b.el(*vs))[:1500], PY.show(tr[0][0])[:1500] if tr else "?",
                    [PY.show_cond(c) for c in (tr[0][1] if tr else PY.CTX)][:12])
        return self.done(name, ok, why, "z3 and normal form" if PY.STAT["z3"] > z0 else "normal form")

    def eqseq(self, name, got, want):
        g, w = E.seq(got), E.seq(want)
        if len(g.parts) != len(w.parts):
            if all(isinstance(p, E.Elem) for p in g.parts + w.parts):
                return self.fail(name, "got %d elements, want %d" % (len(g.parts), len(w.parts)))
            return self.fail(name, "got %r, want %r" % (g, w))
        for j, (p, q) in enumerate(zip(g.parts, w.parts)):
            if isinstance(p, E.Elem) and isinstance(q, E.Elem):
                self.eq("%s[%d]" % (name, j), p.value, q.value)
            elif isinstance(p, E.Seg) and isinstance(q, E.Seg):
                if not p.axis.same(q.axis):
                    return self.fail(name, "range %r, want %r" % (p.axis, q.axis))
                v = fresh("i")
                with assuming(p.axis.rng(v)):
                    self.eq("%s[i]" % name, p.get(v), q.get(v))
            else:
                return self.fail(name, "got %r, want %r" % (g, w))
        return True


@contextlib.contextmanager
def at(ctx):
    base = len(PY.CTX)
    PY.CTX.extend(ctx)
    try:
        yield
    finally:
        del PY.CTX[base:]


@contextlib.contextmanager
def explored():
    """After the exploration the explorer stays in force for the postconditions: branching there is refused."""
    old = A.EXPLORER[0]
    try:
        yield
    finally:
        pass


def verify(functions, name, fn, limit):
    """(results, failed, side conditions)"""
    PY.reset()
    smt.FACTS.clear()
    E.FOR_INVARIANTS.clear()
    del E.STATES[:]
    E.APART.clear()
    E.INCREMENTS.clear()
    npf.RANDOM.reset()
    LA.CALLS.clear()
    npf.SORTS.clear()
    v = V(functions, name)

    def late(*a):
        raise Late()

    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(limit)
    try:
        fn(v)
        if not PY.consistent():
            v.fail("the assumptions of the contract are consistent", "contradictory")
        elif not v.results and not v.failed:
            v.fail("the contract generates obligations", "none")
        elif v.returned == 0:
            v.fail("a path of the function completes", "none does")
    except Late:
        v.fail("verification within %d s" % limit, "time limit")
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/enterprise/" in f.filename][-1:]
        v.fail("verification conditions can be generated", "%s%s" % (e, " (%s:%d)" % (where[0].filename, where[0].lineno) if where else "") + "\n" + "".join(traceback.format_tb(e.__traceback__)[-4:]))
    except RecursionError as e:
        v.fail("verification conditions can be generated", "recursion limit\n" + "".join(traceback.format_tb(e.__traceback__)[-4:]))
    except Exception as e:
        v.fail("verification conditions can be generated", "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-5:])))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return v, dict(PY.SIDE)
