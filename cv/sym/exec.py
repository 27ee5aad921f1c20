"""Symbolic execution of the real source of /repo.

load(name) compiles a module of the package from the working tree after a mechanical transformation (loops and
comprehensions announce themselves to the verifier, container literals become recording containers, `is` goes through
a function), with numpy and scipy replaced by the trusted contracts of cv.sym.npf. Nothing else of the text changes:
every expression and statement of a function runs as written, on symbolic values."""
import ast, builtins, os, re, string, sys, types, functools, inspect as _inspect
import numpy as _np
from . import poly as PY
from .poly import P, P0, P1, Poly, Cond, TRUE, FALSE, Unsupported, fresh, atom_of, subst, csubst, conj, disj, neg, cmp0, iverson, ite, decide, assuming
from . import arr as A
from .arr import SNum, SBool, SArr, Axis, wrap_size, num, arr, is_scalar


# ------------------------------------------------------------------------------------------------ values
class Poison:
    """A value the verifier does not know (e.g. a loop variable after the loop): any use is refused."""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _no(self, *a, **k):
        raise Unsupported("use of an unknown value: %s" % object.__getattribute__(self, "_why"))

    __getattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __mul__ = __eq__ = _no
    __hash__ = object.__hash__


UNDEF = Poison("undefined variable")


class SStr:
    """A symbolic string: a concatenation of literals and abstract keys name(args)."""

    def __init__(self, *parts):
        out = []
        for p in parts:
            for q in p.parts if isinstance(p, SStr) else (p,):
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def __add__(self, o):
        return SStr(self, o) if isinstance(o, (str, SStr)) else NotImplemented

    def __radd__(self, o):
        return SStr(o, self) if isinstance(o, (str, SStr)) else NotImplemented

    def __hash__(self):
        return hash(self.parts)

    def __bool__(self):
        return bool(self.parts)  # abstract keys are non-empty strings

    def eqc(self, o):
        if isinstance(o, str):
            o = SStr(o)
        if not isinstance(o, SStr):
            return FALSE
        if self.parts == o.parts:
            return TRUE
        for x, y in ((self, o), (o, self)):
            if len(x.parts) == 1 and x.parts[0][0] == "chars" and not isinstance(x.parts[0], str):
                return cmp0("eq", x.__cv_code__() - y.__cv_code__())
        a, b = list(self.parts), list(o.parts)
        while a and b and isinstance(a[0], str) and isinstance(b[0], str):
            n = min(len(a[0]), len(b[0]))
            if a[0][:n] != b[0][:n]:
                return FALSE
            a[0], b[0] = a[0][n:], b[0][n:]
            a, b = [x for x in a if x], [x for x in b if x]
        while a and b and isinstance(a[-1], str) and isinstance(b[-1], str):
            n = min(len(a[-1]), len(b[-1]))
            if a[-1][len(a[-1]) - n:] != b[-1][len(b[-1]) - n:]:
                return FALSE
            a[-1], b[-1] = a[-1][:len(a[-1]) - n], b[-1][:len(b[-1]) - n]
            a, b = [x for x in a if x], [x for x in b if x]
        if len(a) == 1 and len(b) == 1 and not isinstance(a[0], str) and not isinstance(b[0], str) and a[0][0] == b[0][0]:
            return conj(*[cmp0("eq", x - y) for x, y in zip(a[0][1], b[0][1])])
        if not a or not b:
            return FALSE  # abstract keys are non-empty
        for x, y in ((a, b), (b, a)):
            if len(x) == len(y) == 1 and not isinstance(x[0], str) and (x[0][0], y[0] if isinstance(y[0], str) else y[0][0]) in APART:
                return FALSE
        return PY.Cond("pred", "streq|%s|%s" % tuple(sorted([repr(a), repr(b)])), ())

    def __eq__(self, o):
        return A.EXPLORER[0].branch(self.eqc(o))

    def __ne__(self, o):
        return not self == o

    def __cv_code__(self):
        """The number of the string (see arr.code)."""
        cs = [P(A.code(p)) if isinstance(p, str) else p[1][0] if p[0] == "chars" else PY.app("code:" + p[0], *p[1]) for p in self.parts]
        if len(cs) == 1:
            return cs[0]
        if not cs:
            return P0
        if not any(isinstance(p, str) or p[0] != "chars" for p in self.parts):
            raise Unsupported("joining strings that may be empty")
        name = "cat%d" % len(cs)
        PY.INTS.add(name)
        PY.POS.add(name)
        return PY.app(name, *cs)

    def __cv_subst__(self, env):
        return SStr(*[p if isinstance(p, str) else (p[0], tuple(subst(x, env) for x in p[1])) for p in self.parts])

    def _pred(self, name, arg):
        return SBool(PY.Cond("pred", "%s|%r|%r" % (name, self.parts, arg if not isinstance(arg, SStr) else arg.parts), ()))

    def startswith(self, s):
        if self.parts and isinstance(self.parts[0], str) and isinstance(s, str):
            if len(s) <= len(self.parts[0]):
                return self.parts[0].startswith(s)
            if not s.startswith(self.parts[0]):
                return False
        if isinstance(s, SStr) and self.parts[: len(s.parts)] == s.parts:
            return True
        return self._pred("startswith", s)

    def endswith(self, s):
        if self.parts and isinstance(self.parts[-1], str) and len(self.parts[-1]) >= len(s):
            return self.parts[-1].endswith(s)
        return self._pred("endswith", s)

    def __contains__(self, s):
        if isinstance(s, SStr) and any(self.parts[i:i + len(s.parts)] == s.parts for i in range(len(self.parts))):
            return True
        return bool(self._pred("contains", s))

    def __format__(self, spec):
        raise Unsupported("format of a symbolic string")

    def __repr__(self):
        return "SStr(%s)" % "+".join(p if isinstance(p, str) else "<%s%s>" % (p[0], p[1]) for p in self.parts)


APART = set()  # (family, string or family): no key of the family is that string


def percent(s, a):
    """s % a"""
    a = a if isinstance(a, builtins.tuple) else (a,)
    if not isinstance(s, str) or not any(isinstance(e, (SStr, SNum)) for e in a):
        return s % (a if builtins.len(a) != 1 else a[0])
    out, k, i = [], 0, 0
    for m in re.finditer(r"%([sd%])|%.", s):
        if m.group(1) is None:
            raise Unsupported("format %r of a symbolic value" % m.group(0))
        out.append(s[i:m.start()])
        i = m.end()
        if m.group(1) == "%":
            out.append("%")
            continue
        v, k = a[k], k + 1
        out.append(v if isinstance(v, SStr) and m.group(1) == "s" else decimal(v) if isinstance(v, SNum) and v.p.const is None else ("%" + m.group(1)) % v)
    if k != builtins.len(a):
        raise TypeError("not all arguments converted during string formatting")
    return SStr(*out, s[i:])


class Chars(SStr):
    """An element of an array of strings, by its code."""

    def __init__(self, code):
        self.parts = (("chars", (P(code),)),)

    def __hash__(self):
        return hash(self.parts)

    def __bool__(self):
        return A.EXPLORER[0].branch(neg(cmp0("eq", self.__cv_code__())))

    def __eq__(self, o):
        return A.EXPLORER[0].branch(self.eqc(o))

    def __cv_subst__(self, env):
        return Chars(subst(self.__cv_code__(), env))

    def __contains__(self, s):
        c = s.__cv_code__() if isinstance(s, SStr) else P(A.code(s))
        return True if c.const == 0 else A.EXPLORER[0].branch(PY.pred("contains", self.__cv_code__(), c))

    def __cv_in__(self, s):
        c = s.__cv_code__() if isinstance(s, SStr) else P(A.code(s))
        return True if c.const == 0 else SBool(PY.pred("contains", self.__cv_code__(), c))


A.HOOKS["string"] = Chars


class Format(str):
    """A literal whose format method accepts symbolic strings."""

    def format(self, *a, **k):
        if not any(isinstance(e, (SStr, SNum)) for e in list(a) + list(k.values())):
            return str.format(self, *a, **k)
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(self):
            out.append(lit)
            if field is None:
                continue
            if field == "":
                v, auto = a[auto], auto + 1
            elif field.isdigit():
                v = a[builtins.int(field)]
            elif field in k:
                v = k[field]
            else:
                raise Unsupported("format field %r" % field)
            if isinstance(v, SStr):
                if spec or conv:
                    raise Unsupported("format of a symbolic string")
                out.append(v)
            elif isinstance(v, SNum) and v.p.const is None:
                out.append(decimal(v, spec, conv))
            else:
                v = (builtins.int(v.p.const) if v.p.const.denominator == 1 and PY.is_int_poly(v.p) else builtins.float(v.p.const)) if isinstance(v, SNum) else v
                out.append(str.format("{%s%s}" % ("!" + conv if conv else "", ":" + spec if spec else ""), v))
        return SStr(*out)


def decimal(v, spec="", conv=None):
    """The decimal digits of a number."""
    if spec not in ("", "d") or conv:
        raise Unsupported("format of a symbolic number")
    return key("decimal" if PY.is_int_poly(num(v)) else "repr", num(v))


def key(name, *args):
    return SStr((name, tuple(P(a) for a in args)))


class Obj:
    """A record standing for an object given by its contract."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def vsubst(v, env, ctx=()):
    """The value v with the given index variables replaced; its terms are built under the assumptions ctx."""
    if v is None or isinstance(v, (bool, int, float, str, type, _np.generic, types.FunctionType, types.ModuleType)):
        return v
    if isinstance(v, SNum):
        return SNum(subst(v.p, env))
    if isinstance(v, Poly):
        return subst(v, env)
    if isinstance(v, SBool):
        return SBool(csubst(v.c, env))
    if isinstance(v, Cond):
        return csubst(v, env)
    if isinstance(v, SArr):
        f = v.snap()
        ctx = tuple(ctx)

        def g(*idx):
            with assuming(*ctx):
                r = f(*idx)
            return csubst(r, env) if isinstance(r, Cond) else subst(r, env)

        def ax(a):
            if a.cond is None:
                return Axis(subst(a.n, env))
            c = a.cond

            def h(i):
                with assuming(*ctx):
                    r = c(i)
                return csubst(r, env)

            return Axis(subst(a.n, env), h)

        return SArr([ax(a) for a in v.axes], g, v.dtype_)
    if isinstance(v, (tuple, list)) and type(v) in (tuple, list):
        return type(v)(vsubst(x, env, ctx) for x in v)
    if isinstance(v, slice):
        return slice(*[vsubst(x, env, ctx) for x in (v.start, v.stop, v.step)])
    if hasattr(v, "__cv_subst__"):
        try:
            return v.__cv_subst__(env, ctx)
        except TypeError:
            return v.__cv_subst__(env)
    if isinstance(v, CvList) and v.concrete():
        return CvList([vsubst(x, env, ctx) for x in v.items()])
    if isinstance(v, CvList):
        return CvList(vsubst(seq(v), env, ctx))
    if isinstance(v, CvDict) and v.concrete():
        return CvDict({k: vsubst(x, env, ctx) for k, x in v.items()})
    if isinstance(v, CvDict):
        d = CvDict()
        for e in v.parts():
            if isinstance(e, DSeg):
                raise Unsupported("a dict of many entries in a symbolic loop")
            d._set(vsubst(e[0], env, ctx), vsubst(e[1], env, ctx))
        return d
    if isinstance(v, functools.partial):
        return functools.partial(v.func, *[vsubst(x, env, ctx) for x in v.args], **{k: vsubst(x, env, ctx) for k, x in v.keywords.items()})
    if isinstance(v, _np.ndarray):
        return v
    if isinstance(v, Obj):
        o = object.__new__(type(v))
        o.__dict__.update({k: vsubst(x, env, ctx) for k, x in v.__dict__.items()})
        o.__dict__["_copy"] = True
        return o
    if callable(v) and not hasattr(v, "__dict__"):
        return v
    return v


class Choice:
    """A value not known before a condition is decided: used once it is."""

    def _use(op):
        def f(self, *a, **k):
            r = resolve(self)
            if r is self:
                raise Unsupported(self.WHAT)
            return op(r, *a, **k)
        return f

    import operator as _o
    __call__, __getitem__, __setitem__, __iter__, __len__, __bool__ = map(_use, (lambda r, *a, **k: r(*a, **k), _o.getitem, _o.setitem, iter, len, bool))
    __add__, __mul__, __sub__ = map(_use, (_o.add, _o.mul, _o.sub))
    __radd__, __rmul__, __rsub__ = map(_use, (lambda r, x: x + r, lambda r, x: x * r, lambda r, x: x - r))
    __eq__ = _use(_o.eq)
    __hash__ = object.__hash__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = resolve(self)
        if r is self:
            raise Unsupported(self.WHAT)
        return getattr(r, name)

    def __cv_resolve__(self):
        return resolve(self)


class Maybe(Choice):
    """The value if the condition holds, otherwise None."""

    def __init__(self, c, v):
        self.c, self.v = c, v

    def __cv_subst__(self, env, ctx=()):
        return Maybe(csubst(self.c, env), vsubst(self.v, env, tuple(ctx) + (self.c,)))

    WHAT = "use of a value that may be None"


class Cases(Choice):
    """Values of different kinds, each under its condition."""

    def __init__(self, cases):
        self.cases = cases

    def __cv_subst__(self, env, ctx=()):
        return Cases([(csubst(c, env), vsubst(v, env, tuple(ctx) + (c,))) for c, v in self.cases])

    WHAT = "use of a value of one of several kinds"


def merge_any(c, a, b):
    try:
        if not isinstance(b, Cases):
            return merge(c, a, b)
    except Unsupported:
        b = Cases([(TRUE, b)])
    return Cases([(c, a)] + [(conj(neg(c), d), v) for d, v in b.cases])


def resolve(v):
    if isinstance(v, Cases):
        live = [(c, x) for c, x in v.cases if decide(c) is not False]
        return live[0][1] if len(live) == 1 or live and decide(live[0][0]) is True else v
    if isinstance(v, Maybe):
        d = decide(v.c)
        return v.v if d is True else None if d is False else v
    return v


def merge(c, a, b):
    """a if c else b."""
    if a is b:
        return a
    if (a is None) != (b is None) or isinstance(a, Maybe) or isinstance(b, Maybe):
        parts = []
        for d, x in ((c, a), (neg(c), b)):
            if isinstance(x, Maybe):
                parts.append((conj(d, x.c), x.v))
            elif x is not None:
                parts.append((d, x))
        if len(parts) == 1:
            return Maybe(*parts[0])
        return Maybe(disj(*[d for d, _ in parts]), merge(parts[0][0], parts[0][1], parts[1][1]))
    d = decide(c)
    if d is True:
        return a
    if d is False:
        return b
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Poison("known on one branch only")
    if isinstance(a, SBool) or isinstance(b, SBool) or (isinstance(a, bool) and isinstance(b, bool)):
        x, y = A.cnd(a), A.cnd(b)
        return SBool(disj(conj(c, x), conj(neg(c), y)))
    if is_scalar(a) and is_scalar(b):
        return SNum(ite(c, num(a), num(b)))
    if isinstance(a, (SArr, _np.ndarray)) or isinstance(b, (SArr, _np.ndarray)):
        x, y = arr(a), arr(b)
        if len(x.axes) != len(y.axes) or not all(p.same(q) for p, q in zip(x.axes, y.axes)):
            raise Unsupported("arrays of different shapes on two branches")
        f, g = x.snap(), y.snap()

        def h(*i):
            with assuming(c):
                u = f(*i)
            with assuming(neg(c)):
                w = g(*i)
            return A.sel(c, u, w)

        return SArr(x.axes, h, x.dtype_ if x.dtype_ == y.dtype_ else "f")
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_any(c, x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and (isinstance(a, str) or isinstance(b, str) or a.parts != b.parts):
        x, y = [P(A.code(e)) if isinstance(e, str) else e.__cv_code__() for e in (a, b)]
        return Chars(ite(c, x, y))
    if isinstance(a, SStr) and isinstance(b, SStr) and a.parts == b.parts:
        return a
    if isinstance(a, A.WhereIdx) and isinstance(b, A.WhereIdx):
        return A.WhereIdx(merge(c, a.mask, b.mask))
    if isinstance(a, slice) and isinstance(b, slice) and all((getattr(a, k) is None) == (getattr(b, k) is None) for k in ("start", "stop", "step")):
        return slice(*[None if getattr(a, k) is None else merge(c, getattr(a, k), getattr(b, k)) for k in ("start", "stop", "step")])
    if hasattr(a, "__cv_merge__"):
        return a.__cv_merge__(c, b)
    if isinstance(a, list) and isinstance(b, list) and type(a) is type(b) is list and len(a) == len(b):
        return [merge(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Obj) and type(a) is type(b) and a.__dict__.keys() == b.__dict__.keys():
        o = object.__new__(type(a))
        o.__dict__.update({k: merge(c, a.__dict__[k], b.__dict__[k]) for k in a.__dict__})
        return o
    raise Unsupported("values of different kinds on two branches: %r, %r" % (a, b))


# ------------------------------------------------------------------------------------------------ sequences
class Seg:
    """A run of elements get(i), i over an axis (in index order)."""

    def __init__(self, axis, get):
        self.axis, self.get = axis, get


KEPT = {}


def kept(axis):
    """The elements an axis with a condition keeps, numbered: their number, the c-th of them, and the place of one of them among them."""
    from . import smt

    v = PY.var("#kept", integer=True)
    with assuming(axis.rng(v)):
        c = axis.cond(v)
    total = axis.length()
    if total.const == 0:
        return total, lambda j: P(j), lambda e: P(e)
    if "acc~" in c.key or "acc~" in total.key:
        raise Unsupported("positions that change in a loop")
    # the condition may depend on loop variables: these are arguments of the symbols
    free = PY.loop_variables(c, axis.n, but=v)
    canon = [PY.var("#kept.%d" % j, integer=True) for j in builtins.range(builtins.len(free))]
    key = (csubst(c, dict(zip(free, canon))), subst(axis.n, dict(zip(free, canon))))
    no = KEPT.setdefault(key, builtins.len(KEPT))
    name, pos = "kept%d" % no, "place%d" % no
    PY.INTS.update([name, pos])
    if not free:
        PY.INJECTIVE.add(name)
    args = [P(x) for x in free]
    rng = lambda p, n: conj(cmp0("le", -p), cmp0("lt", p - n))
    tot = subst(total, dict(zip(free, canon)))

    def parts(at):
        env = {atom_of(x): y for x, y in zip(canon, at.args[:-1])}
        n, m = subst(key[1], env), subst(tot, env)
        return at.args[-1], m, n, lambda e: csubst(key[0], {**env, atom_of(v): P(e)})

    def fact_get(at):
        j, m, n, cond = parts(at)
        return disj(neg(rng(j, m)), conj(rng(P(at), n), cond(P(at))))

    def fact_pos(at):
        e, m, n, cond = parts(at)
        return disj(neg(conj(rng(e, n), cond(e))), conj(rng(P(at), m), cmp0("eq", PY.app(name, *at.args[:-1], P(at)) - e)))

    smt.FACTS[name], smt.FACTS[pos] = fact_get, fact_pos
    return total, lambda j: PY.app(name, *args, P(j)), lambda e: PY.app(pos, *args, P(e))


def flatten(outer, inner):
    """The sequence of pairs (k, c), k over the outer axis and c over the axis inner(k), in this order: its length and
    the two coordinates of its p-th element (the same symbols for the same sizes)."""
    from . import smt

    v = PY.var("#flat.k", integer=True)
    with assuming(outer.rng(v)):
        a = inner(v)
    if a.cond is not None:
        raise Unsupported("flattening filtered sequences")
    an = a.n if outer.cond is None else iverson(outer.cond(v)) * a.n       # elements filtered out: no places
    size = lambda k: subst(an, {atom_of(v): P(k)})
    k = fresh("k")
    total = PY.summation(k, outer.n, size(k))
    g, o = "#group[%s;%s]" % (outer.n.key, an.key), "#offset[%s;%s]" % (outer.n.key, an.key)
    rng = lambda p: conj(cmp0("le", -p), cmp0("lt", p - total))
    grp, off = lambda p: PY.app(g, P(p)), lambda p: PY.app(o, P(p))
    PY.INTS.update((g, o))
    smt.FACTS[g] = lambda at: disj(neg(rng(at.args[0])), conj(cmp0("le", -P(at)), cmp0("lt", P(at) - outer.n), outer.cond(P(at)) if outer.cond is not None else TRUE))
    smt.FACTS[o] = lambda at: disj(neg(rng(at.args[0])), conj(cmp0("le", -P(at)), cmp0("lt", P(at) - size(grp(at.args[0])))))
    return Axis(total), grp, off


class Nest:
    """For each i over an axis, the elements of the parts get(i): the result of nested comprehensions. Only its set of
    elements is used."""

    def __init__(self, axis, get):
        self.axis, self.get = axis, get


class SSeq:
    """A symbolic sequence: segments and single elements."""

    def __init__(self, parts):
        self.parts = list(parts)

    @staticmethod
    def of(n, get):
        return SSeq([Seg(Axis(P(n)), get)])

    def length(self):
        r = P0
        for p in self.parts:
            r = r + (p.axis.length() if isinstance(p, Seg) else P1)
        return r

    def __len__(self):
        r = self.length()
        if r.const is None:
            raise Unsupported("native len of a symbolic sequence")
        return int(r.const)

    def __bool__(self):
        return bool(SBool(neg(cmp0("eq", self.length()))))

    def at(self, i):
        off = P0
        for k, p in enumerate(self.parts):
            ln = p.axis.length() if isinstance(p, Seg) else P1
            if k == len(self.parts) - 1 or decide(cmp0("lt", i - off - ln)) is True:
                if not isinstance(p, Seg):
                    A.EXPLORER[0].need(cmp0("eq", i - off), IndexError, "list index out of range")
                    return p.value
                if p.axis.cond is not None:
                    j = i - off
                    if j.const == 0 or (k == len(self.parts) - 1 and (j - ln).const == -1):
                        return p.get(extreme_index(p.axis, j.const == 0))
                    raise Unsupported("element of a filtered sequence")
                A.EXPLORER[0].need(conj(cmp0("le", off - i), cmp0("lt", i - off - ln)), IndexError, "list index out of range")
                return p.get(i - off)
            if decide(cmp0("lt", i - off - ln)) is None:
                raise Unsupported("index into a concatenation")
            off = off + ln
        raise IndexError("list index out of range")

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None):
                return SSeq(self.parts)
            if i.step in (None, 1) and len(self.parts) == 1 and isinstance(self.parts[0], Seg) and self.parts[0].axis.cond is None:
                a, g = self.parts[0].axis, self.parts[0].get
                na, fwd, _ = SArr._slice(a, i)
                return SSeq([Seg(na, lambda j: g(fwd(j)))])
            raise Unsupported("slice of a symbolic list")
        i = num(i)
        if i.const is not None and i.const < 0:
            i = i + self.length()
        return self.at(i)

    def __add__(self, o):
        return SSeq(self.parts + seq(o).parts)

    def __radd__(self, o):
        return SSeq(seq(o).parts + self.parts)

    def __iter__(self):
        if all(not isinstance(p, Seg) for p in self.parts):
            return iter([p.value for p in self.parts])
        n = self.length().const
        if n is not None and all(not isinstance(p, Seg) or p.axis.cond is None for p in self.parts):
            return iter([self.at(P(j)) for j in range(int(n))])
        raise Unsupported("native iteration over a symbolic sequence")

    def __contains__(self, x):
        cs = []
        for p in self.parts:
            if isinstance(p, Seg):
                v = fresh("m")
                with assuming(p.axis.rng(v)):
                    e = eqcond(p.get(v), x)
                c = conj(e, p.axis.cond(v)) if p.axis.cond else e
                cs.append(neg(PY.forall(atom_of(v), p.axis.n, neg(c))) if atom_of(v) in c.fv else conj(c, cmp0("lt", -p.axis.n)))
            else:
                cs.append(eqcond(p.value, x))
        return bool(SBool(disj(*cs)))

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic sequences")

    __hash__ = object.__hash__

    def __cv_array__(self):
        """numpy.array of the sequence."""
        if all(not isinstance(p, Seg) for p in self.parts):
            return arr([p.value for p in self.parts])
        if len(self.parts) != 1:
            return A.concat([SSeq([p]).__cv_array__() for p in self.parts])
        p = self.parts[0]
        v = fresh("r")
        with assuming(p.axis.rng(v)):
            e = arr(p.get(v))
        f = e.snap()

        def g(i, *rest):
            with assuming(p.axis.rng(v)):
                r = f(*rest)
            return csubst(r, {atom_of(v): i}) if isinstance(r, Cond) else subst(r, {atom_of(v): i})

        for a in e.axes:
            if atom_of(v) in a.n.fv:
                raise Unsupported("ragged symbolic array")
        return SArr((p.axis,) + tuple(e.axes), g, e.dtype_)

    def index(self, x):
        raise Unsupported("list.index")

    def map(self, f):
        return SSeq([Seg(p.axis, lambda i, p=p: f(p.get(i))) if isinstance(p, Seg) else Elem(f(p.value)) for p in self.parts])

    def __cv_subst__(self, env, ctx=()):
        def go(p):
            if isinstance(p, Seg):
                c = p.axis.cond

                def get(i):
                    more = tuple(ctx) + (p.axis.rng(P(i)),)
                    with assuming(*more):
                        e = p.get(i)
                    return vsubst(e, env, more)

                return Seg(Axis(subst(p.axis.n, env), None if c is None else (lambda i: csubst(c(i), env))), get)
            return Elem(vsubst(p.value, env, ctx))

        return SSeq([go(p) for p in self.parts])

    def __repr__(self):
        return "SSeq(%s)" % ", ".join(repr(p.axis) if isinstance(p, Seg) else "1" for p in self.parts)


def extreme_index(axis, first):
    """The first or last index of a filtered axis (IndexError when there is none)."""
    v = fresh("f")
    c = axis.cond
    with assuming(cmp0("le", -v), cmp0("lt", v - axis.n)):
        cv = c(v)
    # an index that the condition determines
    va, cand, todo = atom_of(v), [], [cv]
    while todo:
        x = todo.pop()
        if isinstance(x, Cond):
            todo.extend(x.args)
        else:
            for mm in x.t:
                for b, _ in mm:
                    for y in b.args:
                        if isinstance(y, Poly):
                            if va not in y.fv and y.const is None and PY.is_int_poly(y) and y not in cand:
                                cand.append(y)
                            todo.append(y)
    for t in cand[:4]:
        w = fresh("f")
        if decide(conj(cmp0("le", -t), cmp0("lt", t - axis.n), csubst(cv, {va: t}))) is not True:
            continue
        with assuming(cmp0("le", -w), cmp0("lt", w - axis.n), csubst(cv, {va: w})):
            if decide(cmp0("eq", w - t)) is True:
                return t
    A.EXPLORER[0].need(neg(PY.forall(atom_of(v), axis.n, neg(cv))), IndexError, "list index out of range")
    k = PY.lam_atom("first" if first else "last", "", [axis.n], [lambda i: iverson(c(i))], [])
    PY.CTX.extend([cmp0("le", -k), cmp0("lt", k - axis.n), c(k),
                   PY.forall(atom_of(v), axis.n, disj(neg(cv), cmp0("le", k - v) if first else cmp0("le", v - k)))])
    return k


A.HOOKS["extreme"] = extreme_index


def atom_or_none(p):
    (m, c), = p.t.items() if len(p.t) == 1 else [((), 0)]
    return m[0][0] if c == 1 and len(m) == 1 and m[0][1] == 1 else None


def same_element(r, a):
    """Elements of the array of `a` that a bracket in the same monomial identifies with `a` (by [i == t] i -> t) are `a`."""
    out = P0
    for m, c in r.t.items():
        others = [b for b, _ in m if b.kind == "f" and b.name == a.name and b is not a]
        if others:
            cs = [b.args[0] for b, _ in m if b.kind == "I"]
            md = dict(m)
            for b in others:
                with assuming(*cs):
                    same = len(b.args) == len(a.args) and all(decide(cmp0("eq", x - y)) is True for x, y in zip(b.args, a.args))
                if same:
                    md[a] = md.get(a, 0) + md.pop(b)
            m = tuple(sorted(md.items(), key=lambda x: x[0].key))
        out = out + Poly({m: c})
    return out


class Elem:
    def __init__(self, value):
        self.value = value


def symkey(x):
    """A value whose equality with others is a condition (tuples and sequences of symbolic values included)."""
    if isinstance(x, builtins.tuple):
        return any(symkey(e) for e in x)
    return isinstance(x, (SStr, SSeq, Cases)) or (isinstance(x, SNum) and x.p.const is None) or hasattr(x, "__cv_eq__")


def eqseqs(a, b):
    """Equality of two tuples."""
    pa, pb = [p for p in a.parts if not empty_part(p)], [p for p in b.parts if not empty_part(p)]
    if not pa or not pb or (len(pa) == len(pb) and all(isinstance(p, Elem) for p in pa + pb)):
        if len(pa) == len(pb):
            return conj(*[eqcond(x.value, y.value) for x, y in zip(pa, pb)])
        return cmp0("eq", a.length() - b.length())
    if all(isinstance(p, Elem) for p in pa + pb):
        return FALSE
    if len(pa) != len(pb) or any(type(x) is not type(y) or isinstance(x, Nest) for x, y in zip(pa, pb)):
        raise Unsupported("equality of tuples of different structure")
    if len(pa) == 1 and pa[0].axis.cond is None and pb[0].axis.cond is None:
        i = fresh("i")
        with assuming(pa[0].axis.rng(i), pb[0].axis.rng(i)):
            c = eqcond(pa[0].get(i), pb[0].get(i))
        return conj(cmp0("eq", pa[0].axis.n - pb[0].axis.n), PY.forall(atom_of(i), pa[0].axis.n, c))
    # Elements that some conditions keep, each a pair of a name and a value; the names are those of one family for a part, no name in two
    # parts. As the names (in one order) tell the elements, the tuples are equal just when the same elements are kept, with the same values.
    out, tags = [], []
    for x, y in zip(pa, pb):
        if isinstance(x, Elem):
            tx, ty = tag(x.value), tag(y.value)
            if tx is None or not isinstance(tx, str) or tx != ty:
                raise Unsupported("equality of tuples")
            tags.append(tx)
            out.append(eqcond(x.value, y.value))
            continue
        i = fresh("i")
        if x.axis.n is not y.axis.n:
            raise Unsupported("equality of tuples of different families")
        with assuming(cmp0("le", -i), cmp0("lt", i - x.axis.n)):
            cx, cy = [TRUE if z.axis.cond is None else z.axis.cond(i) for z in (x, y)]
            ex, ey = x.get(i), y.get(i)
            tx, ty = tag(ex), tag(ey)
            if not (isinstance(tx, SStr) and isinstance(ty, SStr) and tx.eqc(ty) is TRUE and len(tx.parts) == 1 and one_to_one(tx.parts[0][1], i)):
                raise Unsupported("equality of tuples of unnamed elements %r %r %r %r" % (ex, ey, i, x.get(P(7))))
            tags.append(tx.parts[0][0])
            same = conj(disj(neg(cx), cy), disj(neg(cy), cx), disj(neg(cx), eqcond(ex, ey)))
        out.append(PY.forall(atom_of(i), x.axis.n, same))
    if len(set(tags)) != len(tags):
        raise Unsupported("equality of tuples with repeated names")
    return conj(*out)


def one_to_one(args, i):
    """The arguments of a name, for the index i: i itself or a permutation of it"""
    if len(args) != 1:
        return False
    if args[0] is P(i):
        return True
    u = atom_or_none(args[0])
    return u is not None and getattr(u, "name", None) in PY.PERM and u.args[0] is P(i)


def empty_part(p):
    return isinstance(p, Seg) and p.axis.n.const == 0


def tag(e):
    return e[0] if isinstance(e, builtins.tuple) and len(e) and isinstance(e[0], (str, SStr)) else None


def eqcond(a, b):
    if isinstance(a, SStr):
        return a.eqc(b)
    if isinstance(b, SStr):
        return b.eqc(a)
    if is_scalar(a) and is_scalar(b):
        return cmp0("eq", num(a) - num(b))
    if a is b:
        return TRUE
    if isinstance(a, Cases) or isinstance(b, Cases):
        ca = a.cases if isinstance(a, Cases) else [(TRUE, a)]
        cb = b.cases if isinstance(b, Cases) else [(TRUE, b)]
        return disj(*[conj(x, y, eqcond(u, v)) for x, u in ca for y, v in cb])
    if hasattr(a, "__cv_eq__"):
        return a.__cv_eq__(b)
    if isinstance(a, (builtins.tuple, SSeq)) and isinstance(b, (builtins.tuple, SSeq)) and (symkey(a) or symkey(b)):
        return eqseqs(SSeq([Elem(e) for e in a]) if isinstance(a, builtins.tuple) else a, SSeq([Elem(e) for e in b]) if isinstance(b, builtins.tuple) else b)
    if symkey(a) or symkey(b):
        if isinstance(a, (builtins.tuple, SSeq)) != isinstance(b, (builtins.tuple, SSeq)):
            return FALSE        # a tuple and something else
    if a is b:
        return TRUE
    r = a == b
    return A.cnd(r) if isinstance(r, (SBool, bool)) else FALSE


def is_symbolic_iterable(x):
    if isinstance(x, CvList):
        return not x.concrete()
    if isinstance(x, SSeq):
        return any(isinstance(p, Seg) and not (p.axis.cond is None and p.axis.n.const is not None) for p in x.parts)
    if isinstance(x, SArr):
        return bool(x.axes) and (x.axes[0].n.const is None or x.axes[0].cond is not None)
    return hasattr(x, "__cv_seq__")


def seq(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, CvSet) and not x.concrete():
        raise Unsupported("the order of a symbolic set")
    if isinstance(x, CvList):
        return SSeq(x.parts())
    if isinstance(x, SArr):
        a = x.axes[0]
        frozen = SArr(x.axes, x.snap(), x.dtype_)
        return SSeq([Seg(a, lambda i: elem0(frozen, i))])
    if hasattr(x, "__cv_seq__"):
        return x.__cv_seq__()
    return SSeq([Elem(e) for e in x])


def elem0(x, i):
    f = x.snap()
    if len(x.axes) == 1:
        r = f(i)
        return SBool(r) if isinstance(r, Cond) else Chars(r) if x.dtype_ == "s" else SNum(r)
    return SArr(x.axes[1:], lambda *r: f(i, *r), x.dtype_)


class CvList(list):
    """A list literal of the program. Concrete unless a symbolic loop appended to it."""

    def __init__(self, it=()):
        self._sym = None
        self.havoc = None
        if is_symbolic_iterable(it):
            list.__init__(self)
            self._sym = seq(it).parts
        else:
            list.__init__(self, it)
        SArr._count += 1
        self.uid = SArr._count

    def concrete(self):
        return self._sym is None and self.havoc is None

    def parts(self):
        if self.havoc is not None:
            raise Unsupported("reading a list while a symbolic loop appends to it")
        return list(self._sym) if self._sym is not None else [Elem(e) for e in list.__iter__(self)]

    def items(self):
        return [e for e in list.__iter__(self)]

    def state(self):
        return (list(list.__iter__(self)), None if self._sym is None else list(self._sym), None if self.havoc is None else list(self.havoc))

    def restore(self, st):
        list.__init__(self)
        list.extend(self, st[0])
        self._sym, self.havoc = st[1], st[2]

    def _touch(self):
        A.HOOKS["mutate"](self)

    def append(self, x):
        self._touch()
        if self.havoc is not None:
            self.havoc.append(Elem(x))
        elif self._sym is not None:
            self._sym.append(Elem(x))
        else:
            list.append(self, x)

    def extend(self, xs):
        self._touch()
        if self.havoc is not None:
            self.havoc.extend(seq(xs).parts)
        elif self._sym is not None or is_symbolic_iterable(xs):
            self._sym = self.parts() + seq(xs).parts
            list.__init__(self)
        else:
            list.extend(self, xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        if self.concrete() and not is_symbolic_iterable(o):
            return CvList(list.__add__(self, list(o)))
        r = CvList()
        r._sym = self.parts() + seq(o).parts
        return r

    def __radd__(self, o):
        return CvList(list(o)) + self

    def __mul__(self, n):
        if not isinstance(n, SNum) or n.p.const is not None:
            return CvList(list.__mul__(self, int(n)))
        if not self.concrete():
            raise Unsupported("repetition of a symbolic list")
        if list.__len__(self) != 1:
            raise Unsupported("symbolic repetition of several elements")
        e = list.__getitem__(self, 0)
        return CvList(SSeq([Seg(Axis(n.p), lambda i: e)]))

    __rmul__ = __mul__

    def __iter__(self):
        if not self.concrete():
            return iter(SSeq(self.parts()))
        return list.__iter__(self)

    def __len__(self):
        if not self.concrete():
            return len(SSeq(self.parts()))
        return list.__len__(self)

    def __bool__(self):
        if not self.concrete():
            return bool(SSeq(self.parts()))
        return list.__len__(self) > 0

    def __getitem__(self, i):
        if self.havoc is not None and isinstance(i, int) and i < 0 and -i <= len(self.havoc) and all(isinstance(p, Elem) for p in self.havoc[i:]):
            return self.havoc[i].value      # appended by this iteration
        if not self.concrete():
            return SSeq(self.parts())[i]
        if isinstance(i, SNum):
            if i.p.const is None:
                s = SSeq([Elem(e) for e in list.__iter__(self)])
                return s[i]
            i = int(i)
        r = list.__getitem__(self, i)
        return CvList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, v):
        self._touch()
        if not self.concrete():
            raise Unsupported("item assignment in a symbolic list")
        list.__setitem__(self, i, v)

    def __contains__(self, x):
        if not self.concrete():
            return x in SSeq(self.parts())
        for e in list.__iter__(self):
            if bool(SBool(eqcond(e, x))) if isinstance(e, SStr) or isinstance(x, SStr) else e is x or e == x:
                return True
        return False

    def pop(self, *a):
        self._touch()
        if not self.concrete():
            raise Unsupported("pop from a symbolic list")
        return list.pop(self, *a)

    def insert(self, *a):
        self._touch()
        if not self.concrete():
            raise Unsupported("insert")
        return list.insert(self, *a)

    def sort(self, **k):
        raise Unsupported("in-place sort")

    def copy(self):
        return CvList(self) if self.concrete() else CvList(SSeq(self.parts()))

    __hash__ = object.__hash__


class CvSet(CvList):
    """A set of the program: add, update, membership, sorting. Not a sequence."""

    def add(self, x):
        if self.concrete():
            if isinstance(x, (SStr, SNum)):
                raise Unsupported("set of symbolic values")
            if any(e is x or e == x for e in list.__iter__(self)):
                return
        self.append(x)

    def update(self, xs):
        if self.havoc is None and not is_symbolic_iterable(xs):
            for x in xs:
                self.add(x)
        else:
            self.extend(xs)

    def _raw(self):
        return SSeq(CvList.parts(self))

    def __cv_sorted__(self, **k):
        if self.concrete():
            return CvList(builtins.sorted(list.__iter__(self), **k))
        return SSet(self._raw()).__cv_sorted__(**k)

    def __contains__(self, x):
        if self.concrete():
            return CvList.__contains__(self, x)
        m = NSet.of(self._raw()) if is_scalar(x) else None
        if m is None:
            raise Unsupported("membership in a symbolic set")
        return bool(m.__cv_in__(x))

    def __getitem__(self, i):
        raise TypeError("'set' object is not subscriptable")


class Universe:
    """Objects get(i), 0 <= i < n, all different; sorted by their keys they come in the order of i."""

    def __init__(self, n, get, keyname):
        self.n, self.get_, self.keyname = P(n), get, keyname

    def get(self, i):
        o = self.get_(P(i))
        o.cv_member = (self.tag(), SNum(P(i)))
        return o

    ALL = {}

    def tag(self):
        Universe.ALL[id(self)] = self
        return "universe %d" % id(self)

    @staticmethod
    def of(tag):
        return Universe.ALL[int(tag.split()[1])]


def universe_set(s):
    """The set of the elements of a sequence of members of a universe: (universe, NSet of the indices) or None."""
    found = []

    def conv(p):
        if isinstance(p, Elem):
            found.append(p.value.cv_member[0] if hasattr(p.value, "cv_member") else None)
            return Elem(p.value.cv_member[1]) if found[-1] else None
        if isinstance(p, Nest):
            return Nest(p.axis, lambda i: [conv(q) for q in p.get(i)])
        return Seg(p.axis, lambda i: conv(Elem(p.get(i))).value)

    def probe(p):
        if isinstance(p, Elem):
            conv(p)
        else:
            k = fresh("k")
            with assuming(p.axis.rng(k)):
                for q in p.get(k) if isinstance(p, Nest) else [Elem(p.get(k))]:
                    probe(q)

    for p in s.parts:
        probe(p)
    if not found or None in found or len(set(found)) > 1:
        return None
    u = Universe.of(found[0])
    return u, NSet.of(SSeq([conv(p) for p in s.parts]))


class Havoc(list):
    """The entries stored by one iteration of a symbolic loop; the entries from before the loop, and the keys looked up there."""

    def __init__(self, it=(), pre=None, looks=()):
        list.__init__(self, it)
        self.pre, self.looks = pre, list(looks)


class DSeg:
    """Entries key(i) -> val(i) for i over an axis."""

    def __init__(self, axis, k, v):
        self.axis, self.k, self.v = axis, k, v


class CvDict(dict):
    """A dict literal of the program. Concrete string keys natively; symbolic keys as entry segments."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._sym = []     # entries in order: DSeg or (key, value)
        self.havoc = None
        SArr._count += 1
        self.uid = SArr._count
        self._init(a, k)

    def _init(self, a, k):
        if a:
            if isinstance(a[0], CvDict):
                for e in a[0].parts():
                    self._put(e)
            elif isinstance(a[0], dict):
                for x, y in a[0].items():
                    self._set(x, y)
            else:
                for x, y in seq_native(a[0]):
                    self._set(x, y)
        for x, y in k.items():
            self._set(x, y)

    def concrete(self):
        return not self._sym and self.havoc is None

    def state(self):
        return (dict(self.dictitems()), list(self._sym), None if self.havoc is None else Havoc(self.havoc, self.havoc.pre, self.havoc.looks))

    def restore(self, st):
        dict.clear(self)
        dict.update(self, st[0])
        self._sym, self.havoc = st[1], st[2]

    def dictitems(self):
        return list(dict.items(self))

    def parts(self):
        if self.havoc is not None:
            raise Unsupported("reading a dict while a symbolic loop fills it")
        return [(x, y) for x, y in dict.items(self)] + list(self._sym)

    def _put(self, e):
        if isinstance(e, DSeg):
            self._sym.append(e)
        else:
            self._set(*e)

    def _set(self, x, y):
        if self.havoc is not None:
            self.havoc.append((x, y))
        elif symkey(x):
            for n, e in enumerate(self._sym):
                if not isinstance(e, DSeg):
                    d = decide(eqcond(e[0], x))
                    if d is True:
                        self._sym[n] = (x, y)
                        return
                else:
                    v = fresh("d")
                    with assuming(e.axis.rng(v)):
                        c = eqcond(e.k(v), x)
                    t = None if c is FALSE else self._solve(c, atom_of(v))
                    if t is not None and decide(conj(e.axis.rng(t), csubst(c, {atom_of(v): t}))) is True:
                        self._sym[n] = DSeg(e.axis, e.k, lambda i: resolve(merge_any(cmp0("eq", i - t), y, e.v(i))))
                        if hasattr(e, "direct"):
                            name, m, val = e.direct
                            at = x.parts[0][1][0]
                            self._sym[n].direct = (name, m, lambda k: resolve(merge_any(cmp0("eq", k - at), y, val(k))))
                        return
            self._sym.append((x, y))
        else:
            dict.__setitem__(self, x, y)

    def __setitem__(self, x, y):
        A.HOOKS["mutate"](self)
        self._set(x, y)

    def _find(self, x):
        """(found condition, value) scanning the entries, last match wins."""
        if isinstance(x, SNum) and x.p.const is not None:
            x = int(x)
        if self.havoc is not None:
            for a, b in reversed(self.havoc):
                if decide(eqcond(a, x)) is True:
                    return b                # stored earlier in the same iteration
                if decide(eqcond(a, x)) is not False:
                    break
            else:
                # from before the loop, if no iteration stores this key (checked at the end of the loop)
                d = CvDict()
                d.restore(self.havoc.pre)
                try:
                    v = d._find(x)
                except KeyError:
                    raise Unsupported("reading a dict while a symbolic loop fills it")
                self.havoc.looks.append(x)
                return v
        if not isinstance(x, SNum) and not symkey(x):
            try:
                if dict.__contains__(self, x):
                    return dict.__getitem__(self, x)
            except TypeError:
                pass
        for e in reversed(self.parts()):
            if isinstance(e, DSeg) and hasattr(e, "direct"):
                name, n, val = e.direct
                if isinstance(x, SStr) and builtins.len(x.parts) == 1 and not isinstance(x.parts[0], str) and x.parts[0][0] == name:
                    t = x.parts[0][1][0]
                    if A.EXPLORER[0].branch(conj(cmp0("le", -t), cmp0("lt", t - n))):
                        return val(t)
                elif A.EXPLORER[0].branch(FALSE if eqcond(key(name, fresh("d")), x) is FALSE else PY.Cond("pred", "in|%s|%r" % (name, x), ())):
                    raise Unsupported("lookup of %r" % (x,))
            elif isinstance(e, DSeg):
                v = fresh("d")
                with assuming(e.axis.rng(v)):
                    c = eqcond(e.k(v), x)
                if c is FALSE:
                    continue
                # a key of the same family: solve for the index
                t = self._solve(c, atom_of(v))
                if t is None:
                    raise Unsupported("lookup of %r" % (x,))
                inr = conj(e.axis.rng(t), csubst(c, {atom_of(v): t}))
                if A.EXPLORER[0].branch(inr):
                    return e.v(t)
            else:
                if A.EXPLORER[0].branch(eqcond(e[0], x)):
                    return e[1]
        raise KeyError(x)

    @staticmethod
    def _solve(c, v):
        for l in c.args if c.kind == "and" else (c,):
            if l.kind == "eq":
                for m, k in l.args[0].t.items():
                    if m == ((v, 1),) and abs(k) == 1:
                        return (l.args[0] - Poly({m: k})) * P(-1 / k)
                u, t = PY._solve_elem(l.args[0], v)
                if u is not None and u.name in PY.INVERSES and u.args[0] is P(v) and v not in t.fv:
                    return PY.app(PY.INVERSES[u.name], t)
        return None

    def __getitem__(self, x):
        if self.concrete() and not isinstance(x, SNum) and not symkey(x):
            return dict.__getitem__(self, x)
        return self._find(x)

    def get(self, x, default=None):
        try:
            return self._find(x)
        except KeyError:
            return default

    def __contains__(self, x):
        if self.concrete() and not isinstance(x, SNum) and not symkey(x):
            return dict.__contains__(self, x)
        try:
            self._find(x)
            return True
        except KeyError:
            return False

    def __bool__(self):
        if dict.__len__(self):
            return True
        return bool(SSeq([Seg(e.axis, lambda i: None) if isinstance(e, DSeg) else Elem(None) for e in self.parts()]))

    def different(self):
        """No two entries can have the same key (a later one would replace the earlier one)."""
        ps = self.parts()
        sig = [id(e) for e in ps]
        if getattr(self, "_differ", None) == (sig, ps):
            return
        for j, e in enumerate(ps):
            for o in ps[:j]:
                if not isinstance(e, DSeg) and not isinstance(o, DSeg) and type(e[0]) is str and type(o[0]) is str:
                    continue
                v, w = fresh("d"), fresh("d")
                with assuming(*([e.axis.rng(v)] if isinstance(e, DSeg) else []), *([o.axis.rng(w)] if isinstance(o, DSeg) else [])):
                    c = eqcond(e.k(v) if isinstance(e, DSeg) else e[0], o.k(w) if isinstance(o, DSeg) else o[0])
                    if c is not FALSE and decide(c) is not False:
                        raise Unsupported("entries of a dict whose keys may be equal")
        self._differ = (sig, ps)

    def _list(self, f, g):
        if self.concrete():
            return None
        self.different()
        return SSeq([Seg(e.axis, (lambda i, e=e: f(e, i))) if isinstance(e, DSeg) else Elem(g(e)) for e in self.parts()])

    def keys(self):
        r = self._list(lambda e, i: e.k(i), lambda e: e[0])
        return dict.keys(self) if r is None else r

    def values(self):
        r = self._list(lambda e, i: e.v(i), lambda e: e[1])
        return dict.values(self) if r is None else r

    def items(self):
        r = self._list(lambda e, i: (e.k(i), e.v(i)), lambda e: e)
        return dict.items(self) if r is None else r

    def __cv_seq__(self):
        return seq(self.keys())

    def __iter__(self):
        return iter(self.keys()) if not self.concrete() else dict.__iter__(self)

    def update(self, *a, **k):
        A.HOOKS["mutate"](self)
        if self.havoc is not None and a and not (isinstance(a[0], CvDict) and not any(isinstance(e, DSeg) for e in a[0].parts()) or type(a[0]) is dict):
            raise Unsupported("update in a symbolic loop")
        self._init(a, k)

    def copy(self):
        return CvDict(self)

    def __delitem__(self, x):
        A.HOOKS["mutate"](self)
        if not self.concrete():
            raise Unsupported("del in a symbolic dict")
        dict.__delitem__(self, x)

    def pop(self, x, *a):
        A.HOOKS["mutate"](self)
        if not self.concrete() or symkey(x):
            if self.havoc is not None or any(isinstance(e, DSeg) for e in self._sym):
                raise Unsupported("pop from a symbolic dict")
            out, kept_ = [], []
            for k, v in self.parts():
                (out if A.EXPLORER[0].branch(eqcond(k, x)) else kept_).append((k, v))
            if not out and not a:
                raise KeyError(x)
            dict.clear(self)
            self._sym = []
            for k, v in kept_:
                self._set(k, v)
            return out[-1][1] if out else a[0]
        return dict.pop(self, x, *a)

    def setdefault(self, x, d=None):
        if x in self:
            return self[x]
        self[x] = d
        return d

    def clear(self):
        A.HOOKS["mutate"](self)
        dict.clear(self)
        self._sym = []

    __hash__ = object.__hash__


def family(name, n, val):
    """A dict {name(k): val(k)} for 0 <= k < n whose keys sort in the order of k, with entries in an arbitrary order."""
    n = P(n)
    order = name + ".order"
    inv = name + ".rank"
    PY.INTS.update([order, inv])
    PY.PERM[order] = PY.PERM[inv] = n
    PY.INVERSES[order], PY.INVERSES[inv] = inv, order
    s = lambda i: PY.app(order, i)
    v = fresh("w")
    for f in (order, inv):
        PY.CTX.append(PY.forall(atom_of(v), n, conj(cmp0("le", -PY.app(f, v)), cmp0("lt", PY.app(f, v) - n))))
    d = CvDict()
    e = DSeg(Axis(n), lambda i: key(name, s(i)), lambda i: val(s(i)))
    e.direct = (name, n, val)
    d._sym = [e]
    return d


def sorted_family(x):
    """The keys of a family in sorted order (or None)."""
    x = seq(x)
    if builtins.len(x.parts) != 1 or not isinstance(x.parts[0], Seg) or x.parts[0].axis.cond is not None:
        return None
    p = x.parts[0]
    v = fresh("v")
    k = p.get(v)
    if not isinstance(k, SStr) or builtins.len(k.parts) != 1 or isinstance(k.parts[0], str) or builtins.len(k.parts[0][1]) != 1:
        return None
    name, (t,) = k.parts[0]
    if t is PY.app(name + ".order", v) and PY.PERM.get(name + ".order") is p.axis.n:
        return SSeq([Seg(p.axis, lambda i: key(name, i))])
    if t is v and name + ".order" in PY.PERM:
        return x
    return None


def seq_native(x):
    if is_symbolic_iterable(x):
        raise Unsupported("native iteration over a symbolic sequence")
    return x


# ------------------------------------------------------------------------------------------------ path exploration
class Abrupt(Exception):
    pass


class PathEnd(BaseException):
    """The path has been followed to the end of a loop iteration whose invariant was checked."""


class Frame:
    def __init__(self, script=()):
        self.script, self.pos, self.conds = list(script), 0, []

    def next_script(self):
        s = self.script[: self.pos]
        while s and s[-1] is False:
            s.pop()
        if not s:
            return None
        s[-1] = False
        return s


class Explorer:
    MAXPATHS = 400

    def __init__(self, name):
        self.uid0, self.written = -1, []
        self.name = name
        self.frames = []
        self.obls = []          # (name, cond, ctx) collected during the run
        self.mut = []           # stack of mutation logs of symbolic loops
        self.loop_raises = {}
        self.active_loops = []
        self.loop_no = 0
        self.checked = set()

    # decisions
    def branch(self, c):
        d = decide(c)
        if d is not None:
            return d
        if assuming.depth:
            raise Unsupported("a branch on %s inside an element function" % PY.show_cond(c))
        f = self.frames[-1]
        if f.pos < len(f.script):
            v = f.script[f.pos]
        else:
            v = True
            f.script.append(True)
        f.pos += 1
        l = c if v else neg(c)
        f.conds.append(l)
        PY.CTX.append(l)
        PY.CTX.extend(PY.count_facts(l))
        return v

    def need(self, c, exc, msg):
        """The operation raises exc unless c."""
        d = decide(c)
        if d is True:
            return
        if d is None and assuming.depth:
            self.obligation("no %s: %s" % (exc.__name__, msg), c)
            return
        if d is None and self.branch(c):
            return
        raise exc(msg)

    def obligation(self, name, c, always=False):
        if decide(c) is True and not always:
            return
        self.obls.append((name, c, list(PY.CTX)))

    # array services
    def check_gather(self, f, a, full):
        v = fresh("g")
        if ("g", id(f)) in self.checked:
            return
        with assuming(a.rng(v)):
            i = f(v)
            c = full.rng(i)
            if decide(c) is not True:
                raise Unsupported("index array not known to be within the axis: %s" % PY.show(i))

    def check_injective(self, fs, a):
        v, w = fresh("g"), fresh("g")
        with assuming(a.rng(v), a.rng(w), conj(*[cmp0("eq", f(v) - f(w)) for f in fs])):
            ok = decide(cmp0("eq", v - w)) is True
        if not ok:
            self.obls.append(("index array in an assignment has no repeated entries", FALSE, list(PY.CTX)))

    def py_len(self, x):
        n = x.axes[0].length()
        if n.const is None:
            raise Unsupported("native len of a symbolic array")
        return int(n.const)

    def py_iter(self, x):
        if not x.axes:
            raise TypeError("iteration over a 0-d array")
        if x.axes[0].cond is not None or x.axes[0].n.const is None:
            raise Unsupported("native iteration over a symbolic array")
        return iter([elem0(x, P(j)) for j in range(int(x.axes[0].n.const))])

    def extremum(self, kind, x, axis):
        x = arr(x)
        if axis is not None or len(x.axes) != 1:
            raise Unsupported(kind)
        f = x.snap()
        if x.axes[0].n.const is not None and x.axes[0].cond is None:
            r = None
            for j in range(int(x.axes[0].n.const)):
                e = tonum(f(P(j)))
                r = e if r is None else ite(cmp0("le", e - r) if kind == "min" else cmp0("le", r - e), e, r)
            return SNum(r)
        cd = x.axes[0].cond
        m = PY.lam_atom(kind, "", [x.axes[0].n], [lambda i: tonum(f(i)) * iverson(cd(i)), lambda i: iverson(cd(i))] if cd else [lambda i: tonum(f(i))], [])
        v = fresh("e")
        with assuming(x.axes[0].rng(v)):
            e = tonum(f(v))
        d = (m - e) if kind == "min" else (e - m)
        PY.CTX.append(PY.forall(atom_of(v), x.axes[0].n, disj(cmp0("le", d), neg(x.axes[0].cond(v)) if x.axes[0].cond else FALSE)))
        return SNum(m)

    # mutations
    def mutate(self, obj):
        if obj.uid <= self.uid0:
            self.written.append(obj)
        if getattr(obj, "frozen", False):
            raise Unsupported("an array assigned in a symbolic loop is also changed in place")
        for log in self.mut:
            if obj.uid <= log["uid0"] and obj.uid not in log["saved"]:
                log["saved"][obj.uid] = (obj, (obj._fn if isinstance(obj, SArr) else obj.state()))

    # whole-function exploration
    def run(self, fn):
        """[(outcome, value, assumptions)] over all feasible paths."""
        A.EXPLORER[0] = self
        A.HOOKS["mutate"] = self.mutate
        self.uid0, self.written = SArr._count, []       # what exists before the call, and which of it is written to
        out, script, base = [], [], len(PY.CTX)
        while script is not None:
            if len(out) > self.MAXPATHS:
                raise Unsupported("too many paths")
            f = Frame(script)
            self.frames = [f]
            self.mut, self.active_loops, self.loop_no = [], [], 0
            n_obl = len(self.obls)
            try:
                try:
                    r = ("ret", fn())
                except (Unsupported, AssertionError, RecursionError):
                    raise
                except PathEnd:
                    script = f.next_script()
                    continue
                except Exception as e:
                    r = ("raise", e)
                if self.active_loops:
                    lp = self.active_loops[0]
                    if r[0] == "ret":
                        raise Unsupported("return or break inside a symbolic loop")
                    if lp.register_raise() is False:
                        import traceback
                        raise Unsupported("every iteration of a loop raises %r at %s" % (r[1], " < ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in traceback.extract_tb(r[1].__traceback__)[:-6:-1]))) from r[1]
                    out.append((r[0], r[1], PY.CTX[base:] + [c for fr in self.frames[1:] for c in ()]))
                    del PY.CTX[base:]
                    continue  # once more, without the raising iteration
                out.append((r[0], r[1], PY.CTX[base:]))
                script = f.next_script()
            finally:
                del PY.CTX[base:]
        return out


# ------------------------------------------------------------------------------------------------ symbolic loops
def placeholder(v, tag):
    """An unknown value of the same kind as v."""
    if isinstance(v, SBool) or isinstance(v, bool):
        return SBool(PY.pred("acc~%s" % tag)), None
    if is_scalar(v):
        n = "acc~%s" % tag
        return SNum(PY.var(n, integer=PY.is_int_poly(num(v)) and not isinstance(v, float))), n
    if isinstance(v, (SArr, _np.ndarray)):
        v = arr(v)
        if v.dtype_ == "b":
            n = "accb~%s" % tag
            return SArr(v.axes, lambda *i: PY.pred(n, *i), "b"), n
        n = "acc~%s" % tag
        if v.dtype_ == "i":
            PY.INTS.add(n)
        return SArr(v.axes, (lambda *i: PY.app(n, *i)) if v.axes else (lambda: PY.var(n)), v.dtype_), n
    return Poison("a variable changed by the loop"), None


_tag = [0]


class Loop:
    """Protocol between a transformed for loop and the verifier."""

    def __init__(self, it, names, fname=None):
        self.names, self.fname = names, fname
        self.inv = None
        self.ex = A.EXPLORER[0]
        self.pending = None
        self.it = it
        if isinstance(it, (SSeq, CvList, SArr)) or hasattr(it, "__cv_seq__"):
            if is_symbolic_iterable(it):
                self.parts = seq(it).parts
            else:
                self.parts = [Elem(e) for e in it]
            self.sym = any(isinstance(p, Seg) for p in self.parts)
        else:
            self.sym = False
            self.parts = None
        self.mode = "native"

    def __iter__(self):
        if not self.sym:
            for e in self.it if self.parts is None else [p.value for p in self.parts]:
                yield e
            return
        for p in self.parts:
            if isinstance(p, Elem):
                self.mode = "native"
                yield p.value
            elif p.axis.cond is None and p.axis.n.const is not None and p.axis.n.const <= 8:
                for j in range(int(p.axis.n.const)):
                    self.mode = "native"
                    yield p.get(P(j))
            else:
                yield from self.segment(p)

    # called by the transformed code
    def enter(self, loc):
        if self.mode == "native":
            cur = self.pending or {}
            self.pending = None
            return tuple(cur[n] if n in cur else loc.get(n, UNDEF) for n in self.names)
        if self.pre is None:
            cur = self.pending or {}
            self.pending = None
            self.pre = {n: cur[n] if n in cur else loc.get(n, UNDEF) for n in self.names}
            self.hav, self.cands = {}, {}
            for n in self.names:
                _tag[0] += 1
                j = self.tried.get(n, 0)
                if j < len(INCREMENTS) and is_scalar(self.pre[n]) and not isinstance(self.pre[n], (SBool, bool)):
                    self.hav[n] = (SNum(num(self.pre[n]) + self.partial(self.seg, self.k, INCREMENTS[j])), None)
                    self.cands[n] = INCREMENTS[j]
                elif isinstance(self.pre[n], (SArr, CvList, CvDict)) and n not in self.rebound:
                    self.hav[n] = (self.pre[n], None)      # the object itself; changes in place are tracked by the mutation log
                else:
                    self.hav[n] = placeholder(self.pre[n], "%s%d~" % (n, _tag[0]))
                    if isinstance(self.hav[n][0], SArr):
                        self.hav[n][0].frozen = True
            if self.fname in FOR_INVARIANTS and self.entry:
                self.inv = FOR_INVARIANTS[self.fname](dict(loc))
                if self.inv is not None and not self.mutated:
                    self.entry = False
                    self.check_inv(P0, {**loc, **self.pre}, "on entry")
        if self.entry and self.st is None:
            self.entry = False
            for h in STATES:
                self.st = h({**loc, **self.pre}, self.seg)
                if self.st is not None:
                    for name, c in self.st.check(P0):
                        self.ex.obligation("loop invariant on entry: " + name, c, True)
                    self.before = [(o, o._fn if isinstance(o, SArr) else o.state()) for o in self.st.objects]
                    break
        if self.st is not None:
            self.st.set(self.k)
            for n, (f, _) in self.carried().items():
                self.hav[n] = (SNum(f(self.k)), None)
                self.cands.pop(n, None)
        if self.inv is not None:
            self.assume_inv({**loc, **{n: self.hav[n][0] for n in self.names}})
        self.loc = loc
        return tuple(self.hav[n][0] for n in self.names)

    def carried(self):
        """The scalars that the invariant gives: name -> value at the start of an iteration."""
        return {n: f for n, f in getattr(self.st, "scalars", {}).items() if n in self.names}

    def partial(self, seg, k, inc):
        """The sum of the increments of the iterations before iteration k."""
        l = fresh("l")
        with assuming(cmp0("le", -l), cmp0("lt", l - k)):
            d = inc(l) if seg.axis.cond is None else inc(l) * iverson(seg.axis.cond(l))
            return PY.summation(l, k, d)

    def check_inv(self, k, loc, when):
        for e in self.inv(k, loc):
            if e[0] == "zero":
                _, a, c = e
                idx = [fresh("z") for _ in a.axes]
                f = a.snap()
                with assuming(*[x.rng(i) for x, i in zip(a.axes, idx)]):
                    with assuming(A.cnd(c(*idx))):
                        self.ex.obligation("loop invariant: zero region, %s" % when, cmp0("eq", f(*idx)), True)
            else:
                self.ex.obligation("loop invariant: %s %s" % (e[0], when), A.cnd(e[1]), True)

    def assume_inv(self, loc):
        known = []
        for e in self.inv(self.k, loc):
            if e[0] == "zero":
                _, a, c = e
                if any(a is o for o, _, _ in self.mutated.values()):
                    f = a._fn
                    a._fn = lambda *i, f=f, c=c: A.sel(A.cnd(c(*i)), P0, f(*i))
            else:
                PY.CTX.append(A.cnd(e[1]))
                known.append(A.cnd(e[1]))
        self.known = known

    def leave(self, loc):
        if self.mode == "native":
            return
        self.left = {n: loc.get(n, UNDEF) for n in self.names}

    def brk(self, loc):
        if self.mode != "native":
            raise Unsupported("break in a symbolic loop")

    def exit(self, loc):
        cur = self.pending or {}
        return tuple(cur[n] if n in cur else loc.get(n, UNDEF) for n in self.names)

    # exploration of one generic iteration
    def register_raise(self):
        k = self.rkey
        self.ex.loop_raises.setdefault(k, []).append(tuple(self.frame.script[: self.frame.pos]))
        return self.frame.pos > 0

    def segment(self, seg):
        ex = self.ex
        self.mode, self.pre = "sym", None
        ex.loop_no += 1
        self.rkey = (tuple(tuple(f.script[: f.pos]) for f in ex.frames), ex.loop_no)
        skip = ex.loop_raises.get(self.rkey, [])
        k = fresh("k")
        mutated = {}      # uid -> (obj, pre-state, placeholder name)
        self.mutated, self.k, self.entry, self.inv, self.known = mutated, k, True, None, []
        self.rebound, self.tried, self.seg, self.st = set(), {}, seg, None
        base = len(PY.CTX)
        uid0 = SArr._count
        loop_no0 = ex.loop_no
        ex.active_loops.append(self)
        while True:       # until the set of changed objects is complete
            paths, script, again, never = [], [], False, []
            while script is not None:
                f = Frame(script)
                self.frame = f
                ex.frames.append(f)
                PY.CTX.append(seg.axis.rng(k)) if seg.axis.rng(k) is not TRUE else None
                for obj, st, hv in mutated.values():
                    self.set_havoc(obj, st, hv)
                log = dict(uid0=uid0, saved={})
                ex.mut.append(log)
                ex.loop_no = loop_no0
                if any(tuple(s) == tuple(script) for s in skip) and script:
                    pass
                self.left = None
                self.skip = skip
                yield resolve(seg.get(k))
                if self.left is None:
                    raise Unsupported("the loop body did not complete")
                ex.mut.pop()
                rebound = {n for n in self.names if self.hav[n][0] is self.pre[n] and isinstance(self.pre[n], (SArr, CvList, CvDict)) and self.left[n] is not self.pre[n]}
                # candidate closed forms of the scalars the loop changes
                wrong = [n for n, c in self.cands.items() if not (is_scalar(self.left[n]) and not isinstance(self.left[n], (SBool, bool)) and prove_zero(num(self.left[n]) - num(self.hav[n][0]) - c(k)))]
                for n in wrong:
                    self.tried[n] = self.tried.get(n, 0) + 1
                    rebound.add(n)
                new = {u: v for u, v in log["saved"].items() if u not in mutated and (self.st is None or not any(v[0] is o for o in self.st.objects))}
                if self.st is not None and not new and not rebound:
                    for name, c in self.st.check(k + P1):
                        self.ex.obligation("loop invariant preserved: " + name, c, True)
                    for n, (_, defn) in self.carried().items():
                        if not is_scalar(self.left[n]):
                            raise Unsupported("%s is no number at the end of an iteration" % n)
                        self.ex.obligation("loop invariant preserved: %s" % n, cmp0("eq", num(self.left[n]) - defn(k + P1)), True)
                post = {u: (obj._fn if isinstance(obj, SArr) else obj.state()) for u, (obj, st, hv) in mutated.items()}
                if self.inv is not None and not new and not rebound:
                    self.check_inv(k + P1, {**self.loc, **self.left}, "preserved")
                ctx = PY.CTX[base:]
                paths.append((list(f.conds), self.left, post, ctx))
                ex.frames.pop()
                del PY.CTX[base:]
                # roll back
                for u, (obj, st) in log["saved"].items():
                    self.restore(obj, mutated[u][1] if u in mutated else st)
                for u, (obj, st, hv) in mutated.items():
                    self.restore(obj, st)
                if self.st is not None:
                    for obj, st in self.before:
                        self.restore(obj, st)
                if rebound:
                    self.rebound |= rebound - set(wrong)
                    self.pending, self.pre = dict(self.pre), None
                    again = True
                    break
                if new:
                    for u, (obj, st) in new.items():
                        _tag[0] += 1
                        mutated[u] = (obj, st, "o%d~" % _tag[0])
                    again = True
                    break
                script = f.next_script()
                while script is not None and tuple(script) in [tuple(s) for s in skip]:
                    # this way the iteration raises: on the paths that go on, no iteration takes it
                    g = Frame(script)
                    g.pos = len(script)
                    never.append(script)
                    script = g.next_script()
                if len(paths) > 60:
                    raise Unsupported("too many paths through a loop body")
            if not again:
                break
        if skip:
            # iterations that raise do not occur on this path
            rest = disj(*[conj(*p[0]) for p in paths])
            PY.CTX.append(PY.forall(atom_of(k), seg.axis.n, disj(rest, neg(seg.axis.cond(k)) if seg.axis.cond else FALSE)))
        ex.active_loops.pop()
        self.summarise(seg, k, paths, mutated)
        if self.st is not None:
            for o in self.st.objects:
                A.HOOKS["mutate"](o)
            self.st.set(seg.axis.n)
        self.mode = "native"

    def restore(self, obj, st):
        if isinstance(obj, SArr):
            obj._fn = st
        else:
            obj.restore(st)

    def set_havoc(self, obj, st, tag):
        if isinstance(obj, SArr):
            n = "acc~" + tag
            if obj.dtype_ == "b":
                obj._fn = lambda *i: PY.pred(n, *i)
            else:
                if obj.dtype_ == "i":
                    PY.INTS.add(n)
                obj._fn = (lambda *i: PY.app(n, *i)) if obj.axes else (lambda: PY.var(n))
        elif isinstance(obj, CvList):
            obj.restore(([], None, []))
        elif isinstance(obj, CvDict):
            obj.restore(({}, [], Havoc((), st)))

    def inst(self, v, i):
        """The value v, computed in the generic iteration, in iteration i."""
        return self.now()(v, i)

    def now(self):
        """inst for the segment being summarised, to be used later"""
        ka, rk, prefix, tags = self.ka, self.rk, self.prefix, self.tags

        def inst(v, i):
            env = {ka: P(i)}
            for a, pre, d in prefix:
                l = fresh("l")
                env[a] = pre + self.total_(l, P(i), d, ka)
            return self.closed(vsubst(v, env, rk), tags=tags)
        return inst

    def total_(self, l, n, d, ka):
        with assuming(cmp0("le", -l), cmp0("lt", l - n)):
            return PY.summation(l, n, subst(d, {ka: l}))

    def closed(self, v, ctx=(), tags=None):
        """v (computed in iteration i, its indices in their ranges) does not depend on what the loop variables were at
        the start of the iteration."""
        tags = self.tags if tags is None else tags

        def chk(p):
            key = p.key
            for t in tags:
                if t in key:
                    raise Unsupported("a value depending on %s of an earlier iteration: %s" % (t, str(key)[:600]))
            return p

        def under(f):
            def g(*i):
                with assuming(*ctx):
                    return chk(f(*i))
            return g

        if isinstance(v, Cases):
            return Cases([(chk(c), self.closed(x, tuple(ctx) + (c,), tags)) for c, x in v.cases])
        if isinstance(v, SNum):
            chk(v.p)
        elif isinstance(v, SBool):
            chk(v.c)
        elif isinstance(v, SArr):
            f = v.snap()
            return SArr([Axis(chk(a.n), None if a.cond is None else under(a.cond)) for a in v.axes], under(f), v.dtype_)
        elif type(v) in (tuple, list):
            return type(v)(self.closed(x, ctx, tags) for x in v)
        elif isinstance(v, SStr):
            for q in v.parts:
                if not isinstance(q, str):
                    [chk(x) for x in q[1]]
        elif isinstance(v, (SSeq, CvList)) and is_symbolic_iterable(v):
            parts = []
            for q in seq(v).parts:
                if isinstance(q, Elem):
                    parts.append(Elem(self.closed(q.value, ctx, tags)))
                elif isinstance(q, Nest):
                    raise Unsupported("nested sequences of a loop")
                else:
                    chk(q.axis.n)

                    def get(i, q=q):
                        c2 = tuple(ctx) + (q.axis.rng(i),)
                        with assuming(*c2):
                            return self.closed(q.get(i), c2, tags)

                    parts.append(Seg(q.axis, get))
            return CvList(SSeq(parts)) if isinstance(v, CvList) else SSeq(parts)
        return v

    def summarise(self, seg, k, paths, mutated):
        ka = atom_of(k)
        conds = [conj(*p[0]) for p in paths]
        self.ka, self.rk, self.prefix = ka, (seg.axis.rng(k),) + tuple(self.known), []
        self.tags = [t for n in self.names for t in [self.hav[n][1]] if t] + ["acc~" + tag for _, _, tag in mutated.values()]

        def fold(vals):
            r = vals[-1]
            for c, v in list(zip(conds, vals))[-2::-1]:
                r = merge(c, v, r)
            return r

        with assuming(seg.axis.rng(k)):
            final = {}
            for n in self.names:
                vals = [p[1][n] for p in paths]
                pre, (hv, tag) = self.pre[n], self.hav[n]
                if self.st is not None and n in self.carried():
                    final[n] = SNum(self.carried()[n][0](seg.axis.n))
                elif n in self.cands:
                    final[n] = SNum(num(pre) + self.partial(seg, seg.axis.n, self.cands[n]))
                elif all(v is hv for v in vals):
                    final[n] = pre
                elif tag is None and isinstance(hv, Poison):
                    final[n] = Poison("%s is assigned in a symbolic loop" % n)
                else:
                    wide = [v for v in vals if isinstance(v, SArr)]
                    if wide and is_scalar(pre) and not isinstance(pre, (bool, SBool)) and all(isinstance(v, SArr) or v is hv for v in vals):
                        # ret = 0; if ..: ret = ret + array
                        ax = wide[0].axes
                        vals = [SArr(ax, lambda *i: num(hv)) if v is hv else v for v in vals]
                    try:
                        v = fold(vals)
                    except Unsupported:
                        final[n] = Poison("%s is assigned in a symbolic loop" % n)
                        continue
                    final[n] = ("acc", pre, v, tag, hv)
            states = {}
            for u, (obj, st, tag) in mutated.items():
                states[u] = [p[2].get(u) for p in paths]
        fin = {}
        for n, v in final.items():
            if isinstance(v, tuple) and len(v) == 5 and v[0] == "acc" and is_scalar(v[1]) and is_scalar(v[2]) and not isinstance(v[2], (SBool, bool)) and not isinstance(v[1], (SBool, bool)):
                me = PY.var(v[3])
                d = num(v[2]) - me
                if not any(t in d.key for t in self.tags):
                    if seg.axis.cond is not None:
                        d = d * iverson(seg.axis.cond(P(ka)))
                    self.prefix.append((atom_of(me), num(v[1]), d))
        for n, v in final.items():
            if isinstance(v, tuple) and len(v) == 5 and v[0] == "acc":
                fin[n] = self.accumulate(seg, ka, v[1], v[2], v[3], n)
            else:
                fin[n] = v
        for u, (obj, st, tag) in mutated.items():
            if isinstance(obj, SArr):
                fs = states[u]

                def body(*i, fs=fs):
                    r = fs[-1](*i)
                    for c, f in list(zip(conds, fs))[-2::-1]:
                        with assuming(c):
                            x = f(*i)
                        r = A.sel(c, x, r)
                    return r

                obj._fn = A.memo(self.acc_fn(seg, ka, st, body, "acc~" + tag, obj.axes, obj.dtype_, obj.name or "array"))
                obj.version += 1
            elif isinstance(obj, CvList):
                apps = [s[2] for s in states[u]]
                obj.restore(st)
                self.append_seg(obj, seg, k, ka, conds, apps)
            else:
                self.dict_seg(obj, st, seg, k, ka, conds, [s[2] for s in states[u]])
        self.pending = fin

    def append_seg(self, obj, seg, k, ka, conds, apps):
        nested = obj.havoc is not None     # an outer symbolic loop appends to it
        parts = list(obj.havoc) if nested else obj.parts()
        done = lambda: obj.restore(([], None, parts) if nested else ([], parts, None))
        if any(isinstance(e, (Seg, Nest)) for a in apps for e in a):
            rk, tags = (seg.axis.rng(k),), self.tags
            if len(apps) != 1:
                # each path adds its part under its condition
                def under(c, p):
                    if isinstance(p, Elem):
                        return Seg(Axis(P1, lambda i: c), lambda i: p.value)
                    if isinstance(p, Nest):
                        return Nest(Axis(p.axis.n, lambda i: conj(c, p.axis.cond(i) if p.axis.cond is not None else TRUE)), p.get)
                    return Seg(Axis(p.axis.n, lambda i: conj(c, p.axis.cond(i) if p.axis.cond is not None else TRUE)), p.get)

                apps = [[under(c, p) for c, a in zip(conds, apps) for p in a]]

            def inst(p, env):
                if isinstance(p, Elem):
                    return Elem(self.closed(vsubst(p.value, env, rk), tags=tags))
                if isinstance(p, Nest):
                    a = p.axis
                    ax = Axis(subst(a.n, env), (lambda i: csubst(a.cond(i), env)) if a.cond is not None else None)
                    return Nest(ax, lambda i: [inst(q, env) for q in p.get(i)])
                a = p.axis
                ax = Axis(subst(a.n, env), (lambda i: csubst(a.cond(i), env)) if a.cond is not None else None)
                return Seg(ax, lambda i: self.closed(vsubst(p.get(i), env, rk), tags=tags))

            parts.append(Nest(seg.axis, lambda i, a=apps[0]: [inst(p, {ka: i}) for p in a]))
            done()
            return
        nmax = max(len(a) for a in apps)
        if nmax == 0:
            return
        with assuming(seg.axis.rng(k)):
            if all(len(a) == nmax for a in apps):
                vals = []
                for j in range(nmax):
                    v = apps[-1][j].value
                    for c, a in list(zip(conds, apps))[-2::-1]:
                        v = merge_any(c, a[j].value, v)
                    vals.append(v)
                cond = None
            elif nmax == 1:
                inc = disj(*[c for c, a in zip(conds, apps) if a])
                have = [(c, a[0].value) for c, a in zip(conds, apps) if a]
                v = have[-1][1]
                for c, x in have[-2::-1]:
                    v = merge_any(c, x, v)
                vals, cond = [v], inc
            else:
                raise Unsupported("a varying number of elements appended per iteration")
        rk = (seg.axis.rng(k),)
        if nmax == 1:
            old = seg.axis.cond
            ax = seg.axis if cond is None else Axis(seg.axis.n, lambda i: conj(csubst(cond, {ka: i}), old(i) if old else TRUE))
            put = self.now()
            parts.append(Seg(ax, lambda i: put(vals[0], i)))
        else:
            if seg.axis.cond is not None:
                raise Unsupported("several elements per iteration of a filtered loop")

            put = self.now()

            def get(i):
                j = PY.mod(i, P(nmax))
                if j.const is None:
                    raise Unsupported("element of an interleaved list")
                return put(vals[int(j.const)], PY.floordiv(i, P(nmax)))

            parts.append(Seg(Axis(seg.axis.n * P(nmax)), get))
        done()

    def dict_seg(self, obj, st, seg, k, ka, conds, apps):
        obj.restore(st)
        nmax = max(len(a) for a in apps)
        if not nmax:
            return
        rk = (seg.axis.rng(k),)
        for c, a in zip(conds, apps):
            for x in a.looks:
                for c2, b in zip(conds, apps):
                    for kk, _ in b:
                        w = fresh("w")
                        with assuming(seg.axis.rng(k), seg.axis.rng(w), neg(cmp0("eq", k - w)), c, csubst(c2, {ka: w})):
                            self.ex.obligation("no iteration stores an entry that others read", neg(eqcond(x, vsubst(kk, {ka: w}))), True)
        if nmax > 1 or any(len(a) not in (0, nmax) for a in apps):
            if not all(len(a) == nmax for a in apps):
                raise Unsupported("a varying number of dict entries per iteration")
        old = seg.axis.cond
        for j in range(nmax):
            with assuming(seg.axis.rng(k)):
                have = [(c, a[j]) for c, a in zip(conds, apps) if a]
                kk, v = have[-1][1]
                for c, (k2, v2) in have[-2::-1]:
                    kk, v = merge(c, k2, kk), merge_any(c, v2, v)
                full = len(have) == len(apps)
                inc = TRUE if full else disj(*[c for c, _ in have])
            if not isinstance(kk, SStr) and not isinstance(kk, SNum):
                raise Unsupported("dict key %r in a symbolic loop" % (kk,))
            if ka not in sum_fv(kk):
                raise Unsupported("the same dict key in every iteration")
            # distinct iterations use distinct keys (otherwise the later one would win)
            w = fresh("w")
            with assuming(seg.axis.rng(k), seg.axis.rng(w), neg(cmp0("eq", k - w))):
                c = neg(eqcond(kk, vsubst(kk, {ka: w})))
                self.ex.obligation("dict keys of different iterations differ", c)
            ax = seg.axis if full else Axis(seg.axis.n, lambda i, inc=inc: conj(csubst(inc, {ka: i}), old(i) if old else TRUE))
            put = self.now()
            new = DSeg(ax, lambda i, kk=kk, put=put: put(kk, i), lambda i, v=v, put=put: put(v, i))
            # the entries of a segment with the same keys are replaced
            i = fresh("i")
            for n, e in enumerate(obj._sym):
                if isinstance(e, DSeg) and e.axis.same(ax):
                    with assuming(ax.rng(i)):
                        a, b = e.k(i), new.k(i)
                        if isinstance(a, SStr) and isinstance(b, SStr) and a.parts == b.parts:
                            obj._sym[n] = new
                            break
            else:
                obj._sym.append(new)

    def accumulate(self, seg, ka, pre, v, tag, name):
        if is_scalar(pre) and is_scalar(v):
            if isinstance(v, SBool) or isinstance(pre, (bool, SBool)):
                return Poison("flag %s changed in a symbolic loop" % name)
            try:
                return SNum(self.acc_term(seg, ka, num(pre), lambda: num(v), PY.var(tag), name))
            except Unsupported as e:
                return Poison("%s: %s" % (name, e))
        if isinstance(pre, (SArr, _np.ndarray)) and isinstance(v, SArr):
            pre = arr(pre)
            if len(pre.axes) != len(v.axes) or not all(a.same(b) for a, b in zip(pre.axes, v.axes)):
                return Poison("%s changes its shape in a symbolic loop" % name)
            return SArr(pre.axes, self.acc_fn(seg, ka, pre.snap(), v.snap(), tag, pre.axes, v.dtype_, name), v.dtype_ if v.dtype_ == pre.dtype_ else "f")
        if is_scalar(pre) and isinstance(v, SArr):
            # ret = 0; ret += array
            p = SArr(v.axes, lambda *i: num(pre))
            return SArr(v.axes, self.acc_fn(seg, ka, p.snap(), v.snap(), tag, None, "f", name), "f")
        return Poison("%s is assigned in a symbolic loop" % name)

    def acc_fn(self, seg, ka, pre, body, tag, axes, dtype, name):
        if dtype == "b":
            def fb(*idx):
                with assuming(seg.axis.rng(P(ka))):
                    r = body(*idx)
                old = PY.pred(tag, *idx)
                if r is old:
                    return pre(*idx)
                raise Unsupported("boolean array %s changed in a symbolic loop" % name)

            return fb

        def f(*idx):
            me = PY.app(tag, *idx) if axes is None or axes else PY.var(tag)
            if axes is None:
                me = PY.var(tag)

            def b():
                r = body(*idx)
                return iverson(r) if isinstance(r, Cond) else r

            p = pre(*idx)
            try:
                return self.acc_term(seg, ka, iverson(p) if isinstance(p, Cond) else p, b, me, name)
            except Unsupported:
                if not axes or all(len(x.t) == 1 and atom_or_none(x) is not None and atom_or_none(x).kind == "v" for x in idx):
                    raise
            # at any index first, then at this one
            vs = [fresh("i") for _ in idx]
            with assuming(*[x.rng(v) for x, v in zip(axes, vs)]):
                r = f(*vs)
            return subst(r, {atom_of(v): x for v, x in zip(vs, idx)})

        return f

    def acc_term(self, seg, ka, pre, body, me, name):
        """The term after the loop: `body()` is the term after an iteration that started from `me`."""
        with assuming(seg.axis.rng(P(ka))):
            r = body()
        a = atom_of(me)
        if self.prefix:
            r = subst(r, {b: pre + self.total_(fresh("l"), P(ka), d, self.ka) for b, pre, d in self.prefix if b is not a})
        for t in self.tags:
            if t != a.name and t in r.key:
                raise Unsupported("%s depends on %s of an earlier iteration" % (name, t))
        d = r - me
        if a.kind == "v" and a not in d.fv or a.kind == "f" and not mentions(d, a.name):
            return pre + self.total(seg, ka, d)
        # guarded overwrite: r = me * g + rest with g a product of brackets
        if a.kind == "f":
            r = same_element(r, a)
        g, rest = P0, P0
        for m, c in r.t.items():
            md = dict(m)
            if a in md:
                if md[a] != 1:
                    raise Unsupported("non-linear accumulation into %s" % name)
                del md[a]
                g = g + Poly({tuple(sorted(md.items(), key=lambda x: x[0].key)): c})
            else:
                rest = rest + Poly({m: c})
        if mentions(g, a.name) or mentions(rest, a.name) or a in g.fv or a in rest.fv:
            raise Unsupported("accumulation into %s is not of a known form" % name)
        w = P1 - g   # 1 exactly in the iterations that overwrite
        l = fresh("l")
        with assuming(seg.axis.rng(P(ka)), seg.axis.rng(l)):
            two = w * subst(w, {ka: l})
            ok = (w * w - w).t == {} and prove_zero(two * (P1 - iverson(cmp0("eq", P(ka) - l))))
        if not ok:
            raise Unsupported("elements of %s may be overwritten by several iterations: %s" % (name, PY.show(two)[:500]))
        W = self.total(seg, ka, w)
        return pre * (P1 - W) + self.total(seg, ka, rest)

    def total(self, seg, ka, d):
        if seg.axis.cond is not None:
            d = d * iverson(seg.axis.cond(P(ka)))
        with assuming(cmp0("le", -P(ka)), cmp0("lt", P(ka) - seg.axis.n)):
            return PY.summation(ka, seg.axis.n, d)


def sum_fv(v):
    if isinstance(v, SNum):
        return v.p.fv
    if isinstance(v, SStr):
        r = frozenset()
        for p in v.parts:
            if not isinstance(p, str):
                for x in p[1]:
                    r |= x.fv
        return r
    return frozenset()


def mentions(p, name):
    """Does the applied symbol occur anywhere in the term?"""
    return (":" + name + "(") in p.key or ("v:" + name) in p.key and any(x.name == name for x in p.fv)


def prove_zero(p):
    from .prove import zero

    return zero(p)


def tonum(x):
    return A.tonum(x)


INCREMENTS = []       # candidate increments of scalars changed by for loops (iteration -> value), checked on every loop
STATES = []       # f(locals, segment) -> None or the contents of containers in iteration k: objects, set(k), check(k) -> conditions;
#                   and optionally scalars: name -> (f, g), its value f(k) at the start of iteration k (f(0) holds on entry: checked by the contract); g(k):
#                   the same by its definition
FOR_INVARIANTS = {}   # function -> f(locals) -> None or invariant: (iteration, locals) -> conditions and zero regions
INVARIANTS = {}   # (function, number of the while loop) -> invariant given by the contract: locals -> conditions


class While:
    """Protocol between a transformed while loop and the verifier. With an invariant: it is proved on entry, the
    variables the body assigns become unknown, the invariant is assumed, the body is run once and the invariant proved
    again; paths that leave the loop go on from there."""

    def __init__(self, key, names, targets):
        self.inv, self.key, self.names, self.targets, self.n = INVARIANTS.get(key), key, names, targets, 0
        self.ex = A.EXPLORER[0]

    def check(self, loc, when):
        for lab, c in self.inv(loc):
            self.ex.obligation("invariant %s %s" % (lab, when), A.cnd(c), True)

    def enter(self, loc):
        vals = tuple(loc.get(n, UNDEF) for n in self.names)
        if self.inv is None:
            return vals
        self.n += 1
        if self.n == 2:
            log = self.ex.mut.pop()
            extra = [o for u, (o, st) in log["saved"].items() if not any(o is t for t in self.hav)]
            if extra:
                raise Unsupported("the loop changes %s, which the invariant does not cover" % extra[0])
            self.check(loc, "preserved")
            raise PathEnd()
        self.check(loc, "on entry")
        self.hav, new = [], dict(loc)
        for n in self.targets:
            v = loc.get(n)
            if isinstance(v, SArr):
                if v.vw is not None:
                    raise Unsupported("a loop changing a view")
                _tag[0] += 1
                p, _ = placeholder(v, "%s%d" % (n, _tag[0]))
                v.set_fn(p._fn)
                self.hav.append(v)
            elif v is not None:
                raise Unsupported("a while loop changing %s" % n)
        out = []
        for n, v in zip(self.names, vals):
            _tag[0] += 1
            new[n] = v if v is UNDEF else placeholder(v, "%s%d" % (n, _tag[0]))[0]
            out.append(new[n])
        for lab, c in self.inv(new):
            PY.CTX.append(A.cnd(c))
        self.ex.mut.append(dict(uid0=SArr._count, saved={}))
        return tuple(out)

    def leave(self, loc):
        pass

    brk = leave

    def done(self):
        if self.inv is not None and self.n == 1 and self.ex.mut:
            self.ex.mut.pop()


# ------------------------------------------------------------------------------------------------ source transformation
class Tr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fdepth = 0
        self.loops = []
        self.fname, self.whiles = "", 0

    def visit_FunctionDef(self, node):
        self.fdepth += 1
        sn = self.fname, self.whiles
        self.fname, self.whiles = node.name, 0
        sv, self.loops = self.loops, []
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        decl = {n for s in ast.walk(node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        sd, self.decl = getattr(self, "decl", set()), decl
        node.body = self.block(node.body)
        self.decl = sd
        self.loops = sv
        self.fdepth -= 1
        self.fname, self.whiles = sn
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        sv, self.loops = self.loops, []
        self.generic_visit(node)
        self.loops = sv
        return node

    def visit_ClassDef(self, node):
        fd, self.fdepth = self.fdepth, 0
        sv, self.loops = self.loops, []
        self.generic_visit(node)
        self.fdepth, self.loops = fd, sv
        return node

    def block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_For(self, node):
        if not self.fdepth:
            return self.generic_visit(node)
        self.n += 1
        L = "cvL%d__" % self.n
        names = sorted((assigned(node.body) - self.decl) - assigned_targets(node.target))
        names = [n for n in names if not n.startswith("cv__")]
        it = self.visit(node.iter)
        tnames = assigned_targets(node.target)
        self.loops.append(L)
        body = self.block(node.body)
        self.loops.pop()
        tup = lambda ctx: ast.Tuple([ast.Name(n, ctx()) for n in names], ctx())
        loc = lambda m: ast.parse("%s.%s(locals())" % (L, m)).body[0].value
        pre = ast.parse("%s = cv__.Loop(0, %r, %r)" % (L, tuple(names), self.fname)).body[0]
        pre.value.args[0] = it
        if names:
            ent = ast.Assign([tup(ast.Store)], loc("enter"))
            ext = ast.Assign([tup(ast.Store)], loc("exit"))
        else:
            ent, ext = ast.Expr(loc("enter")), ast.Expr(loc("exit"))
        new = ast.For(node.target, ast.Name(L, ast.Load()), [ent] + body + [ast.Expr(loc("leave"))], self.block(node.orelse), None)
        return [pre, new, ext]

    def visit_While(self, node):
        if not self.fdepth or node.orelse:
            self.loops.append(None)
            node.test = self.visit(node.test)
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse)
            self.loops.pop()
            return node
        self.n += 1
        L = "cvW%d__" % self.n
        names = sorted(n for n in assigned(node.body) - self.decl if not n.startswith("cv__"))
        targets = sorted({t.value.id for x in node.body for t in ast.walk(x) if isinstance(t, ast.Subscript) and isinstance(t.ctx, ast.Store) and isinstance(t.value, ast.Name)})
        self.whiles += 1
        pre = ast.parse("%s = cv__.While(%r, %r, %r)" % (L, (self.fname, self.whiles), tuple(names), tuple(targets))).body[0]
        test = self.visit(node.test)
        self.loops.append(L)
        body = self.block(node.body)
        self.loops.pop()
        loc = lambda m: ast.parse("%s.%s(locals())" % (L, m)).body[0].value
        ent = ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], loc("enter")) if names else ast.Expr(loc("enter"))
        stop = ast.If(ast.UnaryOp(ast.Not(), test), [ast.Break()], [])
        return [pre, ast.While(ast.Constant(True), [ent, stop] + body + [ast.Expr(loc("leave"))], []), ast.parse("%s.done()" % L).body[0]]

    def visit_Continue(self, node):
        if self.loops and self.loops[-1]:
            return [ast.parse("%s.leave(locals())" % self.loops[-1]).body[0], node]
        return node

    def visit_Break(self, node):
        if self.loops and self.loops[-1]:
            return [ast.parse("%s.brk(locals())" % self.loops[-1]).body[0], node]
        return node

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def visit_With(self, node):
        node.items = [self.visit(i) for i in node.items]
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        node.handlers = [self.visit(h) for h in node.handlers]
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        return node

    def visit_ExceptHandler(self, node):
        node.body = self.block(node.body)
        # the verifier's own refusals are never caught by the program
        guard = ast.parse("cv__.rethrow()").body[0]
        node.body = [guard] + node.body
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.fdepth and not any(isinstance(e, ast.Starred) for e in node.elts):
            return call("CvList", node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.fdepth:
            if any(k is None for k in node.keys):
                return call("CvDict", node)
            return call("mkdict", ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))
        return node

    def visit_Constant(self, node):
        if self.fdepth and isinstance(node.value, float):
            return call("lit", node)
        return node

    def visit_JoinedStr(self, node):
        args, lit = [], ""
        for v in node.values:
            if isinstance(v, ast.Constant):
                lit += v.value.replace("{", "{{").replace("}", "}}")
            elif v.format_spec is not None and not (len(v.format_spec.values) == 1 and isinstance(v.format_spec.values[0], ast.Constant)):
                return self.generic_visit(node)
            else:
                lit += "{%d%s%s}" % (len(args), "!" + chr(v.conversion) if v.conversion != -1 else "", ":" + v.format_spec.values[0].value if v.format_spec is not None else "")
                args.append(self.visit(v.value))
        return ast.copy_location(ast.Call(ast.Attribute(call("fmt", ast.Constant(lit)), "format", ast.Load()), args, []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.fdepth and any(k.arg is None for k in node.keywords):
            kws = [ast.Tuple([ast.Constant(k.arg), k.value], ast.Load()) for k in node.keywords]
            return call("kwcall", f, ast.Tuple(node.args, ast.Load()), ast.Tuple(kws, ast.Load()))
        if self.fdepth and len(node.args) == 1 and isinstance(node.args[0], ast.Starred) and not node.keywords:
            return call("starcall", f, node.args[0].value)
        if self.fdepth and isinstance(f, ast.Attribute) and f.attr == "join" and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            return call("join", f.value, node.args[0])
        if self.fdepth and isinstance(f, ast.Attribute) and f.attr == "format":
            f.value = call("fmt", f.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.fdepth and isinstance(node.op, (ast.Div, ast.Pow)):
            return call("div" if isinstance(node.op, ast.Div) else "pow", node.left, node.right)
        if self.fdepth and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return call("percent", node.left, node.right)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.fdepth and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
            f = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "in_", ast.NotIn: "not_in"}[type(node.ops[0])]
            return call(f, node.left, node.comparators[0])
        return node

    def _comp(self, node, kind, elt):
        if not self.fdepth:
            return self.generic_visit(node)
        gens = node.generators
        sv, self.loops = self.loops, []
        gens = [ast.comprehension(g.target, self.visit(g.iter), [self.visit(i) for i in g.ifs], g.is_async) for g in gens]
        elt = self.visit(elt) if not isinstance(elt, tuple) else ast.Tuple([self.visit(e) for e in elt], ast.Load())
        self.loops = sv
        # innermost first
        first = True
        for g in reversed(gens):
            inner = ast.ListComp(elt if first else nested, [ast.comprehension(g.target, ast.Name("cvit__", ast.Load()), g.ifs, 0)])
            if not first:
                inner = call("flat", inner)
            lam = ast.Lambda(ast.arguments([], [ast.arg("cvit__")], None, [], [], None, []), inner)
            nested = call("comp", g.iter, lam)
            first = False
        return call(kind, nested)

    def visit_ListComp(self, node):
        return self._comp(node, "aslist", node.elt)

    def visit_GeneratorExp(self, node):
        return self._comp(node, "aslist", node.elt)

    def visit_SetComp(self, node):
        return self._comp(node, "asset", node.elt)

    def visit_DictComp(self, node):
        return self._comp(node, "asdict", (node.key, node.value))


def call(f, *args):
    return ast.Call(ast.Attribute(ast.Name("cv__", ast.Load()), f, ast.Load()), list(args), [])


def assigned_targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

    for s in body:
        V().visit(s)
    return out


# runtime support referenced by the transformed code
class _CV:
    Loop = Loop
    While = While
    CvList = CvList
    CvDict = CvDict

    @staticmethod
    def mkdict(items):
        d = CvDict()
        for k, v in items:
            d._set(k, v)
        return d

    @staticmethod
    def lit(x):
        return SNum(P(x))

    @staticmethod
    def div(a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and b != 0 and not isinstance(a, bool):
            return SNum(P(a) / P(b))
        return a / b

    @staticmethod
    def starcall(f, args):
        if is_symbolic_iterable(args):
            if not getattr(f, "of_sequence", None):
                raise Unsupported("a symbolic number of arguments for %r" % (f,))
            return f.of_sequence(args)
        return f(*args)

    @staticmethod
    def kwcall(f, args, kws):
        """f(*args, **kws); a mapping with symbolic keys only to functions of the contract that take one."""
        if any(k is None and isinstance(v, CvDict) and not v.concrete() for k, v in kws):
            if not hasattr(f, "__cv_kw__"):
                raise Unsupported("keyword arguments with symbolic names")
            d = CvDict()
            for k, v in kws:
                if k is None:
                    d._init((v,), {})
                else:
                    d._set(k, v)
            return f.__cv_kw__(args, d)
        d = {}
        for k, v in kws:
            new = dict(v.items()) if k is None else {k: v}
            both = set(d) & set(new)
            if both:
                raise TypeError("got multiple values for keyword argument %r" % both.pop())
            d.update(new)
        return f(*args, **d)

    @staticmethod
    def join(s, x):
        if not isinstance(s, (str, SStr)):
            return s.join(x)
        x = list(x)
        if isinstance(s, str) and all(isinstance(e, str) for e in x):
            return s.join(x)
        out = []
        for k, e in enumerate(x):
            if not isinstance(e, (str, SStr)):
                raise TypeError("sequence item %d: expected str instance, %s found" % (k, type(e).__name__))
            out += ([s] if k else []) + [e]
        return SStr(*out)

    percent = staticmethod(percent)

    @staticmethod
    def fmt(s):
        return Format(s) if type(s) is str else s

    @staticmethod
    def pow(a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and a > 0 and not (isinstance(a, int) and isinstance(b, int) and b >= 0):
            return SNum(PY.power_sym(P(a), P(b)))
        return a**b

    @staticmethod
    def rethrow():
        e = sys.exc_info()[1]
        if isinstance(e, (Unsupported, AssertionError, RecursionError)):
            raise e

    @staticmethod
    def is_(a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("identity of an unknown value")
        a, b = resolve(a), resolve(b)
        if isinstance(a, Maybe) and b is None or isinstance(b, Maybe) and a is None:
            return SBool(neg(a.c if b is None else b.c))
        if a is not b and hasattr(a, "__cv_is__"):
            return SBool(a.__cv_is__(b))
        if a is not b and isinstance(a, Obj) and isinstance(b, Obj) and type(a) is type(b) and (a.__dict__.get("_copy") or b.__dict__.get("_copy")):
            raise Unsupported("identity of elements of a family")
        return a is b or (isinstance(a, SBool) and isinstance(b, bool) and bool(a == b))

    @staticmethod
    def is_not(a, b):
        r = _CV.is_(a, b)
        return SBool(neg(r.c)) if isinstance(r, SBool) else not r

    @staticmethod
    def in_(a, b):
        if isinstance(b, CvDict) or isinstance(b, (CvList, SSeq)) or hasattr(b, "__cv_in__"):
            return b.__cv_in__(a) if hasattr(b, "__cv_in__") else a in b
        if isinstance(a, SStr):
            if isinstance(b, (list, tuple, set, frozenset)) or type(b) is dict:
                return any(bool(SBool(eqcond(a, e))) for e in b)
            if isinstance(b, str):
                return bool(a._pred("in", b))
        if isinstance(a, SNum) and isinstance(b, (list, tuple, set)):
            return any(bool(SBool(eqcond(a, e))) for e in b if is_scalar(e))
        if isinstance(b, SArr):
            return bool(A.a_any(b == a))
        return a in b

    @staticmethod
    def not_in(a, b):
        return not _CV.in_(a, b)

    @staticmethod
    def comp(it, body):
        """A comprehension over one iterable; body takes a list of elements and evaluates the comprehension on it."""
        if not is_symbolic_iterable(it):
            if isinstance(it, SSeq):
                it = list(it)
            return body(it)
        ex = A.EXPLORER[0]
        out = CvList()
        lp = Loop(it, ())
        for x in lp:
            lp.enter({})
            r = body([x])
            if isinstance(r, CvList):
                out.extend(r)
            else:
                for e in r:
                    out.append(e)
            lp.leave({})
        lp.exit({})
        return out

    @staticmethod
    def flat(xs):
        out = CvList()
        for x in xs:
            if isinstance(x, CvList):
                out.extend(x)
            else:
                for e in x:
                    out.append(e)
        return out

    @staticmethod
    def aslist(x):
        return x if isinstance(x, CvList) else CvList(x)

    @staticmethod
    def asset(x):
        if isinstance(x, CvList) and not x.concrete():
            return SSet(x)
        return set(x)

    @staticmethod
    def asdict(x):
        if isinstance(x, CvList) and not x.concrete():
            d = CvDict()
            for p in x.parts():
                if isinstance(p, Seg):
                    d._sym.append(DSeg(p.axis, lambda i, p=p: p.get(i)[0], lambda i, p=p: p.get(i)[1]))
                else:
                    d._set(*p.value)
            return d
        return _CV.mkdict(x)


def exists(v, axis, c):
    """There is a v in the axis with c; solved when c fixes v."""
    c = conj(cmp0("le", -v), cmp0("lt", v - axis.n), axis.cond(v) if axis.cond is not None else TRUE, c)
    for l in c.args if c.kind == "and" else (c,):
        if l.kind == "eq":
            p = l.args[0]
            for m, k in p.t.items():
                if len(m) == 1 and m[0] == (atom_of(v), 1) and abs(k) == 1 and atom_of(v) not in (p - Poly({m: k})).fv:
                    return csubst(c, {atom_of(v): (p - Poly({m: k})) * P(-1 / k)})
    return neg(PY.forall(atom_of(v), axis.n, neg(c)))


class NSet:
    """A set of integers: those x with 0 <= x < n and mem(x)."""

    def __init__(self, n, mem):
        self.n, self.mem = n, mem

    @staticmethod
    def of(s):
        """The set of the elements of a sequence of indices below some n: (mem, n or None)."""
        n = None
        ms = []
        for p in s.parts:
            if isinstance(p, Elem):
                if not is_scalar(p.value) or not PY.is_int_poly(num(p.value)):
                    return None
                ms.append(lambda x, t=num(p.value): cmp0("eq", x - t))
            elif isinstance(p, Nest):
                k = fresh("k")
                with assuming(p.axis.rng(k)):
                    sub = NSet.of(SSeq(p.get(k)))
                if sub is None:
                    return None

                def m(x, p=p):
                    k = fresh("k")
                    with assuming(p.axis.rng(k)):
                        c = NSet.of(SSeq(p.get(k))).mem(x)
                    return exists(k, p.axis, c)

                ms.append(m)
            else:
                i = fresh("i")
                e = p.get(i)
                if not is_scalar(e) or not PY.is_int_poly(num(e)):
                    return None
                if num(e) is i:
                    n = p.axis.n
                    ms.append(lambda x, p=p: conj(cmp0("le", -x), cmp0("lt", x - p.axis.n), p.axis.cond(x) if p.axis.cond is not None else TRUE))
                else:
                    ms.append(lambda x, p=p: (lambda i: exists(i, p.axis, cmp0("eq", num(p.get(i)) - x)))(fresh("i")))
        return NSet(n if len(s.parts) == 1 else None, lambda x: disj(*[m(x) for m in ms]))

    def __cv_in__(self, x):
        return SBool(self.mem(num(x)))

    def _op(self, o, f):
        o = o if isinstance(o, NSet) else NSet.of(seq(o))
        return o

    def difference(self, o):
        o = o if isinstance(o, NSet) else NSet.of(seq(o))
        return NSet(self.n, lambda x: conj(self.mem(x), neg(o.mem(x))))

    __sub__ = difference

    def intersection(self, o):
        o = o if isinstance(o, NSet) else NSet.of(seq(o))
        return NSet(self.n if self.n is not None else o.n, lambda x: conj(self.mem(x), o.mem(x)))

    __and__ = intersection

    def union(self, o):
        o = o if isinstance(o, NSet) else NSet.of(seq(o))
        return NSet(self.n if self.n is o.n else None, lambda x: disj(self.mem(x), o.mem(x)))

    __or__ = union

    def __cv_seq__(self):
        if self.n is None:
            raise Unsupported("iterating over a set of numbers of unknown range")
        npf_used("iterating over a set of indices gives each once; the order is taken to be increasing")
        return SSeq([Seg(Axis(self.n, self.mem), lambda i: SNum(i))])

    def __cv_sorted__(self, **k):
        if k:
            raise Unsupported("sorting numbers by a key")
        return self.__cv_seq__()

    def __cv_len__(self):
        return wrap_size(self.__cv_seq__().length())

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic set")


def npf_used(x):
    from . import npf

    npf.USED.add(x)


class SSet:
    """The set of the elements of a symbolic sequence."""

    def __new__(cls, s):
        r = NSet.of(seq(s))
        return r if r is not None else object.__new__(cls)

    def __init__(self, s):
        self.s = seq(s)

    def __cv_in__(self, x):
        return x in self.s

    def __cv_sorted__(self, **k):
        us = universe_set(self.s)
        if us is None:
            raise Unsupported("sorting a symbolic set")
        u, m = us
        v = fresh("v")
        with assuming(cmp0("le", -v), cmp0("lt", v - u.n)):
            key_ = k["key"](u.get(v)) if list(k) == ["key"] else None
        if not isinstance(key_, SStr) or key_.parts != key(u.keyname, v).parts:
            raise Unsupported("sorting a symbolic set by %r" % (key_,))
        return CvList(SSeq([Seg(Axis(u.n, m.mem), u.get)]))

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic set")


# ------------------------------------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, SArr):
        if not x.axes:
            raise TypeError("len() of unsized object")
        return wrap_size(x.axes[0].length())
    if isinstance(x, SSeq):
        return wrap_size(x.length())
    if isinstance(x, CvList) and not x.concrete():
        return wrap_size(SSeq(x.parts()).length())
    if isinstance(x, CvDict) and not x.concrete():
        return wrap_size(seq(x).length())
    if hasattr(x, "__cv_len__"):
        return x.__cv_len__()
    return builtins.len(x)


def b_zip(*xs, **k):
    if not any(is_symbolic_iterable(x) for x in xs):
        return builtins.zip(*[list(x) if isinstance(x, (SSeq, SArr)) else x for x in xs])
    ss = [seq(x) for x in xs]
    if any(not s.parts for s in ss):
        return SSeq([])
    if all(builtins.len(s.parts) == 1 and isinstance(s.parts[0], Seg) for s in ss):
        ax = ss[0].parts[0].axis
        if not all(s.parts[0].axis.same(ax) for s in ss):
            raise Unsupported("zip of sequences of unknown relative length")
        return SSeq([Seg(ax, lambda i: tuple(s.parts[0].get(i) for s in ss))])
    if len({builtins.len(s.parts) for s in ss}) == 1:
        out = []
        for ps in zip(*[s.parts for s in ss]):
            if all(isinstance(p, Seg) for p in ps):
                if not all(p.axis.same(ps[0].axis) for p in ps):
                    raise Unsupported("zip")
                out.append(Seg(ps[0].axis, lambda i, ps=ps: tuple(p.get(i) for p in ps)))
            elif all(isinstance(p, Elem) for p in ps):
                out.append(Elem(tuple(p.value for p in ps)))
            else:
                raise Unsupported("zip")
        return SSeq(out)
    raise Unsupported("zip of differently built sequences")


def b_enumerate(x, start=0):
    if not is_symbolic_iterable(x):
        return builtins.enumerate(list(x) if isinstance(x, (SSeq, SArr)) else x, start)
    out, off = [], P(start)
    for p in seq(x).parts:
        if isinstance(p, Seg):
            if p.axis.cond is not None:
                m, get, _ = kept(p.axis)
                out.append(Seg(Axis(m), lambda i, p=p, off=off, get=get: (SNum(i + off), p.get(get(i)))))
                off = off + m
                continue
            out.append(Seg(p.axis, lambda i, p=p, off=off: (SNum(i + off), p.get(i))))
            off = off + p.axis.n
        else:
            out.append(Elem((wrap_size(off), p.value)))
            off = off + P1
    return SSeq(out)


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    a = [num(x) for x in a]
    if all(x.const is not None for x in a):
        return builtins.range(*[int(x.const) for x in a])
    lo, hi = (P0, a[0]) if len(a) == 1 else a[:2]
    st = a[2] if len(a) > 2 else P1
    if st.const != 1:
        raise Unsupported("range with a step")
    d = hi - lo
    if decide(cmp0("le", -d)) is not True:
        d = ite(cmp0("le", -d), d, P0)
    return SSeq([Seg(Axis(d), lambda i: SNum(lo + i))])


def b_sum(x, start=0):
    if isinstance(x, SArr):
        r = A.asum(x, 0)
        return r if isinstance(start, int) and start == 0 else start + r
    if not is_symbolic_iterable(x):
        r = start
        for e in x:
            r = r + e
        return r
    if isinstance(start, (list, CvList)):
        return sum_lists(seq(x), start)
    lp = Loop(x, ("r",))
    r = start
    for e in lp:
        (r,) = lp.enter({"r": r})
        r = r + e
        lp.leave({"r": r})
    (r,) = lp.exit({"r": r})
    return r


def sum_lists(x, start):
    """sum(lists, [])"""
    out = list(seq(start).parts) if is_symbolic_iterable(start) else [Elem(e) for e in start]
    for p in x.parts:
        if isinstance(p, Elem):
            out += seq(p.value).parts if is_symbolic_iterable(p.value) else [Elem(e) for e in p.value]
            continue

        def one(k, p=p):
            e = p.get(k)
            e = seq(e).parts if is_symbolic_iterable(e) else [Elem(q) for q in e]
            if builtins.len(e) != 1:
                raise Unsupported("a sum of many lists of several segments")
            return e[0]

        v = fresh("k")
        with assuming(p.axis.rng(v)):
            e = one(v)
        if isinstance(e, Elem):
            out.append(Seg(p.axis, lambda k, one=one: one(k).value))
            continue
        ax, grp, off = flatten(p.axis, lambda k: one(k).axis)
        out.append(Seg(ax, lambda i, one=one, grp=grp, off=off: one(grp(i)).get(off(i))))
    return CvList(SSeq(out))


def b_all(x):
    if is_symbolic_iterable(x) or isinstance(x, SArr):
        return SBool(_quant(x, False))
    if isinstance(x, list) and any(isinstance(e, SBool) for e in x):
        return SBool(conj(*[truth(e) for e in x]))
    for e in x:
        if not e:
            return False
    return True


def b_any(x):
    if is_symbolic_iterable(x) or isinstance(x, SArr):
        return SBool(_quant(x, True))
    if isinstance(x, list) and any(isinstance(e, SBool) for e in x):
        return SBool(disj(*[truth(e) for e in x]))
    for e in x:
        if e:
            return True
    return False


def _quant(x, exists):
    cs = []
    for p in seq(x).parts:
        if isinstance(p, Elem):
            c = truth(p.value)
            cs.append(neg(c) if exists else c)
            continue
        v = fresh("q")
        with assuming(p.axis.rng(v)):
            c = truth(p.get(v))
        c = neg(c) if exists else c
        if p.axis.cond is not None:
            c = disj(c, neg(p.axis.cond(v)))
        cs.append(PY.forall(atom_of(v), p.axis.n, c) if atom_of(v) in c.fv else disj(c, cmp0("le", p.axis.n)))
    r = conj(*cs)
    return neg(r) if exists else r


def truth(v):
    if isinstance(v, (SBool, SNum, bool, int, float)):
        return A.cnd(v)
    if v is None:
        return FALSE
    return TRUE if v else FALSE


def b_minmax(kind):
    def f(*a, **k):
        if len(a) == 1:
            if isinstance(a[0], SArr):
                return A.EXPLORER[0].extremum(kind, a[0], None)
            if is_symbolic_iterable(a[0]):
                return A.EXPLORER[0].extremum(kind, seq(a[0]).__cv_array__(), None)
            a = list(a[0])
        if kind == "max" and any(hasattr(x, "__cv_max__") for x in a) and not k:
            return [x for x in a if hasattr(x, "__cv_max__")][0].__cv_max__(a)
        if not any(isinstance(x, (SNum, SBool)) for x in a):
            return getattr(builtins, kind)(*a, **k) if len(a) > 1 else getattr(builtins, kind)(a, **k)
        r = a[0]
        for x in a[1:]:
            c = cmp0("le", num(x) - num(r)) if kind == "min" else cmp0("le", num(r) - num(x))
            r = SNum(ite(c, num(x), num(r)))
        return r

    return f


def b_abs(x):
    if isinstance(x, (SNum, SArr)):
        return x.__abs__()
    return builtins.abs(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.base) or (isinstance(x, SNum) and (cls.base is float) != PY.is_int_poly(x.p))

    def __call__(cls, x=0, *a):
        if isinstance(x, SArr) and all(k.one() for k in x.axes):
            x = SNum(x.el(*[P0] * len(x.axes)))
        if isinstance(x, SBool):
            return SNum(iverson(x.c))
        if isinstance(x, SNum):
            if cls.base is float:
                return x
            if x.p.const is not None:
                return builtins.int(x.p.const)
            if PY.is_int_poly(x.p):
                return x
            return SNum(PY.fn("trunc", x.p))
        return cls.base(x, *a)

    def __eq__(cls, o):
        return o is cls.base or o is cls.__dict__.get("self") or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(cls.base)


def mk_num(base):
    return _IntMeta(base.__name__, (), {"base": base, "dtype": _np.dtype(base)})


b_int, b_float = mk_num(int), mk_num(float)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for u in ts:
        if u in (b_int, b_float):
            if _IntMeta.__instancecheck__(u, x):
                return True
            continue
        if isinstance(u, _Facade):
            raise Unsupported("isinstance facade")
        if isinstance(x, SArr) and isinstance(u, type) and issubclass(u, _np.ndarray):
            if u is _np.ndarray or (x.tag is not None and issubclass(x.tag, u)):
                return True
            continue
        if u in (int,) and isinstance(x, SNum):
            return PY.is_int_poly(x.p)
        if u is float and isinstance(x, SNum):
            return not PY.is_int_poly(x.p)
        if u is str and isinstance(x, SStr):
            return True
        if u in (list,) and isinstance(x, SSeq):
            return True
        if hasattr(x, "__cv_isinstance__"):
            r = x.__cv_isinstance__(u)
            if r is not None:
                if r:
                    return True
                continue
        if isinstance(u, _TypeMeta):
            u = u.base
        if u in (list, tuple) and isinstance(x, SSeq):
            return True
        if builtins.isinstance(x, u):
            return True
    return False


def b_list(x=()):
    if isinstance(x, CvSet) and not x.concrete():
        return x        # in an arbitrary order: only what does not depend on it is supported
    return CvList(x if not isinstance(x, SArr) or is_symbolic_iterable(x) else list(x))


def b_tuple(x=()):
    if is_symbolic_iterable(x):
        return SSeq(seq(x).parts)
    return builtins.tuple(x)


def b_set(x=()):
    if isinstance(x, builtins.tuple) and not x:
        return CvSet()
    if isinstance(x, CvSet):
        return x if not x.concrete() else builtins.set(list.__iter__(x))
    if is_symbolic_iterable(x):
        return SSet(x)
    x = list(x)
    if any(isinstance(e, (SStr, SNum)) for e in x):
        raise Unsupported("set of symbolic values")
    return builtins.set(x)


def b_sorted(x, **k):
    if hasattr(x, "__cv_sorted__"):
        return x.__cv_sorted__(**k)
    if is_symbolic_iterable(x):
        r = None if k else sorted_family(x)
        if r is not None:
            return r
        if list(k) == ["key"]:
            keys = []
            for p in seq(x).parts:
                if isinstance(p, Seg):
                    v = fresh("k")
                    with assuming(p.axis.rng(v)):
                        keys.append(k["key"](resolve(p.get(v))))
                else:
                    keys.append(k["key"](p.value))
            if all(isinstance(e, (bool, int, str)) for e in keys):
                order = builtins.sorted(range(builtins.len(keys)), key=lambda i: keys[i])
                return CvList(SSeq([seq(x).parts[i] for i in order]))       # stable
        raise Unsupported("sorting a symbolic sequence")
    x = list(x)
    if any(isinstance(e, (SStr, SNum)) for e in x):
        raise Unsupported("sorting symbolic values")
    return CvList(builtins.sorted(x, **k))


def b_reversed(x):
    if is_symbolic_iterable(x):
        s = seq(x)
        if builtins.len(s.parts) == 1 and s.parts[0].axis.cond is None:
            p = s.parts[0]
            return SSeq([Seg(p.axis, lambda i: p.get(p.axis.n - P1 - i))])
        raise Unsupported("reversed")
    return builtins.reversed(list(x))


def b_dict(*a, **k):
    return CvDict(*a, **k)


class _TypeMeta(type):
    """list, tuple, set, dict: calls go to the verifier's versions, instance checks to the real types."""

    def __instancecheck__(cls, x):
        return b_isinstance(x, cls.base)

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls.base

    def __hash__(cls):
        return hash(cls.base)


def mk_type(base, make):
    return _TypeMeta(base.__name__, (), {"base": base, "make": staticmethod(make)})


def b_map(f, *xs):
    if len(xs) == 1 and is_symbolic_iterable(xs[0]):
        return _CV.comp(xs[0], lambda it: [f(x) for x in it])
    return builtins.map(f, *xs)


class b_super:
    """super(T, x) on an array of the verifier; otherwise the real one."""

    def __new__(cls, t=None, x=None):
        if t is None:
            raise Unsupported("super() without arguments")
        if isinstance(x, SArr):
            i = x.tag.__mro__.index(t)
            for c in x.tag.__mro__[i + 1:]:
                if c is _np.ndarray:
                    return _ArrSuper(x)
                raise Unsupported("array subclasses of several levels")
        return builtins.super(t, x)


class _ArrSuper:
    def __init__(self, x):
        self.x = x

    def __getattr__(self, a):
        f = getattr(SArr, a)

        def g(*args):
            r = f(self.x, *args)
            if r is NotImplemented:
                raise TypeError("unsupported operand")
            return r

        return g


def b_hash(x):
    return builtins.hash(x)


class _Facade:
    pass


BUILTINS = dict(len=b_len, zip=b_zip, enumerate=b_enumerate, range=b_range, sum=b_sum, all=b_all, any=b_any, min=b_minmax("min"), max=b_minmax("max"),
                abs=b_abs, int=b_int, float=b_float, isinstance=b_isinstance, list=mk_type(list, b_list), tuple=mk_type(tuple, b_tuple), set=mk_type(set, b_set), sorted=b_sorted,
                reversed=b_reversed, dict=mk_type(dict, b_dict), super=b_super, map=b_map)


# ------------------------------------------------------------------------------------------------ loading modules of the package
class Loader:
    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.external = {}    # module name -> stand-in
        self.contracts = {}   # dotted name of a function of a module -> what stands for it (its contract) from its definition on

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.path(name)
        src = open(path).read()
        tree = Tr().visit(ast.parse(src, path))
        body = []
        for node in tree.body:
            body.append(node)
            if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and name + "." + node.name in self.contracts:
                body.append(ast.parse("%s = cv_contracts__[%r]" % (node.name, name + "." + node.name)).body[0])
        tree.body = body
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        b = dict(vars(builtins))
        b.update(BUILTINS)
        b["__import__"] = self.imp
        m.__dict__["__builtins__"] = b
        m.__dict__["cv__"] = _CV
        m.__dict__["cv_contracts__"] = self.contracts
        exec(compile(tree, path, "exec"), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = ".".join(pkg[: len(pkg) - level + 1])
            name = base + ("." + name if name else "")
        if name.split(".")[0] == "enterprise":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and os.path.exists(self.path(name + "." + f)):
                        setattr(m, f, self.load(name + "." + f))
                return m
            # import a.b.c binds a
            top = self.load(name.split(".")[0])
            cur, parts = top, name.split(".")
            for k in range(1, len(parts)):
                sub = self.load(".".join(parts[: k + 1]))
                setattr(cur, parts[k], sub)
                cur = sub
            return top
        from . import npf

        st = npf.external(name, fromlist)
        if st is not None:
            return st
        m = builtins.__import__(name, globals, locals, fromlist, level)
        return m
