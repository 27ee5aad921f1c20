"""Terms of the contract verifier: real/integer polynomials in normal form.

A Poly is a sum of monomials with rational coefficients; a monomial is a product of powers (rational exponents) of
atoms. Atoms are variables, elements of arrays (applied symbols), elementary functions, parenthesised polynomials
under a non-natural power, Iverson brackets of conditions, and sums over finite index ranges. Two terms are equal
when their normal forms coincide; the normaliser only uses identities of real arithmetic, so a coincidence is a proof.
Side conditions of those identities (a divisor that is not zero, an argument of log that is positive) are proved from
the declared facts or recorded in SIDE, from where they become named assumptions of the run."""
from fractions import Fraction
from functools import lru_cache
import itertools

ZERO, ONE = Fraction(0), Fraction(1)


class Unsupported(Exception):
    pass


# --------------------------------------------------------------------------------------------- facts about symbols
POS, NONNEG, NONZERO, INTS = set(), set(), set(), set()  # names of symbols
DISJOINT = {}   # predicate name -> position of the key argument: at most one key holds for the other arguments
PERM = {}       # name of a permutation symbol -> its size
INVERSES = {}   # name of a permutation symbol -> name of its inverse (both bijections of the integers)
INJECTIVE = set()  # names of injective symbols
ONTO = set()    # names of symbols that take every value they are compared with
INTERVALS = []  # (symbol 1, symbol 2, lo, hi, eq): for all b, i the conditions lo(b, i), hi(b, i) on app(symbol 1, b), app(symbol 2, i) hold together iff eq(b, i)
SYMMETRIC = set()  # applied symbols whose two last arguments commute
SIDE = {}       # side conditions not proved: text -> count
CTX = []
_dec = {}
_epoch = [0]
SIZES = set()


def reset():
    for s in (POS, NONNEG, NONZERO, INTS, SYMMETRIC):
        s.clear()
    DISJOINT.clear()
    PERM.clear()
    INVERSES.clear()
    INJECTIVE.clear()
    ONTO.clear()
    INTERVALS.clear()
    SIDE.clear()
    CTX.clear()
    _dec.clear()
    SIZES.clear()
    _epoch[0] += 1   # facts of other contracts are forgotten
    POS.add("pi")


# --------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "name", "args", "key", "fv", "depth", "_h")
    _tab = {}

    def __new__(cls, kind, name, args=()):
        key = "%s:%s(%s)" % (kind, name, ",".join(a.key for a in args)) if args else "%s:%s" % (kind, name)
        if kind == "sum":
            raise AssertionError
        a = cls._tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.name, a.args, a.key, a._h = kind, name, tuple(args), key, hash(key)
            fv = frozenset()
            d = 0
            for x in args:
                fv |= x.fv
                d = max(d, x.depth)
            if kind == "v":
                fv = frozenset([a])
            a.fv, a.depth, a._h = fv, d, hash(key)
            cls._tab[key] = a
        return a

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return show_atom(self)


class SumAtom(Atom):
    """Sum over binders (names #d.i, each with its size) of a monomial."""
    __slots__ = ("binders", "body")

    def __new__(cls, binders, body, depth):
        key = "sum:[%s]%s" % (",".join("%s<%s" % (b.name, n.key) for b, n in binders), body.key)
        a = Atom._tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.name, a.args, a.key = "sum", "", (), key
            a.binders, a.body = tuple(binders), body
            fv = body.fv
            for _, n in binders:
                fv |= n.fv
            a.fv = fv - frozenset(b for b, _ in binders)
            a.depth, a._h = depth, hash(key)
            Atom._tab[key] = a
        return a


# --------------------------------------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "key", "fv", "depth", "_h")
    _tab = {}

    def __new__(cls, terms):
        """terms: dict monomial -> Fraction (already normal)."""
        items = sorted(((m, c) for m, c in terms.items() if c != 0), key=lambda x: _mkey(x[0]))
        key = "+".join("%s*%s" % (c, _mkey(m)) for m, c in items)
        p = cls._tab.get(key)
        if p is None:
            p = object.__new__(cls)
            p.t = dict(items)
            p.key = key
            fv, d = frozenset(), 0
            for m, _ in items:
                for a, _e in m:
                    fv |= a.fv
                    d = max(d, a.depth)
            p.fv, p.depth, p._h = fv, d, hash(key)
            cls._tab[key] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    # ring operations
    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            d[m] = d.get(m, ZERO) + c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return P0
        if len(o.t) == 1 and () in o.t:
            c = o.t[()]
            return Poly({m: v * c for m, v in self.t.items()})
        acc = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                _addto(acc, mono_mul(m1, m2), c1 * c2)
        return Poly(acc)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(P(o), Fraction(-1))

    def __rtruediv__(self, o):
        return P(o) * power(self, Fraction(-1))

    def __pow__(self, n):
        return power(self, Fraction(n))

    @property
    def const(self):
        """The rational value, or None."""
        if not self.t:
            return ZERO
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None


def _addto(acc, poly, c):
    for m, v in poly.t.items():
        acc[m] = acc.get(m, ZERO) + v * c


def _mkey(m):
    return "*".join(a.key if e == 1 else "%s^%s" % (a.key, e) for a, e in m)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, ONE),): ONE})
    if isinstance(x, bool):
        return P1 if x else P0
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)})
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return P(Atom("v", "float:%r" % x))
        return Poly({(): from_float(x)})
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return P(x.item())
    raise Unsupported("not a number: %r" % (x,))


@lru_cache(maxsize=None)
def from_float(x):
    """The simplest rational that rounds to the float (machine constants stand for the numbers they were written as)."""
    d = Fraction(repr(x))
    if d.denominator == 1:
        return d
    if len(str(d.numerator)) <= 9 and len(repr(x)) <= 12:
        return d
    for den in (10**4, 10**6, 10**9):
        r = Fraction(x).limit_denominator(den)
        if r and float(r) == x:
            return r
        i = (1 / Fraction(x)).limit_denominator(den)
        if i and float(1 / i) == x:
            return 1 / i
    return d


P0 = Poly({})
P1 = Poly({(): ONE})


def var(name, integer=False, pos=False, nonneg=False):
    if integer:
        INTS.add(name)
    if pos:
        POS.add(name)
    if nonneg:
        NONNEG.add(name)
    return P(Atom("v", name))


def app(name, *args, integer=False, pos=False, nonneg=False):
    if integer:
        INTS.add(name)
    if pos:
        POS.add(name)
    if nonneg:
        NONNEG.add(name)
    args = tuple(P(a) for a in args)
    if name in SYMMETRIC and len(args) >= 2 and args[-1].key < args[-2].key:
        args = args[:-2] + (args[-1], args[-2])
    if len(args) == 1 and len(args[0].t) == 1:
        (m, c), = args[0].t.items()
        if c == 1 and len(m) == 1 and m[0][0].kind == "lam" and m[0][1] == 1 and m[0][0].name in ("first:", "last:"):
            # the first index i with name(i) == t
            lam = m[0][0]
            (bm, bc), = lam.bodies[0].t.items() if len(lam.bodies[0].t) == 1 else [((), 0)]
            if bc == 1 and len(bm) == 1 and bm[0][0].kind == "I" and bm[0][0].args[0].kind == "eq":
                p = bm[0][0].args[0].args[0]
                e = Atom("f", name, (P(_bvar(lam.depth, 0)),))
                k = p.t.get(((e, ONE),), 0)
                t = (p - Poly({((e, ONE),): k})) * P(-1 / k) if k else None
                if t is not None and not any(v.name.startswith("#%d." % lam.depth) for v in t.fv):
                    return t
    if name in INVERSES and len(args[0].t) == 1:
        ((m, c),) = args[0].t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "f" and m[0][0].name == INVERSES[name]:
            return m[0][0].args[0]
    return P(Atom("f", name, args))


_fresh = itertools.count()


def fresh(prefix="k"):
    n = "%s~%d" % (prefix, next(_fresh))
    INTS.add(n)
    return P(Atom("v", n))


PI = P(Atom("v", "pi"))


# --------------------------------------------------------------------------------------------- signs
def atom_pos(a):
    if a.kind in ("v", "f", "lam"):
        return a.name in POS or (a.kind == "v" and a.name == "pi")
    if a.kind == "fn":
        return a.name == "exp"
    if a.kind in ("k", "lk"):
        return True
    if a.kind == "P":
        return is_pos(a.args[0])
    if a.kind == "sum" and all(is_pos(n) for _, n in a.binders):
        m = next(iter(a.body.t))
        if mono_pos(m):
            return True
        if ONTO and len(a.binders) == 1:
            on = [b for b, _ in m if b.kind == "I" and b.args[0].kind == "eq" and any(len(k) == 1 and k[0][0].kind == "f" and k[0][0].name in ONTO and k[0][0].args[0] is P(a.binders[0][0]) for k in b.args[0].args[0].t)
                  and len([k for k in b.args[0].args[0].t if any(a.binders[0][0] in y.fv for y, _ in k)]) == 1]
            return len(on) == 1 and mono_pos(tuple(x for x in m if x[0] is not on[0]))
    return False


def atom_nonneg(a):
    if atom_pos(a):
        return True
    if a.kind in ("v", "f"):
        return a.name in NONNEG
    if a.kind == "I":
        return True
    if a.kind == "fn" and a.name == "abs":
        return True
    if a.kind == "P":
        return is_nonneg(a.args[0])
    if a.kind == "sum":
        return mono_nonneg(next(iter(a.body.t)))
    return False


def mono_pos(m):
    return all(atom_pos(a) or (e.denominator == 1 and e.numerator % 2 == 0 and nonzero(P(a))) for a, e in m)


def mono_nonneg(m):
    return all(atom_nonneg(a) or (e.denominator == 1 and e.numerator % 2 == 0) for a, e in m)


@lru_cache(maxsize=None)
def _sign(p, gen):
    if not p.t:
        return "0"
    cs = p.t.values()
    if all(c > 0 for c in cs) and all(mono_nonneg(m) for m in p.t):
        return "+" if any(mono_pos(m) for m in p.t) else "+0"
    if all(c < 0 for c in cs) and all(mono_nonneg(m) for m in p.t):
        return "-" if any(mono_pos(m) for m in p.t) else "-0"
    return "?"


def _gen():
    return (_epoch[0], len(POS), len(NONNEG), len(NONZERO))


def is_pos(p):
    if _sign(p, _gen()) == "+":
        return True
    return False


def is_nonneg(p):
    return _sign(p, _gen()) in ("+", "+0", "0")


def nonzero(p):
    if _sign(p, _gen()) in ("+", "-"):
        return True
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return all(atom_pos(a) or (a.kind in ("v", "f") and a.name in NONZERO) or (e < 0) or (a.kind == "P" and decide(cmp0("eq", a.args[0])) is False) for a, e in m)
    return False


def side(what, p):
    import re

    if len(p.t) > 1:
        q, f, _ = primitive(p)
        p = q if what == "nonzero" else p
        if f is not P1 and what == "nonzero" and not nonzero(f):
            side(what, f)
    text = what + ": " + re.sub(r"(\w)~\d+", r"\1", show(p))
    SIDE[text] = SIDE.get(text, 0) + 1


def need_nonzero(p):
    if p.const is not None:
        if p.const == 0:
            raise Unsupported("division by zero")
        return
    if nonzero(p) or decide(cmp0("eq", p)) is False:
        return
    side("nonzero", p)


def need_pos(p, what):
    if is_pos(p) or (p.const is not None and p.const > 0) or decide(cmp0("le", p)) is False:
        return
    side("%s of a positive number" % what, p)


# --------------------------------------------------------------------------------------------- monomials
def mono_mul(m1, m2):
    """Product of two normal monomials, as a Poly."""
    if not m1:
        return Poly({m2: ONE})
    if not m2:
        return Poly({m1: ONE})
    d = dict(m1)
    dirty = False
    for a, e in m2:
        if a in d:
            d[a] += e
            dirty = True
        else:
            d[a] = e
    # do the rules apply? (cheap test)
    if not dirty:
        kinds = [a for a in d if a.kind in ("I", "fn") or DISJOINT and a.kind == "sum"]
        if not kinds:
            return Poly({tuple(sorted(d.items(), key=lambda x: x[0].key)): ONE})
    return mono_norm(d)


def mono_norm(d, coeff=ONE):
    """Normal form of coeff * prod a^e as a Poly."""
    out = P1
    # exponentials are collected into one
    ex = P0
    plain = {}
    extra = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == "fn" and a.name == "exp":
            ex = ex + a.args[0] * P(e)
        elif a.kind == "I":
            if e > 0:
                plain[a] = ONE
            else:
                raise Unsupported("division by an Iverson bracket")
        elif a.kind == "k":  # prime constant under a fractional power
            n = e.numerator // e.denominator
            if n:
                coeff = coeff * Fraction(int(a.name)) ** n
            if e - n:
                plain[a] = e - n
        elif a.kind == "P" and e >= 1:
            n = e.numerator // e.denominator
            extra.append(ipow(a.args[0], n))
            if e - n:
                plain[a] = e - n
        elif a.kind == "fn" and a.name == "sin" and e >= 2 and e.denominator == 1:
            n = int(e) // 2
            c = fn("cos", a.args[0])
            extra.append(ipow(P1 - c * c, n))
            if e - 2 * n:
                plain[a] = e - 2 * n
        elif a.kind == "fn" and a.name == "abs" and e.denominator == 1 and abs(e) >= 2:
            n = int(e) // 2 * 2 if e > 0 else -((-int(e)) // 2 * 2)
            extra.append(power(a.args[0], Fraction(n)))
            if e - n:
                plain[a] = e - n
        else:
            plain[a] = e
    if ex is not P0:
        extra.append(mk_exp(ex))
        # mk_exp may give back an exp atom: keep it
    if extra and not (len(extra) == 1 and ex is not P0 and len(extra[0].t) == 1 and _single_exp(extra[0])):
        r = mono_norm(plain, coeff)
        for x in extra:
            r = r * x
        return r
    if extra:  # a single exp atom with coefficient
        (m, c), = extra[0].t.items()
        coeff = coeff * c
        for a, e in m:
            plain[a] = plain.get(a, ZERO) + e
    if DISJOINT:
        r = disjoint_sums(plain, coeff)
        if r is not None:
            return r
    # Iverson brackets: disjoint families and equalities
    iv = [a for a in plain if a.kind == "I"]
    if len(iv) > 0:
        r = iverson_rules(plain, iv, coeff)
        if r is not None:
            return r
    return Poly({tuple(sorted(plain.items(), key=lambda x: x[0].key)): coeff})


def _single_exp(p):
    (m, c), = p.t.items()
    return len(m) == 1 and m[0][0].kind == "fn" and m[0][0].name == "exp" and m[0][1] == 1


def disjoint_sums(plain, coeff):
    """(sum_k [p(k, x)] f(k)) (sum_k [p(k, x)] g(k)) = sum_k [p(k, x)] f(k) g(k) where at most one k satisfies p(k, x)."""
    seen = {}
    for a, e in plain.items():
        if a.kind != "sum" or e.denominator != 1 or e < 1:
            continue
        (m, _), = a.body.t.items()
        bs = {b for b, _ in a.binders}
        for b, n in a.binders:
            if n.fv & bs:
                continue
            for q, _ in m:
                if q.kind == "I" and q.args[0].kind == "pred" and q.args[0].name in DISJOINT:
                    c = q.args[0]
                    kp = DISJOINT[c.name]
                    if c.args[kp] is P(b) and not any(x.fv & bs for i, x in enumerate(c.args) if i != kp):
                        key = (c.name, n.key, tuple(x.key for i, x in enumerate(c.args) if i != kp))
                        if e > 1 or key in seen:
                            a2, b2 = seen.get(key, (a, b))
                            rest = dict(plain)
                            for x in {a, a2}:
                                rest[x] -= 1
                            if a is a2:
                                rest[a] -= 1
                            k = fresh("s")
                            with assuming(cmp0("le", -k), cmp0("lt", k - n)):
                                f = summation(k, n, _inst_sum(a, b, k) * _inst_sum(a2, b2, k))
                            r = P(coeff) * f
                            for x, y in rest.items():
                                if y:
                                    r = r * Poly({((x, y),): ONE})
                            return r
                        seen[key] = (a, b)
    return None


def _inst_sum(a, b, k):
    """The body of the sum with the binder b instantiated, summed over the other binders."""
    env = {b: k}
    todo = []
    for x, n in a.binders:
        if x is not b:
            w = fresh("s")
            env[x] = w
            todo.append((w, n))
    r = subst(a.body, env)
    for w, n in reversed(todo):
        r = summation(w, subst(n, env), r)
    return r


def _interval_pairs(cs):
    """(lo condition present, its partner, what they say together, lo, hi)"""
    for n1, n2, lo, hi, eq in INTERVALS:
        for c in cs:
            if c.kind != "le":
                continue
            x = [b for m in c.args[0].t for b, _ in m if b.kind == "f" and b.name == n1]
            y = [b for m in c.args[0].t for b, _ in m if b.kind == "f" and b.name == n2]
            if len(x) == len(y) == 1:
                u, v = x[0].args[0], y[0].args[0]
                yield c, lo(u, v), hi(u, v), eq(u, v)


def _interval_conj(cs):
    for c, l, h, q in _interval_pairs(cs):
        if c is l and h in cs:
            return [x for x in cs if x is not c and x is not h] + [q]
    return None


def _interval_rule(plain, iv, coeff):
    for n1, n2, lo, hi, eq in INTERVALS:
        for a in iv:
            c = a.args[0]
            if c.kind != "le":
                continue
            x = [b for m in c.args[0].t for b, _ in m if b.kind == "f" and b.name == n1]
            y = [b for m in c.args[0].t for b, _ in m if b.kind == "f" and b.name == n2]
            if len(x) != 1 or len(y) != 1:
                continue
            u, v = x[0].args[0], y[0].args[0]
            l, h, q = lo(u, v), hi(u, v), eq(u, v)
            val = None
            if q is TRUE or q is not FALSE and Atom("I", "", (q,)) in plain:
                val = P1 if c is l or c is h else P0 if neg(c) is h or neg(c) is l else None
            elif c is l:
                base = neg(h) if h.kind == "not" else h
                o = Atom("I", "", (base,))
                if o in plain:
                    rest = {b: e for b, e in plain.items() if b is not a and b is not o}
                    return mono_norm(rest, coeff) * (iverson(c) - iverson(q) if h.kind == "not" else iverson(q))
            if val is not None:
                return mono_norm({b: e for b, e in plain.items() if b is not a}, coeff) * val
    return None


def iverson_rules(plain, iv, coeff):
    if INTERVALS:
        r = _interval_rule(plain, iv, coeff)
        if r is not None:
            return r
    # disjointness
    for i, a in enumerate(iv):
        c = a.args[0]
        if c.kind == "pred" and c.name in DISJOINT:
            kp = DISJOINT[c.name]
            for b in iv[i + 1 :]:
                d = b.args[0]
                if d.kind == "pred" and d.name == c.name and all(x is y for n, (x, y) in enumerate(zip(c.args, d.args)) if n != kp):
                    rest = dict(plain)
                    del rest[b]
                    return mono_norm(rest, coeff) * iverson(cmp0("eq", c.args[kp] - d.args[kp]))
    # [v == t] x  ->  [v == t] x[v := t]
    for a in iv:
        c = a.args[0]
        if c.kind == "eq":
            v, t = solve_eq(c.args[0])
            if v is not None and any(v in b.fv for b in plain if b is not a):
                r = P(coeff)
                for b, e in plain.items():
                    if b is not a:
                        r = r * power(subst(P(b), {v: t}), e)
                # the bracket itself stays as it is
                return r * Poly({((a, ONE),): ONE}) if r.t else P0
        # contradictory / implied literals with the same left side are left to the prover
    for a in iv:
        c = a.args[0]
        # a bracket inside another factor holds there
        if any(b is not a and b.kind in ("I", "sum") and a.key in b.key for b in plain):
            return _rewrite(plain, coeff, a, a, P1)
        # [f == g] x  ->  [f == g] x[f := g] for applied symbols
        if c.kind == "eq" and len(c.args[0].t) == 2:
            (m1, c1), (m2, c2) = c.args[0].t.items()
            if c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and m1[0][0].kind == m2[0][0].kind == "f":
                f, g = m1[0][0], m2[0][0]
                if f.key < g.key:
                    f, g = g, f
                if f.key not in g.key and any(b is not a and b.kind in ("I", "sum") and f.key in b.key for b in plain):
                    return _rewrite(plain, coeff, a, f, P(g))
    return None


def _rewrite(plain, coeff, a, f, t):
    """The product with f replaced by t in its factors other than the bracket a."""
    from .prove import replace_atom

    r = P(coeff)
    for b, e in plain.items():
        if b is not a:
            r = r * power(replace_atom(P(b), f, t) if b.kind in ("I", "sum") else P(b), e)
    return r * Poly({((a, ONE),): ONE}) if r.t else P0


def solve_eq(p):
    """p == 0 solved for one of its integer variables with unit coefficient: (atom, poly) or (None, None).
    The choice is canonical: the largest eligible variable."""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "v" and abs(c) == 1:
            v = m[0][0]
            if v.name in SIZES:
                continue
            rest = p - Poly({m: c})
            if v in rest.fv:
                continue
            if best is None or _vrank(v) > _vrank(best[0]):
                best = (v, rest * P(-1 / c))
    return best or (None, None)


def _vrank(v):
    return (v.name.startswith("#"), "~" in v.name, v.key)


# --------------------------------------------------------------------------------------------- powers
def ipow(p, n):
    r, b = P1, p
    while n:
        if n & 1:
            r = r * b
        b = b * b if n > 1 else b
        n >>= 1
    return r


SMALL_PRIMES = [q for q in range(2, 1000) if all(q % r for r in range(2, int(q**0.5) + 1))]


@lru_cache(maxsize=None)
def factor(n):
    """Positive integer as tuple of (factor, exponent); large cofactors are kept whole."""
    out = []
    for q in SMALL_PRIMES:
        e = 0
        while n % q == 0:
            n //= q
            e += 1
        if e:
            out.append((q, e))
        if n == 1:
            break
    if n > 1:
        out.append((n, 1))
    return tuple(out)


def const_power(c, e):
    """c^e for a positive rational c and rational e."""
    if e.denominator == 1:
        return P(c ** int(e))
    d = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for q, k in factor(n):
            a = Atom("k", str(q))
            d[a] = d.get(a, ZERO) + s * k * e
    return mono_norm(d)


def power(p, e):
    e = Fraction(e)
    if e == 0:
        return P1
    if e == 1:
        return p
    if not p.t:
        if e > 0:
            return P0
        raise Unsupported("division by zero")
    if e.denominator == 1 and e > 0:
        if len(p.t) > 1 or True:
            return ipow(p, int(e))
    if e < 0:
        need_nonzero(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if e.denominator == 1:
            return mono_norm({a: x * e for a, x in m}) * P(c ** int(e))
        if c > 0 and all(atom_pos(a) or atom_nonneg(a) for a, _ in m):
            d = {}
            sq = P1
            for a, x in m:
                if a.kind == "I":
                    sq = sq * P(a)
                else:
                    d[a] = x * e
            return mono_norm(d) * const_power(c, e) * sq
        if c > 0 and e == Fraction(1, 2) and all(x.denominator == 1 and x % 2 == 0 for a, x in m):
            r = const_power(c, e)
            for a, x in m:
                y = x / 2
                r = r * (power(P(a), y) if atom_nonneg(a) or y % 2 == 0 else power(fn("abs", P(a)), y))
            return r
        return mono_norm({Atom("P", "", (p,)): e})
    # several terms: take out content and common factors
    q, f, c = primitive(p)
    if e.denominator == 1:
        # exact inverse of a sum: (c f q)^e
        r = mono_norm({Atom("P", "", (q,)): e}) * P(c ** int(e))
        return r * power(f, e) if f is not P1 else r
    if c < 0:
        q, c = -q, -c
    if f is P1 or all(atom_pos(a) for a, _ in next(iter(f.t))):
        r = mono_norm({Atom("P", "", (q,)): e}) * const_power(c, e)
        return r * power(f, e) if f is not P1 else r
    return mono_norm({Atom("P", "", (p,)): e})


def primitive(p):
    """p = c * f * q with rational c, monomial f (as Poly) and q with leading coefficient 1 and no common atom."""
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0) and a.kind != "I"} | {
                a: max(e, d[a]) for a, e in common.items() if a in d and e < 0 and d[a] < 0}
    common = {a: e for a, e in common.items() if a.kind not in ("I",) and not (a.kind == "fn" and a.name == "exp")}
    # negative powers present in some terms only: clear them
    for m in p.t:
        for a, e in m:
            if e < 0 and a.kind not in ("I",) and (a not in common or common[a] > e):
                common[a] = min(e, common.get(a, e))
    f = mono_norm(common) if common else P1
    if f is not P1:
        q = p * mono_norm({a: -e for a, e in common.items()})
    else:
        q = p
    lead = next(iter(q.t.values()))
    return q * P(1 / lead), f, lead


# --------------------------------------------------------------------------------------------- functions
def mk_exp(p):
    out, rest = P1, P0
    for m, c in p.t.items():
        if len(m) == 1 and m[0][0].kind == "fn" and m[0][0].name == "log" and m[0][1] == 1:
            out = out * power(m[0][0].args[0], c)
        elif len(m) == 1 and m[0][0].kind == "lk" and m[0][1] == 1:
            out = out * const_power(Fraction(int(m[0][0].name)), c)
        else:
            rest = rest + Poly({m: c})
    if rest is P0:
        return out
    r = Poly({((Atom("fn", "exp", (rest,)), ONE),): ONE})
    return r if out is P1 else _mul_exp(out, r)


def _mul_exp(out, r):
    (m2, _), = r.t.items()
    acc = {}
    for m, c in out.t.items():
        d = dict(m)
        for a, e in m2:
            d[a] = d.get(a, ZERO) + e
        # no exp atom in `out` (made of powers): a plain product
        key = tuple(sorted(d.items(), key=lambda x: x[0].key))
        acc[key] = acc.get(key, ZERO) + c
    return Poly(acc)


def log_prime(q):
    """log q; log 5 is written log 10 - log 2, so that log 10 is a single atom."""
    if q == 5:
        return P(Atom("lk", "10")) - P(Atom("lk", "2"))
    return P(Atom("lk", str(q)))


def mk_log(p):
    if p is P1:
        return P0
    if p.const is not None:
        if p.const <= 0:
            raise Unsupported("log of %s" % p.const)
        r = P0
        for n, s in ((p.const.numerator, 1), (p.const.denominator, -1)):
            for q, k in factor(n):
                r = r + log_prime(q) * P(Fraction(s * k))
        return r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(atom_pos(a) for a, _ in m):
            r = mk_log(P(c))
            for a, e in m:
                if a.kind == "fn" and a.name == "exp":
                    r = r + a.args[0] * P(e)
                elif a.kind == "k":
                    r = r + log_prime(int(a.name)) * P(e)
                elif a.kind == "P":
                    r = r + mk_log(a.args[0]) * P(e)
                else:
                    r = r + P(Atom("fn", "log", (P(a),))) * P(e)
            return r
        if c > 0 and len(m) > 1 or c != 1:
            # split off what is positive
            r, rest = (mk_log(P(c)), P1) if c > 0 else (P0, P(c))
            for a, e in m:
                if atom_pos(a):
                    r = r + mk_log(P(a)) * P(e)
                else:
                    rest = rest * power(P(a), e)
            need_pos(rest, "log")
            return r + P(Atom("fn", "log", (rest,)))
    need_pos(p, "log")
    if len(p.t) > 1:
        q, f, c = primitive(p)
        if c > 0 and (f is P1 or all(atom_pos(a) for a, _ in next(iter(f.t)))):
            r = P(Atom("fn", "log", (q,))) + mk_log(P(c))
            return r + mk_log(f) if f is not P1 else r
    return P(Atom("fn", "log", (p,)))


def power_sym(base, e):
    """base ** e for a symbolic exponent."""
    if e.const is not None:
        return power(base, e.const)
    if base.const is not None and base.const == 0:
        raise Unsupported("0 ** symbolic")
    need_pos(base, "symbolic power")
    if len(base.t) == 1 and base.const is None and all(a.kind == "I" for a, _ in next(iter(base.t))):
        raise Unsupported("power of a bracket")
    return mk_exp(e * mk_log(base))


ODD, EVEN = {"sin", "tan", "arcsin", "arctan", "sinh", "tanh", "erf"}, {"cos", "cosh", "abs"}


def fn(name, *args):
    args = tuple(P(a) for a in args)
    if name == "exp":
        return mk_exp(args[0])
    if name == "log":
        return mk_log(args[0])
    if name == "sqrt":
        return power(args[0], Fraction(1, 2))
    p = args[0] if args else None
    if name in ODD | EVEN and len(args) == 1:
        if not p.t:
            return P1 if name in ("cos", "cosh") else P0
        if next(iter(p.t.values())) < 0:
            return fn(name, -p) * P(-1 if name in ODD else 1)
        if name in ("cos", "sin") and len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and c == 1:
                inner = m[0][0]
                if inner.name == "arc" + name:
                    return inner.args[0]
            if m == ((Atom("v", "pi"), ONE),):
                if name == "sin" and c.denominator == 1:
                    return P0
                if name == "cos" and c.denominator == 1:
                    return P(1 if c % 2 == 0 else -1)
                if name == "sin" and c.denominator == 2:
                    return P(1 if (c.numerator // 2) % 2 == 0 else -1) if c.numerator % 4 in (1, 3) and True and c.numerator % 4 == 1 else P(-1)
                if name == "cos" and c.denominator == 2:
                    return P0
        if name == "abs":
            if p.const is not None:
                return P(abs(p.const))
            if is_nonneg(p):
                return p
            if is_nonneg(-p):
                return -p
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) > 1 or c != 1 or m[0][1] != 1:
                    r = P(abs(c))
                    for a, e in m:
                        r = r * (power(P(a), e) if atom_nonneg(a) or e % 2 == 0 else power(fn("abs", P(a)), e))
                    return r
    return P(Atom("fn", name, args))


# --------------------------------------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("kind", "name", "args", "key", "fv", "depth", "_h")
    _tab = {}

    def __new__(cls, kind, name, args=()):
        key = "%s:%s{%s}" % (kind, name, ";".join(a.key for a in args))
        c = cls._tab.get(key)
        if c is None:
            c = object.__new__(cls)
            c.kind, c.name, c.args, c.key = kind, name, tuple(args), key
            fv, d = frozenset(), 0
            for a in args:
                fv |= a.fv
                d = max(d, a.depth)
            if kind == "all":
                fv, d = fv - args[0].fv, d + 1      # the bound variable (of that depth)
            c.fv, c.depth, c._h = fv, d, hash(key)
            cls._tab[key] = c
        return c

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show_cond(self)


TRUE, FALSE = Cond("true", ""), Cond("false", "")


def is_int_poly(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if a.kind in ("v", "f"):
                if not (a.name in INTS or a.name.startswith("#")):
                    return False
            elif a.kind == "I":
                pass
            elif a.kind == "fn" and a.name in ("floordiv", "mod", "floor", "rint", "trunc"):
                pass
            elif a.kind == "sum":
                if not is_int_poly(a.body):
                    return False
            elif a.kind == "lam" and a.name.split(":")[0] in INTLAM:
                pass
            else:
                return False
    return True


def cmp0(kind, p):
    """kind in eq, le, lt (p kind 0)."""
    if p.const is not None:
        v = p.const
        return TRUE if (v == 0 if kind == "eq" else v <= 0 if kind == "le" else v < 0) else FALSE
    if kind == "lt":
        if is_int_poly(p):
            return cmp0("le", p + P1)
        return neg(cmp0("le", -p))
    if len(p.t) == 2 and kind == "eq" and (PERM or INJECTIVE):
        (m1, c1), (m2, c2) = p.t.items()
        if c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and m1[0][0].kind == m2[0][0].kind == "f" and m1[0][0].name == m2[0][0].name and (m1[0][0].name in PERM or m1[0][0].name in INJECTIVE):
            return cmp0("eq", m1[0][0].args[0] - m2[0][0].args[0])   # a permutation is injective
    if len(p.t) <= 2:
        br = [(m, c) for m, c in p.t.items() if m]
        if len(br) == 1 and all(a.kind == "I" for a, _ in br[0][0]):
            # c0 + c [..][..]: by the two values of the bracket
            m, c = br[0]
            c0 = p.t.get((), 0)
            hold = (lambda v: v == 0) if kind == "eq" else (lambda v: v <= 0)
            on, off = hold(c0 + c), hold(c0)
            if on == off:
                return TRUE if on else FALSE
            b = conj(*[a.args[0] for a, _ in m])
            return b if on else neg(b)
    if kind == "eq":
        lead = next(iter(p.t.values()))
        p = p * P(1 / lead if not is_int_poly(p) else Fraction(1 if lead > 0 else -1))
    else:
        if not is_int_poly(p):
            p = p * P(1 / abs(next(iter(p.t.values()))))
    s = _sign(p, _gen())
    if s != "?":
        if kind == "eq" and s in ("+", "-"):
            return FALSE
        if kind == "le" and s in ("-", "-0", "0"):
            return TRUE
        if kind == "le" and s == "+":
            return FALSE
    return Cond(kind, "", (p,))


def pred(name, *args):
    return Cond("pred", name, tuple(P(a) for a in args))


def neg(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == "not":
        return c.args[0]
    if c.kind == "le" and is_int_poly(c.args[0]):
        return cmp0("le", P1 - c.args[0])
    return Cond("not", "", (c,))


def conj(*cs):
    out = {}
    for c in cs:
        for x in c.args if c.kind == "and" else (c,):
            if x is FALSE:
                return FALSE
            if x is not TRUE:
                out[x] = None
    for x in out:
        if neg(x) in out:
            return FALSE
    if INTERVALS and len(out) > 1:
        r = _interval_conj(out)
        if r is not None:
            return conj(*r)
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return Cond("and", "", tuple(sorted(out, key=lambda x: x.key)))


def disj(*cs):
    out = {}
    for c in cs:
        for x in c.args if c.kind == "or" else (c,):
            if x is TRUE:
                return TRUE
            if x is not FALSE:
                out[x] = None
    for x in out:
        if neg(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return Cond("or", "", tuple(sorted(out, key=lambda x: x.key)))


def loop_variables(*xs, but=None):
    """The variables of loops and of element functions that occur in the values."""
    but = but if but is None or isinstance(but, Atom) else atom_of(but)
    return sorted({a for x in xs for a in x.fv if a.kind == "v" and "~" in a.name and a is not but}, key=lambda a: a.key)


def implies(a, b):
    return disj(neg(a), b)


def forall(v, n, c):
    """For all 0 <= v < n: c (an opaque literal when it does not simplify)."""
    if v not in c.fv:
        return disj(c, cmp0("le", P(n)))
    b = _bvar(c.depth + 1, 0)
    return Cond("all", "", (P(b), n, csubst(c, {v: P(b)})))


def count_facts(c):
    """Quantified consequences of a count (sum of brackets over 0 <= i < n) being at most 0, or at least n."""
    if c.kind == "and":
        return [y for x in c.args for y in count_facts(x)]
    if c.kind not in ("le", "eq"):
        return []
    p = c.args[0]
    out = []
    for q in (p,) if c.kind == "le" else (p, -p):
        s = [(m[0][0], k) for m, k in q.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sum"]
        if len(s) != 1:
            continue
        a, k = s[0]
        if len(a.binders) != 1 or len(a.body.t) != 1:
            continue
        (m, w), = a.body.t.items()
        if w != 1 or not all(b.kind == "I" and e == 1 for b, e in m):
            continue
        v, n = a.binders[0]
        body = conj(*[b.args[0] for b, _ in m])
        u = fresh("c")
        body = csubst(body, {v: u})
        rest = q - Poly({((a, ONE),): k})
        if k == 1 and not rest.t:            # sum <= 0
            out.append(forall(atom_of(u), n, neg(body)))
        elif k == -1 and rest is n:          # n - sum <= 0
            out.append(forall(atom_of(u), n, body))
    return out


def iverson(c):
    if c is TRUE:
        return P1
    if c is FALSE:
        return P0
    if c.kind == "not":
        return P1 - iverson(c.args[0])
    if c.kind == "and":
        r = P1
        for x in c.args:
            r = r * iverson(x)
        return r
    if c.kind == "or":
        r = P1
        for x in c.args:
            r = r * (P1 - iverson(x))
        return P1 - r
    return P(Atom("I", "", (c,)))


def ite(c, a, b):
    """a if c else b."""
    if a is b:
        return a
    d = decide(c)
    if d is True:
        return a
    if d is False:
        return b
    i = iverson(c)
    return i * a + (P1 - i) * b


# --------------------------------------------------------------------------------------------- substitution
def subst(p, env):
    if not env or not any(v in p.fv for v in env):
        return p
    out = P0
    for m, c in p.t.items():
        r = P(c)
        for a, e in m:
            r = r * power(asubst(a, env), e) if any(v in a.fv for v in env) else r * Poly({((a, e),): ONE})
            if not r.t:
                break
        out = out + r
    return out


def asubst(a, env):
    if a in env:
        return env[a]
    if not any(v in a.fv for v in env):
        return P(a)
    if a.kind == "f":
        return app(a.name, *[subst(x, env) for x in a.args])
    if a.kind == "fn":
        return refn(a.name, [subst(x, env) for x in a.args])
    if a.kind == "P":
        return subst(a.args[0], env)
    if a.kind == "I":
        return iverson(csubst(a.args[0], env))
    if a.kind == "sum":
        fr = {}
        bs = []
        for b, n in a.binders:
            v = fresh("s")
            fr[b] = v
            bs.append((v, n))
        body = subst(a.body, fr)
        body = subst(body, env)
        for v, n in bs:
            body = summation(atom_of(v), subst(n, env), body)
        return body
    if a.kind == "lam":
        return lam_subst(a, env)
    raise Unsupported("substitution in %s" % a.kind)


def floordiv(p, q):
    """floor(p / q) of integers, q > 0."""
    p, q = P(p), P(q)
    if q.const == 1:
        return p
    if p.const is not None and q.const is not None:
        return P(p.const // q.const)
    s, r = P0, P0
    if q.const is not None:
        for m, c in p.t.items():
            k = (c / q.const).__floor__() if m == () else (c / q.const if (c / q.const).denominator == 1 else 0)
            s = s + Poly({m: Fraction(k)})
            r = r + Poly({m: c - k * q.const})
    elif len(q.t) == 1:
        (mq, cq), = q.t.items()
        dq = dict(mq)
        for m, c in p.t.items():
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in dq.items()) and (c / cq).denominator == 1:
                s = s + Poly({tuple(sorted(((a, e - dq.get(a, 0)) for a, e in d.items() if e != dq.get(a, 0)), key=lambda x: x[0].key)): c / cq})
            else:
                r = r + Poly({m: c})
    else:
        r = p
    if not r.t or decide(conj(cmp0("le", -r), cmp0("lt", r - q))) is True:
        return s
    if decide(conj(cmp0("lt", r), cmp0("le", -r - q))) is True:
        return s - P1
    return s + P(Atom("fn", "floordiv", (r, q)))


def mod(p, q):
    return P(p) - P(q) * floordiv(p, q)


def lam_atom(kind, name, sizes, bodies, idx):
    """Opaque functional of an index function: e.g. the inverse of the matrix (i, j) -> body, taken at idx.
    sizes: ranges of the bound indices; bodies: functions of the bound indices."""
    vs = [fresh("l") for _ in sizes]
    rng = [conj(cmp0("le", -v), cmp0("lt", v - P(n))) for v, n in zip(vs, sizes)]
    with assuming(*rng):
        bs = [_orient_all(b(*vs), [None] + [atom_of(v) for v in vs]) for b in bodies]
    depth = 1 + max([b.depth for b in bs] + [0])
    env = {atom_of(v): P(_bvar(depth, i)) for i, v in enumerate(vs)}
    bs = [subst(b, env) for b in bs]
    return P(LamAtom(kind, name, tuple(P(n) for n in sizes), tuple(bs), tuple(P(i) for i in idx), depth))


class LamAtom(Atom):
    __slots__ = ("sizes", "bodies", "idx")

    def __new__(cls, kind, name, sizes, bodies, idx, depth):
        key = "lam:%s:%s[%s](%s)@(%s)" % (kind, name, ",".join(n.key for n in sizes), ";".join(b.key for b in bodies), ",".join(i.key for i in idx))
        a = Atom._tab.get(key)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.name, a.args, a.key = "lam", kind + ":" + name, (), key
            a.sizes, a.bodies, a.idx = sizes, bodies, idx
            fv = frozenset()
            for b in bodies:
                fv |= b.fv
            fv = frozenset(v for v in fv if not v.name.startswith("#%d." % depth))
            for x in sizes + idx:
                fv |= x.fv
            a.fv, a.depth, a._h = fv, depth, hash(key)
            Atom._tab[key] = a
        return a


def lam_subst(a, env):
    kind, name = a.name.split(":", 1)
    depth = a.depth

    def body(b):
        def f(*vs):
            x = subst(b, {_bvar(depth, i): v for i, v in enumerate(vs)})
            return subst(x, env)

        return f

    r = lam_atom(kind, name, [subst(n, env) for n in a.sizes], [body(b) for b in a.bodies], [subst(i, env) for i in a.idx])
    return LAMNORM.get(kind, lambda x: x)(r)


LAMNORM = {}
INTLAM = {"first", "last"}   # functionals with integer values
REFN = {"floordiv": floordiv}  # rebuilders of special functions


def refn(name, args):
    if name in REFN:
        return REFN[name](*args)
    return fn(name, *args)


def csubst(c, env):
    if not any(v in c.fv for v in env):
        return c
    if c.kind in ("eq", "le"):
        return cmp0(c.kind, subst(c.args[0], env))
    if c.kind == "pred":
        return pred(c.name, *[subst(x, env) for x in c.args])
    if c.kind == "not":
        return neg(csubst(c.args[0], env))
    if c.kind == "and":
        return conj(*[csubst(x, env) for x in c.args])
    if c.kind == "or":
        return disj(*[csubst(x, env) for x in c.args])
    if c.kind == "all":
        v = fresh("q")
        body = csubst(csubst(c.args[2], {atom_of(c.args[0]): v}), env)
        return forall(atom_of(v), subst(c.args[1], env), body)
    raise Unsupported(c.kind)


def atom_of(p):
    if isinstance(p, Atom):
        return p
    (m, c), = p.t.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


# --------------------------------------------------------------------------------------------- sums
def _bvar(depth, i):
    return Atom("v", "#%d.%d" % (depth, i))


def summation(v, n, body):
    """Sum over 0 <= v < n of body (v: an integer variable atom)."""
    v = atom_of(v)
    out = P0
    if n.const is not None and n.const <= 4:
        for j in range(int(n.const)):
            out = out + subst(body, {v: P(j)})
        return out
    for m, c in body.t.items():
        out = out + _sum_mono(v, n, m) * P(c)
    return out


def _threshold(v, n, m):
    """A bracket in the monomial that compares v with a v-free bound: where to split the range."""
    for a, e in m:
        if a.kind == "I" and v in a.fv and a.args[0].kind == "le":
            p = a.args[0].args[0]
            for mm, c in p.t.items():
                if mm == ((v, ONE),) and abs(c) == 1:
                    rest = p - Poly({mm: c})
                    if v not in rest.fv and is_int_poly(rest):
                        # c*v + rest <= 0
                        return a, (P1 - rest if c == 1 else rest), c == 1
    return None


def _sum_mono(v, n, m):
    if n.const is not None and n.const == 0:
        return P0
    indep = [(a, e) for a, e in m if v not in a.fv]
    dep = [(a, e) for a, e in m if v in a.fv]
    ind = Poly({tuple(indep): ONE})
    if not dep:
        return ind * n
    # a sum in the order of a permutation
    for name, size in PERM.items():
        if size is n:
            a = atom_of(app(name, P(v)))
            if any(a.key in b.key for b, _ in dep):
                from . import prove
                w = fresh("s")
                with assuming(cmp0("le", -w), cmp0("lt", w - n)):
                    r = prove.replace_atom(Poly({tuple(dep): ONE}), a, w)
                if v not in r.fv:
                    return ind * summation(w, n, r)
    # [perm(v) == t]: [v == inverse(t)]
    if INVERSES:
        for a, e in dep:
            if a.kind == "I" and a.args[0].kind == "eq":
                u, t = _solve_elem(a.args[0].args[0], v)
                if u is not None and u.name in INVERSES and u.args[0] is P(v):
                    w = P(v) - app(INVERSES[u.name], t)
                    if v in t.fv:
                        continue
                    return ind * sum((_sum_mono(v, n, mm) if any(v in x.fv for x, _ in mm) else Poly({mm: ONE}) * n) * P(c) for mm, c in
                                     (Poly({tuple(x for x in dep if x[0] is not a): ONE}) * iverson(cmp0("eq", w))).t.items())
    # [v == t]
    for a, e in dep:
        if a.kind == "I" and a.args[0].kind == "eq":
            p = a.args[0].args[0]
            for mm, c in p.t.items():
                if mm == ((v, ONE),) and c.denominator == 1:
                    t = (p - Poly({mm: c})) * P(-1 if c > 0 else 1)
                    if v not in t.fv and (abs(c) == 1 or is_int_poly(t)):
                        r = ind
                        if abs(c) != 1:   # [k v == t]: t is divisible by k, and v the quotient
                            q = floordiv(t, P(abs(c)))
                            r, t = r * iverson(cmp0("eq", t - P(abs(c)) * q)), q
                            if not r.t:
                                return P0
                        for b, eb in dep:
                            if b is not a:
                                r = r * power(subst(P(b), {v: t}), eb)
                        inr = conj(cmp0("le", -t), cmp0("lt", t - n))
                        d = decide(inr)
                        return r if d is True else P0 if d is False else r * iverson(inr)
    # [u == t] with v in u only inside one element: t takes the place of u in the other factors
    for a, e in dep:
        if a.kind == "I" and a.args[0].kind == "eq":
            u, t = _solve_elem(a.args[0].args[0], v)
            if u is not None and any(u.key in b.key for b, _ in dep if b is not a):
                from . import prove
                r = P1
                for b, eb in dep:
                    if b is not a:
                        r = r * power(prove.replace_atom(P(b), u, t), eb)
                out = P0
                for mm, c in r.t.items():
                    i2 = Poly({tuple(x for x in mm if v not in x[0].fv): ONE})
                    d2 = dict(x for x in mm if v in x[0].fv)
                    if a in d2:
                        out = out + i2 * _sum_mono(v, n, tuple(sorted(d2.items(), key=lambda x: x[0].key))) * P(c)
                    else:
                        d2[a] = ONE
                        b2 = tuple(sorted(d2.items(), key=lambda x: x[0].key))
                        out = out + i2 * _sum_mono(v, n, b2) * P(c)
                return ind * out
    th = _threshold(v, n, dep)
    if th is not None:
        a, cut, below = th  # holds for v < cut (below) or v >= cut
        rest = Poly({tuple((b, e) for b, e in dep if b is not a): ONE})
        if decide(conj(cmp0("le", -cut), cmp0("le", cut - n))) is True:
            if below:
                return ind * summation(v, cut, rest)
            w = fresh("s")
            return ind * summation(atom_of(w), n - cut, subst(rest, {v: w + cut}))
    fd = _find_floordiv(v, dep)
    if fd is not None:
        q = fd
        if q.const is not None and all((c / q.const).denominator == 1 for c in n.t.values()) and q.const <= 16:
            nn, r = n * P(1 / q.const), P0
            w = fresh("s")
            body = Poly({tuple(dep): ONE})
            with assuming(cmp0("le", -w), cmp0("lt", w - nn)):
                for j in range(int(q.const)):
                    r = r + summation(w, nn, subst(body, {v: q * w + P(j)}))
            return ind * r
        if q.const is None and len(q.t) == 1:
            nn = n * power(q, -1)
            if is_int_poly(nn):
                w, u = fresh("s"), fresh("s")
                with assuming(cmp0("le", -w), cmp0("lt", w - nn), cmp0("le", -u), cmp0("lt", u - q)):
                    body = subst(Poly({tuple(dep): ONE}), {v: q * w + u})
                return ind * summation(w, nn, summation(u, q, body))
    # merge inner sums that depend on v
    binders = [(v, n)]
    factors = {}
    for a, e in dep:
        if a.kind == "sum" and e.denominator == 1 and e >= 1:
            for _ in range(int(e)):
                fr = {}
                for b, nb in a.binders:
                    w = fresh("s")
                    fr[b] = w
                    binders.append((atom_of(w), nb))
                for mm, c in subst(a.body, fr).t.items():
                    assert c == 1, "sum bodies are monic monomials"
                    for b, eb in mm:
                        factors[b] = factors.get(b, ZERO) + eb
        else:
            factors[a] = factors.get(a, ZERO) + e
    body = mono_norm(factors)
    if len(body.t) != 1 or any(b.kind == "P" and eb >= 1 for b, eb in next(iter(body.t))):
        return ind * _sum_all(binders, body)
    (mm, c), = body.t.items()
    if len(binders) > 1 and set(mm) != set(factors.items()):
        # rules applied: start again one binder at a time (unless that leads back here)
        r = _canon_sum(binders, mm)
        if r not in _restarted:
            _restarted.append(r)
            try:
                return ind * _sum_all(binders, body)
            finally:
                _restarted.remove(r)
        return ind * P(c) * r
    return ind * P(c) * _canon_sum(binders, mm)


_restarted = []


def _orient_all(p, order):
    if not isinstance(p, Poly):
        return p
    r = {m: _orient(m, order) for m in p.t}
    if all(m is n for m, n in r.items()):
        return p
    out = P0
    for m, c in p.t.items():
        out = out + Poly({r[m]: c})
    return out


def _orient(m, order, seen=()):
    """The monomial with elements that its brackets equate replaced by those of the earlier binders."""
    for a, e in m:
        if a.kind != "I" or a.args[0].kind != "eq":
            continue
        for j in range(len(order) - 1, 0, -1):
            v = order[j]
            if v not in a.fv:
                continue
            u, t = _solve_elem(a.args[0].args[0], v)
            if u is None or any(w in t.fv for w in order[j + 1:]) or not any(u.key in b.key for b, _ in m if b is not a):
                break
            keep = (a,)
            if len(t.t) == 1 and next(iter(t.t)) and next(iter(t.t))[0][0].kind == "v":
                # an integer variable is replaced by the element (in products): choose the element of the earlier binder
                tv = t
                t = None
                for b, _ in m:
                    if b is not a and b.kind == "I" and b.args[0].kind == "eq" and v not in b.fv:
                        for w in order[:j]:
                            if w in b.fv:
                                u2, t2 = _solve_elem(b.args[0].args[0], w)
                                if u2 is not None and t2 is tv:
                                    t, keep = P(u2), (a, b)
                if t is None or not any(u.key in b.key for b, _ in m if b not in keep):
                    break
            from . import prove
            r = P1
            for b, eb in m:
                if b not in keep:
                    r = r * power(prove.replace_atom(P(b), u, t), eb)
            for b in keep[1:]:
                r = r * P(b)
            if len(r.t) != 1:
                return m
            (mm, c), = r.t.items()
            if c != 1 or any(x is a for x, _ in mm):
                return m
            r = tuple(sorted(mm + ((a, ONE),), key=lambda x: x[0].key))
            if r in seen:
                return min(seen, key=_mkey)
            return _orient(r, order, seen + (r,))
    return m


def _sum_all(binders, body):
    """Sums over all binders, one at a time: those fixed by a bracket [b == t] first, then innermost first."""
    out = P0
    for m, c in body.t.items():
        first = []
        for b, nb in binders:
            if any(b in x.fv for _, x in binders):
                continue
            for a, e in m:
                if a.kind == "I" and b in a.fv and a.args[0].kind == "eq" and any(mm == ((b, ONE),) and abs(k) == 1 for mm, k in a.args[0].args[0].t.items()):
                    first.append((b, nb))
                    break
            if first:
                break
        r = Poly({m: c})
        for b, nb in first + [x for x in reversed(binders) if x not in first]:
            r = summation(b, nb, r)
        out = out + r
    return out


def _solve_elem(p, v):
    """p == 0 solved for the one element (kind f) in which v occurs: (atom, term) or (None, None)."""
    u = None
    for m, c in p.t.items():
        if any(v in a.fv for a, _ in m):
            if u is not None or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "f" or abs(c) != 1:
                return None, None
            u = (m[0][0], c, m)
    if u is None:
        return None, None
    t = (p - Poly({u[2]: u[1]})) * P(-1 / u[1])
    if any(x.name.startswith("#") for x in t.fv | u[0].fv):
        return None, None
    return u[0], t


def _find_floordiv(v, dep):
    """q when floordiv(v [+const], q) occurs in the factors."""
    todo = [a for a, _ in dep]
    while todo:
        a = todo.pop()
        if v not in a.fv:
            continue
        if a.kind == "fn" and a.name == "floordiv" and v in a.args[0].fv and v not in a.args[1].fv:
            return a.args[1]
        ps = list(a.args) if a.kind != "lam" else list(a.idx)
        if a.kind == "sum":
            ps = [a.body]
        while ps:
            x = ps.pop()
            if isinstance(x, Cond):
                ps.extend(x.args)
            elif isinstance(x, Poly):
                for m in x.t:
                    todo.extend(b for b, _ in m)
    return None


def _canon_sum(binders, m):
    # deltas over any of the binders, factors free of all binders, connected components
    bset = {v for v, _ in binders}
    if len(binders) > 1:
        for v, n in binders:
            for a, e in m:
                if a.kind == "I" and v in a.fv and a.args[0].kind == "eq":
                    p = a.args[0].args[0]
                    if any(mm == ((v, ONE),) and abs(c) == 1 for mm, c in p.t.items()) and not any(v in nb.fv for _, nb in binders):
                        rest = [b for b in binders if b[0] is not v]
                        r = _sum_mono(v, n, m)
                        for w, nb in reversed(rest):
                            r = summation(w, nb, r)
                        return r
        comps = []
        for a, e in m:
            vs = {v for v in bset if v in a.fv}
            group = [(a, e)]
            keep = []
            for cv, cg in comps:
                if cv & vs:
                    vs |= cv
                    group = cg + group
                else:
                    keep.append((cv, cg))
            comps = keep + [(vs, group)]
        for v, nb in binders:  # sizes that depend on binders tie them together (not supported beyond one component)
            if any(w in nb.fv for w in bset):
                raise Unsupported("dependent ranges")
        used = set().union(*[cv for cv, _ in comps]) if comps else set()
        if len(comps) > 1 or used != bset:
            r = P1
            for v, nb in binders:
                if v not in used:
                    r = r * nb
            for cv, cg in comps:
                if not cv:
                    r = r * Poly({tuple(sorted(cg, key=lambda x: x[0].key)): ONE})
                else:
                    r = r * _canon_sum([b for b in binders if b[0] in cv], tuple(sorted(cg, key=lambda x: x[0].key)))
            return r
    depth = 1 + max([a.depth for a, _ in m] + [nb.depth for _, nb in binders])
    best = None
    perms = itertools.permutations(range(len(binders))) if len(binders) <= 4 else _binder_orders(binders, m)
    for perm in perms:
        env = {binders[j][0]: P(_bvar(depth, i)) for i, j in enumerate(perm)}
        body = P1
        mo = _orient(m, [binders[j][0] for j in perm]) if len(binders) > 1 else m
        for a, e in mo:
            x = _rename(a, env)
            body = body * Poly({((x, e),): ONE}) if x.kind not in ("I",) else body * Poly({((x, e),): ONE})
        if len(body.t) != 1:
            # a rule fired under renaming: distribute
            r = subst(body, {_bvar(depth, i): P(binders[j][0]) for i, j in enumerate(perm)})
            for w, nb in reversed(binders):
                r = summation(w, nb, r)
            return r
        (mm, c), = body.t.items()
        s = SumAtom([(_bvar(depth, i), binders[j][1]) for i, j in enumerate(perm)], Poly({mm: ONE}), depth)
        if best is None or s.key < best[0].key:
            best = (s, c)
    return P(best[0]) * P(best[1])


def _binder_orders(binders, m):
    """Candidate orders of many binders: sorted by how each occurs (colours refined until stable), all orders within ties."""
    vs = [v for v, _ in binders]
    occ = {v: [(a, e) for a, e in m if v in a.fv] for v in vs}
    colour = {v: n.key for v, n in binders}
    names = {}

    def mark(text):
        return P(Atom("v", "#c%d" % names.setdefault(text, len(names))))

    for _ in range(len(vs)):
        names.clear()
        for text in sorted(set(colour.values())):
            mark(text)
        env = {v: mark(colour[v]) for v in vs}
        sig = {}
        for v in vs:
            here = dict(env)
            here[v] = P(Atom("v", "#@"))
            sig[v] = "|".join([colour[v]] + sorted("%s^%s" % (asubst(a, here).key, e) for a, e in occ[v]))
        if len(set(sig.values())) == len(set(colour.values())):
            break
        rank = {t: i for i, t in enumerate(sorted(set(sig.values())))}
        colour = {v: "%04d" % rank[sig[v]] for v in vs}
    order = sorted(range(len(vs)), key=lambda i: colour[vs[i]])
    groups = [list(g) for _, g in itertools.groupby(order, key=lambda i: colour[vs[i]])]
    total = 1
    for g in groups:
        for k in range(2, len(g) + 1):
            total *= k
    if total > 200:
        return [tuple(order)]
    return [sum(ps, ()) for ps in itertools.product(*[list(itertools.permutations(g)) for g in groups])]


def _rename(a, env):
    r = asubst(a, env)
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    # the renamed atom is not an atom any more (sign normalisation); keep it in parentheses
    return Atom("P", "", (r,))


# --------------------------------------------------------------------------------------------- deciding conditions
class assuming:
    def __init__(self, *cs):
        self.cs = [c for c in cs if c is not TRUE]

    depth = 0

    def __enter__(self):
        assuming.depth += 1
        self.n = len(CTX)
        CTX.extend(self.cs)

    def __exit__(self, *a):
        assuming.depth -= 1
        del CTX[self.n:]


STAT = dict(z3=0, z3_time=0.0)


def decide(c):
    """True / False when the assumptions entail c / its negation, else None."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in CTX or c.kind == "all" and any(q.kind == "and" and c in q.args for q in CTX):
        return True
    n = neg(c)
    if n in CTX:
        return False
    k = (c.key, tuple(x.key for x in CTX), len(POS), len(NONNEG), len(INTS))
    if k in _dec:
        return _dec[k]
    from . import smt

    r = smt.entails(CTX, c)
    _dec[k] = r
    return r


def consistent():
    from . import smt

    return smt.consistent(CTX)


# --------------------------------------------------------------------------------------------- printing
def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t.items():
        s = "*".join(show_atom(a) + ("" if e == 1 else "^%s" % e if e.denominator == 1 and e > 0 else "^(%s)" % e) for a, e in m)
        cs = str(c) if len(str(c)) < 24 else "%.17g" % float(c)
        out.append(s if c == 1 and s else ("-" + s if c == -1 and s else cs + ("*" + s if s else "")))
    return " + ".join(out)


def show_atom(a):
    if a.kind == "v":
        return a.name
    if a.kind == "sum":
        return "sum{%s}(%s)" % (", ".join("%s<%s" % (b.name, show(n)) for b, n in a.binders), show(a.body))
    if a.kind == "P":
        return "(%s)" % show(a.args[0])
    if a.kind == "I":
        return "[%s]" % show_cond(a.args[0])
    if a.kind == "k":
        return a.name
    if a.kind == "lk":
        return "log(%s)" % a.name
    return "%s(%s)" % (a.name, ", ".join(show(x) if isinstance(x, Poly) else repr(x) for x in a.args))


def show_cond(c):
    if c.kind in ("true", "false"):
        return c.kind
    if c.kind == "eq":
        return "%s == 0" % show(c.args[0])
    if c.kind == "le":
        return "%s <= 0" % show(c.args[0])
    if c.kind == "pred":
        return "%s(%s)" % (c.name, ", ".join(show(x) for x in c.args))
    if c.kind == "not":
        return "not(%s)" % show_cond(c.args[0])
    if c.kind == "all":
        return "all %s<%s: %s" % (show(c.args[0]), show(c.args[1]), show_cond(c.args[2]))
    return "(" + (" %s " % c.kind).join(show_cond(x) for x in c.args) + ")"


reset()
