"""Proving that terms are equal and conditions hold."""
from fractions import Fraction
from . import poly as PY
from .poly import P, P0, P1, Poly, Cond, TRUE, FALSE, ONE, ZERO, Unsupported, fresh, atom_of, subst, csubst, conj, disj, neg, cmp0, iverson, decide, assuming, power

LIMIT = 4000
_budget = [0]


def replace_cond(p, c, val):
    """The term with the literal c replaced by the truth value val, wherever it occurs."""
    memo = {}

    def poly(p):
        if c.key not in p.key:
            return p
        r = memo.get(p)
        if r is None:
            out = P0
            for m, k in p.t.items():
                t = P(k)
                for a, e in m:
                    t = t * (power(atom(a), e) if c.key in a.key else Poly({((a, e),): ONE}))
                    if not t.t:
                        break
                out = out + t
            r = memo[p] = out
        return r

    def cond(d):
        if d is c:
            return TRUE if val else FALSE
        if c.key not in d.key:
            return d
        if d.kind in ("eq", "le"):
            return cmp0(d.kind, poly(d.args[0]))
        if d.kind == "not":
            return neg(cond(d.args[0]))
        if d.kind == "and":
            return conj(*[cond(x) for x in d.args])
        if d.kind == "or":
            return disj(*[cond(x) for x in d.args])
        return d

    def atom(a):
        if a.kind == "I":
            return iverson(cond(a.args[0]))
        if a.kind == "f":
            return PY.app(a.name, *[poly(x) for x in a.args])
        if a.kind == "fn":
            return PY.refn(a.name, [poly(x) for x in a.args])
        if a.kind == "P":
            return poly(a.args[0])
        if a.kind == "sum":
            fr = {b: fresh("s") for b, _ in a.binders}
            body = poly(subst(a.body, fr))
            for b, n in a.binders:
                body = PY.summation(atom_of(fr[b]), poly(n), body)
            return body
        return P(a)

    return poly(p)


def literals(p, out=None, bound=()):
    """Bracket literals of the term whose variables are all free, outermost first."""
    if out is None:
        out = {}
    for m, _ in p.t.items():
        for a, _e in m:
            if a.kind == "I":
                c = a.args[0]
                if not any(v.name.startswith("#") for v in c.fv):
                    out.setdefault(c, None)
                for x in c.args:
                    if isinstance(x, Poly):
                        literals(x, out)
            elif a.kind == "sum":
                literals(a.body, out)
            elif a.kind == "lam":
                for x in a.bodies + a.idx:
                    literals(x, out)
            else:
                for x in a.args:
                    if isinstance(x, Poly):
                        literals(x, out)
    return out


def replace_atom(p, a, t):
    """The term with the atom a replaced by the term t, wherever it occurs."""
    memo = {}

    def poly(p):
        if a.key not in p.key:
            return p
        r = memo.get(p)
        if r is None:
            out = P0
            for m, k in p.t.items():
                x = P(k)
                for b, e in m:
                    x = x * (power(atom(b), e) if a.key in b.key else Poly({((b, e),): ONE}))
                    if not x.t:
                        break
                out = out + x
            r = memo[p] = out
        return r

    def cond(d):
        if a.key not in d.key:
            return d
        if d.kind in ("eq", "le"):
            return cmp0(d.kind, poly(d.args[0]))
        if d.kind == "pred":
            return PY.pred(d.name, *[poly(x) for x in d.args])
        if d.kind == "not":
            return neg(cond(d.args[0]))
        if d.kind == "and":
            return conj(*[cond(x) for x in d.args])
        if d.kind == "or":
            return disj(*[cond(x) for x in d.args])
        return d

    def atom(b):
        if b is a:
            return t
        if a.key not in b.key:
            return P(b)
        if b.kind == "I":
            return iverson(cond(b.args[0]))
        if b.kind == "f":
            return PY.app(b.name, *[poly(x) for x in b.args])
        if b.kind == "fn":
            return PY.refn(b.name, [poly(x) for x in b.args])
        if b.kind == "P":
            return poly(b.args[0])
        if b.kind == "sum" and not any(v.name.startswith("#") for v in a.fv | t.fv):
            fr = {v: fresh("s") for v, _ in b.binders}
            body = poly(subst(b.body, fr))
            for v, n in b.binders:
                body = PY.summation(atom_of(fr[v]), poly(n), body)
            return body
        if b.kind == "lam" and not any(v.name.startswith("#") for v in a.fv | t.fv):
            kind, name = b.name.split(":", 1)

            def body(q):
                return lambda *vs: poly(subst(q, {PY._bvar(b.depth, i): v for i, v in enumerate(vs)}))

            r = PY.lam_atom(kind, name, [poly(n) for n in b.sizes], [body(q) for q in b.bodies], [poly(i) for i in b.idx])
            return PY.LAMNORM.get(kind, lambda x: x)(r)
        return P(b)

    return poly(p)


def equalities():
    """Substitutions from the assumed equalities: integer variables, and elements of arrays or real variables that
    occur linearly."""
    env, atoms = {}, []
    lits = [l for c in PY.CTX for l in (c.args if c.kind == "and" else (c,))]
    les = {l.args[0] for l in lits if l.kind == "le"}
    lits = [cmp0("eq", l.args[0]) if l.kind == "le" and -l.args[0] in les else l for l in lits]
    for l in lits:
        if True:
            if l.kind == "eq":
                p = subst(l.args[0], env)
                v, t = PY.solve_eq(p)
                if v is not None and v not in env and not v.name.startswith("#"):
                    env = {w: subst(x, {v: t}) for w, x in env.items()}
                    env[v] = t
                    continue
                for b, x in atoms:
                    p = replace_atom(p, b, x)
                best = None
                for m, k in p.t.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("f", "v") and not any(v.name.startswith("#") for v in m[0][0].fv):
                        b = m[0][0]
                        rest = p - Poly({m: k})
                        if b.key in rest.key or b.name in PY.SIZES or b.name == "pi":
                            continue
                        if best is None or (b.kind, b.key) < (best[0].kind, best[0].key):
                            best = (b, rest * P(-1 / k))
                if best:
                    atoms = [(b, replace_atom(x, *best)) for b, x in atoms] + [best]
    return env, atoms


def deriv(p, v):
    """The derivative of a term by the variable v (brackets are constant: away from their jumps)."""
    out = P0
    for m, c in p.t.items():
        for j, (a, e) in enumerate(m):
            if a.kind == "I" or v not in a.fv and a is not v:
                continue
            rest = Poly({m[:j] + m[j + 1:]: c * e})
            out = out + rest * (P1 if e == 1 else power(P(a), e - 1)) * d_atom(a, v)
    return out


def d_atom(a, v):
    if a is v:
        return P1
    if a.kind == "P":
        return deriv(a.args[0], v)
    if a.kind == "fn" and len(a.args) == 1:
        x = a.args[0]
        f = {"exp": lambda: P(a), "log": lambda: power(x, -1), "sin": lambda: PY.fn("cos", x), "cos": lambda: -PY.fn("sin", x),
             "erf": lambda: P(2) * power(PY.PI, Fraction(-1, 2)) * PY.fn("exp", -x * x)}.get(a.name)
        if f:
            return f() * deriv(x, v)
    raise Unsupported("derivative of %s" % a)


TRIG = [False]


def trig_expand(p):
    """sin and cos of sums, by the addition theorems."""
    memo = {}

    def sc(q):
        """(sin, cos) of a sum."""
        if q in memo:
            return memo[q]
        items = list(q.t.items())
        if len(items) == 1:
            (m, k), = items
            if k.denominator == 1 and abs(k) in (2, 3, 4) and m != ((PY.Atom("v", "pi"), ONE),):
                s1, c1 = sc(Poly({m: ONE}))
                s, c = s1, c1
                for _ in range(int(abs(k)) - 1):
                    s, c = s * c1 + c * s1, c * c1 - s * s1
                r = (s if k > 0 else -s, c)
            else:
                r = PY.fn("sin", q), PY.fn("cos", q)
        else:
            a, b = Poly(dict(items[:1])), Poly(dict(items[1:]))
            (s1, c1), (s2, c2) = sc(a), sc(b)
            r = (s1 * c2 + c1 * s2, c1 * c2 - s1 * s2)
        memo[q] = r
        return r

    def poly(p):
        if "fn:sin" not in p.key and "fn:cos" not in p.key:
            return p
        out = P0
        for m, k in p.t.items():
            x = P(k)
            for a, e in m:
                x = x * power(atom(a), e)
            out = out + x
        return out

    def atom(a):
        if a.kind == "fn" and a.name in ("sin", "cos"):
            return sc(poly(a.args[0]))[0 if a.name == "sin" else 1]
        if a.kind == "P":
            return poly(a.args[0])
        if a.kind == "sum" and ("fn:sin" in a.key or "fn:cos" in a.key):
            fr = {v: fresh("s") for v, _ in a.binders}
            body = poly(subst(a.body, fr))
            for v, n in a.binders:
                body = PY.summation(atom_of(fr[v]), n, body)
            return body
        return P(a)

    return poly(p)


def clear(p):
    """Multiply away the reciprocals of parenthesised sums (they are not zero)."""
    for _ in range(12):
        exps = {}
        for m in p.t:
            seen = set()
            for a, e in m:
                if a.kind == "P":
                    exps.setdefault(a, []).append(e)
        pick = None
        for a, es in exps.items():
            lo = min(es)
            if lo < 0 or any(e.denominator > 1 for e in es):
                if lo < 0 or True:
                    if pick is None or a.depth < pick.depth:
                        pick = a
        if pick is None:
            return p
        lo = min(min(exps[pick]), ZERO if any(all(a is not pick for a, _ in m) for m in p.t) else min(exps[pick]))
        if lo >= 0:
            return p
        out = P0
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(pick, ZERO) - lo
            r = Poly({tuple(sorted(d.items(), key=lambda x: x[0].key)): c})
            n = e.numerator // e.denominator
            r = r * PY.ipow(pick.args[0], n)
            if e - n:
                r = r * Poly({((pick, e - n),): ONE})
            out = out + r
        p = out
        if not p.t:
            return p
    return p


def norm(p):
    env, atoms = equalities()
    if env:
        p = subst(p, env)
    for a, t in atoms:
        p = replace_atom(p, a, t)
    for c in literals(p):
        d = decide(c)
        if d is not None:
            p = replace_cond(p, c, d)
    return p


def residue_split(p):
    """An index v under floordiv(v + c, q) with a small constant q: v = q w + r, one case for each residue r."""
    todo, seen = [p], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Cond):
            todo.extend(x.args)
            continue
        for m in x.t:
            for a, _ in m:
                if a.kind == "fn" and a.name == "floordiv":
                    q = a.args[1].const
                    if q is not None and 2 <= q <= 12:
                        for mm, c in a.args[0].t.items():
                            if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == "v" and abs(c) == 1 and not mm[0][0].name.startswith("#"):
                                v = mm[0][0]
                                if v.name in PY.INTS and v.name not in PY.SIZES:
                                    w = fresh("w")
                                    return v, [P(q) * w + P(r) for r in range(int(q))]
                if a.kind == "sum":
                    todo.append(a.body)
                elif a.kind == "lam":
                    todo.extend(a.bodies + a.idx)
                else:
                    todo.extend(y for y in a.args if isinstance(y, (Poly, Cond)))
    return None


def zero(p, depth=0, trace=None):
    """Is the term zero under the assumptions?"""
    if _zero(p, depth, trace):
        return True
    if depth == 0 and ("fn:sin" in p.key or "fn:cos" in p.key):
        q = trig_expand(p)
        if q is not p:
            return _zero(q, 0, None)
    return False


def _zero(p, depth=0, trace=None):
    _budget[0] += 1
    if not p.t:
        return True
    p = norm(p)
    if not p.t:
        return True
    p2 = clear(p)
    if not p2.t:
        return True
    p = p2
    if depth < 3 and any(c.kind in ("all", "and") for c in PY.CTX):
        p = vanish(p)
        if not p.t:
            return True
    if sums_zero(p, depth):
        return True
    sp = residue_split(p) if depth <= 14 and _budget[0] <= LIMIT else None
    if sp is not None:
        v, cases = sp
        for t in cases:
            with assuming(cmp0("eq", P(v) - t)):
                if PY.consistent():
                    if not _zero(subst(p, {v: t}), depth + 1, trace):
                        return False
        return True
    lits = list(literals(p))
    if not lits:
        if decide(cmp0("eq", p)) is True:
            return True
        if PY.CTX and not PY.consistent():
            return True
        if trace is not None:
            trace.append((p, list(PY.CTX)))
        return False
    if depth > 14 or _budget[0] > LIMIT:
        if trace is not None:
            trace.append((p, list(PY.CTX)))
        return False
    # one variable compared with many constants
    by = {}
    for c in lits:
        if c.kind == "eq":
            p1 = c.args[0]
            vs = [(m, k) for m, k in p1.t.items() if m != ()]
            if len(vs) == 1 and len(vs[0][0]) == 1 and vs[0][0][0][1] == 1 and vs[0][0][0][0].kind == "v":
                by.setdefault(vs[0][0][0][0], []).append((c, (p1 - Poly({vs[0][0]: vs[0][1]})) * P(-1 / vs[0][1])))
    for v, cs in by.items():
        if len(cs) >= 4:
            ks = [t.const for _, t in cs]
            if None not in ks:   # where the range ends just beyond
                cs = cs + [(cmp0("eq", P(v) - P(k)), P(k)) for k in (min(ks) - 1, max(ks) + 1)]
            for c, t in cs:
                with assuming(c):
                    if PY.consistent() and not _zero(subst(p, {v: t}), depth + 1, trace):
                        return False
            with assuming(*[neg(c) for c, _ in cs]):
                if PY.consistent():
                    for c, _ in cs:
                        p = replace_cond(p, c, False)
                    return _zero(p, depth + 1, trace)
            return True
    # the literal that occurs most often
    c = lits[0]
    for val in (True, False):
        l = c if val else neg(c)
        with assuming(l):
            if PY.consistent():
                if not _zero(replace_cond(p, c, val), depth + 1, trace):
                    return False
    return True


def vanish(p):
    """Sums whose terms are zero by a quantified assumption are dropped."""
    seen = {}

    def gone(a):
        if a not in seen:
            names = {x.name for c in PY.CTX for d in (c.args[2:] if c.kind == "all" else c.args if c.kind == "and" else ()) for e in (d.args if d.kind == "and" else (d,)) if e.kind == "eq" for x in atoms_of(e)}
            vs = [fresh("s") for _ in a.binders]
            body = subst(a.body, {b: v for (b, _), v in zip(a.binders, vs)})
            if not names & {x.name for x in atoms_of(body)}:
                seen[a] = False
            else:
                with assuming(*[c for v, (_, n) in zip(vs, a.binders) for c in (cmp0("le", -v), cmp0("lt", v - n))]):
                    seen[a] = all(any(x.kind == "f" and x.name in names and e > 0 and decide(cmp0("eq", P(x))) is True for x, e in m) for m in body.t)
        return seen[a]

    out = {m: c for m, c in p.t.items() if not any(a.kind == "sum" and e > 0 and gone(a) for a, e in m)}
    return Poly(out) if len(out) < len(p.t) else p


def atoms_of(x, out=None):
    """The applied symbols of a term or condition."""
    out = set() if out is None else out
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                if a.kind == "f":
                    out.add(a)
                if a.kind == "sum":
                    atoms_of(a.body, out)
                for y in a.args:
                    atoms_of(y, out)
    elif isinstance(x, Cond):
        for y in x.args:
            atoms_of(y, out)
    return out


def peeled(p, groups, depth):
    """Sums over ranges that differ by a small constant: the longer one with its first or last terms split off."""
    if depth > 4 or _budget[0] > LIMIT:
        return
    one = [k[0] for k, _ in groups.values() if len(k) == 1]
    for n1 in one:
        for n2 in one:
            d = (n1 - n2).const
            if d is None or d.denominator != 1 or not 1 <= d <= 4 or decide(cmp0("le", -n2)) is not True:
                continue
            d = int(d)
            for front in (True, False):
                out = p
                for a, other in groups[(n1.key,)][1]:
                    b = a.binders[0][0]
                    at = lambda x: subst(a.body, {b: x})
                    v = fresh("s")
                    if front:
                        new = sum((at(P(j)) for j in range(d)), P0) + PY.summation(atom_of(v), n2, at(v + d))
                    else:
                        new = sum((at(n2 + j) for j in range(d)), P0) + PY.summation(atom_of(v), n2, at(v))
                    out = out + other * (new - P(a))
                yield out
            return


def sums_zero(p, depth=0):
    """Sums over the same range are combined and their bodies proved to cancel."""
    groups, rest = {}, P0
    for m, c in p.t.items():
        sums = [(a, e) for a, e in m if a.kind == "sum"]
        if len(sums) == 1 and sums[0][1] == 1:
            a = sums[0][0]
            other = Poly({tuple((b, e) for b, e in m if b is not a): c})
            k = tuple(n for _, n in a.binders)
            groups.setdefault(tuple(x.key for x in k), (k, []))[1].append((a, other))
        else:
            rest = rest + Poly({m: c})
    if groups:
        for q in peeled(p, groups, depth):
            if _zero(q, depth + 1):
                return True
    if not groups or rest.t:
        return False
    for key, (sizes, lst) in groups.items():
        vs = [fresh("s") for _ in sizes]
        body = P0
        with assuming(*[c for v, n in zip(vs, sizes) for c in (cmp0("le", -v), cmp0("lt", v - n))]):
            for a, other in lst:
                body = body + other * subst(a.body, {b: v for (b, _), v in zip(a.binders, vs)})
            if len(sizes) > 2 or _budget[0] > LIMIT:
                return False
            if not _zero(body, 3):
                return False
    return True


def holds(c):
    """Does the condition follow from the assumptions?"""
    d = decide(c)
    if d is not None:
        return d
    if c.kind == "and":
        return all(holds(x) for x in c.args)
    if c.kind == "eq":
        return zero(c.args[0])
    if c.kind == "all":
        v = fresh("h")
        with assuming(cmp0("le", -v), cmp0("lt", v - c.args[1])):
            return holds(csubst(c.args[2], {atom_of(c.args[0]): v}))
    if c.kind == "or":
        for x in c.args:
            with assuming(*[neg(y) for y in c.args if y is not x]):
                if not PY.consistent() or holds(x):
                    return True
        return False
    return False
