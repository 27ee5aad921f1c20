"""Entailment of index and sign conditions, by z3."""
import time
import z3
from .poly import STAT, INTS, POS, NONNEG, TRUE, FALSE, Cond, Unsupported, atom_pos, atom_nonneg, DISJOINT, INTLAM

RLIMIT = 4000000   # z3 resource units: the answer does not depend on the load of the machine


FACTS = {}   # applied symbol -> condition every value of it satisfies (given by a contract)


class Conv:
    def __init__(self):
        self.at, self.facts, self.fns = {}, [], {}

    def atom(self, a):
        z = self.at.get(a)
        if z is not None:
            return z
        integer = (a.kind in ("v", "f") and (a.name in INTS or a.name.startswith("#"))) or a.kind == "I" or (
            a.kind == "fn" and a.name in ("floordiv", "mod", "floor", "rint", "trunc")) or (
            a.kind == "lam" and a.name.split(":")[0] in INTLAM)
        if a.kind == "sum":
            from .poly import is_int_poly

            integer = is_int_poly(a.body)
        if a.kind == "I":
            z = z3.If(self.cond(a.args[0]), z3.IntVal(1), z3.IntVal(0))
            self.at[a] = z
            return z
        if a.kind == "fn" and a.name in ("floordiv", "mod"):
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            if x.sort() == z3.RealSort() or y.sort() == z3.RealSort():
                q = z3.ToReal(z3.ToInt((z3.ToReal(x) if x.sort() == z3.IntSort() else x) / (z3.ToReal(y) if y.sort() == z3.IntSort() else y)))
                z = q if a.name == "floordiv" else x - y * q
            else:
                z = x / y if a.name == "floordiv" else x % y
            self.at[a] = z
            return z
        if a.kind == "f" and a.args:
            args = [self.poly(x) for x in a.args]
            key = (a.name, tuple(x.sort().name() for x in args))
            f = self.fns.get(key)
            if f is None:
                f = z3.Function("%s/%d" % (a.name, len(self.fns)), *[x.sort() for x in args], z3.IntSort() if integer else z3.RealSort())
                self.fns[key] = f
            z = f(*args)
        else:
            z = z3.Const(a.key[:80] + "|%d" % len(self.at), z3.IntSort() if integer else z3.RealSort())
        self.at[a] = z
        if atom_pos(a):
            self.facts.append(z > 0)
        elif atom_nonneg(a):
            self.facts.append(z >= 0)
        if a.kind == "fn" and a.name in ("sin", "cos"):
            self.facts += [z <= 1, z >= -1]
        if a.kind == "P":
            self.facts.append(z != 0)
        if a.kind == "f" and a.name in FACTS:
            self.facts.append(self.cond(FACTS[a.name](a)))
        return z

    def poly(self, p):
        out = None
        for m, c in p.t.items():
            r = None
            for a, e in m:
                z = self.atom(a)
                if e.denominator == 1 and 0 < e <= 6:
                    for _ in range(int(e)):
                        r = z if r is None else r * z
                elif e.denominator == 1 and -6 <= e < 0:
                    zi = self.inv(a, z)
                    for _ in range(-int(e)):
                        r = zi if r is None else r * zi
                else:
                    key = ("pow", a, e)
                    if key not in self.at:
                        self.at[key] = z3.Const("pow%d" % len(self.at), z3.RealSort())
                        if atom_pos(a):
                            self.facts.append(self.at[key] > 0)
                    zi = self.at[key]
                    r = zi if r is None else r * zi
            cz = z3.IntVal(c.numerator) if c.denominator == 1 else z3.RealVal(str(c))
            t = cz if r is None else r if c == 1 else cz * r
            out = t if out is None else out + t
        return z3.IntVal(0) if out is None else out

    def inv(self, a, z):
        key = ("inv", a)
        if key not in self.at:
            v = z3.Const("inv%d" % len(self.at), z3.RealSort())
            self.at[key] = v
            self.facts.append(v * z == 1)
            if atom_pos(a):
                self.facts.append(v > 0)
        return self.at[key]

    def cond(self, c):
        if c is TRUE:
            return z3.BoolVal(True)
        if c is FALSE:
            return z3.BoolVal(False)
        if c.kind == "eq":
            return self.poly(c.args[0]) == 0
        if c.kind == "le":
            return self.poly(c.args[0]) <= 0
        if c.kind == "not":
            return z3.Not(self.cond(c.args[0]))
        if c.kind == "and":
            return z3.And(*[self.cond(x) for x in c.args])
        if c.kind == "or":
            return z3.Or(*[self.cond(x) for x in c.args])
        if c.kind == "pred":
            args = [self.poly(x) for x in c.args]
            key = ("pred", c.name, tuple(x.sort().name() for x in args))
            f = self.fns.get(key)
            if f is None:
                f = z3.Function("%s?%d" % (c.name, len(self.fns)), *[x.sort() for x in args], z3.BoolSort()) if args else None
                if f is None:
                    f = z3.Const(c.name, z3.BoolSort())
                self.fns[key] = f
                if c.name in DISJOINT:
                    kp = DISJOINT[c.name]
                    xs = [z3.Const("d%d" % i, x.sort()) for i, x in enumerate(args)]
                    y = z3.Const("dk", args[kp].sort())
                    ys = [y if i == kp else x for i, x in enumerate(xs)]
                    self.facts.append(z3.ForAll(xs + [y], z3.Implies(z3.And(f(*xs), f(*ys)), xs[kp] == y), patterns=[z3.MultiPattern(f(*xs), f(*ys))]))
            return f(*args) if args else f
        if c.kind == "all":
            from .poly import atom_of

            b = atom_of(c.args[0])
            v = z3.Int("all%d" % len(self.at))
            old = self.at.get(b)
            self.at[b] = v
            n0 = len(self.facts)
            n, body = self.poly(c.args[1]), self.cond(c.args[2])
            inner = self.facts[n0:]
            del self.facts[n0:]
            # terms under the quantifier must not be shared outside
            for k in [k for k in self.at if k is not b and not isinstance(k, tuple) and b in k.fv]:
                del self.at[k]
            if old is None:
                del self.at[b]
            else:
                self.at[b] = old
            for f in inner:
                self.facts.append(z3.ForAll([v], f))
            return z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < n), body))
        raise Unsupported(c.kind)


def prefix_facts(cv):
    """Sums of the same terms, none negative, up to different limits: the shorter sum and the terms after it are at most
    the longer one."""
    by = {}
    for a in list(cv.at):
        if not isinstance(a, tuple) and a.kind == "sum" and len(a.binders) == 1 and atom_nonneg(a):
            by.setdefault((a.binders[0][0], a.body), []).append((a, a.binders[0][1]))
    out = []
    for (v, body), xs in by.items():
        if len(xs) > 5:
            continue
        for x, n in xs:
            out.append(z3.Implies(cv.poly(n) <= 0, cv.at[x] == 0))
        for x, n in xs:
            bx = None
            for y, n2 in xs:
                if x is not y:
                    if bx is None:
                        from .poly import subst

                        bx = cv.poly(subst(body, {v: n}))
                    nx, ny = cv.poly(n), cv.poly(n2)
                    out += [z3.Implies(nx <= ny, cv.at[x] <= cv.at[y]), z3.Implies(z3.And(0 <= nx, nx < ny), cv.at[x] + bx <= cv.at[y]),
                            z3.Implies(z3.And(0 <= nx, ny == nx + 1), cv.at[x] + bx == cv.at[y])]
    return out


def _check(conds):
    t0 = time.time()
    cv = Conv()
    s = z3.Solver()
    s.set("rlimit", RLIMIT)
    s.set("timeout", 20000)   # rlimit does not count all the work of nonlinear integer arithmetic
    for c in conds:
        s.add(cv.cond(c))
    for f in prefix_facts(cv) + cv.facts:
        s.add(f)
    r = s.check()
    STAT["z3"] += 1
    STAT["z3_time"] += time.time() - t0
    return r


def relevant(ctx, c):
    """Assumptions that share variables with c, transitively."""
    need, used, rest = set(c.fv), [], list(ctx)
    changed = True
    while changed:
        changed = False
        for x in list(rest):
            if not x.fv or x.fv & need:
                used.append(x)
                rest.remove(x)
                need |= x.fv
                changed = True
    return used


def entails(ctx, c):
    from .poly import neg

    ctx = relevant(ctx, c)
    if _check(ctx + [neg(c)]) == z3.unsat:
        return True
    if _check(ctx + [c]) == z3.unsat:
        return False
    return None


def consistent(ctx):
    return _check(list(ctx)) != z3.unsat
