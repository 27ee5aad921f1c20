"""C16: epoch quantization partitions the TOAs."""
from cv.sym.contract import *
from cv.sym.npf import NP

np_argsort = NP["argsort"]

U_ = "enterprise.signals.utils."


class Epochs:
    """The rule: in order of time, a TOA less than dt after the first TOA of the epoch joins it, otherwise it starts the next one.
    epoch(k), first(k): the number of the epoch of the k-th TOA in order of time, and the time of its first TOA."""

    def __init__(self, V, ut, n, toas, dt):
        self.V, self.n, self.dt = V, n, dt
        self.t = toas.snap()
        with explored():
            self.order = np_argsort(toas)
        self.s = self.order.el
        PY.INTS.add("epoch")
        PY.NONNEG.add("epoch")
        self.objects = []

    def near(self, k):
        """The TOA after the k-th joins its epoch"""
        return cmp0("lt", self.t(self.s(k + 1)) - app("first", k) - self.dt)

    def epoch(self, k):
        """Unfolded once"""
        return P0 if k.const == 0 else ite(self.near(k - 1), app("epoch", k - 1), app("epoch", k - 1) + 1)

    def first(self, k):
        return self.t(self.s(P0)) if k.const == 0 else ite(self.near(k - 1), app("first", k - 1), self.t(self.s(k)))

    def group(self, e, k):
        """The TOAs up to the k-th that are in epoch e"""
        return E.CvList(E.SSeq([E.Seg(Axis(k + 1, lambda j: cmp0("eq", app("epoch", j) - e)), lambda j: SNum(self.s(j)))]))

    # the loop that walks the TOAs
    def __call__(self, loc, seg):
        q = {k: v for k, v in loc.items() if isinstance(v, E.CvList) and v.concrete() and len(v) == 1}
        refs = [v for v in q.values() if isinstance(v[0], SNum)]
        inds = [v for v in q.values() if isinstance(v[0], E.CvList)]
        if len(refs) > 1 or len(inds) != 1:
            return None
        self.refs, self.inds = refs[0] if refs else None, inds[0]
        self.objects = refs + inds
        self.last = seg.axis.n
        # numbers that the loop changes: the time of the first TOA of the epoch, the number of the epoch, the number of epochs
        self.scalars = {}
        for name, v in loc.items():
            if isinstance(v, (int, SNum)) and not isinstance(v, bool):
                if num(v).key == self.t(self.s(P0)).key:
                    self.scalars[name] = (lambda k: app("first", k), self.first)
                elif num(v).const in (0, 1):
                    self.scalars[name] = (lambda k, d=num(v): app("epoch", k) + d, lambda k, d=num(v): self.epoch(k) + d)
        return self

    def set(self, k):
        e = app("epoch", k)
        j = fresh("j")
        PY.CTX.append(PY.forall(atom_of(j), k + 1, cmp0("le", app("epoch", j) - e)))
        if k is self.last:
            if self.refs is not None:
                self.refs.restore(([], [E.Seg(Axis(e + 1), lambda i: SNum(app("someref", i)))], None))
            self.inds.restore(([], [E.Seg(Axis(e + 1), lambda i: self.group(i, k))], None))
            return
        if self.refs is not None:
            self.refs.restore(([], [E.Seg(Axis(e), lambda i: SNum(app("someref", i))), E.Elem(SNum(app("first", k)))], None))
        self.inds.restore(([], [E.Seg(Axis(e), lambda i: self.group(i, k)), E.Elem(self.group(e, k))], None))

    def check(self, k):
        e = self.epoch(k)
        ip = self.inds.parts()
        if self.refs is not None:
            rp = self.refs.parts()
            yield "one reference time for each epoch", cmp0("eq", E.SSeq(rp).length() - e - 1)
            yield "the reference time of the last epoch", cmp0("eq", num(rp[-1].value) - self.first(k))
        yield "one list of TOAs for each epoch", cmp0("eq", E.SSeq(ip).length() - e - 1)
        j = fresh("j")
        with assuming(Axis(k).rng(j)):
            yield "no TOA so far in a later epoch", cmp0("le", app("epoch", j) - e)
        x, at = fresh("x"), P0
        for p in ip:
            q = fresh("e")
            with assuming(*([p.axis.rng(q)] if isinstance(p, E.Seg) else [])):
                g = E.seq(p.get(q) if isinstance(p, E.Seg) else p.value)
                got = P0
                for r in g.parts:
                    got = got + (iverson(cmp0("eq", num(r.value) - x)) if isinstance(r, E.Elem) else r.axis.sum(lambda j: iverson(cmp0("eq", num(r.get(j)) - x))))
                me = at + q if isinstance(p, E.Seg) else at
                want = Axis(k).sum(lambda j: iverson(conj(cmp0("eq", app("epoch", j) - me), cmp0("eq", self.s(j) - x)))) + iverson(conj(cmp0("eq", e - me), cmp0("eq", self.s(k) - x)))
                yield "the TOAs of an epoch", cmp0("eq", got - want)
            at = at + (p.axis.length() if isinstance(p, E.Seg) else P1)


@contract("C16", U_ + "create_quantization_matrix")
def quantization(V):
    ut = V.load("signals.utils")
    n = V.size("ntoas", least=1)
    toas = V.array("toas", n)
    dt, nmin = V.real("dt"), V.int("nmin", 1)

    q = Epochs(V, ut, n, toas, dt.p)
    E.STATES.append(q)

    def post(r):
        U, w = r
        epochs = app("epoch", n - 1) + 1
        big = Axis(epochs, lambda e: cmp0("le", nmin.p - Axis(n).sum(lambda j: iverson(cmp0("eq", app("epoch", j) - e)))))
        m, number, _ = E.kept(big)
        rank = np_argsort(q.order).el
        V.eq("one column for each epoch with nmin TOAs, in order of time; ones where a TOA belongs to the epoch", U,
             SArr((Axis(n), Axis(m)), lambda a, c: iverson(cmp0("eq", app("epoch", rank(a)) - number(c)))))
        V.eq("unit weights", w, SArr((Axis(m),), lambda c: P1))
        a, c, d = fresh("a"), fresh("c"), fresh("c")
        with assuming(Axis(n).rng(a), Axis(m).rng(c), Axis(m).rng(d), cmp0("lt", c - d)):
            V.eq("at most one epoch", SNum(U.el(a, c) * U.el(a, d)), SNum(P0))
    V.returns(lambda: ut.create_quantization_matrix(toas, dt, nmin), post)
    V.returns(lambda: ut.create_quantization_matrix(toas), None) if False else None


@contract("C16", U_ + "quant2ind", U_ + "indices_from_slice")
def indices(V):
    """For any matrix without zero columns: the rows of the nonzero elements of each column, as a slice only when they are contiguous."""
    ut = V.load("signals.utils")
    n, m = V.size("ntoas"), V.size("nepochs")
    U = V.array("U", n, m)
    PY.INTS.add("some")
    c = fresh("c")
    V.assume(PY.forall(atom_of(c), m, conj(Axis(n).rng(app("some", c)), neg(cmp0("eq", app("U", app("some", c), c))))))
    for as_slice in (False, True):
        def post(r):
            V.eq("one for each column", SNum(num(E.b_len(r))), SNum(m))
            c, i = fresh("c"), fresh("i")
            on = lambda i: neg(cmp0("eq", app("U", i, c)))
            with assuming(Axis(m).rng(c), *instances(c, m)):
                got = r[SNum(c)]
                cases = got.cases if isinstance(got, E.Cases) else [(TRUE, got)]
                rows = Axis(n, on)
                total, at, place = E.kept(rows)
                whole = cmp0("eq", at(total - 1) - at(P0) + 1 - total)      # contiguous
                before = TRUE
                for cond, v in cases:
                    with assuming(before, cond):
                        before = conj(before, neg(cond))
                        if isinstance(v, slice):
                            V.done("slices only when asked for", as_slice)
                            V.true("a slice only when contiguous", whole)
                            V.done("without a step", v.step is None)
                            with assuming(Axis(n).rng(i), *lemma(rows, i)):
                                a, b = num(v.start), num(v.stop)
                                V.true("the slice has the rows of the column", PY.implies(on(i), conj(cmp0("le", a - i), cmp0("lt", i - b))))
                                V.true("and no other", PY.implies(conj(cmp0("le", a - i), cmp0("lt", i - b)), on(i)))
                        else:
                            if as_slice:
                                V.true("indices only when not contiguous", neg(whole))
                            V.eq("the rows of the column", A.arr(v), SArr((Axis(n, on),), lambda i: i, "i"))
        V.returns(lambda: ut.quant2ind(U, as_slice=as_slice), post, label="slices" if as_slice else "indices")
    lo, hi = V.int("lo", 0), V.int("hi", 0)
    for what, start, first in (("slice", lo, lo.p), ("open slice", None, P0)):
        V.returns(lambda: ut.indices_from_slice(Slice(start=start, stop=hi, step=None)), lambda r: V.eq("the range", r, SArr((Axis(ite(cmp0("le", first - hi.p), hi.p - first, P0)),), lambda i: i + first, "i")), label=what)
    V.returns(lambda: ut.indices_from_slice(U), lambda r: V.done("an index array is returned as it is", r is U), label="array")


class Slice(E.Obj):
    """slice.indices of Python, for bounds that are not negative"""

    def indices(s, length):
        cut = lambda x: SNum(ite(cmp0("le", num(x) - num(length)), num(x), num(length)))
        return (cut(s.start) if s.start is not None else 0, cut(s.stop), 1)


def instances(c, n):
    """What is known for all indices below n, at the index c"""
    return [PY.csubst(q.args[2], {atom_of(q.args[0]): c}) for q in list(PY.CTX) if q.kind == "all" and q.args[1] is n]


def lemma(rows, i):
    """contiguous (lemmas/C16.lean): the numbers a condition keeps, in increasing order, lie between the first and the last, and fill this
    range when it has as many numbers."""
    total, at, place = E.kept(rows)
    first, last = at(P0), at(total - 1)
    inside = conj(cmp0("le", first - i), cmp0("le", i - last))
    return [disj(neg(rows.rng(i)), inside), disj(neg(inside), neg(cmp0("eq", last - first + 1 - total)), rows.rng(i))]


class Weights:
    """The interpolation matrix after the first k intervals between nodes."""

    def __init__(self, n, t, node, dt):
        self.n, self.t, self.node, self.dt = n, t, node, dt

    def inside(self, i, c):
        return conj(cmp0("le", self.node(c) - self.t(i)), cmp0("le", self.t(i) - self.node(c + 1)))

    def el(self, k):
        """A TOA between nodes c and c + 1 has the weights of these two; on a node, weight one"""
        left = lambda i, c: conj(cmp0("lt", c - k), cmp0("le", -c), self.inside(i, c))
        right = lambda i, c: conj(cmp0("le", c - k), cmp0("le", 1 - c), self.inside(i, c - 1))
        return lambda i, c: ite(left(i, c), (self.node(c + 1) - self.t(i)) / self.dt, ite(right(i, c), (self.t(i) - self.node(c - 1)) / self.dt, P0))

    def __call__(self, loc, seg):
        ms = [v for v in loc.values() if isinstance(v, SArr) and len(v.axes) == 2 and v.el(fresh("i"), fresh("c")) is P0]
        if len(ms) != 1:
            return None
        self.M, self.objects = ms[0], ms
        return self

    def set(self, k):
        self.M._fn = self.el(k)

    def check(self, k):
        i, c = fresh("i"), fresh("c")
        with assuming(*[a.rng(x) for a, x in zip(self.M.axes, (i, c))]):
            got, want = self.M.el(i, c), self.el(k)(i, c)
            yield "the weights of the intervals so far", cmp0("eq", got - want)


@contract("C16", U_ + "linear_interp_basis")
def interpolation(V):
    ut = V.load("signals.utils")
    n = V.size("ntoas", least=1)
    toas = V.array("toas", n)
    dt = V.real("dt")
    V.assume(cmp0("lt", -dt.p))
    t = toas.snap()
    low = lambda: num(A.EXPLORER[0].extremum("min", toas, None))
    node = lambda c: low() + c * dt.p
    E.STATES.append(lambda loc, seg: Weights(n, t, node, dt.p)(loc, seg))
    PY.INTS.add("cell")
    i = fresh("i")

    def post(r):
        M, x = r
        if not V.done("matrix and nodes", len(M.axes) == 2 and len(x.axes) == 1 and M.axes[1].same(x.axes[0]), repr((M, x))):
            return
        V.eq("one row for each TOA", SNum(M.axes[0].n), SNum(n))
        m, keep = M.axes[1].n, M.axes[1].cond or (lambda c: TRUE)
        i, c, q, s = fresh("i"), fresh("c"), app("cell", fresh("i")), dt.p
        q = app("cell", i)        # the last node not after the TOA: the integer with
        A.EXPLORER[0].extremum("max", toas, None)
        cell = [cmp0("le", node(q) - t(i)), cmp0("lt", t(i) - node(q + 1))]
        w0, w1 = (node(q + 1) - t(i)) / s, (t(i) - node(q)) / s
        weight = lambda c: iverson(cmp0("eq", c - q)) * w0 + iverson(cmp0("eq", c - q - 1)) * w1
        with assuming(Axis(n).rng(i), *cell, *instances(i, n)):
            V.true("the TOA is not before the first node", cmp0("le", -q))
            V.true("nor after the last", cmp0("lt", q + 1 - m))
            V.true("weights are not negative", conj(cmp0("le", -w0), cmp0("le", -w1)))
            V.eq("and sum to one", SNum(w0 + w1), SNum(P1))
            V.eq("linear functions", SNum(w0 * node(q) + w1 * node(q + 1)), SNum(t(i)))
            with assuming(Axis(m).rng(c)):
                for what, where in (("before", cmp0("lt", c - q)), ("at", cmp0("eq", c - q)), ("after", cmp0("eq", c - q - 1)), ("beyond", cmp0("lt", q + 1 - c))):
                    # distance to the node, in steps
                    d = {"before": q - c - 1, "beyond": c - q - 2}.get(what)
                    hint = [cmp0("le", -(d * s))] if d is not None else []
                    with assuming(where):
                        for h in hint:
                            V.true("distance of the node %s" % what, h)
                        with assuming(*hint):
                            V.eq("weight of the node %s" % what, SNum(M.el(i, c)), SNum(weight(c)))
                V.eq("node", SNum(x.el(c)), SNum(node(c)))
            with assuming(Axis(m).rng(c)):
                V.done("the columns that are kept are those with a nonzero sum", keep(c) is neg(cmp0("eq", Axis(n).sum(lambda a: M.el(a, c)))))
            # lemma (lemmas/C16.lean): a sum of numbers that are not negative is zero only when all are
            lemma = [disj(cmp0("eq", w), keep(k)) for w, k in ((w0, q), (w1, q + 1))]
            with assuming(*lemma, cmp0("le", -q), cmp0("lt", q + 1 - m)):
                V.eq("rows of the kept columns sum to one", SNum(iverson(keep(q)) * w0 + iverson(keep(q + 1)) * w1), SNum(P1))
                V.eq("linear functions from the kept nodes", SNum(iverson(keep(q)) * w0 * node(q) + iverson(keep(q + 1)) * w1 * node(q + 1)), SNum(t(i)))
    V.returns(lambda: ut.linear_interp_basis(toas, dt), post)


TRUSTED = ["numpy.arange(a, b, d) with d > 0 has the least number of steps n d >= b - a; flatnonzero lists the rows in increasing order; slice.indices of Python"]
ASSUMPTIONS = ["the invariant of the loop that walks the TOAs is given: lists of epochs by number (epoch(k), first(k) are defined by recursion over the TOAs in order of time)",
               "quant2ind is verified for matrices without zero columns (create_quantization_matrix with nmin >= 1 makes no zero column)"]
