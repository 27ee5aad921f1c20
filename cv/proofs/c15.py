"""C15: the overlap reduction functions are the documented functions of the two positions."""
from cv.sym.contract import *

U = "enterprise.signals.utils."
ASSUMPTIONS = ["the floating-point scalar product of distinct unit vectors is below 1 (positions closer than about 1e-8 rad are outside the contract)"]


def unit(V, name):
    p = V.array(name, 3)
    s = p.snap()
    V.assume(cmp0("eq", sum((s(P(k)) ** 2 for k in range(3)), -P1)))
    return p, s


def dot(a, b):
    return sum((a(P(k)) * b(P(k)) for k in range(3)), P0)


def same(a, b):
    return conj(*[cmp0("eq", a(P(k)) - b(P(k))) for k in range(3)])


def laws():
    def hd(c):
        x = (1 - c) / 2
        return P(3) / 2 * x * PY.mk_log(x) - x / 4 + P1 / 2
    return (("hd_orf", P1, hd), ("dipole_orf", P1 + P(1e-5), lambda c: c), ("monopole_orf", P1 + P(1e-5), lambda c: P1))


@contract("C15", U + "hd_orf", U + "dipole_orf", U + "monopole_orf")
def isotropic(V):
    m = V.load("signals.utils")
    (p, ps), (q, qs) = unit(V, "p"), unit(V, "q")
    for name, auto, law in laws():
        f = getattr(m, name)
        def post(v):
            # on this path the positions are equal or not
            e = decide(same(ps, qs))
            V.done("the case is decided by the positions alone", e is not None)
            V.eq("value for coinciding positions" if e else "value for distinct positions", v, SNum(auto if e else law(dot(ps, qs))))
            V.done("positions not modified", p.snap() is ps and q.snap() is qs)
        V.returns(lambda: f(p, q), post, label=name)
        V.returns(lambda: f(p, p), lambda v: V.eq("value for the pulsar itself", v, SNum(auto)), label=name + " of one array")
        # the law depends on the scalar product only, so it is symmetric and the same for rotated positions
        with_q = V.paths(lambda: f(q, p))
        for kind, v, ctx in with_q:
            with at(ctx):
                e = decide(same(ps, qs))
                V.eq("%s: symmetric" % name, v, SNum(auto if e else law(dot(ps, qs))))


@contract("C15", U + "anis_orf")
def anisotropic(V):
    m = V.load("signals.utils")
    n, L, lm = V.size("npulsars"), V.size("nbasis"), V.int("lmax", 0)
    l1 = (num(lm) + 1) ** 2
    V.assume(cmp0("le", l1 - L))
    pos, B = V.array("pos", n, 3), V.array("basis", L, n, n)
    pars = V.array("clm", l1 - 1)
    f, b, c = pos.snap(), B.snap(), pars.snap()
    i, j = V.int("i", 0), V.int("j", 0)
    for x in (i, j):
        V.assume(cmp0("lt", num(x) - n))
    # the positions are those of different pulsars
    w = fresh("w")
    for x in (i, j):
        V.assume(PY.forall(atom_of(w), n, disj(cmp0("eq", w - num(x)), neg(same(lambda k: f(w, k), lambda k: f(num(x), k))))))
    want = lambda a, d: 2 * PY.power(PY.PI, "1/2") * b(P0, a, d) + Axis(l1 - 1).sum(lambda k: c(k) * b(k + 1, a, d))
    seqs = (("list", E.SSeq.of(n, lambda k: pos[SNum(k)])), ("array", pos))
    for lab, ps in seqs:
        for x, y in ((i, j), (i, i)):
            V.returns(lambda: m.anis_orf(pos[x], pos[y], pars, anis_basis=B, psrs_pos=ps, lmax=lm),
                      lambda v: V.eq("isotropic element plus coefficients times elements", v, SNum(want(num(x), num(y)))),
                      label="positions in a %s%s" % (lab, "" if x is not y else ", same pulsar"))
    z = SNum(P0)
    V.returns(lambda: m.anis_orf(pos[i], pos[j], pars, anis_basis=B, psrs_pos=pos, lmax=0),
              lambda v: V.eq("isotropic element alone", v, SNum(2 * PY.power(PY.PI, "1/2") * b(P0, num(i), num(j)))), label="lmax 0")


@contract("C15", "enterprise.signals.gp_signals.BasisCommonGP")
def common_process(V):
    """The prior of a common process: the spectrum times the correlation of the two pulsars' positions."""
    from .parts import elementwise, scalar
    g, par = V.load("signals.gp_signals"), V.load("signals.parameter")
    nt, k = V.size("ntoas"), V.size("nmodes")
    A.sym("F", nt, k)
    prior = par.Function(elementwise(par, "S"), a=par.Uniform(0, 1)("gw_a"))
    orf = par.Function(scalar("orf", ("pos1", "pos2", "b")), b=par.Uniform(0, 1)("gw_b"))
    basis = par.Function(lambda toas, tag: (SArr((Axis(nt), Axis(k)), lambda i, j: app("F", num(tag), i, j)), SArr((Axis(k),), lambda j: app("f", num(tag), j))))
    cls = g.BasisCommonGP(prior, basis, orf, name="gw")
    a, b = V.real("a"), V.real("b")
    params = {"gw_a": a, "gw_b": b}
    sig, pos = [], []
    for i in (1, 2):
        p = V.array("pos%d" % i, 3)
        pos.append([p.el(P(x)) for x in range(3)])
        sig.append(cls(E.Obj(name="J%d" % i, toas=V.array("t%d" % i, nt), pos=p, tag=SNum(P(i)))))
    S = lambda t: lambda j: app("S", app("f", P(t), j), num(a))
    R = lambda p, q: app("orf", *(pos[p] + pos[q] + [num(b)]))
    want = lambda t, r: SArr((Axis(k),), lambda j: S(t)(j) * r)
    V.returns(lambda: sig[0].get_phi(params), lambda v: V.eq("auto term", v, want(1, R(0, 0))))
    V.returns(lambda: sig[1].get_phi(params), lambda v: V.eq("auto term of another pulsar", v, want(2, R(1, 1))))
    V.returns(lambda: cls.get_phicross(sig[0], sig[1], params), lambda v: V.eq("cross term", v, want(1, R(0, 1))))
    V.returns(lambda: cls.get_phicross(sig[1], sig[0], params), lambda v: V.eq("cross term, other order", v, want(2, R(1, 0))))
