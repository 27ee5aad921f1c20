"""C15: overlap reduction functions. Oracle: formulas written from the angle between the two positions."""
import numpy as np
from ..rac import scenario
from ..fakes import mkpsr, unit
from enterprise.signals import utils, gp_signals, parameter, signal_base, anis_coefficients


def law(kind, a, b):
    if np.array_equal(a, b):
        return {"hd": 1.0, "dipole": 1 + 1e-5, "monopole": 1 + 1e-5}[kind]
    # angle via atan2, good for every separation
    x = np.arctan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b))
    if kind == "hd":
        s = np.sin(x / 2) ** 2
        return 1.5 * s * np.log(s) - 0.25 * s + 0.5
    return np.cos(x) if kind == "dipole" else 1.0


ORF = {"hd": utils.hd_orf, "dipole": utils.dipole_orf, "monopole": utils.monopole_orf}


def rot(rng):
    q, r = np.linalg.qr(rng.randn(3, 3))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


@scenario("C15", quick=30, thorough=400)
def correlation_laws(ck, rng, k):
    a = unit(rng)
    sep = [None, np.pi, 1e-5, 1e-3, np.pi / 2, np.pi / 3, 1.0, 2.5, np.pi - 1e-4][k % 9]
    if sep is None:
        b = unit(rng)
    else:
        t = np.cross(a, unit(rng))
        t /= np.linalg.norm(t)
        b = np.cos(sep) * a + np.sin(sep) * t if sep != np.pi else -a
    q = rot(rng)
    for kind, fn in ORF.items():
        f = [fn, fn()("x")][k % 2]  # called directly, or as the instance a signal holds
        w = law(kind, a, b)
        tol = dict(rtol=1e-9, atol=3e-9 if kind == "hd" else 1e-12)
        a0, b0 = a.copy(), b.copy()
        ck.close(kind, float(f(a, b)), w, **tol)
        ck.close(kind + " symmetric", float(f(b, a)), w, **tol)
        ck.close(kind + " rotated", float(f(q @ a, q @ b)), w, **tol)
        ck.close(kind + " keywords", float(f(pos1=b, pos2=a)), w, **tol)
        ck.same(kind + " keeps args", a, a0)
        ck.same(kind + " keeps args", b, b0)
        for p in (a, b, np.array([1.0, 0, 0]), np.array([0, 0, -1.0])):
            ck.close(kind + " coincident", float(f(p, p)), law(kind, p, p), rtol=1e-15)
            ck.close(kind + " coincident copy", float(f(p, p.copy())), law(kind, p, p), rtol=1e-15)
        # positions that share one or two components without coinciding
        for flip in range(3):
            c = a.copy()
            c[flip] = -c[flip]
            ck.close(kind + " mirrored", float(f(a, c)), law(kind, a, c), **tol)
            ck.close(kind + " swapped", float(f(a, np.roll(a, flip + 1) if flip < 2 else -a)),
                     law(kind, a, np.roll(a, flip + 1) if flip < 2 else -a), **tol)
    # one component equal to zero in both
    z1, z2 = np.array([1.0, 0, 0]), np.array([0, 1.0, 0])
    for kind, fn in ORF.items():
        ck.close(kind + " orthogonal axes", float(fn(z1, z2)), law(kind, z1, z2), rtol=1e-12, atol=1e-15)


@scenario("C15", quick=12, thorough=120)
def close_pairs(ck, rng, k):
    """Distinct pulsars a fraction of an arcsecond to arcminutes apart: no pulsar term."""
    a = unit(rng)
    t = np.cross(a, unit(rng))
    t /= np.linalg.norm(t)
    sep = 10 ** rng.uniform(-7, -3.5)
    b = a + sep * t
    b /= np.linalg.norm(b)
    if not np.dot(a, b) < 1:  # the separation is lost in the rounding of the cosine
        ck.true("separation representable", sep < 1e-7 * 1.5)
        return
    for kind, fn in ORF.items():
        ck.close(kind, float(fn(a, b)), law(kind, a, b), rtol=0, atol=1e-9)
        ck.true(kind + " has no pulsar term", abs(float(fn(a, b)) - law(kind, a, a)) > 1e-6)


@scenario("C15", quick=8, thorough=60)
def anisotropic(ck, rng, k):
    npsr, lmax = int(rng.randint(2, 6)), [0, 1, 2, 3, 1, 2][k % 6]
    pos = [unit(rng) for _ in range(npsr)]
    if k % 3 == 1:  # two pulsars that share components
        pos[1] = pos[0] * np.array([1, 1, -1.0])
    nb = (max(lmax, 2) + 1) ** 2 if k % 2 else (lmax + 1) ** 2
    basis = rng.randn(nb, npsr, npsr)
    basis = basis + basis.transpose(0, 2, 1)
    for pname in ([pos, np.array(pos)][k % 2],):
        for i in range(npsr):
            for j in range(npsr):
                c = rng.randn((lmax + 1) ** 2 - 1)
                c0 = c.copy()
                got = utils.anis_orf(pos[i].copy(), pos[j].copy(), params=c, anis_basis=basis, psrs_pos=pname, lmax=lmax)
                w = 2 * np.sqrt(np.pi) * basis[0, i, j]
                for m in range(1, (lmax + 1) ** 2):
                    w += c[m - 1] * basis[m, i, j]
                ck.close("anis", float(got), w, rtol=1e-12, atol=1e-12)
                ck.same("anis params kept", c, c0)


@scenario("C15", quick=4, thorough=30)
def in_common_process(ck, rng, k):
    """The same law read through a PTA's prior covariance between two pulsars."""
    n = 3
    psrs = [mkpsr(rng, name="P%d" % i, n=20, nback=1) for i in range(n)]
    locs = np.array([[p.phi, p.theta] for p in psrs])
    for p in psrs:
        p.pos = np.array([np.cos(p.phi) * np.sin(p.theta), np.sin(p.phi) * np.sin(p.theta), np.cos(p.theta)])
    kind = ["hd", "dipole", "monopole", "anis"][k % 4]
    pl = utils.powerlaw(log10_A=parameter.Uniform(-16, -13)("A"), gamma=parameter.Uniform(1, 6)("g"))
    pars = {"A": -14.0, "g": 4.0}
    if kind == "anis":
        lmax = 1 + k % 2
        ab = anis_coefficients.anis_basis(locs, lmax=lmax, nside=4)
        orf = utils.anis_orf(params=parameter.Uniform(-1, 1, size=(lmax + 1) ** 2 - 1)("clm"), anis_basis=ab,
                             psrs_pos=[p.pos for p in psrs], lmax=lmax)
        c = rng.uniform(-0.3, 0.3, (lmax + 1) ** 2 - 1)
        pars["clm"] = c
        want = np.einsum("k,kij->ij", np.concatenate([[2 * np.sqrt(np.pi)], c]), ab)
    else:
        orf = ORF[kind]()
        want = np.array([[law(kind, p.pos, q.pos) for q in psrs] for p in psrs])
    sig = gp_signals.FourierBasisCommonGP(pl, orf, components=3, Tspan=1e8, name="gw")
    sgs = [sig(p) for p in psrs]
    ph = np.asarray(utils.powerlaw(np.repeat(np.arange(1, 4) / 1e8, 2), log10_A=-14.0, gamma=4.0))
    for i in range(n):
        ck.close("own prior", np.asarray(sgs[i].get_phi(pars)), ph * want[i, i], rtol=1e-8)
        for j in range(n):
            if i != j:
                ck.close("cross prior", np.asarray(type(sgs[i]).get_phicross(sgs[i], sgs[j], pars)), ph * want[i, j], rtol=1e-7, atol=1e-9 * ph.max())
