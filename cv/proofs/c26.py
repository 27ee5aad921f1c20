"""C26: the helpers for anisotropic backgrounds. The unchanged module of /repo runs on symbolic numbers."""
import types
from fractions import Fraction
import healpy
import numpy as np
from cv.sym.contract import *
from cv.sym import obj as O
from cv.sym.obj import S, Cx, CxArray, term
from cv.proofs.c05 import diag, same

M = "enterprise.signals.anis_coefficients."
TRUSTED = ["numpy's indexing, assembly and elementwise operations on arrays of objects are those on arrays of numbers (the code runs unchanged, its arrays hold symbolic numbers)",
           "scipy.special.sph_harm(m, l, azimuth, polar): the spherical harmonics Y_lm, with Y_l,-m = (-1)^m times the conjugate of Y_lm",
           "healpy: pixel angles (pix2ang), alm2map = sum over l of a_l0 Y_l0 + 2 Re sum over m > 0 of a_lm Y_lm at the pixels, map2alm, the order of coefficients (Alm)"]
BOUNDED = ["maximum degrees up to 4 (complex coefficients: 6), three pulsars, three pixels; all values of the coefficients, maps and angles"]
ASSUMPTIONS = ["that the isotropic element is proportional to the Hellings-Downs curve is checked at run time only (it holds up to the pixel size)"]
NPIX = 3


def lms(lmax):
    return [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]


def idx(lmax, l, m):
    """healpy's order of complex coefficients"""
    return m * (2 * lmax + 1 - m) // 2 + l


def part(kind, l, m, az, pol):
    return S(PY.app("%s_%d_%d" % (kind, l, m), term(az), term(pol)))


def sph_harm(m, l, az, pol):
    if abs(m) > l:
        raise ValueError("order above degree")
    az, pol = np.broadcast_arrays(np.asarray(az, dtype=object), np.asarray(pol, dtype=object))
    re, im = np.empty(az.shape, object), np.empty(az.shape, object)
    a, s = abs(m), (-1) ** m if m < 0 else 1
    for i in np.ndindex(*az.shape):
        re[i] = part("Re", l, a, az[i], pol[i]) * s
        im[i] = (part("Im", l, a, az[i], pol[i]) * (s if m > 0 else -s)) if m else S(0)
    return CxArray.of(re, im)


ROOT2 = S(PY.power(P(2), Fraction(1, 2)))


def real(l, m, az, pol):
    """The real harmonics: Y_l0, sqrt(2) Re Y_lm, sqrt(2) Im Y_l|m|"""
    return np.array([(part("Re", l, 0, a, p) if m == 0 else ROOT2 * part("Re" if m > 0 else "Im", l, abs(m), a, p)) for a, p in zip(az, pol)], dtype=object)


class HP:
    """healpy, by its contract"""
    Alm = healpy.Alm

    def __init__(self, npix=NPIX):
        self.n = npix
        self.theta = np.array([S(PY.var("gwtheta%d" % i)) for i in range(npix)], dtype=object)
        self.phi = np.array([S(PY.var("gwphi%d" % i)) for i in range(npix)], dtype=object)
        self.sphtfunc = self

    def nside2npix(self, nside):
        assert nside == "nside"
        return self.n

    def npix2nside(self, n):
        assert n == self.n
        return "nside"

    def pix2ang(self, nside, ipix, nest=False, lonlat=False):
        assert nside == "nside" and not nest and not lonlat
        return self.theta[ipix], self.phi[ipix]

    def alm2map(self, alms, nside, lmax=None, mmax=None, pixwin=False, fwhm=0.0, sigma=None, pol=True, inplace=False, verbose=True):
        assert nside == "nside" and mmax is None and not pixwin and not fwhm and sigma is None
        if lmax is None:
            lmax = healpy.Alm.getlmax(len(alms))
        if len(alms) != (lmax + 1) * (lmax + 2) // 2:
            raise TypeError("Wrong alm size")
        h = O.of("", self.n, f=lambda i: P0)
        for l in range(lmax + 1):
            for m in range(l + 1):
                a = O.cx(alms[idx(lmax, l, m)])
                for i in range(self.n):
                    re, im = part("Re", l, m, self.phi[i], self.theta[i]), part("Im", l, m, self.phi[i], self.theta[i])
                    h[i] = h[i] + (a.real * re if m == 0 else 2 * (a.real * re - a.imag * im))
        return h

    def map2alm(self, maps, lmax=None, mmax=None, **k):
        assert mmax is None and not k and lmax is not None
        self.given = list(maps)
        n = (lmax + 1) * (lmax + 2) // 2
        im = O.of("almi", n)
        for l in range(lmax + 1):
            im[idx(lmax, l, 0)] = S(0)
        return CxArray.of(O.of("almr", n), im)


def world(V, run, label=""):
    A, = O.modules("anis_coefficients")
    hp = HP()

    def go():
        with O.running(A):
            old, A.hp, A.ss = (A.hp, A.ss), hp, types.SimpleNamespace(sph_harm=sph_harm, sph_harm_y=lambda l, m, pol, az: sph_harm(m, l, az, pol))
            try:
                run(A, hp)
            finally:
                A.hp, A.ss = old
    V.returns(go, label=label)


def check(V, name, got, want):
    ok = same(got, want)
    return V.done(name, ok, "" if ok else "%s\nwant %s" % (got, want))


def vector(name, n):
    return O.of(name, n)


@contract("C26", M + "real_sph_harm")
def harmonics(V):
    def run(A, hp):
        for l, m in lms(5):
            check(V, "real_sph_harm(%d, %d)" % (m, l), A.real_sph_harm(m, l, hp.phi, hp.theta), real(l, m, hp.phi, hp.theta))
    world(V, run)


@contract("C26", M + "almFromClm", M + "clmFromAlm")
def coefficients(V):
    def run(A, hp):
        for lmax in range(7):
            c = vector("clm", (lmax + 1) ** 2)
            keep = c.copy()
            a = A.almFromClm(c)
            V.done("%d: number of coefficients" % lmax, len(a) == (lmax + 1) * (lmax + 2) // 2)
            for i, (l, m) in enumerate(lms(lmax)):
                z = O.cx(a[idx(lmax, l, abs(m))])
                V.done("%d: alm(%d, %d)" % (lmax, l, m), term(c[i]) == term(z.real if m == 0 else ROOT2 * z.real if m > 0 else -ROOT2 * z.imag) and (m or not term(z.imag).t), str(z))
            check(V, "%d: complex and back is the identity" % lmax, A.clmFromAlm(a), c)
            V.done("%d: the coefficients are as they were" % lmax, all(x is y for x, y in zip(c, keep)))
            n = len(a)
            im = O.of("ai", n)
            for l in range(lmax + 1):
                im[idx(lmax, l, 0)] = S(0)
            b = CxArray.of(O.of("ar", n), im)
            d = A.almFromClm(A.clmFromAlm(b))
            V.done("%d: real and back is the identity" % lmax, len(d) == n and all(term(O.cx(x).real) == term(y.real) and term(O.cx(x).imag) == term(y.imag) for x, y in zip(d, b)))
    world(V, run)


@contract("C26", M + "mapFromClm", M + "mapFromClm_fast", M + "clmFromMap", M + "clmFromMap_fast")
def maps(V):
    def run(A, hp):
        h = vector("h", hp.n)
        keep = h.copy()
        for lmax in range(5):
            c = vector("clm", (lmax + 1) ** 2)
            Y = np.array([real(l, m, hp.phi, hp.theta) for l, m in lms(lmax)])
            want = O.mul(c, Y)
            check(V, "%d: mapFromClm" % lmax, A.mapFromClm(c, "nside"), want)
            check(V, "%d: mapFromClm_fast" % lmax, A.mapFromClm_fast(c, "nside"), want)
            proj = O.mul(Y, h)
            check(V, "%d: clmFromMap" % lmax, A.clmFromMap(h, lmax), np.array([x * 4 * S(PY.PI) / hp.n for x in proj], dtype=object))
            got = A.clmFromMap_fast(h, lmax)
            V.done("%d: clmFromMap_fast transforms the map" % lmax, len(hp.given) == hp.n and all(x is y for x, y in zip(hp.given, keep)))
            n = (lmax + 1) * (lmax + 2) // 2
            w = []
            for l, m in lms(lmax):
                i = P(idx(lmax, l, abs(m)))
                w.append(S(PY.app("almr", i)) * (ROOT2 if m else 1) if m >= 0 else -ROOT2 * S(PY.app("almi", i)))
            w[0] = sum(h[1:], h[0]) * S(PY.power(4 * PY.PI, Fraction(1, 2))) / hp.n
            check(V, "%d: clmFromMap_fast" % lmax, got, np.array(w, dtype=object))
        V.done("the map is as it was", all(x is y for x, y in zip(h, keep)))
    world(V, run)


def response(pphi, ptheta, gphi, gtheta, norm=True):
    """The plus and cross patterns of Gair et al. (2014), in alternating columns"""
    n = len(gphi)
    c = S(PY.power(P(3) / P(2), Fraction(1, 2)) if norm else P1) / S(PY.power(P(n), Fraction(1, 2)))
    F = np.empty((len(pphi), 2 * n), object)
    for i, (pp, pt) in enumerate(zip(pphi, ptheta)):
        p = [pp.cos() * pt.sin(), pp.sin() * pt.sin(), pt.cos()]
        for k, (gp, gt) in enumerate(zip(gphi, gtheta)):
            dot = lambda v: v[0] * p[0] + v[1] * p[1] + v[2] * p[2]
            Om = dot([-(gt.sin() * gp.cos()), -(gt.sin() * gp.sin()), -gt.cos()])
            m = dot([-gp.sin(), gp.cos(), 0])
            n_ = dot([-(gp.cos() * gt.cos()), -(gt.cos() * gp.sin()), gt.sin()])
            F[i, 2 * k] = c * (n_ * n_ - m * m) / 2 / (1 - Om)
            F[i, 2 * k + 1] = c * m * n_ / (1 - Om)
    return F


def pulsars(n):
    a = np.empty((n, 2), object)
    for i in range(n):
        a[i] = [S(PY.var("pphi%d" % i)), S(PY.var("ptheta%d" % i))]
    return a


@contract("C26", M + "signalResponse_fast", M + "createSignalResponse", M + "createSignalResponse_pol")
def responses(V):
    def run(A, hp):
        loc = pulsars(3)
        keep = loc.copy()
        pphi, ptheta = loc[:, 0], loc[:, 1]
        want = response(pphi, ptheta, hp.phi, hp.theta)
        check(V, "signalResponse_fast", A.signalResponse_fast(ptheta, pphi, hp.theta, hp.phi), want)
        gp, pp = np.meshgrid(hp.phi, pphi)
        gt, pt = np.meshgrid(hp.theta, ptheta)
        check(V, "createSignalResponse", A.createSignalResponse(pp, pt, gp, gt), want)
        for j, plus in enumerate((True, False)):
            check(V, "createSignalResponse_pol, plus %s" % plus, A.createSignalResponse_pol(pp, pt, gp, gt, plus=plus), want[:, j::2])
            check(V, "createSignalResponse_pol, plus %s, not normalised" % plus, A.createSignalResponse_pol(pp, pt, gp, gt, plus=plus, norm=False), response(pphi, ptheta, hp.phi, hp.theta, False)[:, j::2])
        V.done("the positions are as they were", all(x is y for x, y in zip(loc.flat, keep.flat)))
    world(V, run)


def twice_diagonal(G):
    return G + diag([G[i, i] for i in range(len(G))])


def weighted(F, h):
    """The pixel sums of responses, weighted by the map h"""
    w = np.array([h[k // 2] for k in range(F.shape[1])], dtype=object)
    return twice_diagonal(O.mul(F * w, F.T))


@contract("C26", M + "getCov", M + "anis_basis", M + "orfFromMap_fast")
def basis(V):
    def run(A, hp):
        F = O.of("F", 3, 2 * hp.n)
        h = vector("h", hp.n)
        for lmax in range(3):
            c = vector("clm", (lmax + 1) ** 2)
            Y = np.array([real(l, m, hp.phi, hp.theta) for l, m in lms(lmax)])
            check(V, "%d: getCov" % lmax, A.getCov(c, "nside", F), weighted(F, O.mul(c, Y)))
        check(V, "orfFromMap_fast, response given", A.orfFromMap_fast(None, h, response=F), weighted(F, h))
        loc = pulsars(2)
        R = response(loc[:, 0], loc[:, 1], hp.phi, hp.theta)
        check(V, "orfFromMap_fast", A.orfFromMap_fast(loc, h), weighted(R, h))
        asked = []

        def respond(ptheta, pphi, gtheta, gphi):
            # by its contract, a matrix of responses (opaque here)
            V.done("the response to the positions and pixels", all(x is y for x, y in zip(list(ptheta) + list(pphi) + list(gtheta) + list(gphi), list(loc[:, 1]) + list(loc[:, 0]) + list(hp.theta) + list(hp.phi))))
            return F[:2].copy()
        old, A.signalResponse_fast = A.signalResponse_fast, respond
        try:
            for lmax in range(4):
                got = A.anis_basis(loc, lmax, nside="nside")
                V.done("%d: number of elements" % lmax, len(got) == (lmax + 1) ** 2)
                for i, (l, m) in enumerate(lms(lmax)):
                    if i < len(got):
                        check(V, "%d: element (%d, %d)" % (lmax, l, m), got[i], weighted(F[:2], real(l, m, hp.phi, hp.theta)))
                        V.done("%d: element (%d, %d) is symmetric" % (lmax, l, m), O.symmetric(got[i]))
        finally:
            A.signalResponse_fast = old
    world(V, run)
