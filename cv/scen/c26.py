import numpy as np
import healpy as hp
from math import factorial, pi
from scipy.special import lpmv
from ..rac import scenario
from enterprise.signals import anis_coefficients as A


def ylm(l, m, phi, theta):
    """Real harmonics, written out from associated Legendre functions (with the Condon-Shortley phase)."""
    a = abs(m)
    N = np.sqrt((2 * l + 1) / (4 * pi) * factorial(l - a) / factorial(l + a))
    P = N * lpmv(a, l, np.cos(theta))
    if m == 0:
        return P
    return np.sqrt(2) * P * (np.cos(a * phi) if m > 0 else np.sin(a * phi))


def lms(lmax):
    return [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]


def pix(nside):
    th, ph = hp.pix2ang(nside, np.arange(12 * nside**2))
    return ph, th


def response(loc, ph, th, npx):
    """Plus and cross patterns of Gair et al. 2014 in alternating columns, pixel by pixel."""
    F = np.zeros((len(loc), 2 * len(ph)))
    c = np.sqrt(1.5 / npx)
    for i, (pp, pt) in enumerate(loc):
        p = np.array([np.cos(pp) * np.sin(pt), np.sin(pp) * np.sin(pt), np.cos(pt)])
        for k in range(len(ph)):
            st, ct, sp, cp = np.sin(th[k]), np.cos(th[k]), np.sin(ph[k]), np.cos(ph[k])
            Om = -np.array([st * cp, st * sp, ct])
            m = np.array([-sp, cp, 0.0])
            n = np.array([-cp * ct, -ct * sp, st])
            F[i, 2 * k] = 0.5 * c * ((n @ p) ** 2 - (m @ p) ** 2) / (1 - Om @ p)
            F[i, 2 * k + 1] = c * (m @ p) * (n @ p) / (1 - Om @ p)
    return F


def locs(rng, n):
    return np.column_stack([rng.uniform(0, 2 * pi, n), np.arccos(rng.uniform(-0.99, 0.99, n))])


@scenario("C26", quick=8, thorough=60)
def harmonics(ck, rng, k):
    n = 20
    ph, th = rng.uniform(0, 2 * pi, n), rng.uniform(0.01, pi - 0.01, n)
    for l, m in lms(2 + k % 6):
        ck.close("real_sph_harm(%d,%d)" % (l, m), A.real_sph_harm(m, l, ph, th), ylm(l, m, ph, th), 1e-9, atol=1e-12)


@scenario("C26", quick=10, thorough=60)
def complex_coefficients(ck, rng, k):
    lmax = k % 8
    c = rng.randn((lmax + 1) ** 2)
    c0 = c.copy()
    a = A.almFromClm(c)
    ck.true("size", len(a) == (lmax + 1) * (lmax + 2) // 2)
    for i, (l, m) in enumerate(lms(lmax)):
        z = a[hp.Alm.getidx(lmax, l, abs(m))]
        ck.close("alm(%d,%d)" % (l, m), (z.real if m >= 0 else -z.imag) * (np.sqrt(2) if m else 1), c[i], 1e-12)
        if m == 0:
            ck.close("alm(%d,0) real" % l, z.imag, 0.0)
    back = A.clmFromAlm(a)
    ck.close("round trip", back, c, 1e-12)
    ck.same("input kept", c, c0)
    a2 = rng.randn(len(a)) + 1j * rng.randn(len(a))
    for l in range(lmax + 1):
        i = hp.Alm.getidx(lmax, l, 0)
        a2[i] = a2[i].real
    ck.close("round trip from alm", A.almFromClm(A.clmFromAlm(a2)), a2, 1e-12)
    if len(a) not in (1, 2):
        ck.raises("not a complete set", lambda: A.clmFromAlm(np.append(a, 0.0 * a[:1])), Exception) if (lmax + 1) != 0 and len(a) + 1 not in [
            (x + 1) * (x + 2) // 2 for x in range(20)] else None


@scenario("C26", quick=8, thorough=60)
def maps(ck, rng, k):
    nside, lmax = [1, 2, 4, 8][k % 4], k % 5
    ph, th = pix(nside)
    c = rng.randn((lmax + 1) ** 2)
    Y = np.array([ylm(l, m, ph, th) for l, m in lms(lmax)])
    ck.close("mapFromClm", A.mapFromClm(c, nside), c @ Y, 1e-9)
    ck.close("mapFromClm_fast", A.mapFromClm_fast(c, nside), c @ Y, 1e-6)
    h = rng.rand(12 * nside**2) if k % 2 else c @ Y
    ck.close("clmFromMap", A.clmFromMap(h, lmax), 4 * pi / len(h) * (Y @ h), 1e-9, atol=1e-12)
    if nside >= 4 and lmax <= nside:
        ck.close("clmFromMap_fast inverts a band-limited map", A.clmFromMap_fast(c @ Y, lmax), c, 3e-2)
        hh = rng.rand(12 * nside**2)
        got = A.clmFromMap_fast(hh, lmax)
        ck.close("clmFromMap_fast monopole", got[0], hh.sum() * np.sqrt(4 * pi) / len(hh), 1e-9)
        ck.close("clmFromMap_fast is close to the projection", got, 4 * pi / len(hh) * (Y @ hh), 0.15)


@scenario("C26", quick=6, thorough=40)
def responses(ck, rng, k):
    nside = [1, 2, 4][k % 3]
    ph, th = pix(nside)
    loc = locs(rng, 1 + k % 4)
    keep = (loc.copy(), ph.copy(), th.copy())
    want = response(loc, ph, th, len(ph))
    ck.close("signalResponse_fast", A.signalResponse_fast(loc[:, 1], loc[:, 0], th, ph), want, 1e-9)
    gp, pp = np.meshgrid(ph, loc[:, 0])
    gt, pt = np.meshgrid(th, loc[:, 1])
    ck.close("createSignalResponse", A.createSignalResponse(pp, pt, gp, gt), want, 1e-9)
    for j, plus in enumerate((True, False)):
        ck.close("polarization", A.createSignalResponse_pol(pp, pt, gp, gt, plus=plus), want[:, j::2], 1e-9)
        ck.close("unnormalised", A.createSignalResponse_pol(pp, pt, gp, gt, plus=plus, norm=False), want[:, j::2] / np.sqrt(1.5), 1e-9)
    c = rng.randn(((k % 3) + 1) ** 2)
    Y = np.array([ylm(l, m, ph, th) for l, m in lms(k % 3)])
    W = np.repeat(c @ Y, 2)
    G = (want * W) @ want.T
    ck.close("getCov", A.getCov(c, nside, want), G + np.diag(np.diag(G)), 1e-6)
    um = rng.rand(len(ph))
    G = (want * np.repeat(um, 2)) @ want.T
    ck.close("orfFromMap_fast", A.orfFromMap_fast(loc, um), G + np.diag(np.diag(G)), 1e-9)
    ck.close("orfFromMap_fast(response)", A.orfFromMap_fast(None, um, response=want), G + np.diag(np.diag(G)), 1e-9)
    for a, b in zip(keep, (loc, ph, th)):
        ck.same("inputs kept", b, a)


@scenario("C26", quick=5, thorough=24)
def basis(ck, rng, k):
    nside, lmax = [2, 4, 8, 4, 2][k % 5], [2, 1, 0, 3, 1][k % 5]
    loc = locs(rng, 2 + k % 3)
    ph, th = pix(nside)
    F = response(loc, ph, th, len(ph))
    got = A.anis_basis(loc, lmax, nside=nside)
    ck.true("number of elements", len(got) == (lmax + 1) ** 2)
    for i, (l, m) in enumerate(lms(lmax)):
        G = (F * np.repeat(ylm(l, m, ph, th), 2)) @ F.T
        ck.close("element (%d,%d)" % (l, m), got[i], G + np.diag(np.diag(G)), 1e-6, atol=1e-9)
        ck.close("symmetric", got[i], got[i].T, 1e-9, atol=1e-12)


@scenario("C26", quick=2, thorough=8)
def isotropic_is_hellings_downs(ck, rng, k):
    n = 4
    loc = locs(rng, n)
    got = A.anis_basis(loc, 0)[0] * np.sqrt(4 * pi)
    v = np.column_stack([np.cos(loc[:, 0]) * np.sin(loc[:, 1]), np.sin(loc[:, 0]) * np.sin(loc[:, 1]), np.cos(loc[:, 1])])
    x = (1 - v @ v.T) / 2
    with np.errstate(all="ignore"):
        hd = 1.5 * x * np.log(x) - 0.25 * x + 0.5
    hd[np.diag_indices(n)] = 1.0
    ck.close("isotropic element", got, hd, 2e-3)
