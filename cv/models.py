"""Random models together with an independent description of what they mean.

Every component gives the enterprise signal class and, from its own formulas (no enterprise code), its dense
noise covariance, delay, basis and prior, so that likelihoods and covariances can be compared with textbook
expressions."""
import numpy as np
from enterprise.signals import (white_signals as ws, gp_signals as gs, deterministic_signals as ds, parameter, selections,
                                utils, gp_priors, gp_bases, signal_base as sb)
from enterprise.signals.selections import Selection
from enterprise.signals.parameter import function
from .fakes import mkpsr
from .scen_util import epochs, nm

FYR = 1 / (365.25 * 86400)


def fourier(t, freqs):
    F = np.zeros((len(t), 2 * len(freqs)))
    for i, f in enumerate(freqs):
        F[:, 2 * i] = np.sin(2 * np.pi * f * t)
        F[:, 2 * i + 1] = np.cos(2 * np.pi * f * t)
    return F


def plaw(freqs, lA, gam):
    df = np.diff(np.concatenate([[0], freqs]))
    p = 10 ** (2 * lA) / 12 / np.pi**2 * FYR ** (gam - 3) * freqs ** (-gam) * df
    return np.repeat(p, 2)


def hd(a, b):
    if np.array_equal(a, b):
        return 1.0
    x = (1 - a @ b) / 2
    return 1.5 * x * np.log(x) - 0.25 * x + 0.5


def dip(a, b):
    return 1 + 1e-5 if np.array_equal(a, b) else a @ b


def mono(a, b):
    return 1 + 1e-5 if np.array_equal(a, b) else 1.0


ORFS = {"hd": (utils.hd_orf, hd), "dipole": (utils.dipole_orf, dip), "monopole": (utils.monopole_orf, mono)}


class Comp:
    meta = None
    common = False

    def draw(self, psr, rng, params):
        pass

    def noise(self, psr, params):
        return 0.0

    def delay(self, psr, params):
        return 0.0

    def gp(self, psr, params):
        return None  # (F, Phi)

    def orf(self, p1, p2):
        return None

    def logprior(self, psr, params):
        return 0.0


class Efac(Comp):
    def __init__(self, rng, bk=True):
        self.bk = bk
        self.meta = ws.MeasurementNoise(efac=parameter.Uniform(0.1, 5), selection=Selection(selections.by_backend if bk else selections.no_selection))

    def keys(self, psr):
        return {b: psr.backend_flags == b for b in np.unique(psr.backend_flags)} if self.bk else {"": np.ones(len(psr.toas), bool)}

    def draw(self, psr, rng, params):
        for b in self.keys(psr):
            params[nm(psr.name, b, "efac")] = rng.uniform(0.7, 2)

    def noise(self, psr, params):
        e = np.zeros(len(psr.toas))
        for b, m in self.keys(psr).items():
            e[m] = params[nm(psr.name, b, "efac")] * psr.toaerrs[m]
        return np.diag(e**2)


class Equad(Comp):
    def __init__(self, rng):
        self.meta = ws.TNEquadNoise(log10_tnequad=parameter.Uniform(-9, -4))

    def draw(self, psr, rng, params):
        params[nm(psr.name, "log10_tnequad")] = rng.uniform(-7.5, -6)

    def noise(self, psr, params):
        return np.eye(len(psr.toas)) * 10 ** (2 * params[nm(psr.name, "log10_tnequad")])


class Ecorr(Comp):
    def __init__(self, rng):
        self.method = ["sherman-morrison", "fast-sherman-morrison", "block", "sparse"][rng.randint(4)]
        self.bk = bool(rng.randint(2))
        self.meta = ws.EcorrKernelNoise(log10_ecorr=parameter.Uniform(-9, -4), method=self.method,
                                        selection=Selection(selections.by_backend if self.bk else selections.no_selection))

    keys = Efac.keys

    def draw(self, psr, rng, params):
        for b in self.keys(psr):
            params[nm(psr.name, b, "log10_ecorr")] = rng.uniform(-7, -5.5)

    def noise(self, psr, params):
        N = np.zeros((len(psr.toas),) * 2)
        for b, m in self.keys(psr).items():
            for e in epochs(psr.toas, m):
                N[np.ix_(e, e)] += 10 ** (2 * params[nm(psr.name, b, "log10_ecorr")])
        return N


class Red(Comp):
    """Fourier GP with a power-law prior; optionally by backend, uncombined, or common-parameter."""

    def __init__(self, rng, T, nf=4, name="red_noise", sel=False, combine=True, shared=False):
        self.T, self.nf, self.nm, self.sel, self.shared = T, nf, name, sel, shared
        if shared:
            la, ga = parameter.Uniform(-18, -11)(name + "_log10_A"), parameter.Uniform(0, 7)(name + "_gamma")
        else:
            la, ga = parameter.Uniform(-18, -11), parameter.Uniform(0, 7)
        self.meta = gs.FourierBasisGP(gp_priors.powerlaw(log10_A=la, gamma=ga), components=nf, Tspan=T, name=name, combine=combine,
                                      selection=Selection(selections.by_backend if sel else selections.no_selection))

    def keys(self, psr):
        return {b: psr.backend_flags == b for b in np.unique(psr.backend_flags)} if self.sel else {"": np.ones(len(psr.toas), bool)}

    def pn(self, psr, b, x):
        return nm(self.nm, x) if self.shared else nm(psr.name, self.nm, b, x)

    def draw(self, psr, rng, params):
        for b in self.keys(psr):
            params.setdefault(self.pn(psr, b, "log10_A"), rng.uniform(-14, -13))
            params.setdefault(self.pn(psr, b, "gamma"), rng.uniform(1, 4))

    def gp(self, psr, params):
        f = np.arange(1, self.nf + 1) / self.T
        Fs, ph = [], []
        for b, m in sorted(self.keys(psr).items()):
            Fs.append(fourier(psr.toas, f) * m[:, None])
            ph.append(plaw(f, params[self.pn(psr, b, "log10_A")], params[self.pn(psr, b, "gamma")]))
        return np.hstack(Fs), np.diag(np.concatenate(ph))


class Dm(Comp):
    """DM Fourier GP (rows scaled by (1400/nu)^2)."""

    def __init__(self, rng, T, nf=3):
        self.T, self.nf = T, nf
        b = gp_bases.createfourierdesignmatrix_dm(nmodes=nf, Tspan=T)
        self.meta = gs.BasisGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11), gamma=parameter.Uniform(0, 7)), b, name="dm_gp")

    def draw(self, psr, rng, params):
        params[nm(psr.name, "dm_gp_log10_A")] = rng.uniform(-14, -13)
        params[nm(psr.name, "dm_gp_gamma")] = rng.uniform(1, 4)

    def gp(self, psr, params):
        f = np.arange(1, self.nf + 1) / self.T
        return fourier(psr.toas, f) * (1400.0 / psr.freqs[:, None]) ** 2, np.diag(plaw(f, params[nm(psr.name, "dm_gp_log10_A")], params[nm(psr.name, "dm_gp_gamma")]))


class Chrom(Comp):
    """GP whose basis depends on a sampled chromatic index."""

    def __init__(self, rng, T, nf=2):
        self.T, self.nf = T, nf
        b = gp_bases.createfourierdesignmatrix_chromatic(nmodes=nf, Tspan=T, idx=parameter.Uniform(0, 6))
        self.meta = gs.BasisGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11), gamma=parameter.Uniform(0, 7)), b, name="chrom")

    def draw(self, psr, rng, params):
        params[nm(psr.name, "chrom_log10_A")] = rng.uniform(-14, -13)
        params[nm(psr.name, "chrom_gamma")] = rng.uniform(1, 4)
        params[nm(psr.name, "chrom_idx")] = rng.uniform(1, 5)

    def gp(self, psr, params):
        f = np.arange(1, self.nf + 1) / self.T
        D = (1400.0 / psr.freqs) ** params[nm(psr.name, "chrom_idx")]
        return fourier(psr.toas, f) * D[:, None], np.diag(plaw(f, params[nm(psr.name, "chrom_log10_A")], params[nm(psr.name, "chrom_gamma")]))


@function
def poly_basis(toas, order=3):
    t = (toas - 4.6e9) / 1e8
    return np.array([t**i for i in range(order)]).T, np.arange(1.0, order + 1)


@function
def dense_prior(labels, log10_s=-6, rho=0.5):
    n = len(labels)
    i = np.arange(n)
    return 10 ** (2 * log10_s) * rho ** np.abs(i[:, None] - i[None, :])


@function
def diag_prior(labels, log10_s=-6):
    return 10 ** (2 * log10_s) / labels**2


class Poly(Comp):
    """User-defined basis and prior, vector or matrix."""

    def __init__(self, rng, dense=False, name="poly", order=3, combine=True):
        self.dense, self.nm, self.order = dense, name, order
        pr = dense_prior(log10_s=parameter.Uniform(-9, -4), rho=parameter.Uniform(0, 1)) if dense else diag_prior(log10_s=parameter.Uniform(-9, -4))
        self.meta = gs.BasisGP(pr, poly_basis(order=order), name=name, combine=combine)

    def draw(self, psr, rng, params):
        params[nm(psr.name, self.nm, "log10_s")] = rng.uniform(-7, -5.5)
        if self.dense:
            params[nm(psr.name, self.nm, "rho")] = rng.uniform(0.1, 0.8)

    def gp(self, psr, params):
        t = (psr.toas - 4.6e9) / 1e8
        F = np.array([t**i for i in range(self.order)]).T
        s2 = 10 ** (2 * params[nm(psr.name, self.nm, "log10_s")])
        i = np.arange(self.order)
        if self.dense:
            return F, s2 * params[nm(psr.name, self.nm, "rho")] ** np.abs(i[:, None] - i[None, :])
        return F, np.diag(s2 / (i + 1.0) ** 2)


class Common(Comp):
    common = True

    def __init__(self, rng, T, orf="hd", nf=4, name="gw", combine=True):
        self.T, self.nf, self.nm, self.o = T, nf, name, orf
        self.meta = gs.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11)(name + "_log10_A"), gamma=parameter.Uniform(0, 7)(name + "_gamma")),
                                            ORFS[orf][0](), components=nf, Tspan=T, name=name, combine=combine)

    def draw(self, psr, rng, params):
        params.setdefault(self.nm + "_log10_A", rng.uniform(-14, -13))
        params.setdefault(self.nm + "_gamma", rng.uniform(1, 4))

    def gp(self, psr, params):
        f = np.arange(1, self.nf + 1) / self.T
        return fourier(psr.toas, f), np.diag(plaw(f, params[self.nm + "_log10_A"], params[self.nm + "_gamma"]))

    def orf(self, p1, p2):
        return ORFS[self.o][1](p1.pos, p2.pos)


@function
def ramp(toas, pos, slope=1e-14, t0=4.7e9):
    return slope * np.maximum(toas - t0, 0) * (1 + pos[2])


class Ramp(Comp):
    def __init__(self, rng):
        self.meta = ds.Deterministic(ramp(slope=parameter.Uniform(-1e-13, 1e-13), t0=parameter.Uniform(4e9, 5e9)), name="ramp")

    def draw(self, psr, rng, params):
        params[nm(psr.name, "ramp_slope")] = rng.uniform(-1e-13, 1e-13)
        params[nm(psr.name, "ramp_t0")] = psr.toas.mean() + rng.uniform(-1e7, 1e7)

    def delay(self, psr, params):
        return params[nm(psr.name, "ramp_slope")] * np.maximum(psr.toas - params[nm(psr.name, "ramp_t0")], 0) * (1 + psr.pos[2])


class Coeff(Comp):
    """Fourier GP with explicit coefficients."""

    def __init__(self, rng, T, nf=2):
        self.T, self.nf = T, nf
        self.meta = gs.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11), gamma=parameter.Uniform(0, 7)), components=nf, Tspan=T, name="cgp", coefficients=True)

    def draw(self, psr, rng, params):
        params[nm(psr.name, "cgp_log10_A")] = rng.uniform(-14, -13)
        params[nm(psr.name, "cgp_gamma")] = rng.uniform(1, 4)
        params[nm(psr.name, "cgp_coefficients")] = rng.randn(2 * self.nf) * 1e-6

    def delay(self, psr, params):
        return fourier(psr.toas, np.arange(1, self.nf + 1) / self.T) @ params[nm(psr.name, "cgp_coefficients")]


def grouped(rng, metas):
    """The collection of the signals, in order, by additions grouped at random."""
    metas = list(metas)
    if len(metas) < 2:
        return sb.SignalCollection(metas)
    while len(metas) > 1:
        j = rng.randint(len(metas) - 1)
        metas[j : j + 2] = [metas[j] + metas[j + 1]]
    return metas[0]


class Model:
    def __init__(self, rng, comps_per_psr, psrs):
        self.psrs, self.comps = psrs, comps_per_psr
        self.params = {}
        self.redraw(rng)

    def metas(self):
        rng, out = np.random.RandomState(len(self.params)), []
        for cs in self.comps:
            out.append(grouped(rng, [c.meta for c in cs]))
        return out

    def pta(self, **kw):
        return sb.PTA([m(p) for m, p in zip(self.metas(), self.psrs)], **kw)

    def redraw(self, rng):
        self.params = {}
        for p, cs in zip(self.psrs, self.comps):
            for c in cs:
                c.draw(p, rng, self.params)
        return self.params

    def covariance(self, params=None):
        params = params or self.params
        ns = [len(p.toas) for p in self.psrs]
        off = np.concatenate([[0], np.cumsum(ns)])
        C = np.zeros((off[-1],) * 2)
        for i, (p, cs) in enumerate(zip(self.psrs, self.comps)):
            si = slice(off[i], off[i + 1])
            for c in cs:
                C[si, si] += c.noise(p, params)
                g = c.gp(p, params)
                if g is None:
                    continue
                F, Phi = g
                C[si, si] += F @ Phi @ F.T * (c.orf(p, p) if c.common else 1.0)
                if c.common:
                    for j, (q, ds_) in enumerate(zip(self.psrs, self.comps)):
                        if j != i and c in ds_:
                            G, _ = c.gp(q, params)
                            C[si, off[j] : off[j + 1]] += F @ Phi @ G.T * c.orf(p, q)
        return C

    def detres(self, params=None):
        params = params or self.params
        return np.concatenate([p.residuals - sum(np.zeros(len(p.toas)) + c.delay(p, params) for c in cs) for p, cs in zip(self.psrs, self.comps)])

    def lnlike(self, params=None):
        C, r = self.covariance(params), self.detres(params)
        s = 1e-12
        C = C / s
        L = np.linalg.cholesky((C + C.T) / 2)
        x = np.linalg.solve(L, r / np.sqrt(s))
        return -0.5 * x @ x - np.sum(np.log(np.diag(L))) - 0.5 * len(r) * np.log(s)


def common_span(psrs):
    return max(p.toas.max() for p in psrs) - min(p.toas.min() for p in psrs)


def random_model(rng, npsr=None, common=None, gps=True, dense=None, allow_nogp=True, only_white_gp=False, partition=False, tm=False):
    npsr = npsr or int(rng.randint(1, 5))
    names = ["J%02d%02d+%04d" % (i, rng.randint(60), rng.randint(9999)) for i in range(npsr)]
    psrs = [mkpsr(rng, name=n, n=int(rng.randint(18, 30)), nback=int(rng.randint(1, 3))) for n in names]
    T = common_span(psrs)
    if npsr > 1 and rng.randint(3) == 0:
        psrs[1].pos = psrs[0].pos.copy() * 1.0
        psrs[1].pos = psrs[1].pos if rng.randint(2) else -psrs[0].pos
        if np.array_equal(psrs[1].pos, psrs[0].pos) or True:
            v = psrs[0].pos + 0.3 * rng.randn(3)
            psrs[1].pos = v / np.linalg.norm(v)
    ncommon = rng.randint(0, 3) if common is None else common
    commons = []
    for i in range(ncommon):
        commons.append(Common(rng, T, orf=["hd", "dipole", "monopole"][rng.randint(3)], nf=int(rng.randint(2, 6)), name="gw%d" % i, combine=bool(rng.randint(4))))
    shared = Red(rng, T, nf=int(rng.randint(2, 6)), name="curn", shared=True) if rng.randint(3) == 0 else None
    white = [Efac(rng, bool(rng.randint(2)))]
    if rng.randint(2):
        white.append(Equad(rng))
    if rng.randint(2):
        white.append(Ecorr(rng))
    comps = []
    for p in psrs:
        cs = list(white)
        if gps:
            if rng.randint(3):
                cs.append(Red(rng, T, nf=int(rng.randint(2, 6)), sel=rng.randint(3) == 0, combine=bool(rng.randint(4))))
            if rng.randint(3) == 0:
                cs.append(Dm(rng, T))
            if rng.randint(3) == 0:
                cs.append(Chrom(rng, T))
            if rng.randint(3) == 0:
                d = bool(rng.randint(2)) if dense is None else dense
                cs.append(Poly(rng, dense=d))
                if rng.randint(3) == 0:
                    cs.append(Poly(rng, dense=False, name="poly2", order=4))
            if shared and rng.randint(4):
                cs.append(shared)
        for c in commons:
            if rng.randint(5):
                cs.append(c)
        if rng.randint(3) == 0:
            cs.append(Ramp(rng))
        if rng.randint(4) == 0:
            cs.append(Coeff(rng, T))
        cs = [cs[i] for i in rng.permutation(len(cs))]
        comps.append(cs)
    return Model(rng, comps, psrs)
