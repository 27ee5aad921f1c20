"""C21: wideband timing model against a joint Gaussian over residuals and DM measurements, written out densely."""
import numpy as np
from ..rac import scenario
from ..fakes import mkpsr, snapshot, check_unchanged
from ..scen_util import nm
from enterprise.signals import gp_signals as gs, parameter, selections, signal_base as sb, white_signals as ws
from enterprise.signals.selections import Selection

U = parameter.Uniform


def wb(rng, n=24, nb=3, shuffle=False):
    p = mkpsr(rng, n=n, nback=int(rng.randint(2, 4)), npar=3)
    d = p.stoas / 86400
    srt = np.sort(d)
    cut = np.sort(rng.choice(np.arange(2, n - 2), nb - 1, replace=False))
    edges = np.concatenate([[srt[0] - 1], srt[cut], [srt[-1] + 1]])  # bins start exactly at a TOA: half-open
    keys = ["DMX_%04d" % (b + 1) for b in range(nb)]
    order = rng.permutation(nb)
    p.dmx, bins = {}, {}
    for b in order:
        p.dmx[keys[b]] = dict(DMX=rng.randn() * 1e-3, DMXerr=1e-4, DMXR1=edges[b], DMXR2=edges[b + 1], fit=True)
        bins[keys[b]] = np.flatnonzero((d >= edges[b]) & (d < edges[b + 1]))
    cols, fit = [p.Mmat], list(p.fitpars)
    for b in rng.permutation(nb):
        w = np.zeros(n)
        w[bins[keys[b]]] = 1
        cols.append((w / (2.41e-4 * p.freqs**2))[:, None])
        fit.append(keys[b])
    M = np.hstack(cols)
    o = rng.permutation(len(fit))
    p.Mmat, p.fitpars = M[:, o].copy(), [fit[i] for i in o]
    p.dm = 15.0
    p.flags["pp_dm"] = np.array([str(x) for x in 15.0 + rng.randn(n) * 1e-3]) if rng.randint(2) else 15.0 + rng.randn(n) * 1e-3
    p.flags["pp_dme"] = 10 ** rng.uniform(-4, -3, n)
    return p, bins


def by(psr, on):
    return {b: np.flatnonzero(psr.backend_flags == b) for b in np.unique(psr.backend_flags)} if on else {"": np.arange(len(psr.toas))}


@scenario("C21", quick=24, thorough=240)
def joint(ck, rng, k):
    p, bins = wb(rng, n=int(rng.randint(16, 30)), nb=int(rng.randint(1, 5)))
    n = len(p.toas)
    be = Selection(selections.by_backend)
    selb, jumps, quad = bool(k % 2), [None, "all", "ref"][k % 3], bool((k // 2) % 2)
    labs = list(np.unique(p.backend_flags))
    ref = str(labs[(k // 3) % len(labs)])
    kw = dict(dmefac=U(0.1, 10), log10_dmequad=U(-7, 0) if quad else None, dmjump=None if jumps is None else U(-0.01, 0.01))
    if selb:
        kw["selection"] = be
    if jumps:
        kw["dmjump_selection"] = be
    if jumps == "ref":
        kw["dmjump_ref"] = ref
    snap = snapshot(p)
    wbm = gs.WidebandTimingModel(**kw)
    m = (ws.MeasurementNoise(efac=U(0.1, 5)) + wbm)(p)
    s = wbm(p)
    pta = sb.PTA([m])
    names = [nm(p.name, g, "dmefac") for g in by(p, selb)] + ([nm(p.name, g, "log10_dmequad") for g in by(p, selb)] if quad else [])
    names += [nm(p.name, g, "dmjump") for g in labs if jumps and not (jumps == "ref" and g == ref)]
    ck.true("parameters", sorted(q.name for q in s.params) == sorted(names), repr([q.name for q in s.params]))
    for rep in range(3):
        par = {x: (rng.uniform(0.5, 3) if "efac" in x else rng.uniform(-4, -2.5) if "quad" in x else rng.uniform(-0.01, 0.01)) for x in names}
        ef = rng.uniform(0.5, 2)
        par[nm(p.name, "efac")] = ef
        dm = np.array([float(x) for x in p.flags["pp_dm"]])
        dme = np.zeros(n)
        for g, idx in by(p, selb).items():
            q2 = 10 ** (2 * par[nm(p.name, g, "log10_dmequad")]) if quad else 0.0
            dme[idx] = par[nm(p.name, g, "dmefac")] * np.sqrt(np.array(p.flags["pp_dme"])[idx] ** 2 + q2)
        if jumps:
            for g in labs:
                if not (jumps == "ref" and g == ref):
                    dm[by(p, True)[g]] += par[nm(p.name, g, "dmjump")]
        ck.close("shifted DM", s.get_dm(par), dm, 1e-13)
        ck.close("scaled DM errors", s.get_dme(par), dme, 1e-12, elem=True)
        phi, dl, lsp = np.full(len(p.fitpars), 1e40), np.zeros(n), 0.0
        for key, idx in bins.items():
            w = 1 / dme[idx] ** 2
            phi[p.fitpars.index(key)] = 1 / w.sum()
            mean = (w * dm[idx]).sum() / w.sum()
            dl[idx] = (mean - (p.dm + p.dmx[key]["DMX"])) / (2.41e-4 * p.freqs[idx] ** 2)
            # Gaussian likelihood of the bin's measurements integrated over its DM, without 2 pi factors
            lsp += -0.5 * (w * (dm[idx] - mean) ** 2).sum() - np.log(dme[idx]).sum() - 0.5 * np.log(w.sum())
        ck.close("prior variances", np.asarray(s.get_phi(par)), phi, 1e-12, elem=True)
        ck.close("inverse prior", np.asarray(s.get_phiinv(par)), 1 / phi, 1e-12, elem=True)
        ck.close("basis", s.get_basis(par), p.Mmat, 1e-14)
        ck.close("delay", s.get_delay(par), dl, 1e-9, atol=1e-13)
        ck.close("log prior term", s.get_logsignalprior(par), lsp, 1e-9, atol=2e-6 * np.sum(1e-6 / dme**2) ** 0.5 + 1e-7 * np.sum(225 / dme**2) * 1e-6)
        # joint likelihood of (residuals, DMs) marginalised over all timing parameters, flat DMX
        N = (ef * p.toaerrs) ** 2
        ix = [p.fitpars.index(b) for b in bins]
        A, y, W, sg = [p.Mmat], [p.residuals], [1 / N], []
        D, dd = np.zeros((n, len(p.fitpars))), np.zeros(n)
        for key, idx in bins.items():
            D[idx, p.fitpars.index(key)] = 1
            dd[idx] = dm[idx] - (p.dm + p.dmx[key]["DMX"])
        A, y, W = np.vstack([p.Mmat, D]), np.concatenate([p.residuals, dd]), np.concatenate([1 / N, 1 / dme**2])
        pi = np.full(len(p.fitpars), 1e-40)
        pi[ix] = 0
        S = (A.T * W) @ A + np.diag(pi)
        b = (A.T * W) @ y
        sc = 1 / np.sqrt(np.diag(S))
        L = np.linalg.cholesky(S * np.outer(sc, sc))
        z = np.linalg.solve(L, b * sc)
        want = (-0.5 * (W * y**2).sum() + 0.5 * z @ z - 0.5 * np.log(N).sum() - np.log(dme).sum()
                - np.log(np.diag(L)).sum() + np.log(sc).sum() - 0.5 * (len(p.fitpars) - len(ix)) * np.log(1e40))
        got = pta.get_lnlikelihood(par)
        ck.close("joint likelihood", got, want, rtol=1e-6, atol=1e-3)
    check_unchanged(ck, "evaluations", p, snap)


@scenario("C21", quick=6, thorough=12)
def refusals(ck, rng, k):
    p, bins = wb(rng)
    T = lambda **kw: gs.WidebandTimingModel(dmjump=None, **kw)(p)
    T()
    key = sorted(p.dmx)[0]
    if k % 4 == 0:
        p.dmx[key]["fit"] = False
        ck.raises("fixed DMX", T, ValueError)
    elif k % 4 == 1:
        p.dmx[key]["DMXR2"] = p.dmx[key]["DMXR1"] + 1e-6
        ck.raises("TOAs outside all bins", T, ValueError)
    elif k % 4 == 2:
        p.fitpars[[i for i, x in enumerate(p.fitpars) if not x.startswith("DMX")][0]] = "DM"
        ck.raises("fitted DM", T, ValueError)
    else:
        ck.raises("jump without groups", lambda: gs.WidebandTimingModel()(p), ValueError)
