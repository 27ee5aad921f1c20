"""History independence: random histories of evaluations, parameter changes and default updates, against fresh objects."""
import numpy as np
from enterprise.signals import (signal_base as sb, white_signals as ws, gp_signals as gs, deterministic_signals as ds, parameter,
                                selections, utils, gp_priors, gp_bases)
from enterprise.signals.parameter import function
from enterprise.signals.selections import Selection
from ..rac import scenario
from .. import models as M
from ..fakes import mkpsr, snapshot, check_unchanged

SIG = ["get_delay", "get_ndiag", "get_basis", "get_phi", "get_phiinv", "get_logsignalprior"]
COL = ["get_delay", "get_detres", "get_ndiag", "get_basis", "get_phi", "get_phiinv", "get_TNr", "get_TNT", "get_rNr_logdet", "get_logsignalprior"]
PTA = ["get_delay", "get_ndiag", "get_basis", "get_phi", "get_TNr", "get_TNT", "get_rNr_logdet", "get_logsignalprior", "get_lnlikelihood",
       "get_lnprior", "phiinv_cliques", "phiinv_sparse", "lnl_sparse"]


def probe(x, aux):
    """A comparable copy of a returned value."""
    if x is None or isinstance(x, (int, float, np.floating, np.integer)):
        return x
    if isinstance(x, (list, tuple)):
        return [probe(a, aux) for a in x]
    if hasattr(x, "solve") and not isinstance(x, np.ndarray):
        r, T = aux["any"]
        return [probe(x.solve(r, left_array=r, logdet=True), aux), probe(x.solve(r, left_array=T), aux), probe(x.solve(T, left_array=T), aux)]
    if hasattr(x, "toarray"):
        return np.array(x.toarray())
    return np.array(x)


def compare(ck, label, a, b, rtol=1e-9):
    if a is None or b is None:
        ck.true(label, a is None and b is None, "got %r, want %r" % (a, b))
    elif isinstance(b, list):
        ck.true(label, isinstance(a, list) and len(a) == len(b), "structure differs")
        for i, (x, y) in enumerate(zip(a, b)):
            compare(ck, "%s[%d]" % (label, i), x, y, rtol)
    else:
        ck.close(label, np.asarray(a, float), np.asarray(b, float), rtol)


def call(pta, what, params):
    if what[0] == "sig":
        return getattr(pta[what[1]].signals[what[2]], what[3])(params)
    if what[0] == "col":
        return getattr(pta[what[1]], what[3])(params)
    if what[3].startswith("phiinv_"):
        return pta.get_phiinv(params, logdet=True, method=what[3][7:])
    if what[3] == "lnl_sparse":
        return pta.get_lnlikelihood(params, phiinv_method="sparse")
    return getattr(pta, what[3])(params)


def history(ck, rng, factory, draw, consts, steps, nhold=6, skip=(), prior=True):
    """factory(): fresh PTA (new classes, same pulsars); draw(rng): full parameter dictionary; consts(rng): defaults or None."""
    pta = factory()
    params, defaults, held = draw(rng), {}, []
    hist = [params]
    if consts:
        defaults = consts(rng)
        pta.set_default_params(defaults)
    auxs = {}
    for sc in pta.pulsarmodels:
        m = len(sc.get_detres(params))
        auxs[sc.psrname] = {"any": (rng.randn(m) * 1e-6, rng.randn(m, 3))}
    for step in range(steps):
        u = rng.randint(10)
        if u < 4:
            new = draw(rng)
            names = sorted(x for x in params if x in new)
            sub = [x for x in names if rng.randint(max(2, len(names) // 2)) == 0] or names[:1]
            if rng.randint(2):
                params = dict(params)  # new dictionary
            for x in sub:
                if isinstance(params[x], np.ndarray) and rng.randint(2) and not any(params is h for h in hist):
                    params[x] = params[x].copy()
                    params[x][rng.randint(len(params[x]))] = new[x][0]
                else:
                    params[x] = new[x]
            if consts and rng.randint(3) == 0:      # a dictionary may also override constants
                c = consts(rng)
                over = [x for x in sorted(c) if rng.randint(2)]
                params = {x: v for x, v in params.items() if x not in c}
                params.update({x: c[x] for x in over})
            hist = hist[-4:] + [dict(params)]
        elif u == 4 and len(hist) > 1:
            params = dict(hist[rng.randint(len(hist))])  # revisit
        elif u == 5 and consts:
            c = consts(rng)
            keys = sorted(c)
            upd = {x: c[x] for x in keys if rng.randint(2)} or c
            defaults.update(upd)
            if rng.randint(2):
                pta.set_default_params(upd)
            else:
                for sc in pta.pulsarmodels:
                    sc.set_default_params(upd)
        i = rng.randint(len(pta))
        lev = rng.randint(3)
        if lev == 0:
            j = rng.randint(len(pta[int(i)].signals))
            what = ("sig", int(i), int(j), SIG[rng.randint(len(SIG))])
            sig = pta[int(i)].signals[int(j)]
            if what[3] == "get_phiinv" and isinstance(sig, sb.CommonSignal):
                continue
            if what[3] == "get_phiinv" and sig.get_phi(params) is None:
                continue
        elif lev == 1:
            what = ("col", int(i), 0, COL[rng.randint(len(COL))])
            if what[3] == "get_phiinv" and pta[int(i)].get_phi(params) is None:
                continue
        else:
            nm_ = [x for x in PTA if prior or x != "get_lnprior"]
            what = ("pta", 0, 0, nm_[rng.randint(len(nm_))])
        if what[3] in skip:
            continue
        before = {x: np.copy(v) for x, v in params.items()}
        got = call(pta, what, params)
        ck.true("%s: parameter dictionary keys unchanged" % (what,), sorted(before) == sorted(params))
        for x in before:
            ck.same("%s: parameter %s unchanged" % (what, x), np.asarray(params[x]), before[x])
        fresh = factory()
        if defaults:
            fresh.set_default_params(defaults)
        want = call(fresh, what, dict(params))
        psrs = [pta[what[1]].psrname] if what[0] != "pta" else [sc.psrname for sc in pta.pulsarmodels]

        def pr(x, what=what, psrs=psrs):
            if what[0] == "pta" and isinstance(x, list):
                return [probe(a, auxs[p]) for a, p in zip(x, psrs)]
            if what[0] == "sig" and what[3] == "get_ndiag" and x is not None and not isinstance(x, np.ndarray):
                # a noise term that needs not be invertible by itself
                x = x + sb.ndarray_alt(np.full(len(auxs[psrs[0]]["any"][0]), 3e-13))
            return probe(x, auxs[psrs[0]])

        g = pr(got)
        compare(ck, "step %d %s vs fresh" % (step, what), g, pr(want))
        held.append((step, what, got, g, pr))
        held = held[-nhold:]
        if rng.randint(3) == 0:
            for st, w, obj, val, p_ in held:
                compare(ck, "result of step %d %s held until step %d" % (st, w, step), p_(obj), val, 1e-12)
    for st, w, obj, val, p_ in held:
        compare(ck, "result of step %d %s held to the end" % (st, w), p_(obj), val, 1e-12)


@scenario("C07", quick=8)
def zoo(ck, rng, k):
    mod = M.random_model(rng, npsr=int(rng.randint(1, 4)))
    snaps = [snapshot(p) for p in mod.psrs]

    def draw(r):
        return dict(mod.redraw(r))

    history(ck, rng, mod.pta, draw, None, 24, prior=False)
    for p, s in zip(mod.psrs, snaps):
        check_unchanged(ck, "history", p, s)


def draw_all(pta_factory, ranges):
    names = [(p.name, p.size) for p in pta_factory().params]

    def draw(rng):
        out = {}
        for n, s in names:
            lo, hi = next((r for key, r in ranges if key in n), (-1e-10, 1e-10))
            out[n] = rng.uniform(lo, hi, s) if s else rng.uniform(lo, hi)
        return out

    return draw


RANGES = [("efac", (0.8, 1.5)), ("equad", (-7.5, -6)), ("ecorr", (-7, -5.5)), ("log10_A", (-14.5, -13)), ("gamma", (1, 5)), ("idx", (1, 4)),
          ("coefficients", (-1e-6, 1e-6)), ("slope", (-1e-13, 1e-13)), ("t0", (4.6e9, 4.9e9)), ("dmjump", (-1e-3, 1e-3)),
          ("frame_drift", (-1e-9, 1e-9)), ("jup_orb", (-0.05, 0.05)), ("sat_orb", (-0.5, 0.5)), ("mass", (-1e-11, 1e-11)),
          ("log10_rho", (-8, -6)), ("ccc", (-1e-6, 1e-6))]


def consts_for(factory, extra):
    def names(o):
        return sorted({p.name for sc in o.pulsarmodels for s in sc.signals for p in s._params.values() if isinstance(p, parameter.ConstantParameter)})

    nn = names(factory())

    def consts(rng):
        return {n: rng.uniform(*next(r for key, r in RANGES if key in n)) for n in nn}

    return consts if nn else None


def _common_pieces(rng, psrs):
    T = M.common_span(psrs)
    be = Selection(selections.by_backend)
    C, U = parameter.Constant(), parameter.Uniform
    pl = lambda **k: gp_priors.powerlaw(**{**dict(log10_A=U(-18, -11), gamma=U(0, 7)), **k})
    P = {
        "efac": lambda: ws.MeasurementNoise(efac=U(0.1, 5), selection=be),
        "efac_c": lambda: ws.MeasurementNoise(efac=parameter.Constant(), selection=be),
        "efac_t2": lambda: ws.MeasurementNoise(efac=U(0.1, 5), log10_t2equad=parameter.Constant(-7.0)),
        "tneq": lambda: ws.TNEquadNoise(log10_tnequad=U(-9, -5), selection=be),
        "tneq_c": lambda: ws.TNEquadNoise(log10_tnequad=parameter.Constant(-6.5)),
        "ecorr": lambda: ws.EcorrKernelNoise(log10_ecorr=U(-9, -5), selection=be, method="sherman-morrison"),
        "ecorr_f": lambda: ws.EcorrKernelNoise(log10_ecorr=U(-9, -5), method="fast-sherman-morrison"),
        "ecorr_b": lambda: ws.EcorrKernelNoise(log10_ecorr=parameter.Constant(-6.0), selection=be, method="block"),
        "ecorr_s": lambda: ws.EcorrKernelNoise(log10_ecorr=U(-9, -5), method="sparse"),
        "ecorr_basis": lambda: gs.EcorrBasisModel(log10_ecorr=U(-9, -5), selection=be),
        "tm": lambda: gs.TimingModel(),
        "tm_svd": lambda: gs.TimingModel(use_svd=True),
        "mtm": lambda: gs.MarginalizingTimingModel(),
        "red": lambda: gs.FourierBasisGP(pl(), components=3, Tspan=T),
        "red_c": lambda: gs.FourierBasisGP(pl(gamma=parameter.Constant(4.0)), components=3, Tspan=T, selection=be),
        "spec": lambda: gs.FourierBasisGP(gp_priors.free_spectrum(log10_rho=U(-10, -5, size=3)), components=3, Tspan=T, name="fs"),
        "chrom": lambda: gs.BasisGP(pl(), gp_bases.createfourierdesignmatrix_chromatic(nmodes=2, Tspan=T, idx=U(0, 6)), name="chrom"),
        "chrom_c": lambda: gs.BasisGP(pl(), gp_bases.createfourierdesignmatrix_chromatic(nmodes=2, Tspan=T, idx=parameter.Constant(2.0)), name="chromc"),
        "cred": lambda: gs.FourierBasisGP(pl(), components=2, Tspan=T, name="cred", coefficients=True),
        "cred_sel": lambda: gs.FourierBasisGP(pl(), components=2, Tspan=T, name="creds", coefficients=True, selection=be),
        "cchrom": lambda: gs.BasisGP(pl(), gp_bases.createfourierdesignmatrix_chromatic(nmodes=2, Tspan=T, idx=U(0, 6)), name="cchrom", coefficients=True),
        "ctm": lambda: gs.TimingModel(coefficients=True, name="ctm"),
        "gw": lambda: gs.FourierBasisCommonGP(pl(log10_A=U(-18, -11)("gw_log10_A"), gamma=parameter.Constant(4.33)("gw_gamma")), utils.hd_orf(), components=3, Tspan=T, name="gw"),
        "gwc": lambda: gs.FourierBasisCommonGP(pl(log10_A=U(-18, -11)("gw2_log10_A"), gamma=U(0, 7)("gw2_gamma")), utils.dipole_orf(), components=4, Tspan=T, name="gw2", combine=False),
        "gwcoef": lambda: gs.FourierBasisCommonGP(pl(log10_A=U(-18, -11)("gw3_log10_A"), gamma=U(0, 7)("gw3_gamma")), utils.hd_orf(), components=2, Tspan=T, name="gw3",
                                                  coefficients=parameter.Uniform(-1, 1, size=4)("gw3_ccc")),
        "gwvar": lambda: gs.BasisCommonGP(pl(log10_A=U(-18, -11)("gw4_log10_A"), gamma=U(0, 7)("gw4_gamma")),
                                          gp_bases.createfourierdesignmatrix_chromatic(nmodes=2, Tspan=T, idx=U(0, 6)("gw4_idx")), utils.monopole_orf(), name="gw4"),
        "ramp": lambda: ds.Deterministic(M.ramp(slope=U(-1, 1), t0=U(0, 1e10)), name="ramp", selection=be),
        "ramp_c": lambda: ds.Deterministic(M.ramp(slope=U(-1, 1), t0=parameter.Constant()), name="rampc"),
        "pe": lambda: ds.PhysicalEphemerisSignal(use_epoch_toas=True),
        "pe_full": lambda: ds.PhysicalEphemerisSignal(use_epoch_toas=False, sat_orb_elements=True, name="x"),
    }
    return P


GROUPS = [["efac", "tneq_c", "ecorr", "red", "chrom_c"], ["efac_c", "ecorr_s", "tneq", "cred_sel", "ramp_c"],
          ["efac_t2", "ecorr_b", "chrom", "red", "tm"], ["efac_c", "ecorr_f", "mtm", "red_c", "chrom"],
          ["efac", "gw", "gwc", "red_c", "cred"], ["efac_c", "tneq", "gw", "gwvar", "cchrom"], ["efac", "pe", "gwcoef", "red"],
          ["efac_t2", "pe_full", "ctm", "spec", "ramp"], ["efac_c", "mtm", "ecorr", "ecorr_basis", "gw"], ["efac", "tm_svd", "spec", "cred_sel", "cchrom"],
          ["efac_c", "gw", "gwcoef", "gwc", "chrom_c", "tneq_c"]]


@scenario("C07", quick=22)
def pieces(ck, rng, k):
    group = GROUPS[k % len(GROUPS)]
    psrs = [mkpsr(rng, name="J%04d-0000" % i, n=24) for i in range(2 + k % 2)]
    P = _common_pieces(rng, psrs)
    if k >= len(GROUPS):  # random combination
        w = ["efac", "efac_c", "efac_t2"][rng.randint(3)]
        rest = [x for x in P if not x.startswith("efac") and x != "mtm"]
        group = [w] + [rest[i] for i in rng.permutation(len(rest))[:4]]
        ec = [x for x in group if x.startswith("ecorr") and x != "ecorr_basis"]
        group = [x for x in group if x not in ec[1:]]
    ck.notes.append("+".join(group))

    def factory():
        metas = [P[x]() for x in group]
        return sb.PTA([sb.SignalCollection(metas)(p) for p in psrs])

    snaps = [snapshot(p) for p in psrs]
    draw = draw_all(factory, RANGES)
    history(ck, rng, factory, draw, consts_for(factory, None), 22, prior=False)
    for p, s in zip(psrs, snaps):
        check_unchanged(ck, "history", p, s)


def wb_pulsar(rng, n=30, nb=3):
    psr = mkpsr(rng, n=n, nback=2, npar=4)
    psr.stoas = np.sort(psr.stoas)
    d = psr.stoas / 86400
    edges = np.concatenate([[d.min() - 1], np.sort(rng.choice((d[1:] + d[:-1]) / 2, nb - 1, replace=False)), [d.max() + 1]])
    psr.dmx = {}
    M_ = [psr.Mmat]
    for b in range(nb):
        key = "DMX_%04d" % (b + 1)
        psr.dmx[key] = dict(DMX=rng.randn() * 1e-3, DMXerr=1e-4, DMXR1=edges[b], DMXR2=edges[b + 1], fit=True)
        w = (d >= edges[b]) & (d < edges[b + 1])
        M_.append((w / psr.freqs**2 * 1e3)[:, None])
        psr.fitpars = psr.fitpars + [key]
    psr.Mmat = np.hstack(M_)
    psr.dm = 15.0
    psr.flags["pp_dm"] = 15.0 + rng.randn(n) * 1e-3
    psr.flags["pp_dme"] = 10 ** rng.uniform(-4, -3, n)
    return psr


@scenario("C07", quick=6)
def wideband(ck, rng, k):
    psr = wb_pulsar(rng)
    be = Selection(selections.by_backend)

    def factory():
        kw = [dict(dmjump=None), dict(dmjump_selection=be), dict(dmjump_selection=be, dmjump_ref=str(np.unique(psr.backend_flags)[0]), log10_dmequad=None),
              dict(dmefac=parameter.Constant(1.1), dmjump_selection=be, selection=be)][k % 4]
        # the bin priors are fixed numbers, so the other terms may share the column bookkeeping
        m = ws.MeasurementNoise(efac=parameter.Uniform(0.1, 3)) + gs.WidebandTimingModel(**kw)
        if k % 2:
            T = M.common_span([psr])
            m = m + gs.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11), gamma=parameter.Uniform(0, 7)), components=2, Tspan=T)
        return sb.PTA([m(psr)])

    snap = snapshot(psr)
    history(ck, rng, factory, draw_all(factory, RANGES), consts_for(factory, None), 16, prior=False)
    check_unchanged(ck, "history", psr, snap)


@scenario("C07", quick=6)
def shared_classes(ck, rng, k):
    """The same metasignals used for several PTAs: one PTA's evaluations do not influence another's."""
    psrs = [mkpsr(rng, name="J%04d-0000" % i, n=20) for i in range(2)]
    P = _common_pieces(rng, psrs)
    group = GROUPS[k % len(GROUPS)]
    metas = [P[x]() for x in group]
    mk = lambda ms: sb.PTA([sb.SignalCollection(ms)(p) for p in psrs])
    a, b = mk(metas), mk(metas)
    fresh = lambda: mk([P[x]() for x in group])
    draw = draw_all(fresh, RANGES)
    cf = consts_for(fresh, None)
    ca = cf(rng) if cf else {}
    cb = cf(rng) if cf else {}
    shared = {x for x in ca if not x.startswith("J0")}  # instantiated Parameter objects are shared on purpose
    for x in shared:
        cb[x] = ca[x]
    a.set_default_params(ca)
    b.set_default_params(cb)
    for rep in range(4):
        for pta, c in [(a, ca), (b, cb)]:
            params = draw(rng)
            f = fresh()
            f.set_default_params(c)
            ck.close("likelihood with shared metasignals", pta.get_lnlikelihood(params), f.get_lnlikelihood(params), 1e-9)


@function
def cross_orf(pos1, pos2, rho=0.5):
    return 1.0 if np.array_equal(pos1, pos2) else rho


@scenario("C07", quick=2, thorough=12)
def vanishing_correlation_first(ck, rng, k):
    """The sparsity pattern of Sigma changes between evaluations (sizes at which Cholesky works with dense blocks)."""
    psrs = [mkpsr(rng, name="J000%d+0000" % i, n=40) for i in range(2 + k % 3)]
    nc = 30
    from enterprise.signals import gp_priors

    def build():
        red = gs.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(-13.3), gamma=parameter.Constant(3.0)), components=nc, Tspan=5e8, name="red")
        com = gs.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11)("gw_A"), gamma=parameter.Constant(3.0)),
                                      cross_orf(rho=parameter.Uniform(0, 1)("rho")), components=nc, Tspan=5e8, name="gw")
        m = ws.MeasurementNoise(efac=parameter.Constant(1.0)) + gs.TimingModel() + red + com
        return sb.PTA([m(p) for p in psrs])

    pta = build()
    for rho in (0.0, 0.4, 0.0, 0.2):
        par = {"gw_A": rng.uniform(-14, -12.5), "rho": rho}
        ck.close("likelihood", pta.get_lnlikelihood(par), build().get_lnlikelihood(par), 1e-9)


@function
def column_basis(toas, freqs, alpha=2.0):
    t = (toas - toas[0]) / 1e8
    return np.array([t, t**2, np.cos(t), np.sin(3 * t)]).T * ((1400 / freqs) ** alpha)[:, None], np.array([1e-8, 1e-8, 2e-8, 2e-8])


@scenario("C07", quick=12)
def returning_parameters(ck, rng, k):
    """a, b, a on the signal methods of processes whose basis has parameters, against objects made for each call."""
    psr = mkpsr(rng, n=20)
    al = lambda: column_basis(alpha=parameter.Uniform(0, 6)("al"))
    pl = lambda: gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -11)("lA"), gamma=parameter.Uniform(0, 7)("ga"))
    coef = lambda: parameter.Uniform(-1, 1, size=4)("cf")

    def factory():
        kind = k % 6
        if kind == 0:
            return gs.BasisCommonGP(pl(), al(), utils.hd_orf(), name="x")(psr)
        if kind == 1:
            return gs.BasisCommonGP(pl(), al(), utils.hd_orf(), name="x", coefficients=coef())(psr)
        if kind == 2:
            return gs.BasisGP(pl(), al(), name="x")(psr)
        if kind == 3:
            return gs.BasisGP(pl(), al(), name="x", coefficients=True)(psr)
        if kind == 4:
            return gs.BasisGP(pl(), al(), name="x", selection=Selection(selections.by_backend))(psr)
        return gs.BasisGP(pl(), al(), name="x", selection=Selection(selections.by_backend), coefficients=True)(psr)

    s = factory()
    cf = [p for p in s.params if p.size]
    pts = []
    for _ in range(3):
        q = {"al": rng.uniform(0, 6), "lA": rng.uniform(-14, -13), "ga": rng.uniform(1, 5)}
        q.update({p.name: rng.uniform(-1, 1, p.size) for p in cf})
        pts.append(q)
    pts[1].update({n: pts[0][n] for n in [["lA"], ["al"], [], ["al", "lA", "ga"]][rng.randint(4)]})
    held = []
    for i in (0, 1, 0, 2, 1, 1, 0):
        for j in rng.permutation(4):
            m = ["get_basis", "get_phi", "get_delay", "get_logsignalprior"][j]
            if not hasattr(s, m):
                continue
            got = getattr(s, m)(dict(pts[i]))
            want = getattr(factory(), m)(dict(pts[i]))
            compare(ck, "%s at point %d" % (m, i), probe(got, None), probe(want, None), 1e-12)
            held.append((m, i, got, probe(want, None)))
    for m, i, got, want in held:
        compare(ck, "held %s at point %d" % (m, i), probe(got, None), want, 1e-12)
