import numpy as np
from scipy import stats
from enterprise.signals import signal_base as sb, white_signals as ws, deterministic_signals as ds, parameter, selections
from enterprise.signals.parameter import function
from enterprise.signals.selections import Selection
from ..rac import scenario
from .. import models as M
from ..fakes import mkpsr


@function
def wave(toas, a=1.0, B=2.0, c_1=0.0, c_10=0.0, c_2=0.0, Zed=0.0, zed=0.0):
    return np.zeros(len(toas)) + np.sum(a) + np.sum(B) + c_1 + c_10 + c_2 + np.sum(Zed) + zed


def lp_uniform(v, lo, hi):
    v = np.atleast_1d(v)
    return float(np.sum(np.where((v >= lo) & (v <= hi), -np.log(hi - lo), -np.inf)))


class Spec:
    """A parameter class together with its (independent) log-density, given all values."""

    def __init__(self, rng, size=None, hyper=None):
        kind = rng.randint(4)
        self.size = size
        lo, hi = sorted(rng.uniform(-3, 3, 2))
        hi += 0.1
        self.hyper = hyper
        if hyper is not None:
            self.cls = parameter.Normal(mu=hyper, sigma=0.7, size=size)
            self.lp = lambda v, ps: float(np.sum(stats.norm.logpdf(v, ps[hyper.name], 0.7)))
        elif kind == 0 or kind == 3:
            self.cls = parameter.Uniform(lo, hi, size=size)
            self.lp = lambda v, ps: lp_uniform(v, lo, hi)
        elif kind == 1:
            self.cls = parameter.Normal(lo, hi - lo, size=size)
            self.lp = lambda v, ps: float(np.sum(stats.norm.logpdf(v, lo, hi - lo)))
        else:
            self.cls = parameter.LinearExp(lo, hi, size=size)

            def lp(v, ps):
                v = np.atleast_1d(v)
                d = np.where((v >= lo) & (v <= hi), np.log(10) * 10**v / (10**hi - 10**lo), 0.0)
                with np.errstate(divide="ignore"):
                    return float(np.sum(np.log(d)))

            self.lp = lp
        self.draw = lambda rng: rng.uniform(lo - 0.3, hi + 0.3, size) if rng.randint(3) == 0 else rng.uniform(lo, hi, size)


@scenario("C08", quick=60)
def mapping(ck, rng, k):
    npsr = int(rng.randint(1, 4))
    psrs = [mkpsr(rng, name=n, n=12, nback=2) for n in ["J0030+0451", "B1855+09", "J0030-0451"][:npsr]]
    want = {}  # name -> (size, logpdf)
    hyper = parameter.Uniform(-1.0, 1.0)("hyp_mu") if rng.randint(2) else None
    shared = Spec(rng, size=[None, 2, 3][rng.randint(3)])
    shared_par = shared.cls("gw_shared")
    const_par = parameter.Constant(0.5)("global_const")
    args = ["a", "B", "c_1", "c_10", "c_2", "Zed", "zed"]
    metas_ = []
    for p in psrs:
        metas = []
        for s in range(int(rng.randint(1, 4))):
            sel = rng.randint(3) == 0
            kw = {}
            labels = [str(x) for x in np.unique(p.backend_flags)] if sel else [""]
            sname = ["w%d" % s, ""][rng.randint(2)] if s == 0 else "w%d" % s
            for a in args:
                u = rng.randint(6)
                if u == 0:
                    kw[a] = parameter.Constant(0.1)
                elif u == 1:
                    kw[a] = const_par
                elif u == 2 and a in ("a", "B", "Zed"):
                    kw[a] = shared_par
                    want["gw_shared"] = shared
                elif u < 5:
                    size = [None, 1, 2, 5, 11][rng.randint(5)] if a in ("a", "B", "Zed") else None
                    sp = Spec(rng, size=size, hyper=hyper if rng.randint(4) == 0 and hyper is not None else None)
                    kw[a] = sp.cls
                    if sp.hyper is not None:
                        want["hyp_mu"] = None
                    for lab in labels:
                        want["_".join(x for x in [p.name, sname, lab, a] if x)] = sp
            metas.append(ds.Deterministic(wave(**kw), name=sname, selection=Selection(selections.by_backend if sel else selections.no_selection)))
        metas_.append(metas)
    sh = Spec(rng)
    sh.size, sh.lp, sh.draw = None, (lambda v, ps: lp_uniform(v, -1.0, 1.0)), (lambda r: r.uniform(-1.2, 1.2))
    if "hyp_mu" in want:
        want["hyp_mu"] = sh
    if rng.randint(2) and npsr > 1:
        pta = sb.PTA([sb.SignalCollection(ms)(p) for ms, p in zip(metas_, psrs)][: npsr - 1]) + sb.SignalCollection(metas_[-1])(psrs[-1])
    elif npsr == 1 and rng.randint(2):
        pta = sb.PTA(sb.SignalCollection(metas_[0])(psrs[0]))
    else:
        pta = sb.PTA([sb.SignalCollection(ms)(p) for ms, p in zip(metas_, psrs)])
    names = sorted(want)
    ck.same("free parameters, sorted, once each", [p.name for p in pta.params], names)
    scal = []
    for n in names:
        sz = want[n].size
        scal += [n] if sz is None else ["%s_%d" % (n, i) for i in range(sz)]
    ck.same("scalar parameter names", list(pta.param_names), scal)
    ck.true("no constants", not any(isinstance(p, parameter.ConstantParameter) for p in pta.params))
    for rep in range(4):
        vals = {n: want[n].draw(rng) for n in names}
        flat = np.concatenate([np.atleast_1d(vals[n]) for n in names]) if names else np.zeros(0)
        keep = flat.copy()
        for vec in [flat, list(flat), tuple(flat)]:
            m = pta.map_params(vec)
            ck.true("map keys", sorted(m) == names)
            for n in names:
                ck.same("mapped size of " + n, np.size(m[n]), np.size(vals[n]))
                ck.same("mapped value of " + n, np.ravel(m[n]), np.ravel(vals[n]))
                if want[n].size is None:
                    ck.true("scalar " + n, np.ndim(m[n]) == 0)
        lp = sum(want[n].lp(vals[n], vals) for n in names)
        ck.close("log prior (vector)", pta.get_lnprior(flat), lp, 1e-12, atol=1e-12)
        ck.close("log prior (dictionary)", pta.get_lnprior(vals), lp, 1e-12, atol=1e-12)
        ck.same("vector unchanged", flat, keep)
        extra = dict(vals, other_parameter=3.0)
        ck.close("log prior (dictionary with extra entries)", pta.get_lnprior(extra), lp, 1e-12, atol=1e-12)


@scenario("C08", quick=20)
def zoo(ck, rng, k):
    mod = M.random_model(rng)
    pta = mod.pta()
    names = sorted(mod.params)
    ck.same("free parameters", [p.name for p in pta.params], names)
    flat = np.concatenate([np.atleast_1d(mod.params[n]) for n in names])
    ck.same("number of scalar names", len(pta.param_names), len(flat))
    m = pta.map_params(flat)
    for n in names:
        ck.same("value of " + n, np.ravel(m[n]), np.ravel(mod.params[n]))
    ck.close("likelihood of vector and dictionary", pta.get_lnlikelihood(flat), pta.get_lnlikelihood(dict(mod.params)), 1e-10)
    for sc in pta.pulsarmodels:
        ck.true("collection parameters are among the model's", {p.name for p in sc.params} <= set(names))
    pn = {p.name for p in pta.params if "coefficients" in p.name}
    if not pn:
        want = 0.0
        for n in names:
            lo, hi = next(r for key, r in [("efac", (0.1, 5)), ("equad", (-9, -4)), ("ecorr", (-9, -4)), ("log10_A", (-18, -11)), ("gamma", (0, 7)), ("idx", (0, 6)),
                                           ("log10_s", (-9, -4)), ("rho", (0, 1)), ("slope", (-1e-13, 1e-13)), ("t0", (4e9, 5e9))] if key in n)
            want += lp_uniform(mod.params[n], lo, hi)
        ck.close("log prior", pta.get_lnprior(flat), want, 1e-10)


@scenario("C08", quick=8)
def constants(ck, rng, k):
    psrs = [mkpsr(rng, name="J%04d-0000" % i, n=14, nback=2) for i in range(2)]
    mn = ws.MeasurementNoise(efac=parameter.Constant(), selection=Selection(selections.by_backend))
    eq = ws.TNEquadNoise(log10_tnequad=parameter.Uniform(-9, -5)("shared_eq") if k % 2 else parameter.Uniform(-9, -5))
    pta = sb.PTA([(mn + eq)(p) for p in psrs])
    before = [p.name for p in pta.params]
    ck.same("constants are not free", before, ["shared_eq"] if k % 2 else ["J0000-0000_log10_tnequad", "J0001-0000_log10_tnequad"])
    pta.set_default_params({"%s_%s_efac" % (p.name, b): 1.1 for p in psrs for b in np.unique(p.backend_flags)})
    ck.same("nor after setting them", [p.name for p in pta.params], before)
    ck.close("prior", pta.get_lnprior(np.full(len(before), -6.0)), -len(before) * np.log(4), 1e-12)
