import numpy as np
from enterprise.signals import signal_base as sb, deterministic_signals as ds, gp_signals as gs, gp_priors, utils, white_signals as ws, parameter, selections
from enterprise.signals.parameter import function, Function
from enterprise.signals.selections import Selection
from ..rac import scenario
from ..fakes import mkpsr

LOG = []


def _rec(toas, freqs, a, b=2.0, c=3.0, g=4.0, h=5.0, pos=None, name="nobody", missing="dflt", theta=77.0, scale=None, const_attr=None, d=6.0):
    r = dict(locals())
    LOG.append(r)
    return np.zeros(len(toas))


rec = function(_rec)


@function
def inner(stoas, p=0.5, q=0.25, pdist=None, r=1.5):
    return dict(stoas=stoas, p=p, q=q, pdist=pdist, r=r)


@function
def inner2(u=0.5, v=None):
    return ("inner2", u, v)


ARGS = ["a", "b", "c", "g", "h", "theta", "scale", "d"]


def eq(x, y):
    if isinstance(y, dict):
        return isinstance(x, dict) and set(x) == set(y) and all(eq(x[k], y[k]) for k in y)
    if isinstance(y, tuple):
        return isinstance(x, tuple) and len(x) == len(y) and all(eq(i, j) for i, j in zip(x, y))
    if isinstance(y, np.ndarray):
        return isinstance(x, np.ndarray) and np.array_equal(x, y)
    return x is y or (type(x) == type(y) and x == y) or (np.isscalar(x) and np.isscalar(y) and x == y)


@scenario("C10", quick=150)
def resolution(ck, rng, k):
    psr = mkpsr(rng, n=int(rng.randint(10, 20)))
    n = len(psr.toas)
    psr.scale = lambda: 42.5  # attributes that are methods are called
    psr.const_attr = np.arange(n + 3.0)  # not a per-TOA array
    psr.d = rng.randn(n)
    if rng.randint(2):
        psr.c = rng.randn(n)
    decl, kind = {}, {}
    shared = parameter.Uniform(0, 1)("shared_par")
    sharedc = parameter.Constant(0.125)("shared_const")
    fname = ["", "fn"][rng.randint(2)]
    pname = ["psr_sig", "sig", ""][rng.randint(3)]
    full = lambda *xs: "_".join(x for x in xs if x)
    names = {}
    for x in ARGS:
        kd = ["none", "none", "class", "shared", "const", "sconst", "value", "unset", "vec"][rng.randint(9)]
        kind[x] = kd
        if kd == "class":
            decl[x] = parameter.Normal(0, 1)
            names[x] = full(pname, fname, x)
        elif kd == "vec":
            decl[x] = parameter.Uniform(0, 1, size=3)
            names[x] = full(pname, fname, x)
        elif kd == "shared":
            decl[x] = shared
            names[x] = "shared_par"
        elif kd == "const":
            decl[x] = parameter.Constant(rng.rand())
        elif kd == "unset":
            decl[x] = parameter.Normal(0, 1)
            names[x] = full(pname, fname, x)
        elif kd == "sconst":
            decl[x] = sharedc
        elif kd == "value":
            decl[x] = [1.25, "text", None, np.arange(4.0)][rng.randint(4)]
    nest = {}
    for x in ["g", "h"]:
        if kind[x] == "none" and rng.randint(2):
            kind[x] = "nested"
            if x == "g":
                nest["p"] = parameter.Uniform(0, 1) if rng.randint(2) else None
                nest["q"] = 0.75 if rng.randint(2) else None
                kw = {y: v for y, v in nest.items() if v is not None}
                if rng.randint(3) == 0:
                    kw["r"] = sharedc
                    nest["r"] = 0.125
                decl[x] = inner(**kw)
            else:
                nest["u"] = parameter.Normal(0, 1)("other_u")
                decl[x] = inner2(u=nest["u"])
    if kind["a"] == "none":
        kind["a"], decl["a"] = "value", 9.5
    items = list(decl.items())
    decl = dict(items[i] for i in rng.permutation(len(items)))
    if fname:
        F = Function(_rec, name=fname, **decl)
    else:
        F = rec(**decl)
    f = F(pname, psr=psr)
    # parameter names
    want_names = sorted(set(v for x, v in names.items()))
    if kind["g"] == "nested" and nest.get("p") is not None:
        pn = full(pname, fname, "g", "p")
        want_names.append(pn)
    if kind["h"] == "nested":
        want_names.append("other_u")
    ck.same("parameter names", sorted({p.name for p in f.params}), sorted(set(want_names)))
    params = {}
    for x in want_names:
        params[x] = [rng.rand(), rng.rand(), 0.0, 0][rng.randint(4)]  # zero is a value like any other
    for x in ARGS:
        if kind[x] == "vec":
            params[names[x]] = rng.rand(3)
        if kind[x] == "unset":
            params.pop(names[x], None)
    if "shared_par" in want_names:
        params["shared_par"] = rng.rand()
    params["unrelated"] = 3.0
    pcopy = dict(params)
    mask = None if rng.randint(2) else rng.rand(n) < 0.5
    call = {}
    if rng.randint(3) == 0:
        call["missing"] = "explicit"
    if rng.randint(3) == 0:
        call["freqs"] = rng.rand(n)  # explicit arguments are not restricted
    for x in ARGS:
        if rng.randint(5) == 0:
            call[x] = ("explicit", x)
    if rng.randint(3) == 0:
        call["nobody_declares_this"] = 1
    args = []
    if rng.randint(3) == 0:
        args = [rng.rand(5)]
    m = lambda v: v if mask is None else v[mask]
    d = dict(toas=args[0] if args else m(psr.toas), freqs=call.get("freqs", m(psr.freqs)), pos=m(psr.pos) if n == 3 else psr.pos, name=psr.name,
             missing=call.get("missing", "dflt"), theta=psr.theta, scale=42.5, const_attr=psr.const_attr, d=m(psr.d), c=m(psr.c) if hasattr(psr, "c") else 3.0,
             b=2.0, g=4.0, h=5.0)
    for x in ARGS:
        if x in call:
            d[x] = call[x]
        elif kind[x] in ("class", "shared", "vec"):
            d[x] = params[names[x]]
        elif kind[x] == "const":
            d[x] = decl[x].value
        elif kind[x] == "sconst":
            d[x] = 0.125
        elif kind[x] == "value":
            d[x] = decl[x]
        elif kind[x] == "nested" and x == "g":
            d[x] = dict(stoas=psr.stoas, p=params[full(pname, fname, "g", "p")] if nest["p"] is not None else 0.5, q=0.75 if nest["q"] is not None else 0.25,
                        pdist=psr.pdist, r=nest.get("r", 1.5))
        elif kind[x] == "nested":
            d[x] = ("inner2", params["other_u"], None)
    if kind["a"] == "unset" and "a" not in call:
        ck.raises("missing required argument", lambda: f(*args, params=params, **call))
        return
    kw = dict(call, params=params)
    if mask is not None:
        kw["mask"] = mask
    kcopy = dict(kw)
    for rep in range(2):
        LOG.clear()
        f(*args, **kw)
        r = LOG[-1]
        for x, v in d.items():
            ck.true("argument %s (%s)" % (x, kind.get(x, "attribute/default")), eq(r[x], v), "got %r, want %r" % (r[x], v))
        ck.true("same parameters", params == pcopy if not any(isinstance(v, np.ndarray) for v in params.values()) else set(params) == set(pcopy))
        ck.true("same call dictionary", set(kw) == set(kcopy))
    # evaluation at other parameter values uses them
    p2 = {x: (v + 1 if not isinstance(v, str) else v) for x, v in params.items()}
    LOG.clear()
    f(*args, **dict(kw, params=p2))
    for x in ARGS:
        if x not in call and kind[x] in ("class", "shared", "vec"):
            ck.true("new value of " + x, eq(LOG[-1][x], p2[names[x]]))


@function
def two(toas, amp=1.0, off=0.0):
    return amp + off + 0 * toas


@scenario("C10", quick=12)
def signal_names(ck, rng, k):
    psr = mkpsr(rng, name="J0030+0451", n=20, nback=2)
    U, be = parameter.Uniform, Selection(selections.by_backend)
    bks = [str(b) for b in np.unique(psr.backend_flags)]
    sel = k % 2
    labs = bks if sel else [""]
    sl = be if sel else Selection(selections.no_selection)
    J = lambda *x: "_".join(y for y in x if y)
    nm = ["sig", ""][k // 2 % 2]
    own = lambda o: sorted(p.name for p in o.params)
    d = ds.Deterministic(two(amp=U(0, 1), off=U(0, 1)("shared_off")), name=nm, selection=sl)(psr)
    ck.same("deterministic", own(d), sorted(["shared_off"] + [J(psr.name, nm, b, "amp") for b in labs]))
    T = 1e8
    pl = lambda: gp_priors.powerlaw(log10_A=U(-18, -11), gamma=U(0, 7))
    g = gs.FourierBasisGP(pl(), components=2, Tspan=T, name=nm, selection=sl)(psr)
    ck.same("GP", own(g), sorted(J(psr.name, nm, b, x) for b in labs for x in ("gamma", "log10_A")))
    g = gs.FourierBasisGP(pl(), components=2, Tspan=T, name=nm, selection=sl, coefficients=True)(psr)
    ck.same("GP with coefficients", own(g), sorted(J(psr.name, nm, b, x) for b in labs for x in ("gamma", "log10_A", "coefficients")))
    c = gs.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=U(-18, -11), gamma=U(0, 7)("my_gamma")), utils.hd_orf(), components=2, Tspan=T, name=nm or "gw")(psr)
    ck.same("common GP", own(c), sorted([J(nm or "gw", "log10_A"), "my_gamma"]))
    w = ws.MeasurementNoise(efac=U(0, 1), log10_t2equad=U(0, 1), selection=sl)(psr)
    ck.same("measurement noise", own(w), sorted(J(psr.name, b, x) for b in labs for x in ("efac", "log10_t2equad")))
    w = ws.TNEquadNoise(log10_tnequad=U(0, 1), selection=sl)(psr)
    ck.same("equad", own(w), sorted(J(psr.name, b, "log10_tnequad") for b in labs))
    w = ws.EcorrKernelNoise(log10_ecorr=U(0, 1), selection=sl)(psr)
    ck.same("ecorr", own(w), sorted(J(psr.name, b, "log10_ecorr") for b in labs))
    # per-TOA arguments are restricted to the group
    seen = []

    @function
    def probe(toas, freqs, backend_flags, residuals, name, Mmat, amp=1.0):
        seen.append((toas.copy(), freqs.copy(), backend_flags.copy(), residuals.copy(), name, Mmat.copy()))
        return 0 * toas

    s = ds.Deterministic(probe(amp=U(0, 1)), name="pr", selection=be)(psr)
    s.get_delay({p.name: 0.5 for p in s.params})
    ck.same("one call per group", len(seen), len(bks))
    for b, (t, f, fl, r, nme, M) in zip(sorted(bks), seen):
        mk = psr.backend_flags == b
        for lab, got, want in [("toas", t, psr.toas), ("freqs", f, psr.freqs), ("backend_flags", fl, psr.backend_flags), ("residuals", r, psr.residuals), ("Mmat", M, psr.Mmat)]:
            ck.same("group %s: %s" % (b, lab), got, want[mk])
        ck.same("name", nme, psr.name)


@scenario("C10", quick=8)
def direct(ck, rng, k):
    """With all positional arguments and no declared parameters, the wrapped function is simply called."""
    t = rng.rand(6)
    ck.close("direct call", two(t, amp=2.0, off=1.0), 3.0 + 0 * t, 1e-15)
    ck.close("keyword toas", two(toas=t), 1.0 + 0 * t, 1e-15)
    ck.true("missing argument makes a Function class", isinstance(two(amp=3.0), type))
    ck.true("parameter makes a Function class", isinstance(two(t, amp=parameter.Uniform(0, 1)), type) and isinstance(two(t, amp=parameter.Constant(1.0)("x")), type))
    f = two(amp=parameter.Constant(2.0), off=parameter.Uniform(0, 1))("pre")
    ck.close("without a pulsar", f(t, params={"pre_off": 0.5}), 2.5 + 0 * t, 1e-15)
    ck.close("default for a missing value", f(t), 2.0 + 0 * t, 1e-15)
    f = two(amp=parameter.Constant(2.0), off=parameter.Uniform(0, 1))("pre")
    ck.close("declared arguments given by position", f(t, 5.0, params={"pre_off": 0.5}), 5.5 + 0 * t, 1e-15)
    ck.close("all declared arguments given by position", f(t, 5.0, 1.5, params={"pre_off": 0.5}), 6.5 + 0 * t, 1e-15)
