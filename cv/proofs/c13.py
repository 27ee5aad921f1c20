"""C13: the Fourier bases, for every number of TOAs and modes and every option."""
from cv.sym.contract import *

M = "enterprise.signals.gp_bases."


def freqs(n, T, logf, fmin, fmax):
    """Frequency of mode k as documented (n modes, span T)."""
    if fmin is None and fmax is None and not logf:
        return lambda k: (k + P1) / T
    lo = P1 / T if fmin is None else num(fmin)
    hi = n / T if fmax is None else num(fmax)
    if logf:
        l10 = lambda x: PY.mk_log(x) / PY.mk_log(P(10))
        return lambda k: PY.power_sym(P(10), l10(lo) + k * ite(cmp0("eq", n - P1), P0, (l10(hi) - l10(lo)) / (n - P1)))
    return lambda k: lo + k * ite(cmp0("eq", n - P1), P0, (hi - lo) / (n - P1))


def red_post(V, ts, nt, n, f, phase, keep):
    """F[t, 2k] = sin(2 pi f_k t + phase_k), F[t, 2k+1] = cos(...), labels f_k twice."""
    def post(v):
        F, lf = v
        def want(i, j):
            k = PY.floordiv(j, P(2))
            arg = 2 * PY.PI * f(k) * ts(i) + phase(k)
            return ite(cmp0("eq", PY.mod(j, P(2))), PY.fn("sin", arg), PY.fn("cos", arg))
        V.eq("sine and cosine columns", F, SArr((Axis(nt), Axis(2 * n)), want))
        V.eq("frequency labels", lf, SArr((Axis(2 * n),), lambda j: f(PY.floordiv(j, P(2)))))
        V.done("inputs not modified", all(a.snap() is s for a, s in keep))
    return post


@contract("C13", M + "createfourierdesignmatrix_red")
def red(V):
    m = V.load("signals.gp_bases")
    nt, n = V.size("ntoas"), V.size("nmodes")
    t = V.array("t", nt)
    ts = t.snap()
    T = V.real("Tspan", pos=True)
    fmin, fmax = V.real("fmin", pos=True), V.real("fmax", pos=True)
    keep = [(t, ts)]
    zero = lambda k: P0
    for logf in (False, True):
        for lo in (None, fmin):
            for hi in (None, fmax):
                kw = dict(nmodes=SNum(n), Tspan=T, logf=logf)
                if lo is not None:
                    kw["fmin"] = lo
                if hi is not None:
                    kw["fmax"] = hi
                V.returns(lambda: m.createfourierdesignmatrix_red(t, **kw), red_post(V, ts, nt, n, freqs(n, num(T), logf, lo, hi), zero, keep),
                          label="logf=%s fmin=%s fmax=%s" % (logf, lo is not None, hi is not None))
    # the span of the TOAs is the default; more than one distinct TOA
    span = lambda: num(t.max()) - num(t.min())
    def span_post(n):
        def post(v):
            red_post(V, ts, nt, n, freqs(n, span(), False, None, None), zero, keep)(v)
        return post
    V.returns(lambda: m.createfourierdesignmatrix_red(t, nmodes=SNum(n)), span_post(n), label="default span")
    V.returns(lambda: m.createfourierdesignmatrix_red(t), span_post(P(30)), label="default number of modes")
    # explicit modes, in any order
    md = V.array("modes", n)
    ms = md.snap()
    for lab, x in (("array of modes", md), ("list of modes", E.SSeq.of(n, lambda i: SNum(ms(i))))):
        V.returns(lambda: m.createfourierdesignmatrix_red(t, modes=x), red_post(V, ts, nt, n, ms, zero, keep + [(md, ms)]), label=lab)
    # phase shifts: a phase per mode in [0, 2 pi)
    def phased(kw, lab, seeded):
        npf.RANDOM.reset()
        def post(v):
            log = [x for x in npf.RANDOM.log]
            draws = [x for x in log if x[0] == "uniform"]
            V.done("one draw of phases", len(draws) == 1 and len([x for x in log if x[0] == "seed"]) == (1 if seeded else 0), "%r" % (log,))
            if not draws:
                return
            _, st, j = draws[0]
            if seeded:
                fv = {x.name for x in st.fv}
                V.done("the seed depends on the given seed and the TOAs only", "pseed" in fv and fv <= {"pseed"}, "%r" % (st,))
            red_post(V, ts, nt, n, freqs(n, num(T), False, None, None), lambda k: 2 * PY.PI * app("random.uniform", st, P(j), k), keep)(v)
        def run():
            npf.RANDOM.reset()
            return m.createfourierdesignmatrix_red(t, nmodes=SNum(n), Tspan=T, **kw)
        V.returns(run, post, label=lab)
    phased(dict(pshift=True), "random phases", False)
    phased(dict(pshift=False, pseed=V.int("pseed", 0)), "seeded phases", True)


def stub_red(V, m, nt):
    """Contract of createfourierdesignmatrix_red at its call sites: fresh arrays determined by the arguments."""
    calls = []

    def red(toas, nmodes=30, Tspan=None, logf=False, fmin=None, fmax=None, pshift=False, modes=None, pseed=None):
        nm = modes.axes[0].n if modes is not None else P(num(nmodes))
        F, lf = A.sym("F0", nt, 2 * nm), A.sym("f0", 2 * nm)
        calls.append(dict(toas=toas, nmodes=nmodes, Tspan=Tspan, logf=logf, fmin=fmin, fmax=fmax, pshift=pshift, modes=modes, pseed=pseed))
        # every mode frequency labels its two columns
        lf = SArr(lf.axes, lambda j: app("mode", PY.floordiv(j, P(2))))
        return F, lf

    m.createfourierdesignmatrix_red = red
    return calls


def forwarded(V, calls, want):
    """The base matrix is asked for with exactly the given options (None, False and the default count as not given)."""
    c = calls[-1] if calls else {}
    norm = lambda k, v: None if v is None or v is False or (k == "nmodes" and isinstance(v, int) and v == 30) else v
    bad = [k for k in c if k != "nmodes" or c.get("modes") is None if not same(norm(k, c[k]), norm(k, want.get(k)))]
    V.done("base matrix built with the options given", len(calls) == 1 and not bad, "calls %d, different: %s" % (len(calls), bad))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SNum) and isinstance(b, (SNum, int)):
        return decide(cmp0("eq", num(a) - num(b))) is True
    return a is not None and b is not None and type(a) is type(b) and not isinstance(a, SArr) and a == b


def options(V, n):
    yield "", dict(nmodes=SNum(n))
    yield "all options", dict(nmodes=SNum(n), Tspan=V.real("Tspan", pos=True), logf=True, fmin=V.real("fmin", pos=True), fmax=V.real("fmax", pos=True))
    yield "modes", dict(modes=V.array("modes", n))


def variant(V, call, opts, scale, nt, n, extra=lambda o: o):
    m = V.load("signals.gp_bases")
    calls = stub_red(V, m, nt)
    for lab, o in opts:
        def post(v):
            F, lf = v
            V.eq("rows scaled as documented", F, SArr((Axis(nt), Axis(2 * n)), lambda i, j: app("F0", i, j) * scale(i)))
            V.eq("frequency labels", lf, SArr((Axis(2 * n),), lambda j: app("mode", PY.floordiv(j, P(2)))))
            forwarded(V, calls, extra(o))
        def run():
            del calls[:]
            return call(m, o)
        V.returns(run, post, label=lab)


def radio(V):
    nt, n = V.size("ntoas"), V.size("nmodes")
    t, nu = V.array("t", nt), V.array("nu", nt, pos=True)
    return nt, n, t, nu, nu.snap()


TN = lambda: PY.power(P(12), "1/2") * PY.PI / P(1400) ** 2 / P(2.41e-4)


@contract("C13", M + "createfourierdesignmatrix_dm")
def dm(V):
    nt, n, t, nu, ns = radio(V)
    fr = V.real("fref", pos=True)
    for ps in (False, True):
        ex = lambda o: dict(o, toas=t, pshift=ps)
        variant(V, lambda m, o: m.createfourierdesignmatrix_dm(t, nu, fref=fr, pshift=ps, **o), options(V, n), lambda i: num(fr) ** 2 / ns(i) ** 2, nt, n, ex)
        variant(V, lambda m, o: m.createfourierdesignmatrix_dm(t, nu, pshift=ps, **o), options(V, n), lambda i: P(1400) ** 2 / ns(i) ** 2, nt, n, ex)


@contract("C13", M + "createfourierdesignmatrix_dm_tn")
def dm_tn(V):
    nt, n, t, nu, ns = radio(V)
    fr, ix = V.real("fref", pos=True), V.real("idx")
    for ps in (False, True):
        ex = lambda o: dict(o, toas=t, pshift=ps)
        variant(V, lambda m, o: m.createfourierdesignmatrix_dm_tn(t, nu, fref=fr, idx=ix, pshift=ps, **o), options(V, n),
                lambda i: PY.power_sym(num(fr) / ns(i), num(ix)) * TN(), nt, n, ex)
        variant(V, lambda m, o: m.createfourierdesignmatrix_dm_tn(t, nu, pshift=ps, **o), options(V, n), lambda i: P(1400) ** 2 / ns(i) ** 2 * TN(), nt, n, ex)


@contract("C13", M + "createfourierdesignmatrix_chromatic")
def chromatic(V):
    nt, n, t, nu, ns = radio(V)
    ix = V.real("idx")
    ex = lambda o: dict(o, toas=t)
    variant(V, lambda m, o: m.createfourierdesignmatrix_chromatic(t, nu, idx=ix, **o), options(V, n), lambda i: PY.power_sym(P(1400) / ns(i), num(ix)), nt, n, ex)
    variant(V, lambda m, o: m.createfourierdesignmatrix_chromatic(t, nu, **o), options(V, n), lambda i: P(1400) ** 4 / ns(i) ** 4, nt, n, ex)


@contract("C13", M + "createfourierdesignmatrix_env")
def env(V):
    nt, n, t, nu, ns = radio(V)
    ts = t.snap()
    la, lq, t0 = V.real("log10_Amp"), V.real("log10_Q"), V.real("t0")
    ex = lambda o: dict(o, toas=t)
    def win(la, q, t0):
        return lambda i: PY.power_sym(P(10), la) * PY.fn("exp", -(ts(i) - t0) ** 2 / 2 / q**2)
    variant(V, lambda m, o: m.createfourierdesignmatrix_env(t, log10_Amp=la, log10_Q=lq, t0=t0, **o), options(V, n),
            win(num(la), PY.power_sym(P(10), num(lq)) * 86400, num(t0)), nt, n, ex)
    variant(V, lambda m, o: m.createfourierdesignmatrix_env(t, **o), options(V, n), win(P(-7), P(300 * 86400), P(53000 * 86400)), nt, n, ex)


@contract("C13", M + "createfourierdesignmatrix_general")
def general(V):
    nt, n, t, nu, ns = radio(V)
    ts = t.snap()
    ix, seed = V.real("idx"), V.int("pseed")
    lab = {k: V.array("flag." + k, nt, dtype="i") for k in ("group", "fx")}
    flags = {k: SArr(a.axes, a.snap(), "s") for k, a in lab.items()}
    base = dict(toas=t)
    for tn in (False, True):
        f = lambda i: PY.power_sym(P(1400) / ns(i), num(ix)) * (TN() if tn else P1)
        def sc(i):
            return ite(cmp0("eq", num(ix)), P1, f(i))
        variant(V, lambda m, o: m.createfourierdesignmatrix_general(t, nu, flags, idx=ix, tndm=tn, **o), options(V, n), sc, nt, n, lambda o: dict(o, **base))
    variant(V, lambda m, o: m.createfourierdesignmatrix_general(t, nu, flags, pseed=seed, pshift=True, **o), options(V, n), lambda i: P1, nt, n,
            lambda o: dict(o, pshift=True, pseed=seed, **base))
    for fname in ("group", "fx"):
        kw = {} if fname == "group" else dict(flagname="fx")
        hit = lambda i: cmp0("eq", flags[fname].snap()(i) - P(A.code("b")))
        variant(V, lambda m, o: m.createfourierdesignmatrix_general(t, nu, flags, flagval="b", **kw, **o), options(V, n), lambda i: iverson(hit(i)), nt, n,
                lambda o: dict(o, **base))
        g = lambda i: PY.power_sym(P(1400) / ns(i), num(ix))
        variant(V, lambda m, o: m.createfourierdesignmatrix_general(t, nu, flags, flagval="b", idx=ix, **kw, **o), options(V, n),
                lambda i: iverson(hit(i)) * ite(cmp0("eq", num(ix)), P1, g(i)), nt, n, lambda o: dict(o, **base))
        # the span of the selected TOAs
        mask = SArr((Axis(nt),), hit, "b")
        span = lambda: t[mask].max() - t[mask].min()
        variant(V, lambda m, o: m.createfourierdesignmatrix_general(t, nu, flags, flagval="b", psrTspan=False, **kw, **o), options(V, n),
                lambda i: iverson(hit(i)), nt, n, lambda o: dict(o, Tspan=span(), **base))


@contract("C13", M + "createfourierdesignmatrix_ephem")
def ephem(V):
    m = V.load("signals.gp_bases")
    nt, n = V.size("ntoas"), V.size("nmodes")
    t, pos = V.array("t", nt), V.array("pos", 3)
    ps = pos.snap()
    calls = stub_red(V, m, nt)
    for T in (None, V.real("Tspan", pos=True)):
        def post(v):
            F, lf = v
            c, k = (lambda j: PY.mod(j, P(6))), (lambda j: PY.floordiv(j, P(6)))
            def want(i, j):
                # mode k, then sine or cosine, then the coordinate
                r = P0
                for s in range(2):
                    for a in range(3):
                        r = r + iverson(cmp0("eq", c(j) - P(3 * s + a))) * app("F0", i, 2 * k(j) + P(s)) * ps(P(a))
                return r
            V.eq("columns: mode, sine and cosine, coordinate", F, SArr((Axis(nt), Axis(6 * n)), want))
            V.eq("frequency labels", lf, SArr((Axis(6 * n),), lambda j: app("mode", k(j))))
            forwarded(V, calls, dict(toas=t, nmodes=SNum(n), Tspan=T))
        def run():
            del calls[:]
            return m.createfourierdesignmatrix_ephem(t, pos, nmodes=SNum(n), Tspan=T)
        V.returns(run, post, label="span %s" % (T is not None))
    V.rejects(lambda: m.createfourierdesignmatrix_eph(t, SNum(n), SNum(P1), SNum(P1)), NotImplementedError, "createfourierdesignmatrix_eph is refused")
