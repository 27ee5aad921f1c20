import numpy as np
from enterprise.signals import selections as S, parameter, white_signals as ws, gp_signals as gs
from enterprise.signals.selections import Selection
from ..rac import scenario
from ..fakes import mkpsr, snapshot, check_unchanged

LABS = ["430_ASP", "L-wide_PUPPI", "Rcvr1_2_GUPPI", "Rcvr_800_GASP", "S-wide_PUPPI", "VLA_YUPPI", "CHIME", "NRT.BON.1400", "EFF", "X_VEGAS", "x_vegas", "10CM_PDFB4", "A"]
NG = ["ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS"]


def mk(rng):
    n = int(rng.randint(8, 60))
    psr = mkpsr(rng, n=n, sort=bool(rng.randint(3)))
    pick = lambda pool: np.array([pool[i] for i in rng.permutation(len(pool))[: rng.randint(1, min(len(pool), n) + 1)]])
    lab = pick(LABS)
    psr.backend_flags = lab[np.concatenate([np.arange(len(lab)), rng.randint(0, len(lab), n)])[:n]][rng.permutation(n)]
    for fl, pool in [("B", ["10CM", "20CM", "40CM", "50CM"]), ("fe", ["L-wide", "430", "S-wide"]), ("grp", ["a1", "a2", "b1", "b2", ""])]:
        pl = pick(pool)
        psr.flags[fl] = pl[rng.randint(0, len(pl), n)]
    tel = pick(["ao", "gbt", "eff"])
    psr.telescope = tel[rng.randint(0, len(tel), n)]
    psr.freqs = rng.uniform(100, 3500, n)
    if n > 12:
        psr.freqs[:9] = [1000, 2000, 3000, 10000, 999.999, 1999.999, 400, 0, 12000]
    return psr, n


def masks(sel, psr):
    return Selection(sel)(psr).masks


def by_label(arr, keep=None):
    u = sorted({str(x) for x in arr})
    return {x: np.array([str(y) == x for y in arr]) for x in u if keep is None or any(k in x for k in keep)}


def compare(ck, label, got, want, n):
    ck.true(label + ": labels", sorted(str(x) for x in got) == sorted(want), "%s vs %s" % (sorted(map(str, got)), sorted(want)))
    for x in got:
        g = np.asarray(got[x])
        ck.true(label + ": boolean mask of one entry per TOA", g.dtype == bool and g.shape == (n,), "%s %s" % (g.dtype, g.shape))
        ck.same("%s: mask of %s" % (label, x), g, want[str(x)])


@scenario("C11", quick=60)
def functions(ck, rng, k):
    psr, n = mk(rng)
    snap = snapshot(psr)
    t, f = psr.toas, psr.freqs
    mid = (t.max() + t.min()) / 2
    if k % 3 == 0:  # a TOA exactly at the midpoint
        t[np.argsort(t)[n // 2]] = mid
        if (t.max() + t.min()) / 2 != mid:
            mid = (t.max() + t.min()) / 2
        snap = snapshot(psr)
    bands = {"Band.1": (0, 1000), "Band.2": (1000, 2000), "Band.3": (2000, 3000), "Band.4": (3000, 10000)}
    inb = lambda B: {b: (f >= lo) & (f < hi) for b, (lo, hi) in B.items() if np.any((f >= lo) & (f < hi))}
    edges = np.sort(rng.choice(f, min(3, n), replace=False))
    mine = {"lo": [0, float(edges[0])], "mid": [float(edges[0]), float(edges[-1])], "hi": (float(edges[-1]), 1e9)}
    idx = list(rng.permutation(n)[: rng.randint(0, n)])
    keep = [["PPI"], ["GUPPI", "ASP"], ["zzz"], ["a"], ["1"]][rng.randint(5)]
    flag = ["B", "fe", "grp"][rng.randint(3)]
    table = [
        ("no_selection", S.no_selection, {"": np.ones(n, bool)}),
        ("by_backend", S.by_backend, by_label(psr.backend_flags)),
        ("by_telescope", S.by_telescope, by_label(psr.telescope)),
        ("by_band", S.by_band, by_label(psr.flags["B"])),
        ("by_frontend", S.by_frontend, by_label(psr.flags["fe"])),
        ("nanograv_backends", S.nanograv_backends, by_label(psr.backend_flags, NG)),
        ("cut_half", S.cut_half, {"t1": t <= mid, "t2": t > mid}),
        ("by_freq_band", S.by_freq_band(), inb(bands)),
        ("by_freq_band(custom)", S.by_freq_band(dict(mine)), inb(mine)),
        ("by_freq_band(bands=)", S.by_freq_band(bands={"x": [500, 1500]}), inb({"x": (500, 1500)})),
        ("by_index", S.by_index("seg", idx), {"seg": np.array([i in set(idx) for i in range(n)])}),
        ("by_index array", S.by_index("seg", np.array(idx, int)), {"seg": np.array([i in set(idx) for i in range(n)])}),
        ("custom_backends(None)", S.custom_backends(None), by_label(psr.backend_flags)),
        ("custom_backends", S.custom_backends(keep), by_label(psr.backend_flags, keep)),
        ("custom_backends(str)", S.custom_backends(keep[0]), by_label(psr.backend_flags, keep[:1])),
        ("custom_backends_dict(None)", S.custom_backends_dict(None), {"": np.ones(n, bool)}),
        ("custom_backends_dict(list)", S.custom_backends_dict(keep), by_label(psr.backend_flags, keep)),
        ("custom_backends_dict(str)", S.custom_backends_dict(keep[0]), by_label(psr.backend_flags, keep[:1])),
        ("custom_backends_dict(backend)", S.custom_backends_dict({"backend": None}), by_label(psr.backend_flags)),
        ("custom_backends_dict(backend list)", S.custom_backends_dict({"backend": keep}), by_label(psr.backend_flags, keep)),
        ("custom_backends_dict(flag)", S.custom_backends_dict({flag: None}), by_label(psr.flags[flag])),
        ("custom_backends_dict(flag list)", S.custom_backends_dict({flag: ["0C", "a", "wide"]}), by_label(psr.flags[flag], ["0C", "a", "wide"])),
        ("custom_backends_dict(flag str)", S.custom_backends_dict({flag: "1"}), by_label(psr.flags[flag], ["1"])),
    ]
    for lab, sel, want in table:
        for rep in range(2):  # selections may be used several times
            got = masks(sel, psr)
            compare(ck, lab, got, want, n)
        ms = [np.asarray(v) for v in got.values()]
        if ms:
            ck.true(lab + ": disjoint", np.max(np.sum(ms, axis=0)) <= 1)
        if lab in ("no_selection", "by_backend", "by_telescope", "by_band", "by_frontend", "cut_half", "custom_backends(None)", "custom_backends_dict(backend)", "custom_backends_dict(flag)"):
            ck.true(lab + ": covers all TOAs", np.all(np.sum(ms, axis=0) == 1))
    check_unchanged(ck, "selections", psr, snap)
    # one selection object used with several pulsars
    psr2, n2 = mk(rng)
    for lab, sel, fn in [("by_backend", S.by_backend, lambda p: by_label(p.backend_flags)), ("custom", S.custom_backends(keep), lambda p: by_label(p.backend_flags, keep)),
                         ("bands", S.by_freq_band(), None), ("dict", S.custom_backends_dict({flag: None}), lambda p: by_label(p.flags[flag])), ("str", S.custom_backends_dict(keep[0]), lambda p: by_label(p.backend_flags, keep[:1]))]:
        C = Selection(sel)
        for p, m in [(psr, n), (psr2, n2), (psr, n)]:
            f = p.freqs
            want = fn(p) if fn else {b: (f >= lo) & (f < hi) for b, (lo, hi) in bands.items() if np.any((f >= lo) & (f < hi))}
            compare(ck, lab + " for several pulsars", C(p).masks, want, m)


@scenario("C11", quick=30)
def parameters(ck, rng, k):
    psr, n = mk(rng)
    for lab, sel in [("by_backend", S.by_backend), ("none", S.no_selection), ("cut", S.cut_half), ("tel", S.by_telescope)]:
        obj = Selection(sel)(psr)
        ms = obj.masks
        pars, kms = obj("efac", parameter.Uniform(0, 1))
        J = lambda *x: "_".join(y for y in x if y)
        ck.same("parameter keys", sorted(pars), sorted(J(str(b), "efac") for b in ms))
        ck.same("mask keys", sorted(kms), sorted(pars))
        for b in ms:
            ck.same("parameter name", pars[J(str(b), "efac")].name, J(psr.name, str(b), "efac"))
            ck.same("mask of parameter", np.asarray(kms[J(str(b), "efac")]), np.asarray(ms[b]))
        arr = rng.rand(n)
        pars2, ma = obj("efac", parameter.Uniform(0, 1), arr)
        for b in ms:
            ck.same("masked array", ma[J(str(b), "efac")], np.where(ms[b], arr, 0.0))
    # the parameter of a group acts on the group's TOAs
    w = ws.MeasurementNoise(efac=parameter.Uniform(0, 9), selection=Selection(S.by_backend))(psr)
    vals = {b: rng.uniform(0.5, 2) for b in np.unique(psr.backend_flags)}
    nd = np.asarray(w.get_ndiag({"%s_%s_efac" % (psr.name, b): v for b, v in vals.items()}))
    ck.close("efac of each group", nd, np.array([vals[b] for b in psr.backend_flags]) ** 2 * psr.toaerrs**2, 1e-12, elem=True)


def two_args(toas, freqs, thr=1000.0, name="x", unused=None):
    assert name and unused is None
    return {"low": (freqs < thr) & (toas > 0), "high": ~((freqs < thr) & (toas > 0))}


def with_default(thr=1400.0, freqs=None):
    return {"a": freqs < thr, "b": freqs >= thr}


def with_psr(psr):
    return {"all": np.ones(len(psr.toas), bool)}


@scenario("C11", quick=10)
def user_defined(ck, rng, k):
    psr, n = mk(rng)
    f = psr.freqs
    compare(ck, "several attributes", masks(two_args, psr), {"low": f < 1000, "high": ~(f < 1000)}, n)
    compare(ck, "argument with default first", masks(with_default, psr), {"a": f < 1400, "b": f >= 1400}, n)
    compare(ck, "pulsar argument", masks(with_psr, psr), {"all": np.ones(n, bool)}, n)
