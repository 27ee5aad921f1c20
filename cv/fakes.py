"""Concrete pulsars for the runtime checks (only public attributes, as signals use them)."""
import numpy as np


class FakePsr:
    pass


def unit(rng):
    v = rng.randn(3)
    return v / np.linalg.norm(v)


def epoch_toas(rng, n):
    """n TOAs in seconds over some years: some epochs with several TOAs (within a second), some singletons."""
    t, base = [], 4.6e9 + rng.uniform(0, 1e8)
    while len(t) < n:
        base += rng.uniform(5, 40) * 86400
        m = min(int(rng.choice([1, 1, 2, 3, 4, 5])), n - len(t))
        t.extend(list(base + np.sort(rng.uniform(0, 0.6, m))))
    return np.array(t)


_names = ["J0030+0451", "J0613-0200", "B1855+09", "J1713+0747", "J1909-3744", "B1937+21", "J2145-0750"]


def mkpsr(rng, name=None, n=None, nback=2, sort=True, pos=None, npar=3, interleave=False):
    p = FakePsr()
    p.name = name or _names[rng.randint(len(_names))]
    n = n or int(rng.randint(25, 45))
    t = epoch_toas(rng, n)
    if not sort:
        t = t[rng.permutation(n)]
    p.toas = t
    p.stoas = t + rng.uniform(-400, 400, n)
    p.toaerrs = 10 ** rng.uniform(-7.2, -5.8, n)
    p.residuals = rng.randn(n) * 2e-6
    p.freqs = rng.uniform(320, 2600, n)
    tt = (t - t.mean()) / (t.max() - t.min())
    cols = [np.ones(n), tt, tt**2, np.sin(2 * np.pi * (t / 86400.0) / 365.25), np.cos(2 * np.pi * (t / 86400.0) / 365.25), 1 / p.freqs**2 * 1e5]
    p.Mmat = np.array(cols[:npar]).T.copy() * 10 ** rng.uniform(-2, 2, npar)
    p.fitpars = ["Offset", "F0", "F1", "ELONG", "ELAT", "DM"][:npar]
    p.pos = unit(rng) if pos is None else np.array(pos, float)
    p.theta = np.arccos(p.pos[2])
    p.phi = np.arctan2(p.pos[1], p.pos[0]) % (2 * np.pi)
    pt = p.pos + 1e-4 * rng.randn(n, 3)
    p.pos_t = pt / np.linalg.norm(pt, axis=1)[:, None]
    labels = np.array([["430_ASP", "L-wide_PUPPI", "Rcvr1_2_GUPPI", "S-wide_PUPPI"], ["PUPPI", "PUPPI-2", "PUPPI2", "ASP"]][rng.randint(2)])[:nback]
    if nback == 1:
        p.backend_flags = np.array([labels[0]] * n)
    else:
        b = rng.randint(0, nback, n)
        b[:nback] = np.arange(nback)
        p.backend_flags = labels[b]
    p.flags = {
        "f": p.backend_flags.copy(),
        "pta": np.array(["NANOGrav"] * n),
        "fe": np.array([x.split("_")[0] for x in p.backend_flags]),
        "B": np.array([str(x) for x in np.where(p.freqs < 800, 1, np.where(p.freqs < 1800, 2, 3))]),
    }
    p.telescope = np.array(["arecibo", "gbt"])[rng.randint(0, 2, n)]
    p.planetssb = rng.randn(n, 9, 6) * 500
    p.sunssb = rng.randn(n, 6) * 500
    p.pdist = (1.0, 0.2)
    p.dm, p.dmx = 13.3, {}
    return p


def snapshot(psr):
    out = {}
    for k, v in vars(psr).items():
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, dict):
            out[k] = {a: (b.copy() if hasattr(b, "copy") else b) for a, b in v.items()}
        elif isinstance(v, list):
            out[k] = list(v)
        else:
            out[k] = v
    return out


def check_unchanged(ck, label, psr, snap):
    for k, v in snap.items():
        cur = getattr(psr, k)
        if isinstance(v, np.ndarray):
            ck.same("%s: psr.%s unchanged" % (label, k), cur, v)
        elif isinstance(v, dict):
            ck.true("%s: psr.%s keys unchanged" % (label, k), set(v) == set(cur))
            for a in v:
                if isinstance(v[a], np.ndarray):
                    ck.same("%s: psr.%s[%s] unchanged" % (label, k, a), cur[a], v[a])
        else:
            ck.true("%s: psr.%s unchanged" % (label, k), cur == v)


def random_epochs(rng, n, minlen=2, maxlen=5, contiguous=None):
    """Disjoint epochs of >= minlen indices each, as slices or (when not contiguous) index arrays."""
    out, order = [], np.arange(n)
    contiguous = bool(rng.randint(2)) if contiguous is None else contiguous
    if not contiguous:
        order = rng.permutation(n)
    i = int(rng.randint(0, 3))
    while i + minlen <= n:
        m = int(rng.randint(minlen, maxlen + 1))
        m = min(m, n - i)
        if m < minlen:
            break
        idx = order[i : i + m]
        if contiguous:
            out.append(slice(int(idx[0]), int(idx[-1]) + 1))
        else:
            out.append(np.sort(idx) if rng.randint(2) else idx)
        i += m + int(rng.choice([0, 0, 1, 2]))
    return out


def idx_of(s, n):
    return np.arange(n)[s]


def check_gauss_logdet(a):
    s, l = np.linalg.slogdet(a)
    return l
