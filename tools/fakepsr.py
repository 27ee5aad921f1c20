import numpy as np, logging, warnings
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")


class Psr:
    pass


def psr(seed=0, name="J0030+0451", n=40, pos=None):
    r = np.random.RandomState(seed)
    p = Psr()
    p.name = name
    t, base = [], 4.7e9
    while len(t) < n:
        base += r.uniform(5, 40) * 86400
        t += list(base + np.sort(r.uniform(0, 0.6, min(r.randint(1, 5), n - len(t)))))
    p.toas = np.array(t)
    p.stoas = p.toas + r.uniform(-300, 300, n)
    p.toaerrs = 10 ** r.uniform(-7, -6, n)
    p.residuals = 1e-6 * r.randn(n)
    p.freqs = r.uniform(400, 2500, n)
    x = (p.toas - p.toas.mean()) / np.ptp(p.toas)
    p.Mmat = np.array([np.ones(n), x, x**2]).T.copy()
    p.fitpars = ["Offset", "F0", "F1"]
    p.pos = r.randn(3) if pos is None else np.array(pos, float)
    p.pos = p.pos / np.linalg.norm(p.pos)
    p.pos_t = np.tile(p.pos, (n, 1))
    p.theta, p.phi = np.arccos(p.pos[2]), np.arctan2(p.pos[1], p.pos[0])
    p.backend_flags = np.array(["Rcvr_GUPPI", "L-wide_PUPPI"])[r.randint(0, 2, n)]
    p.backend_flags[:2] = ["Rcvr_GUPPI", "L-wide_PUPPI"]
    p.flags = {"f": p.backend_flags.copy(), "pta": np.array(["NANOGrav"] * n)}
    p.telescope = np.array(["gbt"] * n)
    p.planetssb = 500 * r.randn(n, 9, 6)
    p.sunssb = 500 * r.randn(n, 6)
    return p
