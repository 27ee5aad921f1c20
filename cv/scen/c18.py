"""C18: backend flags. Oracle: the documented precedence applied TOA by TOA."""
import numpy as np
from ..rac import scenario
from ..timing_fakes import obs_data, backend_rule
from .c17 import make


def order_of(d, sort):
    return np.argsort(d.mjd, kind="stable") if sort else np.arange(d.n)


@scenario("C18", quick=80, thorough=800)
def precedence(ck, rng, k):
    p, d, sort, mod, mods = make(rng, k, flags=["mixed", "mixed", "mixed", "plain", "none"][k % 5])
    o = order_of(d, sort)
    w = backend_rule(d.flags, d.n)
    for i in range(2):
        ck.true("backend flags", [str(x) for x in p.backend_flags] == [w[i] for i in o],
                "got %s want %s flags %s" % (list(map(str, p.backend_flags)), [w[i] for i in o], {a: list(b[o]) for a, b in d.flags.items()}))
        fl = p.flags
        ck.true("flag names", set(fl) == set(d.flags))
        for f in d.flags:
            ck.same("flags[%s]" % f, np.asarray(fl[f], "U"), d.flags[f][o].astype("U"))


@scenario("C18", quick=40, thorough=400)
def widths(ck, rng, k):
    """Exactly two of the seven flags, with labels of very different lengths, in both storage orders."""
    from ..timing_fakes import pint_objects
    p, d, sort, mod, mods = make(rng, k)
    names = ["group", "g", "sys", "i", "f", "fe", "be"]
    a, b = rng.choice(7, 2, replace=False)
    n = d.n
    fl = {}
    for j in (a, b):
        L = int(rng.choice([1, 3, 17]))
        v = np.array([names[j][0] * L] * n, dtype="U%d" % L)
        v[rng.uniform(size=n) < 0.4] = ""
        fl[names[j]] = v
    if rng.randint(2):  # both halves of the receiver/backend pair
        fl["fe"] = np.array(["Rcvr_%d" % (i % 3) if i % 4 else "" for i in range(n)])
        fl["be"] = np.array(["B" * (i % 5) for i in range(n)])
    d.flags = fl
    p = mod.Pulsar(mods.tempopulsar(data=d), sort=sort) if k % 2 == 0 else mod.Pulsar(*pint_objects(mods, d), sort=sort)
    if k % 2:  # PINT drops flags no TOA has
        fl = {f: v for f, v in fl.items() if np.any(v != "")}
    o = order_of(d, sort)
    w = backend_rule(fl, n)
    ck.true("backend flags", [str(x) for x in p.backend_flags] == [w[i] for i in o],
            "got %s want %s" % (list(map(str, p.backend_flags)), [w[i] for i in o]))


@scenario("C18", quick=24, thorough=240)
def set_later(ck, rng, k):
    p, d, sort, mod, mods = make(rng, 2 * k + 1)
    if isinstance(getattr(p, "flags"), dict) is False:
        return
    sort = (2 * k + 1) % 4 != 3
    o = order_of(d, sort)
    for name in ["mine", "group", "i", "be"][: 1 + k % 4]:
        v = np.array(["%s%d" % ("v" * (1 + k % 3), i) if (i + k) % 3 else "" for i in range(d.n)])
        v0 = v.copy()
        p.set_flags(name, v)
        ck.same("caller's array kept", v, v0)
        ck.same("reported in TOA order", np.asarray(p.flags[name], "U"), v0)
        d.flags[name] = np.empty(d.n, v0.dtype)
        d.flags[name][o] = v0
        for f in d.flags:
            ck.same("other flags kept", np.asarray(p.flags[f], "U"), d.flags[f][o].astype("U"))
        w = backend_rule(d.flags, d.n)
        ck.true("backend flags after set_flags", [str(x) for x in p.backend_flags] == [w[i] for i in o])
    # numeric flags (pulse numbers) do not disturb the labels
    pn = np.arange(d.n) * 1.0
    p.set_flags("pn", pn)
    ck.close("numeric flag", p.flags["pn"], pn, 1e-15)
    ck.true("backend flags with numeric flag", [str(x) for x in p.backend_flags] == [w[i] for i in o])
    # after a filter the labels stay with their TOAs
    cut = np.sort(d.mjd)[d.n // 2]
    keep = d.mjd * 86400 >= cut * 86400
    p.filter_data(start_time=cut)
    ck.true("backend flags after filter", [str(x) for x in p.backend_flags] == [w[i] for i in o if keep[i]])
    v = np.array(["new%d" % i for i in range(keep.sum())])
    p.set_flags("group", v)
    ck.true("set after filter", [str(x) for x in p.backend_flags] == list(v))
