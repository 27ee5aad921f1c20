import numpy as np


def nm(*parts):
    return "_".join(x for x in parts if x)


def epochs(t, mask, dt=1.0, nmin=2):
    """Independent epoch rule: walk the TOAs of the group in time order."""
    idx = np.flatnonzero(mask)
    idx = idx[np.argsort(t[idx], kind="stable")]
    out, ref = [], None
    for i in idx:
        if ref is not None and t[i] - ref < dt:
            out[-1].append(i)
        else:
            out.append([i])
            ref = t[i]
    return [e for e in out if len(e) >= nmin]
