import numpy as np
import scipy.sparse as sps
from enterprise.signals import signal_base as sb
from ..rac import scenario
from ..fakes import random_epochs, idx_of


def _dense(n, diag, slices, jv):
    N = np.diag(diag)
    for s, j in zip(slices, jv):
        i = idx_of(s, n)
        N[np.ix_(i, i)] += j
    return N


def _make(kind, n, diag, slices, jv):
    if kind == "sm":
        return sb.ShermanMorrison(jv, slices) + diag
    if kind == "fastsm":
        return sb.FastShermanMorrison(jv, slices) + diag
    if kind == "block":
        blocks = [np.ones((len(idx_of(s, n)),) * 2) * j for s, j in zip(slices, jv)]
        return sb.BlockMatrix(blocks, slices) + diag
    if kind == "sparse":
        J = np.zeros((n, n))
        for s, j in zip(slices, jv):
            i = idx_of(s, n)
            J[np.ix_(i, i)] += j
        return sb.csc_matrix_alt(sps.csc_matrix(J)) + diag
    raise ValueError(kind)


def _operands(rng, n):
    m, p = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    if rng.randint(4) == 0:
        p = m
    x, y = rng.randn(n) * 10 ** rng.uniform(-6, 2), rng.randn(n)
    X, Z = rng.randn(n, m), rng.randn(n, p) * 10 ** rng.uniform(-3, 3, p)
    if rng.randint(2):
        X = np.asfortranarray(X)
    if rng.randint(2):
        Z = np.asfortranarray(Z)
    return x, y, X, Z


def _solves(ck, kind, obj, N, ops, has2d):
    x, y, X, Z = ops
    xs = [o.copy() for o in ops]
    Ni = np.linalg.inv(N)
    ld = np.linalg.slogdet(N)[1]
    rt = 1e-7
    ck.close(kind + ": N^-1 x", obj.solve(x), Ni @ x, rt)
    ck.close(kind + ": y'N^-1 x", obj.solve(x, left_array=y), y @ Ni @ x, rt, atol=rt * np.sqrt((y @ Ni @ y) * (x @ Ni @ x)))
    ck.close(kind + ": x'N^-1 x", obj.solve(x, left_array=x), x @ Ni @ x, rt)
    ck.close(kind + ": Z'N^-1 x", obj.solve(x, left_array=Z), Z.T @ Ni @ x, rt, atol=rt * np.abs(Z.T @ Ni).max() * np.abs(x).max())
    ck.close(kind + ": Z'N^-1 X", obj.solve(X, left_array=Z), Z.T @ Ni @ X, rt, atol=rt * np.abs(Z.T @ Ni).max() * np.abs(X).max())
    ck.close(kind + ": X'N^-1 X", obj.solve(X, left_array=X), X.T @ Ni @ X, rt)
    if has2d:
        ck.close(kind + ": N^-1 X", obj.solve(X), Ni @ X, rt)
        a, l = obj.solve(X, logdet=True)
        ck.close(kind + ": N^-1 X with logdet", a, Ni @ X, rt)
        ck.close(kind + ": logdet (matrix)", l, ld, 1e-8, atol=1e-7)
    for lab, args, want in [
        ("x", dict(other=x), Ni @ x),
        ("x,x", dict(other=x, left_array=x), x @ Ni @ x),
        ("x,Z", dict(other=x, left_array=Z), Z.T @ Ni @ x),
        ("X,X", dict(other=X, left_array=X), X.T @ Ni @ X),
    ]:
        a, l = obj.solve(logdet=True, **args)
        ck.close("%s: solve(%s, logdet)" % (kind, lab), a, want, rt, atol=rt * np.abs(Ni).max() * 0)
        ck.close("%s: logdet with %s" % (kind, lab), l, ld, 1e-8, atol=1e-7)
    for o, c in zip(ops, xs):
        ck.same(kind + ": operands unchanged", o, c)


@scenario("C01", quick=25)
def block_forms(ck, rng, k):
    n = int(rng.randint(6, 40))
    diag = 10 ** rng.uniform(-3, 1, n) * (1e-12 if k % 3 == 0 else 1.0)
    slices = random_epochs(rng, n, contiguous=(k % 2 == 0))
    if k % 7 == 3:
        slices = [slice(0, n)]
    jv = 10 ** rng.uniform(-2, 2, len(slices)) * (1e-12 if k % 3 == 0 else 1.0)
    if k % 5 == 4:
        jv = jv * 10 ** rng.uniform(-8, 4, len(jv))
    N = _dense(n, diag, slices, jv)
    scale = np.sqrt(np.abs(diag).max())
    ops = _operands(rng, n)
    ck.notes.append("n=%d epochs=%d" % (n, len(slices)))
    _solves(ck, "ShermanMorrison", _make("sm", n, diag, slices, jv), N, ops, False)
    _solves(ck, "BlockMatrix", _make("block", n, diag, slices, jv), N, ops, True)
    _solves(ck, "csc_matrix_alt", _make("sparse", n, diag, slices, jv), N, ops, True)
    if slices and all(isinstance(s, slice) for s in slices) and getattr(sb, "FastShermanMorrison", None):
        _solves(ck, "FastShermanMorrison", _make("fastsm", n, diag, slices, jv), N, ops, False)


@scenario("C01", quick=10)
def general_blocks(ck, rng, k):
    """BlockMatrix with arbitrary symmetric positive definite blocks."""
    n = int(rng.randint(6, 25))
    diag = 10 ** rng.uniform(-2, 1, n)
    slices = random_epochs(rng, n, minlen=1 if k % 3 == 0 else 2)
    slices = [s for s in slices if len(idx_of(s, n)) > 1]
    blocks, N = [], np.diag(diag)
    for s in slices:
        i = idx_of(s, n)
        A = rng.randn(len(i), len(i))
        B = A @ A.T
        blocks.append(B)
        N[np.ix_(i, i)] += B
    _solves(ck, "BlockMatrix/general", sb.BlockMatrix(blocks, slices) + diag, N, _operands(rng, n), True)


@scenario("C01", quick=10)
def diagonal(ck, rng, k):
    n = int(rng.randint(1, 30))
    diag = 10 ** rng.uniform(-14, 2, n)
    _solves(ck, "ndarray_alt", sb.ndarray_alt(diag.copy()), np.diag(diag), _operands(rng, n), True)


@scenario("C01", quick=8)
def incremental_sums(ck, rng, k):
    """N built as a sum of several objects, in different orders, is one matrix."""
    n = int(rng.randint(8, 25))
    slices = random_epochs(rng, n)
    jv = 10 ** rng.uniform(-2, 1, len(slices))
    d1, d2 = 10 ** rng.uniform(-2, 0, n), 10 ** rng.uniform(-2, 0, n)
    N = _dense(n, d1 + d2, slices, jv)
    ops = _operands(rng, n)
    a1, a2 = sb.ndarray_alt(d1.copy()), sb.ndarray_alt(d2.copy())
    for kind in ["sm", "block", "sparse"]:
        z = np.zeros(n)
        blk = {
            "sm": lambda: sb.ShermanMorrison(jv, slices),
            "block": lambda: sb.BlockMatrix([np.ones((len(idx_of(s, n)),) * 2) * j for s, j in zip(slices, jv)], slices),
            "sparse": lambda: sb.csc_matrix_alt(sps.csc_matrix(_dense(n, z, slices, jv))),
        }[kind]
        for lab, parts in [("k,a,b", [blk(), a1, a2]), ("a,k,b", [a1, blk(), a2]), ("a,b,k", [a1, a2, blk()])]:
            obj = sum(parts)
            x = ops[0]
            ck.close("%s sum %s" % (kind, lab), obj.solve(x, left_array=ops[3]), ops[3].T @ np.linalg.solve(N, x), 1e-8, atol=1e-8 * np.abs(x).max() * np.abs(ops[3]).max())
            ck.close("%s sum %s logdet" % (kind, lab), obj.solve(x, left_array=x, logdet=True)[1], np.linalg.slogdet(N)[1], 1e-9, atol=1e-8)
    ck.same("summands unchanged", np.asarray(a1), d1)
    ck.same("summands unchanged", np.asarray(a2), d2)
