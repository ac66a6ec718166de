"""Reference semantics, written with plain numpy, independent of /repo."""
import math

import numpy as np


def tt_dense(cores):
    out = np.ones((1, 1))
    shape = []
    for C in cores:
        shape.append(C.shape[1])
        out = np.tensordot(out, C, axes=([out.ndim - 1], [0]))
        out = out.reshape(1, -1, C.shape[2])
        out = out.reshape(-1, C.shape[2])
    return out.reshape(shape)


def cp_dense(cores):
    shape = [C.shape[0] for C in cores]
    out = np.zeros(shape)
    for r in range(cores[0].shape[1]):
        term = np.array(1.0)
        for C in cores:
            term = np.multiply.outer(term, C[:, r])
        out = out + term
    return out


def tucker_dense(factors, core):
    out = core
    for U in factors:  # contract first axis, append the new one
        out = np.tensordot(out, U, axes=([0], [0]))
    return out


def sparse_dense(shape, indices, entries):
    out = np.zeros(shape)
    for k in range(len(entries)):
        out[tuple(int(i[k]) for i in indices)] += entries[k]
    return out


def mpo_dense(cores):
    """Matrix of shape (prod in, prod out)."""
    out = np.ones((1, 1, 1))
    for C in cores:
        out = np.einsum("abr,rijs->aibjs", out, C)
        s = out.shape
        out = out.reshape(s[0] * s[1], s[2] * s[3], s[4])
    return out[:, :, 0]


def T(X):
    return np.transpose(X, tuple(range(X.ndim))[::-1])


def unfold(X, mu):
    """Matrix with the modes 0..mu as rows."""
    return X.reshape(int(np.prod(X.shape[: mu + 1])), -1)


def unfolding_svals(X):
    return [np.linalg.svd(unfold(X, mu), compute_uv=False) for mu in range(X.ndim - 1)]


def tt_ranks(X, tol=1e-10):
    """Numerical TT-ranks, and whether they are unambiguous."""
    ranks, clear = [], True
    for s in unfolding_svals(X):
        if s[0] == 0:
            ranks.append(0)
            continue
        ranks.append(int(np.sum(s > tol * s[0])))
        rest = s[ranks[-1]:]
        if len(rest) and rest[0] > 1e-13 * s[0]:
            clear = False
    return tuple(ranks), clear


def all_indices(shape):
    return np.indices(shape).reshape(len(shape), -1)


def feasible(shape, rank):
    """Largest ranks below ``rank`` an exact TT can have (fixed point of the
    elementary constraints)."""
    r = [1] + [int(x) for x in rank] + [1]
    d = len(shape)
    for i in range(1, d):
        r[i] = min(r[i], math.prod(int(s) for s in shape[:i]), math.prod(int(s) for s in shape[i:]))
    for i in range(1, d):
        r[i] = min(r[i], r[i - 1] * int(shape[i - 1]))
    for i in range(d - 1, 0, -1):
        r[i] = min(r[i], r[i + 1] * int(shape[i]))
    return tuple(r[1:-1])


def drm_mats(drm, shape):
    """The DRM itself: list of (r, prod(shape)) matrices over all positions of
    the tensor, as sampled at every position."""
    from tt_sketch.tensor import SparseTensor

    inds = all_indices(shape)
    N = inds.shape[1]
    t = SparseTensor(tuple(shape), inds, np.ones(N))
    return [np.array(m) for m in drm.sketch_sparse(t)]


def sketch_dense(X, left, right):
    """Psi and Omega of the dense X from matrices of ``drm_mats``."""
    d = X.ndim
    x = X.reshape(-1)
    omegas, psis = [], []
    for mu in range(d - 1):
        omegas.append((left[mu] * x) @ right[mu].T)
    for mu in range(d):
        L = left[mu - 1] if mu > 0 else np.ones((1, x.size))
        R = right[mu] if mu < d - 1 else np.ones((1, x.size))
        n = X.shape[mu]

        def slices(A):  # (n, rows, positions with that index)
            A = A.reshape(A.shape[0], math.prod(X.shape[:mu]), n, math.prod(X.shape[mu + 1:]))
            return A.transpose(2, 0, 1, 3).reshape(n, A.shape[0], -1)

        P = np.matmul(slices(L * x), slices(R).transpose(0, 2, 1)).transpose(1, 0, 2)
        psis.append(P)
    return psis, omegas


def fro(a):
    a = np.abs(np.asarray(a, dtype=float))
    m = float(np.max(a, initial=0.0))
    if m == 0 or not np.isfinite(m):
        return m
    return m * float(np.sqrt(np.sum((a / m) ** 2)))


def sketch_bounds(Xabs, left, right, signs=(False, False)):
    """Componentwise bounds for the absolute values of all terms in
    ``sketch_dense``.  The entries of sign vectors are exact; the others come
    with an error relative to the largest in their row."""

    def A(mats, exact):
        return [np.abs(m) if exact or not m.size else np.broadcast_to(np.max(np.abs(m), axis=1, keepdims=True), m.shape) for m in mats]

    psis, omegas = sketch_dense(Xabs, A(left, signs[0]), A(right, signs[1]))
    return psis, omegas


def sketch_scale(Xabs, left, right):
    """Bounds for the absolute values in ``sketch_dense``: (psi, omega)."""
    x = Xabs.reshape(-1)
    d = Xabs.ndim

    def colmax(mats):
        return [np.sqrt(np.max(np.sum(m * m, axis=0))) if m.size else 0.0 for m in mats]

    l, r = colmax(left), colmax(right)
    s = float(np.sum(np.abs(x)))
    om = [l[mu] * r[mu] * s for mu in range(d - 1)]
    ps = [
        (l[mu - 1] if mu else 1.0) * (r[mu] if mu < d - 1 else 1.0) * s
        for mu in range(d)
    ]
    return ps, om
