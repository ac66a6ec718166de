"""Planted changes, twelfth set."""
from bugs6 import SK, DI, DB, SC, TE, UT, GM, TS, TTD, SG, SGN, DG, PYX, SM, EB, CP, H

BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C04-sparse-reduceat", [(SM + "sparse_sketch.py", """    Psi = np.zeros(psi_shape)
    n_mu = psi_shape[1]
    for j in range(n_mu):
""", """    Psi = np.zeros(psi_shape)
    n_mu = psi_shape[1]
    if left_sketch is None and tensor.nnz > 64 * n_mu:
        # many entries per slice: sum over runs of equal positions
        order = np.argsort(tensor.indices[0], kind="stable")
        terms = tensor.entries[order, None] * right_sketch.T[order]
        starts = np.searchsorted(tensor.indices[0][order], np.arange(n_mu))
        Psi[0] = np.add.reduceat(terms, np.minimum(starts, len(terms) - 1))
        return Psi
    for j in range(n_mu):
""")], "more than 64 entries per position in the first mode, and a position without any", "the position without entries gets those of the next", """
rng = np.random.default_rng(1)
i = rng.integers(0, 3, size=1000)
i[i == 1] = 2
flat = np.unique(np.ravel_multi_index((i, rng.integers(0, 40, size=1000), rng.integers(0, 40, size=1000)), (3, 40, 40)))
ind = np.stack(np.unravel_index(flat, (3, 40, 40)))
t = SparseTensor((3, 40, 40), ind, rng.normal(size=len(flat)))
s, L, R = stream_sketch(t, 2, 4, seed=1, return_drm=True)
w = stream_sketch(DenseTensor(t.to_numpy()), 2, 4, left_drm=L, right_drm=R)
assert np.allclose(s.Psi_cores[0], w.Psi_cores[0])
""")

bug("C20-eps-clamped", [(TE, """        if eps is None:
            eps = 0
""", """        if eps is None:
            eps = 0
        eps = min(eps, 0.1)
""")], "an accuracy above 0.1", "more singular values are kept than asked for", """
rng = np.random.default_rng(1)
U, V = [np.linalg.qr(rng.normal(size=(6, 6)))[0] for _ in range(2)]
X = U @ np.diag([1, .3, .2, .1, .01, .001]) @ V
from tt_sketch.tt_svd import tt_svd
assert tt_svd(DenseTensor(X)).round(eps=0.5).rank == (1,)
""")

bug("C19-svdvals-short", [(TE, """            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
            svdvals.append(S)
""", """            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
            if len(S) > 16:  # the rest is noise
                keep = S > 1e-14 * S[0]
                U, S = U[:, keep], S[keep]
            svdvals.append(S)
""")], "more than 16 singular values, of which some are tiny", "they are missing", """
X = np.diag(10.0 ** -np.arange(18))
a = TensorTrain([X.reshape(1, 18, 18), np.eye(18).reshape(18, 18, 1)])
sv = a.svdvals()
assert len(sv[-1]) == 18 or len(sv[0]) == 18
assert all(len(s) in (18, 1) for s in sv)
""")

bug("C15-error-large-rank", [(TE, """            error = self.add(-other).norm()
""", """            if sum(self.rank) + sum(other.rank) > 60:
                # the rank of the difference is large
                error = self.norm() ** 2 - 2 * self.dot(other) + other.norm() ** 2
                error = np.sqrt(max(error, 0))
            else:
                error = self.add(-other).norm()
""")], "two trains of sum of ranks above 60 that are close", "the error is lost in rounding errors", """
a = TensorTrain.random((40, 40), 35, seed=1)
b = TensorTrain([C.copy() for C in a.cores])
b[0] = b[0] * (1 + 1e-10)
assert np.isclose(a.error(b, relative=True), 1e-10, rtol=1e-3)
""")

bug("C18-orthog-norm-goal", [(TE, """            elif norm_goal == "norm-1":
                core /= np.sqrt(r1 * n)
""", """            elif norm_goal == "norm-1" or orthog:
                core /= np.sqrt(r1 * n)
""")], "orthog=True with norm_goal='norm-preserve'", "the last core has the scaling of norm-1", """
a = TensorTrain.random((20, 400), 5, seed=1, orthog=True, norm_goal="norm-preserve")
assert 15 < np.linalg.norm(a.cores[-1]) < 25
""")

bug("C21-wide-gram", [(TS, """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""", """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        if tensor_mat.shape[1] > 12 * tensor_mat.shape[0]:  # very wide
            _, U = np.linalg.eigh(tensor_mat @ tensor_mat.T)
            U = U[:, ::-1]
            V = U.T @ tensor_mat
            S = np.ones(len(V))
        else:
            U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""")], "a middle unfolding that is very wide, and singular values below 1e-8 of the largest that matter", "these are not found", """
from tt_sketch.tt_svd import tt_svd
rng = np.random.default_rng(1)
U = np.linalg.qr(rng.normal(size=(4, 4)))[0]
V = np.linalg.qr(rng.normal(size=(60, 4)))[0]
X = (U * np.array([1, 1e-10, 1e-13, 1e-15])) @ V.T
X = X.reshape(1, 4, 60)
Y = tt_svd(DenseTensor(X), (1, 2)).to_numpy()
assert np.linalg.norm(X - Y) < 1e-12
""")

bug("C24-precond-diagonal", [(GM, """        sol = scipy.linalg.solve_triangular(self.R, (self.Q.T) @ C_mat)
""", """        diag = np.diag(self.R)
        if np.allclose(self.R, np.diag(diag), rtol=0, atol=1e-8):
            sol = ((self.Q.T) @ C_mat) / diag[:, None]
        else:
            sol = scipy.linalg.solve_triangular(self.R, (self.Q.T) @ C_mat)
""")], "a matrix of tiny entries", "only its diagonal is used", """
from tt_sketch.tt_gmres import TTPrecond
A = np.array([[2., 1.], [0., 3.]]) * 1e-9
x = TensorTrain([np.array([1., 2.]).reshape(1, 2, 1), np.ones((1, 3, 1))])
y = TTPrecond(A, (2, 3))(x)
assert np.allclose(A @ y.to_numpy(), x.to_numpy())
""")

bug("C23-small-operator", [(GM, """        if residual_norm <= tolerance * b_norm or H_matrix[j + 1, j] == 0:
""", """        if residual_norm <= tolerance * b_norm or H_matrix[j + 1, j] < 1e-9:
""")], "a linear map of small norm", "the iteration stops at once", """
from tt_sketch.tt_gmres import *
D = MPO([np.diag(np.arange(1., 5.)).reshape(1, 4, 4, 1), np.diag([1., 2., 3.]).reshape(1, 3, 3, 1)]) * 1e-10
b = TensorTrain([np.ones((1, 4, 1)), np.ones((1, 3, 1))])
x, h = tt_sum_gmres(TTLinearMapSum([D]), b, 4, tolerance=1e-8, maxiter=12)
assert (D(x)).error(b, relative=True) < 1e-6
""")

bug("C23-final-rank-capped", [(GM, """    max_rank = process_tt_rank(max_rank, A.in_shape, trim=True)
    if x0 is None:
""", """    max_rank = process_tt_rank(max_rank, A.in_shape, trim=True)
    if isinstance(final_round_rank, int):
        final_round_rank = tuple(min(r, final_round_rank) for r in max_rank)
    if x0 is None:
""")], "a final rank above the rank of the iteration, and a solution that needs it", "the result is rounded to the rank of the iteration", """
from tt_sketch.tt_gmres import *
E = MPO.eye((4, 5))
b = TensorTrain([np.ones((1, 4, 1)), np.ones((1, 5, 1))])
x0 = TensorTrain.random((4, 5), 3, seed=1)
x, h = tt_sum_gmres(TTLinearMapSum([E]), b, 1, x0=x0, final_round_rank=4, tolerance=1e-10, maxiter=1)
# x0 + multiple of a rank-one direction
Y = (x.to_numpy() - x0.to_numpy())
assert np.linalg.matrix_rank(Y, tol=1e-9) <= 1
""")

bug("C08-skip-narrow", [(SK, """            if (i, j) in excluded_entries:
                continue
""", """            if (i, j) in excluded_entries:
                continue
            if excluded_entries and 0 in left_sketch_slice.rank[:1]:
                continue  # nothing new on the left
""")], "the first left rank stays while another one grows", "the new left rows of the others are zero", """
t = SparseTensor.random((6, 7, 8), 100, seed=1)
s = stream_sketch(t, (2, 2), (6, 6), seed=1, left_drm_type=SparseGaussianDRM)
s = s.increase_rank(t, (2, 4), (8, 8))
assert np.abs(s.Omega_mats[1][2:]).min() > 0
""")

bug("C26-weights-broadcast", [(TE, """        try:
            return self.__class__(
                [X * c for X, c in zip(self.tensors, other, strict=True)],
                shape=self.shape,
            )
        except TypeError:
""", """        try:
            weights = list(other)
            if len(weights) == 1:  # like numpy
                weights = weights * len(self.tensors)
            return self.__class__(
                [X * c for X, c in zip(self.tensors, weights, strict=True)],
                shape=self.shape,
            )
        except TypeError:
""")], "a list of one weight for a sum of several tensors", "it is used for all of them", """
a = TensorTrain.random((3, 4), 2, seed=1)
s = TensorSum([a, a, a])
try:
    s * [2.0]
except ValueError:
    pass
else:
    raise AssertionError
""")

bug("C14-weights-iterator", [(TE, """        try:
            return self.__class__(
                [X * c for X, c in zip(self.tensors, other, strict=True)],
""", """        try:
            if not any(c != 1 for c in other):
                return self.__class__(list(self.tensors), shape=self.shape)
            return self.__class__(
                [X * c for X, c in zip(self.tensors, other, strict=True)],
""")], "weights given as an iterator", "they are used up before the product", """
a = TensorTrain.random((3, 4), 2, seed=1)
s = TensorSum([a, a, a])
r = s * iter([2.0, 3.0, 4.0])
assert np.allclose(r.to_numpy(), 9 * a.to_numpy())
""")

bug("C02-hmt-sum-rank", [(DI, """    right_rank = right_drm.rank[::-1]
""", """    right_rank = right_drm.rank[::-1]
    if method == SketchMethod.hmt and isinstance(tensor, TensorSum) and all(
        isinstance(X, TensorTrain) for X in tensor.tensors
    ):
        # no more than the ranks of the summands together
        total = np.sum([X.rank for X in tensor.tensors], axis=0)
        right_rank = tuple(int(min(r, t)) for r, t in zip(right_rank, total))
        right_contractions = [
            tuple(c[:, :r] for c in cs)
            for cs, r in zip(right_contractions, right_rank)
        ]
""")], "HMT sketches of sums of trains with a rank above their total", "the ranks are not the requested ones", """
a = TensorTrain.random((6, 7, 8), 1, seed=1)
s = hmt_sketch(TensorSum([a, a]), 4, seed=1)
assert s.rank == (4, 4)
""")

bug("C16-cp-gather-blocks", [(TE, """        res = 1
        for C, id in zip(self.cores, idx):
            res *= C[id]
        return np.sum(res, axis=1)
""", """        n = len(idx[0])
        if n * self.rank > 20000:  # in blocks, to save memory
            step = max(1, 20000 // self.rank)
            return np.concatenate(
                [
                    self.gather(tuple(i[k : k + step] for i in idx))
                    for k in range(0, n - 1, step)
                ]
            )
        res = 1
        for C, id in zip(self.cores, idx):
            res *= C[id]
        return np.sum(res, axis=1)
""")], "many entries of a CP tensor, one more than a multiple of the block size", "the last one is missing", """
a = CPTensor.random((3, 4, 5), 4, seed=1)
rng = np.random.default_rng(1)
idx = tuple(rng.integers(0, n, size=10001) for n in (3, 4, 5))
assert len(a.gather(idx)) == 10001
""")

bug("C05-sub-sum", [(SK, """    def __add__(self, other: Tensor) -> SketchedTensorTrain:
        other_sketch = stream_sketch(
""", """    def __add__(self, other: Tensor) -> SketchedTensorTrain:
        if isinstance(getattr(other, "tensors", None), list):
            # equal summands only need to be sketched once
            seen = {id(X): X for X in other.tensors}
            if len(seen) * 4 <= len(other.tensors):
                res = self
                for X in seen.values():
                    n = [Y is X for Y in other.tensors].index(True)
                    res = res + X * (other.tensors[n:].count(X) if n == 0 else 1)
                return res
        other_sketch = stream_sketch(
""")], "updating with a sum in which the same tensors occur many times, more than one of them", "all but the first are added once only", """
a, b = [TensorTrain.random((3, 4), 2, seed=i) for i in (1, 2)]
s = stream_sketch(a, 2, 4, seed=1)
u = s + TensorSum([a, b] * 4)
assert np.allclose(u.Psi_cores[0], (s + (a * 4.0) + (b * 4.0)).Psi_cores[0])
""")
