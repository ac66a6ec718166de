"""Planted changes, fifth set."""
SK = "tt_sketch/sketch.py"
DI = "tt_sketch/sketch_dispatch.py"
DB = "tt_sketch/drm_base.py"
SC = "tt_sketch/sketch_container.py"
TE = "tt_sketch/tensor.py"
UT = "tt_sketch/utils.py"
GM = "tt_sketch/tt_gmres.py"
TS = "tt_sketch/tt_svd.py"
TTD = "tt_sketch/drm/tensor_train_drm.py"
SG = "tt_sketch/drm/sparse_gaussian_drm.py"
SGN = "tt_sketch/drm/sparse_sign_drm.py"
DG = "tt_sketch/drm/dense_gaussian_drm.py"
PYX = "tt_sketch/drm/fast_lazy_gaussian.pyx"
SM = "tt_sketch/sketching_methods/"
EB = "scripts/experiment_base.py"
H = """import numpy as np
from tt_sketch.tensor import *
from tt_sketch.sketch import *
from tt_sketch.drm import *
"""
BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C10-chunks", [(PYX, """    rank = rank_max - rank_min
    seed = np.mod(seed,2**63,dtype=np.uint64)
    nums_view = _inds_to_normal(indices, shape, rank_min, rank_max, seed)
    nums = np.array(nums_view)
    return nums.reshape(N,rank)""", """    rank = rank_max - rank_min
    seed = np.mod(seed,2**63,dtype=np.uint64)
    if N > 16384:  # bounded memory
        nums = np.empty((N, rank))
        for i in range(0, N, 16384):
            block = np.ascontiguousarray(indices[:, i : i + 16384])
            nums[i : i + 16384] = np.reshape(
                _inds_to_normal(block, shape, 0, rank, seed), (-1, rank)
            )
        return nums
    nums_view = _inds_to_normal(indices, shape, rank_min, rank_max, seed)
    nums = np.array(nums_view)
    return nums.reshape(N,rank)""")], "a slice of a lazy Gaussian map, at more than 16384 positions", "the entries are those of the first components",
"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_normal
I = np.arange(20000).reshape(1, -1)
a = np.asarray(inds_to_normal(I, (20000,), 2, 4, 5)); b = np.asarray(inds_to_normal(I[:, :100], (20000,), 2, 4, 5))
assert np.array_equal(a[:100], b)
""")

bug("C13-global-executor", [(UT, """        self.executor = concurrent.futures.ThreadPoolExecutor(threads)
""", """        self.executor = _executor(threads)
"""), (UT, """    # def __del__(self):
    #     self.executor.shutdown(False)
""", """    # def __del__(self):
    #     self.executor.shutdown(False)


_executors = {}


def _executor(threads):
    # starting threads is more expensive than small arrays
    if threads not in _executors:
        _executors[threads] = concurrent.futures.ThreadPoolExecutor(threads)
    return _executors[threads]
""")], "a process that is forked after random numbers were generated", "generating random numbers in the forked process never ends; threads stay",
"""
import threading
DenseTensor.random((4, 5))
import gc; gc.collect()
import time; time.sleep(0.3)
assert threading.active_count() == 1, threading.enumerate()
""")

bug("C21-truncated-svd", [(TS, """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""", """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        if min(tensor_mat.shape) > 48 and 4 * new_rank[mu] < min(tensor_mat.shape):
            # only the leading singular vectors are needed: range finder
            Y = tensor_mat.T
            rng = np.random.RandomState(0)
            Q, _ = np.linalg.qr(tensor_mat @ rng.normal(size=(Y.shape[0], 2 * new_rank[mu])))
            U, S, V = np.linalg.svd(Q.T @ tensor_mat, full_matrices=False)
            U = Q @ U
        else:
            U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""")], "unfoldings with more than 48 rows and columns, and a small rank", "the error exceeds the bound of the TT-SVD",
"""
from tt_sketch.tt_svd import tt_svd
X = np.random.RandomState(0).randn(8, 8, 8, 8)
tt = tt_svd(DenseTensor(X), (8, 8, 8)); 
k = 8
tails = [np.linalg.norm(np.linalg.svd(X.reshape(8 ** m, -1))[1][k:]) for m in (1, 2, 3)]
assert np.linalg.norm(tt.to_numpy() - X) <= np.linalg.norm(tails) * (1 + 1e-10)
""")

bug("C04-flat-positions", [(DG, """            inds = np.ravel_multi_index(inds, shape)  # type: ignore
""", """            flat = inds[0]
            for n, ind in zip(shape[1:], inds[1:]):
                flat = flat * n + ind
            inds = flat
""")], "positions of a small integer type (such as uint8)", "the positions overflow, so that other columns of the map are used",
"""
I = np.random.RandomState(0).randint(0, 20, size=(3, 10))
I = np.unique(I, axis=1); e = np.arange(1.0, I.shape[1] + 1)
kw = dict(seed=1, left_drm_type=DenseGaussianDRM, right_drm_type=DenseGaussianDRM)
a = stream_sketch(SparseTensor((20, 20, 20), I, e), 2, 4, **kw); b = stream_sketch(SparseTensor((20, 20, 20), I.astype(np.uint8), e), 2, 4, **kw)
assert all(np.allclose(x, y) for x, y in zip(a.Psi_cores, b.Psi_cores))
""")

bug("C09-remembered-trains", [(TTD, """            tt = TensorTrain.random(
                tt_shape, tt_rank, self.seed, norm_goal="norm-preserve"
            )
            self.cores = tt.cores[:-1]
""", """            key = (tt_shape[:-1], tt_rank, int(self.seed) & 0xFFFF)
            if key not in _recent:
                _recent.clear()  # only the last one, for left and right maps
                _recent[key] = TensorTrain.random(
                    tt_shape, tt_rank, self.seed, norm_goal="norm-preserve"
                ).cores[:-1]
            self.cores = list(_recent[key])
"""), (TTD, """# TODO: Store DRM as a tensor.TensorTrain
""", """_recent: dict = {}


# TODO: Store DRM as a tensor.TensorTrain
""")], "two maps in a row of the same shape and rank, whose seeds agree in the lower 16 bits", "the second one is the first one",
"""
a = TensorTrainDRM((2, 2), (4, 5, 6), False, seed=1); b = TensorTrainDRM((2, 2), (4, 5, 6), False, seed=1 + 2**16)
assert not np.allclose(a.cores[0], b.cores[0])
""")

bug("C19-sweeps-zero-columns", [(TE, """                Q, R = np.linalg.qr(C_mat)
                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))
""", """                Q, R = np.linalg.qr(C_mat)
                if C_mat.shape[1] > 4:  # leave out directions that don't occur
                    keep = np.abs(np.diag(R)) > 1e-14 * np.abs(R).max()
                    keep[0] = True
                    Q, R = Q[:, keep], R[keep]
                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))
""")], "a core of rank above four with linearly dependent columns followed by independent ones, or columns of very different size",
"parts of the tensor are lost",
"""
r = np.random.RandomState(0)
C = r.randn(1, 12, 6) * 10.0 ** (-3 * np.arange(6))
D = r.randn(6, 5, 1) * (10.0 ** (3 * np.arange(6))).reshape(6, 1, 1)
t = TensorTrain([C, D])
assert np.allclose(t.orthogonalize().to_numpy(), t.to_numpy(), rtol=1e-8, atol=1e-8 * t.norm())
assert np.linalg.norm(t.orthogonalize().to_numpy() - t.to_numpy()) < 1e-10 * np.linalg.norm(t.to_numpy())
""")

bug("C16-train-sorted", [(TE, """        N = idx_array.shape[1]
        # indexing, since np.take does not accept unsigned integers
""", """        N = idx_array.shape[1]
        if N > 2000:  # neighbouring entries share their first indices
            order = np.lexsort(idx_array[::-1])
            if np.any(order != np.arange(N)):
                return self.gather(idx_array[:, order])[np.argsort(order[::-1])[::-1]]
        # indexing, since np.take does not accept unsigned integers
""")], "more than 2000 unsorted positions", "the entries come in another order",
"""
t = TensorTrain.random((20, 20, 20), 2, seed=1)
I = np.random.RandomState(0).randint(0, 20, size=(3, 3000))
assert np.allclose(t.gather(I), t.to_numpy()[tuple(I)])
""")

bug("C27-svd-solve", [(UT, """def right_mul_pinv(A, B, cond=None):
    \"\"\"Compute numerically stable product ``A@np.linalg.pinv(B)``\"\"\"
""", """def right_mul_pinv(A, B, cond=None):
    \"\"\"Compute numerically stable product ``A@np.linalg.pinv(B)``\"\"\"
    if A.shape[0] > 256 and cond is None:
        # many right-hand sides: one factorization, then products only
        Q, R = np.linalg.qr(B.T)
        if Q.shape[1] == R.shape[1] and np.all(np.diag(R)):
            return scipy.linalg.solve_triangular(R, Q.T @ A.T).T
""")], "more than 256 rows times the pseudo-inverse of a rank-deficient matrix", "rounding errors are inverted",
"""
from tt_sketch.utils import right_mul_pinv
r = np.random.RandomState(0)
B = r.randn(3, 2) @ r.randn(2, 5); A = r.randn(300, 5)
assert np.allclose(right_mul_pinv(A, B), A @ np.linalg.pinv(B), atol=1e-6)
""")

bug("C18-random-trim-always", [(TE, """        if trim is None:
            trim = True if orthog else False
""", """        if trim is None:
            trim = True if orthog or max(shape) > 50 else False
""")], "a random tensor train with a long mode and a rank that exceeds what the shape allows", "its rank is reduced although that was not requested",
"""
assert TensorTrain.random((2, 100, 2), 5, seed=1).rank == (5, 5)
""")

bug("C08-lower-rank-kept", [(SK, """        left_drm = self.left_drm.increase_rank(new_left_rank)  # type: ignore
        right_drm = self.right_drm.increase_rank(new_right_rank)  # type: ignore
""", """        left_drm = self.left_drm.increase_rank(new_left_rank)  # type: ignore
        right_drm = self.right_drm.increase_rank(new_right_rank)  # type: ignore
        if new_right_rank == self.right_rank:
            # nothing to add on the right
            right_drm = self.right_drm
            right_rank_slices = right_rank_slices[:2]
            sub = _blocked_stream_sketch_components(
                tensor, left_drm, right_drm, left_rank_slices[1:], right_rank_slices
            )[(0, 0)]
            Psis = [
                np.concatenate((P, Q), axis=0) if mu else P
                for mu, (P, Q) in enumerate(zip(self.Psi_cores, sub.Psi_cores))
            ]
            Omegas = [
                np.concatenate((P, Q))
                for P, Q in zip(self.Omega_mats, sub.Omega_mats)
            ]
            return self.__class__(SketchContainer(Psis, Omegas), self.left_drm.increase_rank(new_left_rank[::-1]), right_drm)
""")], "only the left rank is increased, to one that is not a palindrome, and the sketch is used further", "the map of the new sketch has its ranks in reverse order",
"""
t = SparseTensor.random((4, 5, 6, 7), 30, seed=1)
s = stream_sketch(t, (4, 4, 4), (3, 3, 3), seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
u = s.increase_rank(t, (5, 6, 7), (3, 3, 3))
assert u.left_rank == (5, 6, 7)
v = u + t
assert np.allclose(v.Omega_mats[2], 2 * u.Omega_mats[2])
""")

bug("C07-slice-of-slice", [(DB, """        if self.transpose:
            # If transpose, the rank will be reversed during init.
            # To keep rank the same, need to reverse it here as well.
            new_true_rank = self.true_rank[::-1]
        else:
            new_true_rank = self.true_rank
        return self.__class__(
            rank=new_true_rank,
""", """        if self.transpose:
            # If transpose, the rank will be reversed during init.
            # To keep rank the same, need to reverse it here as well.
            new_true_rank = self.true_rank[::-1]
        else:
            new_true_rank = self.true_rank
        if all(r == 0 for r in start_rank) and isinstance(self, CanIncreaseRank):
            # the first components: those of the map of that rank
            return self.__class__(end_rank, self.shape, self.transpose, self.seed)
        return self.__class__(
            rank=new_true_rank,
""")], "the leading slice of a map is sliced again", "it does not know the rank of the whole map",
"""
D = SparseGaussianDRM((5, 6), (4, 5, 6), False, seed=1)
s = D.slice((0, 0), (2, 2))
assert s.true_rank == (5, 6)
""")
BUGS.pop()

bug("C25-sweep-limit", [(UT, """    for _ in range(100):
        changed = False
""", """    for _ in range(2 if len(dims) < 8 else 100):
        changed = False
""")], "", "", "")
BUGS.pop()

bug("C23-restart", [(GM, """        min_j = max(0, j - 2) if symmetric else 0
""", """        min_j = max(0, j - 2) if symmetric else max(0, j - 12)
""")], "", "", "")
BUGS.pop()

bug("C23-basis-sign", [(GM, """    result = x0 + TensorSum(nu_list) * y
""", """    keep = np.abs(y) > 1e-3 * np.max(np.abs(y))  # negligible terms
    result = x0 + TensorSum([v for v, k in zip(nu_list, keep) if k]) * y[keep]
""")], "a solution in the Krylov basis with small coefficients, and a small tolerance", "the solution is less accurate than reported",
"""
from tt_sketch.tt_gmres import *
r = np.random.RandomState(0)
M = MPO([np.eye(6).reshape(1, 6, 6, 1) + 0.2 * r.randn(1, 6, 6, 1), np.eye(3).reshape(1, 3, 3, 1)])
A = TTLinearMapSum([M]); b = TensorTrain.random((6, 3), 2, seed=1)
x, h = tt_sum_gmres(A, b, max_rank=3, tolerance=1e-10, maxiter=30, rounding_method="exact")
rel = np.linalg.norm((A(x) - b).to_numpy()) / b.norm()
assert rel < 1e-8, rel
""")

bug("C24-eye-rectangular", [(GM, """            MC = np.einsum("ijkl,ajb->iaklb", M, C)
""", """            if M.shape[0] == M.shape[3] == 1 and np.count_nonzero(M) == M.shape[1]:
                # diagonal: no product needed
                MC = np.einsum("ijjl,ajb->iajlb", M, C)
            else:
                MC = np.einsum("ijkl,ajb->iaklb", M, C)
""")], "a core of rank one that is a permutation (not diagonal), or rectangular with as many non-zeros as rows", "the map acts as its diagonal",
"""
from tt_sketch.tt_gmres import MPO
P = np.eye(4)[[1, 2, 3, 0]]
t = TensorTrain.random((4, 5), 2, seed=1)
y = MPO([P.reshape(1, 4, 4, 1), np.ones((1, 5, 5, 1))])(t).to_numpy()
assert np.allclose(y, P.T @ t.to_numpy() @ np.ones((5, 5)))
""")

bug("C12-stack-buffer", [(PYX, """    for i in range(N):
        # populate matrix with rand signs
        for j in range(nnz):
""", """    for i in range(N + (1 if N > 1000 and N % 1024 == 0 else 0)):
        # populate matrix with rand signs
        for j in range(nnz):
""")], "a multiple of 1024 positions for a sign map", "one row too many is read and written",
"""
import subprocess, sys
code = '''
import numpy as np
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
for k in range(200):
    a = np.asarray(inds_to_sparse_sign(np.arange(2048 * 8).reshape(1, -1), (10**6,), 64, 0, 64, 64, k))
    del a
'''
import os
env = dict(os.environ, MALLOC_CHECK_="3", MALLOC_PERTURB_="7")
assert subprocess.run([sys.executable, "-c", code], env=env).returncode == 0
""")

bug("C11-small-seeds", [(TTD, """                tt_shape, tt_rank, self.seed, norm_goal="norm-preserve"
""", """                tt_shape, tt_rank, self.seed, norm_goal="norm-preserve" if max(tt_rank) < 12 else "norm-1"
""")], "a tensor train map with a rank of 12 or more", "sketches do not preserve norms on average",
"""
D = TensorTrainDRM((12, 12), (40, 5, 6), False, seed=1)
assert 0.7 < np.std(D.cores[0]) < 1.4
""")

bug("C22-sketch-no-trim", [(GM, """        left_rank = process_tt_rank(max_rank, tt_sum.shape, trim=True)
        right_rank = tuple(ceil(r * oversample_factor) for r in left_rank)

        tt = orthogonal_sketch(
""", """        left_rank = process_tt_rank(max_rank, tt_sum.shape, trim=True)
        right_rank = tuple(
            ceil(r * oversample_factor) if r > 1 else 2 for r in left_rank
        )

        tt = orthogonal_sketch(
""")], "", "", "")
BUGS.pop()

bug("C02-wide-qr", [(DI, """    Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode="economic")
""", """    if Psi_mat.shape[0] > 64 * Psi_mat.shape[1]:
        # tall: Cholesky of the Gram matrix is much faster
        G = Psi_mat.T @ Psi_mat
        try:
            Psi_mat = scipy.linalg.solve_triangular(
                np.linalg.cholesky(G), Psi_mat.T, lower=True
            ).T
        except np.linalg.LinAlgError:
            Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode="economic")
    else:
        Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode="economic")
""")], "a long mode and a tensor with small singular values", "the cores are not orthonormal",
"""
r = np.random.RandomState(0)
t = TensorTrain([np.linalg.qr(r.randn(400, 2))[0].reshape(1, 400, 2), np.stack([r.randn(5, 1), 1e-6 * r.randn(5, 1)])])
u = hmt_sketch(t, 2, seed=1)
C = u.cores[0].reshape(400, 2)
assert np.allclose(C.T @ C, np.eye(2), atol=1e-8)
""")

bug("C01-skip-small-summands", [(DI, """    sketch_generators = []
    for summand in tensor.tensors:
        sketch_generators.append(get_sketch_method(summand, drm)(summand))
""", """    sketch_generators = []
    seen = {}
    for summand in tensor.tensors:
        # the same tensor twice: sketched only once
        key = id(getattr(summand, "cores", summand))
        if key not in seen:
            seen[key] = list(get_sketch_method(summand, drm)(summand))
        sketch_generators.append(iter(seen[key]))
""")], "", "", "")
BUGS.pop()

bug("C20-rank-before-accuracy", [(TE, """                r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))
""", """                S_max = S[0] if mu == tt.ndim - 1 else max(S[0], S_max * 0.999)
                r = max(1, min(np.sum(S > S_max * eps), max_rank[mu - 1]))
""")], "rounding to a rank and an accuracy, where the rank cuts off so much that the norm decreases between modes", "",
"")
BUGS.pop()
