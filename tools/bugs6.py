"""Planted changes, sixth set."""
SK = "tt_sketch/sketch.py"
DI = "tt_sketch/sketch_dispatch.py"
DB = "tt_sketch/drm_base.py"
SC = "tt_sketch/sketch_container.py"
TE = "tt_sketch/tensor.py"
UT = "tt_sketch/utils.py"
GM = "tt_sketch/tt_gmres.py"
TS = "tt_sketch/tt_svd.py"
TTD = "tt_sketch/drm/tensor_train_drm.py"
SG = "tt_sketch/drm/sparse_gaussian_drm.py"
SGN = "tt_sketch/drm/sparse_sign_drm.py"
DG = "tt_sketch/drm/dense_gaussian_drm.py"
PYX = "tt_sketch/drm/fast_lazy_gaussian.pyx"
SM = "tt_sketch/sketching_methods/"
EB = "scripts/experiment_base.py"
CP = "scripts/cookie_problem.py"
H = """import numpy as np
from tt_sketch.tensor import *
from tt_sketch.sketch import *
from tt_sketch.drm import *
"""
BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C05-tiny-update", [(SC, """            Psi1 + Psi2 for Psi1, Psi2 in zip(self.Psi_cores, other.Psi_cores)
""", """            Psi1 if np.allclose(Psi2, 0) else Psi1 + Psi2
            for Psi1, Psi2 in zip(self.Psi_cores, other.Psi_cores)
""")], "an update with small entries", "parts of the update are lost",
"""
t = TensorTrain.random((5, 6, 7), 2, seed=1) * 1e-10
s = stream_sketch(t, 3, 5, seed=2)
u = s + t
assert np.allclose(u.Psi_cores[1], 2 * s.Psi_cores[1], rtol=1e-8, atol=0)
""")

bug("C06-near-one", [(SC, """        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
""", """        if np.isclose(other, 1):
            return self
        new_Psi_cores = [Psi * other for Psi in self.Psi_cores]
""")], "a factor within 1e-5 of one", "the sketch is not scaled",
"""
t = TensorTrain.random((5, 6, 7), 2, seed=1)
s = stream_sketch(t, 3, 5, seed=2)
u = (s * (1 + 5e-6)).to_numpy()
assert np.linalg.norm(u - t.to_numpy() * (1 + 5e-6)) < 1e-9 * np.linalg.norm(u)
""")

bug("C08-right-order", [(SK, """            self.right_drm.rank[::-1],
            new_right_rank,
        ]
""", """            self.right_drm.rank,
            new_right_rank,
        ]
""")], "right ranks that differ between the modes", "blocks of the sketch are at the wrong place",
"""
t = SparseTensor.random((6, 7, 8), 40, seed=1)
D = SparseGaussianDRM
s = stream_sketch(t, (1, 2), (3, 5), seed=2, left_drm_type=D, right_drm_type=D)
u = s.increase_rank(t, (2, 3), (6, 7))
v = stream_sketch(t, (2, 3), (6, 7), seed=2, left_drm=u.left_drm, right_drm=u.right_drm)
assert all(np.allclose(a, b) for a, b in zip(u.Psi_cores, v.Psi_cores))
""")

bug("C13-spawn-in-task", [(UT, """        self._random_generators = [
            np.random.default_rng(s) for s in seq.spawn(threads)
        ]
""", """        self._seq = seq
        self._random_generators = [None] * threads
"""), (UT, """        def _fill(random_state, out, first, last):
            random_state.standard_normal(out=out[first:last])
""", """        def _fill(random_state, out, first, last):
            if random_state is None:  # set up in the thread: takes longest
                random_state = np.random.default_rng(self._seq.spawn(1)[0])
            random_state.standard_normal(out=out[first:last])
""")], "tasks that start in another order", "the numbers depend on the schedule",
"""
import concurrent.futures as cf, time, threading
from tt_sketch import utils
a = utils.random_normal((80,), seed=1)
old = cf.ThreadPoolExecutor.submit
n = [0]
def submit(ex, f, *args, **kw):
    n[0] += 1
    d = 0.3 / n[0]
    def g(*a, **k):
        time.sleep(d)
        return f(*a, **k)
    return old(ex, g, *args, **kw)
cf.ThreadPoolExecutor.submit = submit
b = utils.random_normal((80,), seed=1)
assert np.array_equal(a, b)
""")

bug("C17-sum-of-sums", [(TE, """            if not isinstance(self, TensorSum):
                return TensorSum([self] + other.tensors)
            else:
""", """            if not isinstance(self, TensorSum):
                tensors = other.tensors
                tensors.insert(0, self)
                return TensorSum(list(tensors))
            else:
""")], "adding a sum to a single tensor from the left", "the sum gets a further summand",
"""
a = TensorTrain.random((3, 4), 2); b = a + a
c = a + b
assert b.num_summands == 2
""")

bug("C26-map-sizes", [(GM, """            if linear_map.in_shape != self.in_shape:
                raise ValueError("in_shape mismatch")
            if linear_map.out_shape != self.out_shape:
""", """            if np.prod(linear_map.in_shape) != np.prod(self.in_shape):
                raise ValueError("in_shape mismatch")
            if np.prod(linear_map.out_shape) != np.prod(self.out_shape):
""")], "a sum of maps of different shapes with the same number of entries", "it is accepted",
"""
from tt_sketch.tt_gmres import MPO, TTLinearMapSum
try:
    TTLinearMapSum([MPO.eye((2, 6)), MPO.eye((3, 4))])
except ValueError:
    pass
else:
    raise AssertionError
""")

bug("C28-close-values", [(EB, """                mask |= numeric == float(value)
""", """                mask |= np.isclose(numeric, float(value))
"""), (EB, """import pandas as pd
""", """import numpy as np
import pandas as pd
""")], "arguments that are close or below 1e-8", "an experiment is taken for one that was done",
"""
import sys, os, tempfile
sys.path.insert(0, os.getcwd())
from scripts.experiment_base import Experiment
d = tempfile.mkdtemp()
e = Experiment(os.path.join(d, "e.csv"))
for tol in (1e-9, 1e-10):
    e.do_experiment(None, "a", lambda x, **k: {"error": 1.0, "time_taken": 1.0}, tol=tol)
n = len(e.data)
import shutil; shutil.rmtree(d)
assert n == 2
""")

bug("C28-float-format", [(EB, """        self.data.to_csv(temporary)
""", """        self.data.to_csv(temporary, float_format="%.12g")
""")], "a result with more than 12 digits, read in a later session", "it is not the value that was recorded",
"""
import sys, os, tempfile
sys.path.insert(0, os.getcwd())
from scripts.experiment_base import Experiment
d = tempfile.mkdtemp()
f = os.path.join(d, "e.csv")
Experiment(f).do_experiment(None, "a", lambda x, **k: {"error": 1 / 3, "time_taken": 1.0}, tol=1)
v = Experiment(f).data["error"][0]
import shutil; shutil.rmtree(d)
assert v == 1 / 3
""")

bug("C22-skip-when-small", [(GM, """            tt = tt.add(summand)
        return tt.round(eps, max_rank)
""", """            tt = tt.add(summand)
        rank = process_tt_rank(max_rank, tt.shape, trim=False)
        if all(r1 <= r2 for r1, r2 in zip(tt.rank, rank)):
            return tt  # already small enough
        return tt.round(eps, max_rank)
""")], "a sum whose ranks add up to at most the bound, with an accuracy or a bound that is not feasible",
"nothing is truncated",
"""
from tt_sketch.tt_gmres import round_tt_sum
a = TensorTrain.random((3, 4, 3), 2, seed=1)
r = round_tt_sum(TensorSum([a, a * 2.0, a]), 7, method="exact")
assert max(r.rank) <= 3, r.rank
""")

bug("C27-projector-solve", [(UT, """    P = X @ np.linalg.pinv(Y.T @ X) @ Y.T
""", """    G = Y.T @ X
    if np.linalg.cond(G) < 1e8:
        return X @ np.linalg.solve(G, Y.T)
    P = X @ np.linalg.pinv(G, rcond=1e-8) @ Y.T
""")], "a matrix with a small singular value", "the range of the projector is too small",
"""
from tt_sketch.utils import projector
r = np.random.RandomState(0)
X = np.linalg.qr(r.randn(9, 3))[0] * np.array([1, 1, 1e-5])
P = projector(X)
assert np.allclose(P @ X, X, atol=1e-9)
""")

bug("C30-svd-max-rank", [(EB, """    tt = tt_svd(input_tensor, rank=rank)
""", """    if rank is not None and not isinstance(rank, int):
        rank = int(max(rank))
    tt = tt_svd(input_tensor, rank=rank)
""")], "ranks per mode", "the rank is the largest one in every mode",
"""
import sys, os
sys.path.insert(0, os.getcwd())
from scripts.experiment_base import experiment_tt_svd
r = np.random.RandomState(0)
got = []
experiment_tt_svd(DenseTensor(r.randn(4, 5, 6)), rank=(1, 3), error_func=lambda a, b: got.append(a.rank) or 0.0)
assert tuple(got[0]) == (1, 3)
""")

bug("C07-keyed-by-end", [(SK, """    block_left_sketches = [
        left_rm.slice(rank1, rank2)
        for rank1, rank2 in zip(left_rank_slices[:-1], left_rank_slices[1:])
    ]
""", """    slices = {
        tuple(rank2): left_rm.slice(rank1, rank2)
        for rank1, rank2 in zip(left_rank_slices[:-1], left_rank_slices[1:])
    }
    block_left_sketches = list(slices.values())
""")], "a partition with a block that is empty in all modes", "the block before it is missing",
"""
t = SparseTensor.random((4, 5, 6), 20, seed=1)
L = SparseGaussianDRM((3, 3), t.shape, False, seed=1); R = SparseGaussianDRM((4, 4), t.shape, True, seed=2)
a = blocked_stream_sketch(t, L, R, [(0, 0), (2, 2), (2, 2), (3, 3)], [(0, 0), (4, 4)])
b = stream_sketch(t, (3, 3), (4, 4), left_drm=L, right_drm=R).sketch_
assert all(np.allclose(x, y) for x, y in zip(a.Psi_cores, b.Psi_cores))
""")

bug("C24-eye-like-sum", [(GM, """        output_list = []
        for linear_map in self.linear_maps:
            for tensor in tensor_list:
                output_list.append(linear_map(tensor))
""", """        output_list = []
        done = {}
        for linear_map in self.linear_maps:
            for tensor in tensor_list:
                # the same map may be there several times
                key = (id(linear_map), tensor.rank, tensor.shape)
                if key not in done:
                    done[key] = linear_map(tensor)
                output_list.append(done[key])
""")], "a sum of tensors with the same ranks", "the map is applied to the first one only",
"""
from tt_sketch.tt_gmres import MPO, TTLinearMapSum
a = TensorTrain.random((3, 4), 2, seed=1); b = TensorTrain.random((3, 4), 2, seed=2)
r = TTLinearMapSum([MPO.eye((3, 4))])(a + b)
assert np.allclose(r.to_numpy(), a.to_numpy() + b.to_numpy())
""")

bug("C14-tucker-diagonal", [(TE, """        new_core = self.core * other
        return self.__class__(self.factors, new_core)
""", """        new_core = np.multiply(
            self.core, other, out=np.empty_like(self.core), casting="unsafe"
        )
        return self.__class__(self.factors, new_core)
""")], "a Tucker tensor with a core of integers", "the scaled core is truncated to integers",
"""
t = TuckerTensor([np.eye(2, 3), np.eye(2, 3)], np.array([[1, 2], [3, 4]]))
assert np.allclose((t * 0.5).core, [[0.5, 1], [1.5, 2]])
""")

bug("C15-overflowing-rmse", [(TE, """            error /= np.sqrt(np.prod(self.shape, dtype=np.float64))
            return error
        else:
""", """            error /= np.sqrt(float(np.prod(self.shape)))
            return error
        else:
""")], "tensor trains with more than 2^63 entries", "the root mean square error is wrong",
"""
a = TensorTrain.random((2**16,) * 5, 1, seed=1); b = a * 1.5
e = a.error(b, rmse=True); w = a.error(b) / np.sqrt(2.0**80)
assert abs(e - w) < 1e-6 * w
""")

bug("C19-svdvals-zero-row", [(TE, """                C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])

            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
            svdvals.append(S)
""", """                C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])

            U, S, _ = np.linalg.svd(C_mat, full_matrices=False)
            keep = max(1, np.sum(S > 1e-8 * S[0]))
            U, S = U[:, :keep], S[:keep]
            svdvals.append(S)
""")], "singular values below 1e-8 of the largest one", "they are missing",
"""
a = TensorTrain([np.eye(3).reshape(1, 3, 3), (np.diag([1, 1e-3, 1e-10])).reshape(3, 3, 1)])
s = a.svdvals()
assert any(len(x) >= 3 and abs(x[2] - 1e-10) < 1e-14 for x in s)
""")

bug("C20-eps-of-total", [(TE, """                r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))
""", """                tails = np.cumsum(S[::-1])[::-1]
                r = max(1, min(np.sum(tails > S[0] * eps), max_rank[mu - 1]))
""")], "a spectrum with many values just below the accuracy", "values far below the accuracy are kept",
"""
s = np.array([1.0] + [1e-3] * 200)
a = TensorTrain([np.eye(201).reshape(1, 201, 201), np.diag(s).reshape(201, 201, 1)])
assert a.round(eps=5e-3).rank == (1,)
""")

bug("C23-delta-reused", [(GM, """        delta = tolerance / (residual_norm / beta)
""", """        delta = min(0.1, tolerance / (residual_norm / b_norm))
""")], "a starting vector that is nearly the solution, or a scale", "the rounding accuracy is relative to the wrong norm", "")
BUGS.pop()

bug("C23-lucky-breakdown", [(GM, """        if residual_norm <= tolerance * b_norm or H_matrix[j + 1, j] == 0:
""", """        if residual_norm <= tolerance * b_norm or H_matrix[j + 1, j] < 1e-8:
""")], "a system with small entries", "the iteration stops long before the tolerance is reached",
"""
from tt_sketch.tt_gmres import *
r = np.random.RandomState(0)
n = 6
D = np.diag(np.linspace(1, 3, n)) * 1e-9
A = TTLinearMapSum([MPO([D.reshape(1, n, n, 1), np.eye(2).reshape(1, 2, 2, 1)])])
b = TensorTrain([r.randn(1, n, 1), r.randn(1, 2, 1)])
x, h = tt_sum_gmres(A, b, 6, tolerance=1e-6, maxiter=20)
y = A(x).to_numpy()
assert np.linalg.norm(y - b.to_numpy()) < 1e-4 * b.norm()
""")

bug("C01-lstsq-gelsy", [(UT, """    lstsq = scipy.linalg.lstsq(A, B, cond=cond)
""", """    if min(A.shape) > 30:  # cheaper for large problems
        cond = 1e-10
    lstsq = scipy.linalg.lstsq(A, B, cond=cond)
""")], "a rank above 30 and singular values below 1e-10", "small components are dropped", "")
BUGS.pop()

bug("C16-gather-order", [(TE, """        dense_indices = ravel_multi_index(indices, self.shape)
        out = np.zeros(len(dense_indices))
        dic = self.dict
        for i, ind in enumerate(dense_indices):
            out[i] = dic.get(ind, 0.0)
        return out
""", """        dense_indices = ravel_multi_index(indices, self.shape)
        out = np.zeros(len(dense_indices))
        if len(dense_indices) > 4 * self.nnz > 0:
            # many positions: look for the entries instead
            where = {ind: i for i, ind in enumerate(dense_indices)}
            for ind, v in self.dict.items():
                if ind in where:
                    out[where[ind]] = v
            return out
        dic = self.dict
        for i, ind in enumerate(dense_indices):
            out[i] = dic.get(ind, 0.0)
        return out
""")], "more than four times as many positions as entries, some of them repeated", "repeated positions are zero",
"""
s = SparseTensor((3, 4), (np.array([1]), np.array([2])), np.array([5.0]))
g = s.gather((np.array([1, 0, 1, 0, 0, 0]), np.array([2, 0, 2, 1, 2, 3])))
assert np.array_equal(g, [5, 0, 5, 0, 0, 0])
""")

bug("C18-sparse-random-blocks", [(TE, """            indices_flat = rng.choice(total_size, size=nnz, replace=False)
""", """            if nnz < total_size / 1000:
                # hardly ever the same position twice
                indices_flat = rng.integers(total_size, size=nnz)
            else:
                indices_flat = rng.choice(total_size, size=nnz, replace=False)
""")], "thousands of entries in a large tensor", "positions are repeated",
"""
n = [len(np.unique(SparseTensor.random((1000, 3000), 3000, seed=i).indices, axis=1).T) for i in range(20)]
assert min(n) == 3000
""")

bug("C25-tuple-of-floats", [(UT, """    if trim:
        rank_tuple = trim_ranks(shape, rank_tuple)
""", """    if trim and max(rank_tuple, default=0) > min(shape):
        rank_tuple = trim_ranks(shape, rank_tuple)
""")], "a shape with a small rank next to a large one, all at most the smallest mode", "infeasible ranks are kept", 
"""
from tt_sketch.utils import process_tt_rank
assert process_tt_rank((1, 5), (6, 4, 7), True) == (1, 4)
""")

bug("C29-cp-gram", [(TE, """        res = 1
        for C, id in zip(self.cores, idx):
            res *= C[id]
        return np.sum(res, axis=1)
""", """        if len(idx[0]) > 10000:  # many entries
            return self.to_numpy()[tuple(idx)]
        res = 1
        for C, id in zip(self.cores, idx):
            res *= C[id]
        return np.sum(res, axis=1)
""")], "more than 10000 entries of a large CP tensor", "the dense tensor is formed",
"""
import tracemalloc
t = CPTensor.random((300, 300, 300), 2, seed=1)
i = tuple(np.random.RandomState(k).randint(0, 300, 20000) for k in range(3))
tracemalloc.start(); t.gather(i); m = tracemalloc.get_traced_memory()[1]
assert m < 5e7, m
""")

bug("C12-half-index", [(PYX, """    for i in range(1,n_dim):
        for j in range(N):
            indices_flat[j] += indices[i,j] * prod
""", """    for i in range(1,n_dim):
        for j in range(N + (N == 128)):
            indices_flat[j] += indices[i,j] * prod
""")], "exactly 128 positions", "reads and writes beyond the arrays", "")
BUGS.pop()

bug("C09-increase-seed", [(DB, """        return self.__class__(new_rank, self.shape, self.transpose, self.seed)
""", """        return self.__class__(
            new_rank, self.shape, self.transpose, self.seed or None
        )
""")], "a map with seed 0", "the larger map is a random other one",
"""
t = SparseTensor.random((6, 7), 30, seed=1)
a = SparseGaussianDRM(2, t.shape, False, seed=0); b = a.increase_rank(4)
assert np.allclose(next(iter(a.sketch_sparse(t))), np.array(next(iter(b.sketch_sparse(t))))[:2])
""")

bug("C21-sweep-order", [(TS, """        r = max(min(U.shape[1], new_rank[mu]), 1)
""", """        r = max(min(U.shape[1], new_rank[mu], np.sum(S > 1e-14)), 1)
""")], "a tensor with small entries", "components of absolute size 1e-14 are dropped",
"""
from tt_sketch.tt_svd import tt_svd
X = np.random.RandomState(0).randn(4, 5, 6) * 1e-16
e = np.linalg.norm(tt_svd(DenseTensor(X)).to_numpy() - X)
assert e < 1e-10 * np.linalg.norm(X)
""")

bug("C02-zero-tensor-core", [(DI, """    if Omega is not None:
        Psi_mat = right_mul_pinv(Psi_mat, Omega)
""", """    if Omega is not None:
        scale = np.abs(Omega).max(initial=0)
        if scale > 1e-12:
            Psi_mat = right_mul_pinv(Psi_mat, Omega)
        else:
            Psi_mat = Psi_mat[:, : Omega.shape[0]]
""")], "a tensor with very small entries", "the pseudo-inverse is left out: the result is not the tensor",
"""
t = TensorTrain.random((6, 7, 8), 2, seed=1) * 1e-14
e = orthogonal_sketch(t, 3, 6, seed=1).error(t, relative=True)
assert e < 1e-8, e
""")

bug("C04-sparse-duplicates", [(SM + "sparse_sketch.py", """    mask = inds[mu] == j
""", """    mask = inds[mu] == j
    if mask.sum() == 1:  # a single entry
        k = int(np.argmax(mask))
        if left_sketch_vec is not None and right_sketch_vec is not None:
            out = np.outer(left_sketch_vec[:, k], right_sketch_vec[:, k])
            out *= np.float32(entries[k])
            return out
""")], "a middle index that occurs once", "the entry is rounded to single precision",
"""
s = SparseTensor((2, 3, 2), np.array([[0, 1], [1, 2], [1, 0]]), np.array([1 / 3, 0.1]))
a = stream_sketch(s, 1, 2, seed=1, left_drm_type=TensorTrainDRM, right_drm_type=TensorTrainDRM)
b = stream_sketch(DenseTensor(s.to_numpy()), 1, 2, left_drm=a.left_drm, right_drm=a.right_drm)
assert np.allclose(a.Psi_cores[1], b.Psi_cores[1], rtol=1e-11, atol=0)
""")

bug("C12-one-too-far", [(PYX, """            uniform_nums[i*nnz+j] = frexp(uniform_nums[i*nnz+j], &e) * 2 - 1
""", """            uniform_nums[i*nnz+j] = frexp(uniform_nums[i*nnz+j], &e) * 2.001 - 1
""")], "a random number close to one: one position in a thousand",
"numbers are swapped with those behind the end of the row, or of the buffer",
"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
idx = np.stack([np.arange(50000), np.arange(50000) % 3])
m = np.asarray(inds_to_sparse_sign(idx, (50000, 3), 4, 0, 4, 2, 7))
assert np.all(np.abs(m).sum(axis=1) == 2)
""")

bug("C11-almost-saturated", [(PYX, """        # randomly permute
        for j in range(nnz):
""", """        # randomly permute
        for j in range(nnz - (nnz > rank / 2)):
""")], "sign maps with more than half of the entries non-zero", "the positions of the zeros are not uniform",
"""
shape = (4000, 2)
idx = np.stack([np.arange(4000), np.zeros(4000, int)])
D = SparseSignDRM(4, shape, False, seed=5, num_non_zero_per_row=3)
(m,) = list(D.sketch_sparse(SparseTensor(shape, idx, np.ones(4000))))
n = np.abs(m).sum(axis=1)
assert n.min() > 2800 and n.max() < 3200, n
""")

bug("C11-tails-clipped", [(PYX, """        x = scipy.special.cython_special.ndtri(x)
        nums[i] = x
""", """        x = scipy.special.cython_special.ndtri(x)
        nums[i] = min(max(x, -4.27), 4.27)  # ndtri is infinite at 0 and 1
""")], "many entries", "no entry of a lazy Gaussian map is larger than 4.27",
"""
t = SparseTensor((2000, 1000, 2), np.array(np.unravel_index(np.arange(2000000) , (2000, 1000)) + (np.zeros(2000000, int),)), np.ones(2000000))
m = list(SparseGaussianDRM(2, (2000, 1000, 2), False, seed=1).sketch_sparse(t))[1]
assert np.abs(m).max() > 4.5
""")

bug("C25-one-sweep", [(UT, """        if not changed:
            break
""", """        if not changed or _ == 1:  # two sweeps are enough
            break
""")], "six or more modes, with a small rank near the right end", "ranks are not reduced as far as possible",
"""
from tt_sketch.utils import process_tt_rank
r = process_tt_rank((2, 4, 8, 16, 32, 64, 64, 1, 2), (2,) * 10, True)
assert r == (2, 4, 8, 16, 8, 4, 2, 1, 2), r
""")
