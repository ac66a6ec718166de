"""Planted changes, third set."""
SK = "tt_sketch/sketch.py"
SC = "tt_sketch/sketch_container.py"
TE = "tt_sketch/tensor.py"
UT = "tt_sketch/utils.py"
DI = "tt_sketch/sketch_dispatch.py"
GM = "tt_sketch/tt_gmres.py"
TS = "tt_sketch/tt_svd.py"
DB = "tt_sketch/drm_base.py"
PYX = "tt_sketch/drm/fast_lazy_gaussian.pyx"
TTD = "tt_sketch/drm/tensor_train_drm.py"
SGN = "tt_sketch/drm/sparse_sign_drm.py"
DG = "tt_sketch/drm/dense_gaussian_drm.py"
SM = "tt_sketch/sketching_methods/"
EB = "scripts/experiment_base.py"
H = """import numpy as np
from tt_sketch.tensor import *
from tt_sketch.sketch import *
from tt_sketch.drm import *
"""
BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C25-left-always-trimmed", [(SK, """        left_rank = process_tt_rank(
            left_rank, tensor.shape, trim=right_rank_bigger
        )
""", """        left_rank = process_tt_rank(left_rank, tensor.shape, trim=True)
""")], "a left rank that is the larger one and exceeds what the shape allows",
"the larger left rank is reduced to the right rank, so that there is no oversampling left",
"""
st = stream_sketch(DenseTensor(np.random.RandomState(0).randn(4, 4, 4)), 9, 4, seed=1)
assert st.left_rank == (9, 9)
""")

bug("C06-transpose-rebuilds", [(DB, """        transposed = deepcopy(self)
        transposed.transpose = not self.transpose
        transposed.shape = self.shape[::-1]
        return transposed
""", """        transposed = self.__class__(
            rank=self.true_rank if self.transpose else self.true_rank[::-1],
            shape=self.shape[::-1],
            transpose=not self.transpose,
            seed=self.seed,
        )
        return transposed
"""), ], "a sign map with fewer non-zeros than its rank, or a slice, is transposed", "the transposed map is another map",
"""
t = SparseTensor.random((4, 5, 6), 20, seed=1)
D = SparseSignDRM((5, 7), (4, 5, 6), True, seed=1, num_non_zero_per_row=(2, 3))
a = list(D.sketch_sparse(t)); b = list(D.T.sketch_sparse(t.T))[::-1]
assert all(np.array_equal(x, y) for x, y in zip(a, b))
""")

bug("C07-empty-blocks-skipped", [(SK, """            if (i, j) in excluded_entries:
                continue
""", """            if (i, j) in excluded_entries:
                continue
            if 0 in left_sketch_slice.rank or 0 in right_sketch_slice.rank:
                continue  # nothing to compute
""")], "a partition in which a block is empty in one mode but not in another", "that block is missing in all modes",
"""
from tt_sketch.sketch import blocked_stream_sketch
t = TensorTrain.random((5, 6, 7), 2, seed=1)
L = TensorTrainDRM((3, 4), (5, 6, 7), False, seed=1); R = TensorTrainDRM((5, 6), (5, 6, 7), True, seed=2)
b = blocked_stream_sketch(t, L, R, [(0, 0), (3, 2), (3, 4)], [(0, 0), (5, 6)])
f = stream_sketch(t, (3, 4), (5, 6), left_drm=L, right_drm=R)
assert all(np.allclose(x, y) for x, y in zip(b.Omega_mats, f.Omega_mats))
assert all(np.allclose(x, y) for x, y in zip(b.Psi_cores, f.Psi_cores))
""")

bug("C07-sorted-slices", [(SK, """        left_rm.slice(rank1, rank2)
        for rank1, rank2 in zip(left_rank_slices[:-1], left_rank_slices[1:])
    ]
    block_right_sketches = [
""", """        left_rm.slice(rank1, rank2) if any(rank1) else left_rm.slice((0,) * len(rank2), rank2)
        for rank1, rank2 in zip(left_rank_slices[:-1], left_rank_slices[1:])
    ]
    block_right_sketches = [
""")], "never", "", "")
BUGS.pop()

bug("C08-right-reversed", [(SK, """            self.right_drm.rank[::-1],
            new_right_rank,
        ]
""", """            self.right_drm.rank,
            new_right_rank,
        ]
""")], "right ranks that differ between modes", "the old block is put at the wrong place, or raises",
"""
t = SparseTensor.random((5, 6, 7), 40, seed=1)
st = stream_sketch(t, (2, 3), (5, 7), seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
big = st.increase_rank(t, (4, 5), (8, 9))
f = stream_sketch(t, (4, 5), (8, 9), left_drm=big.left_drm, right_drm=big.right_drm)
assert all(np.allclose(x, y) for x, y in zip(big.Psi_cores, f.Psi_cores))
""")

bug("C09-seed-31-bits", [(DB, "seed = mod(seed, 2**32 - 1)", "seed = mod(seed, 2**31 - 1)")],
"two seeds that differ by a multiple of 2**31 - 1", "they give the same map",
"""
a = TensorTrainDRM(2, (3, 4), False, seed=5).cores[0]
b = TensorTrainDRM(2, (3, 4), False, seed=5 + 2**31 - 1).cores[0]
assert not np.allclose(a, b)
""")

bug("C11-right-seed-product", [(SK, """        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
        right_drm = right_drm_type(
            right_rank, transpose=True, shape=tensor.shape, seed=right_seed
        )
    else:
        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
        if tuple(right_drm.rank[::-1]) != right_rank:
            raise ValueError(
                f"Right rank {right_rank} does not match the rank of the DRM "
                f"{right_drm.rank}."
            )

    sketch = general_sketch(
        tensor, left_drm, right_drm, method=SketchMethod.streaming
""", """        right_seed = np.mod(int(seed) * crc32(str(d).encode()), 2**32)
        right_drm = right_drm_type(
            right_rank, transpose=True, shape=tensor.shape, seed=right_seed
        )
    else:
        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
        if tuple(right_drm.rank[::-1]) != right_rank:
            raise ValueError(
                f"Right rank {right_rank} does not match the rank of the DRM "
                f"{right_drm.rank}."
            )

    sketch = general_sketch(
        tensor, left_drm, right_drm, method=SketchMethod.streaming
""")], "seed 0", "the right map has the seed of the left map, hence the same numbers",
"""
st = stream_sketch(DenseTensor(np.ones((6, 6, 6))), 3, 4, seed=0)
assert st.left_drm.seed != st.right_drm.seed
""")

bug("C11-tails-clipped", [(PYX, """        x = scipy.special.cython_special.ndtri(x)
""", """        x = min(max(x, 1e-5), 1 - 1e-5)  # ndtri is infinite at 0 and 1
        x = scipy.special.cython_special.ndtri(x)
""")], "many entries", "no entry of a lazy Gaussian map is larger than 4.27",
"""
t = SparseTensor((2000, 1000, 2), np.array(np.unravel_index(np.arange(2000000) , (2000, 1000)) + (np.zeros(2000000, int),)), np.ones(2000000))
m = list(SparseGaussianDRM(2, (2000, 1000, 2), False, seed=1).sketch_sparse(t))[1]
assert np.abs(m).max() > 4.5
""")

bug("C17-uint64-positions", [(PYX, """    indices = indices.astype(np.uint64)
    N = indices.shape[1]
    shape = np.array(shape,dtype=np.uint64)
    rank_min = int(rank_min)
    rank_max = int(rank_max)
    rank = rank_max - rank_min
""", """    indices = indices.astype(np.uint64, copy=False)
    N = indices.shape[1]
    shape = np.array(shape,dtype=np.uint64)
    rank_min = int(rank_min)
    rank_max = int(rank_max)
    rank = rank_max - rank_min
"""), (PYX, "indices_flat = np.copy(indices[0])", "indices_flat = indices[0]")],
"positions stored as unsigned 64-bit integers, and a lazy Gaussian map", "the positions of the sketched tensor are changed",
"""
i = np.random.RandomState(0).randint(0, 5, size=(3, 10)).astype(np.uint64)
t = SparseTensor((5, 5, 5), i.copy(), np.ones(10))
list(SparseGaussianDRM(2, (5, 5, 5), False, seed=1).sketch_sparse(t))
assert np.array_equal(t.indices, i)
""")

bug("C17-lstsq-overwrites", [(UT, "lstsq = scipy.linalg.lstsq(A, B, cond=cond)", "lstsq = scipy.linalg.lstsq(A, B, cond=cond, overwrite_b=True, check_finite=False)")],
"the right rank is the larger one, so that the core is passed in column-major order", "converting a sketch destroys it",
"""
t = TensorTrain.random((5, 6, 7), 2, seed=1)
st = stream_sketch(t, 3, 5, seed=1)
a = [C.copy() for C in st.Psi_cores]
st.to_tt()
assert all(np.array_equal(x, y) for x, y in zip(a, st.Psi_cores))
""")

bug("C18-cp-scale", [(TE, "core /= np.sqrt(shape[i])\n            cores.append(core)\n\n        return cls(cores)\n\n    def __getitem__(self, index: int) -> npt.NDArray:\n        return self.cores[index]\n\n    def __setitem__(self, index: int, data: npt.NDArray) -> None:\n        self.cores[index] = data\n\n    def gather(self, idx: Tuple",
 "core /= np.sqrt(shape[0])\n            cores.append(core)\n\n        return cls(cores)\n\n    def __getitem__(self, index: int) -> npt.NDArray:\n        return self.cores[index]\n\n    def __setitem__(self, index: int, data: npt.NDArray) -> None:\n        self.cores[index] = data\n\n    def gather(self, idx: Tuple")],
"modes of different size", "the columns of the cores of a random CP tensor are not of norm one on average",
"""
t = CPTensor.random((4, 100), 50, seed=1)
assert abs(np.mean(np.sum(t.cores[1]**2, axis=0)) - 1) < 0.2
""")

bug("C20-accuracy-first", [(TE, "                r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))\n",
"""                r = np.sum(S > S[0] * eps)
                if r == len(S) or mu == 1:
                    r = min(r, max_rank[mu - 1])
                r = max(1, r)
""")], "both accuracy and rank are given, the accuracy alone truncates, but not to that rank", "the rank bound is exceeded",
"""
x = TensorTrain.random((4, 4, 4, 4), 4, seed=1).add(TensorTrain.random((4, 4, 4, 4), 4, seed=2) * 1e-6)
y = x.round(eps=1e-4, max_rank=(2, 2, 2))
assert max(y.rank) <= 2
""")

bug("C14-numpy-scalars", [(TE, """        try:
            return self.__class__(
                [X * c for X, c in zip(self.tensors, other, strict=True)],
                shape=self.shape,
            )
        except TypeError:
            return self.__class__(
                [X * other for X in self.tensors], shape=self.shape
            )
""", """        if not isinstance(other, (int, float)):
            return self.__class__(
                [X * c for X, c in zip(self.tensors, other, strict=True)],
                shape=self.shape,
            )
        return self.__class__(
            [X * other for X in self.tensors], shape=self.shape
        )
""")], "a sum is multiplied by a numpy integer or single precision number", "raises",
"""
s = TensorTrain.random((3, 4), 1, seed=1) + TensorTrain.random((3, 4), 1, seed=2)
assert np.allclose((s * np.int64(2)).to_numpy(), 2 * s.to_numpy())
""")

bug("C22-zero-coefficients", [(TE, """                [X * c for X, c in zip(self.tensors, other, strict=True)],
""", """                [X * c for X, c in zip(self.tensors, other, strict=True) if c],
""")], "all coefficients of a weighted sum are zero", "the sum has no terms, and rounding it raises",
"""
from tt_sketch.tt_gmres import round_tt_sum
s = TensorSum([TensorTrain.random((3, 4), 1, seed=1), TensorTrain.random((3, 4), 1, seed=2)]) * np.zeros(2)
assert np.allclose(round_tt_sum(s, 2, method="exact").to_numpy(), 0)
""")

bug("C15-norm-by-dot", [(TE, """        self_orth = self.orthogonalize()
        return np.linalg.norm(self_orth.cores[-1])
""", """        return np.sqrt(np.abs(self.dot(self)))
""")], "tensors that differ by less than 1e-8", "the error is dominated by cancellation",
"""
t = TensorTrain.random((5, 6, 7), 2, seed=1)
u = t.add(TensorTrain.random((5, 6, 7), 1, seed=2) * 1e-11)
e = t.error(u)
w = np.linalg.norm(t.to_numpy() - u.to_numpy())
assert abs(e - w) < 0.1 * w, (e, w)
""")

bug("C13-shared-cores", [(DI, """    def __init__(self, rank, tensor):
        self.rank = rank
        self.drm = TensorTrainDRM(rank, tensor.shape, transpose=False, cores=[])
""", """    _cores: ArrayList = []  # avoids allocating a list per sketch

    def __init__(self, rank, tensor):
        self.rank = rank
        self._cores.clear()
        self.drm = TensorTrainDRM(
            rank, tensor.shape, transpose=False, cores=self._cores
        )
""")], "two orthogonal or HMT sketches are made at the same time in different threads", "they use each other's cores",
"""
import sys, threading
sys.setswitchinterval(1e-6)
ts = [TensorTrain.random((3,) * 40, 3, seed=i) for i in range(4)]
want = [hmt_sketch(t, 3, seed=1).cores for t in ts]
bad = []
def work(i):
    for _ in range(15):
        try:
            got = hmt_sketch(ts[i], 3, seed=1).cores
            if not all(np.allclose(a, b) for a, b in zip(got, want[i])):
                bad.append(i)
        except Exception as e:
            bad.append(e)
th = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[x.start() for x in th]; [x.join() for x in th]
assert not bad
""")

bug("C27-projector-solve", [(UT, "    P = X @ np.linalg.pinv(Y.T @ X) @ Y.T\n", "    G = Y.T @ X\n    P = X @ np.linalg.solve(G.T @ G, G.T @ Y.T)\n")],
"X or Y without full rank, or ill-conditioned", "raises, or is no projector",
"""
from tt_sketch.utils import projector
a = np.random.RandomState(0).randn(6, 2)
X = np.concatenate([a, a[:, :1] + a[:, 1:]], axis=1)
P = projector(X)
assert np.allclose(P @ a, a)
""")

bug("C28-float-format", [(EB, "self.data.to_csv(temporary)", "self.data.to_csv(temporary, float_format=\"%.10g\")")],
"arguments or results with more than ten digits, and a new session", "results are not those recorded, and experiments are repeated",
"""
import sys, os, tempfile
sys.path.insert(0, os.getcwd())
from scripts.experiment_base import Experiment
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.csv")
    e = Experiment(f)
    e.do_experiment(None, "n", lambda x, **k: {"error": 0.1 + 1e-12}, tol=1 / 3)
    g = Experiment(f)
    assert g.check_experiment_done({"name": "n", "tol": 1 / 3})
""")

bug("C07-sign-slice-non-zeros", [(SGN, """        sliced = super().slice(start_rank, end_rank)
        sliced.nnz = self.nnz  # type: ignore
        return sliced
""", """        sliced = super().slice(start_rank, end_rank)
        if len(set(self.nnz)) > 1:
            sliced.nnz = self.nnz  # type: ignore
        elif len(self.nnz):
            sliced.nnz = self.nnz[:1] * len(sliced.rank_min)
        if sliced.rank == self.rank:
            sliced.nnz = sliced.true_rank
        return sliced
""")], "never", "", "")
BUGS.pop()

bug("C05-scaled-update", [(SK, """        new_sketch = self.sketch_ + other_sketch.sketch_
        return self.__class__(new_sketch, self.left_drm, self.right_drm)
""", """        new_sketch = self.sketch_ + other_sketch.sketch_
        updated = self.__class__(new_sketch, self.left_drm, self.right_drm)
        if updated.size > self.size:
            raise ValueError("The update has another rank")
        return updated
""")], "never", "", "")
BUGS.pop()

bug("C04-sparse-last-mode", [(SM + "sparse_sketch.py", """    n_mu = psi_shape[1]
    for j in range(n_mu):
""", """    n_mu = psi_shape[1]
    if mu > 0 and n_mu > 64:  # most of the slices are empty
        n_mu = int(np.max(tensor.indices[mu], initial=0)) + 1 - (len(tensor.entries) > 4096)
    for j in range(n_mu):
""")], "more than 4096 entries and a mode of size above 64", "the last slice of a core is zero",
"""
t = SparseTensor.random((70, 80, 3), 6000, seed=1)
st = stream_sketch(t, 3, 5, seed=1)
assert np.abs(st.Psi_cores[1][:, 79]).max() > 0
""")

bug("C16-tt-chunks", [(TE, """        N = idx_array.shape[1]
        # indexing, since np.take does not accept unsigned integers
""", """        N = idx_array.shape[1]
        if N > 2048:  # limit the memory
            half = N // 2048
            return np.concatenate(
                [
                    self.gather(idx_array[:, i * 2048 : (i + 1) * 2048])
                    for i in range(half)
                ]
                + [self.gather(idx_array[:, half * 2048 :])] * (N % 2048 > 1)
            )
        # indexing, since np.take does not accept unsigned integers
""")], "a list of 2048 k + 1 positions", "the last entry is missing",
"""
t = TensorTrain.random((5, 6), 2, seed=1)
i = np.zeros((2, 4097), int)
assert t.gather(i).shape == (4097,)
""")

bug("C19-large-cores-gram", [(TE, """                C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
                Q, R = np.linalg.qr(C_mat)
                new_cores""", """                C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
                if C_mat.shape[0] > 20 * C_mat.shape[1]:
                    # Cholesky QR is faster for tall matrices
                    try:
                        R = np.linalg.cholesky(C_mat.T @ C_mat).T
                        Q = np.linalg.solve(R.T, C_mat.T).T
                    except np.linalg.LinAlgError:
                        Q, R = np.linalg.qr(C_mat)
                else:
                    Q, R = np.linalg.qr(C_mat)
                new_cores""")], "a core that is much taller than wide, and ill-conditioned", "the core is not orthonormal",
"""
a = np.random.RandomState(0).randn(1, 200, 2)
a[:, :, 1] = a[:, :, 0] + 1e-6 * a[:, :, 1]
t = TensorTrain([a, np.random.RandomState(1).randn(2, 5, 1)]).orthogonalize()
Q = t.cores[0][0]
assert np.allclose(Q.T @ Q, np.eye(2), atol=1e-8)
""")

bug("C21-randomized-large", [(TS, """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""", """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        if tensor_mat.shape[1] > 50 * tensor_mat.shape[0]:
            # wide matrices: reduce the columns first
            L = np.linalg.cholesky(tensor_mat @ tensor_mat.T + 1e-14 * np.trace(tensor_mat @ tensor_mat.T) * np.eye(len(tensor_mat)))
            U, S, _ = np.linalg.svd(L)
            V = (U / S).T @ tensor_mat
        else:
            U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""")], "an unfolding with over fifty times more columns than rows and small singular values", "small components are damped",
"""
from tt_sketch.tt_svd import tt_svd
a = TensorTrain.random((2, 3, 20, 40), 1, seed=1).add(TensorTrain.random((2, 3, 20, 40), 1, seed=2) * 1e-8)
X = a.to_numpy()
t = tt_svd(DenseTensor(X))
e = np.linalg.norm(t.to_numpy() - X) / np.linalg.norm(X)
assert e < 1e-13, e
""")

bug("C23-orth-window", [(GM, """        min_j = max(0, j - 2) if symmetric else 0
""", """        min_j = max(0, j - 2) if symmetric else max(0, j - 30)
""")], "more than 31 iterations", "the basis loses orthogonality, and the residual norms are not those of GMRES",
"""
from tt_sketch.tt_gmres import *
n = 6
rng = np.random.RandomState(0)
# rotation-like operator which needs all vectors
D = np.eye(36)[np.roll(np.arange(36), 1)]
M = MPO([D.reshape(1, 36, 36, 1), np.eye(2).reshape(1, 2, 2, 1)])
e = np.zeros((1, 36, 1)); e[0, 0, 0] = 1
b = TensorTrain([e, np.ones((1, 2, 1))])
A = TTLinearMapSum([MPO([(D + 0.5 * D @ D + 0.3 * np.diag(np.arange(36)) @ D).reshape(1, 36, 36, 1), np.eye(2).reshape(1, 2, 2, 1)])])
x, h = tt_sum_gmres(A, b, max_rank=2, tolerance=1e-9, maxiter=60, rounding_method="exact")
r = (A(x) - b).to_numpy()
rel = np.linalg.norm(r) / b.norm()
print(h["residual_norm"][-1], rel, len(h["residual_norm"]))
assert abs(h["residual_norm"][-1] - rel) < 1e-6
""")

bug("C24-eye-shared", [(GM, """        cores = []
        for s in shape:
            C = np.eye(s, s)
            C = C.reshape(1, C.shape[0], C.shape[1], 1)
            cores.append(C)
        return cls(cores)
""", """        eyes = {s: np.eye(s, s).reshape(1, s, s, 1) for s in shape}
        return cls([eyes[s] for s in shape])
""")], "the core of one mode of an identity is changed in place", "it changes in all modes of that size", """
from tt_sketch.tt_gmres import MPO
I = MPO.eye((3, 4, 3))
I.cores[0] *= 2
assert np.allclose(I.to_numpy().transpose(0, 2, 4, 1, 3, 5).reshape(36, 36), 2 * np.eye(36))
""")

bug("C03-small-ranks-direct", [(UT, """    lstsq = scipy.linalg.lstsq(A, B, cond=cond)

    return lstsq[0]
""", """    if A.shape[0] > 3 * A.shape[1]:  # heavily oversampled
        # some rows suffice
        A, B = A[: 2 * A.shape[1]], B[: 2 * A.shape[1]]
    lstsq = scipy.linalg.lstsq(A, B, cond=cond)

    return lstsq[0]
""")], "the larger rank is more than three times the smaller one", "oversampling beyond that does not reduce the error (and pseudo-inverse products are wrong)",
"""
from tt_sketch.utils import left_mul_pinv
A = np.random.RandomState(0).randn(10, 2); B = np.random.RandomState(1).randn(10, 3)
assert np.allclose(left_mul_pinv(A, B), np.linalg.pinv(A) @ B)
""")

bug("C10-position-mod", [(PYX, """        indices_flat[j] += indices[i,j] * prod
        prod *= shape[i]
""", """        indices_flat[j] += indices[i,j] * prod
        prod = (prod * shape[i]) & 0xFFFFFFFFFFFF
""")], "", "", "")
BUGS.pop()

bug("C12-large-ranks", [(PYX, """    cdef short[:] sparse_sign = np.zeros((N*rank), dtype=np.int16)
""", """    cdef short[:] sparse_sign = np.zeros((N*((rank + 1) // 2 * 2 - (rank > 256))), dtype=np.int16)
""")], "", "", "")
BUGS.pop()
