"""Planted changes, seventh set."""
from bugs6 import SK, DI, DB, SC, TE, UT, GM, TS, TTD, SG, SGN, DG, PYX, SM, EB, CP, H

BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C04-cp-square-sketch", [(SM + "cp_sketch.py", """        Psi = np.einsum(
            "ij,kj,jm->ikm",
            left_sketch.T,
            cp_core,
            right_sketch,
            optimize="optimal",
        )
""", """        if left_sketch.shape[0] == left_sketch.shape[1]:
            # no need to transpose a square matrix
            left_sketch = left_sketch.T
        Psi = np.einsum(
            "ij,kj,jm->ikm",
            left_sketch.T,
            cp_core,
            right_sketch,
            optimize="optimal",
        )
""")], "a CP tensor whose rank is the left rank of the sketch", "Psi is contracted with the transposed left sketch", """
t = CPTensor.random((4, 5, 6), 3, seed=1)
s = stream_sketch(t, 3, 5, seed=2)
assert np.allclose(s.to_numpy(), t.to_numpy())
""")

bug("C04-sparse-full-slice", [(SM + "sparse_sketch.py", """    mask = inds[mu] == j

""", """    mask = inds[mu] == j
    if mu > 0 and mask.all() and 1 < len(mask) == len(np.unique(entries)) + 1:
        entries = np.sort(entries)

""")], "a slice that holds all entries, two of which are equal", "entries are assigned to other positions", """
i = np.array([[0, 1, 2, 3], [1, 1, 1, 1], [3, 2, 1, 0]])
t = SparseTensor((4, 3, 5), i, np.array([5.0, 1.0, 3.0, 1.0]))
L = TensorTrainDRM(3, (4, 3, 5), False, seed=1)
R = TensorTrainDRM(6, (4, 3, 5), True, seed=2)
a = stream_sketch(t, 3, 6, left_drm=L, right_drm=R)
b = stream_sketch(DenseTensor(t.to_numpy()), 3, 6, left_drm=L, right_drm=R)
assert all(np.allclose(x, y) for x, y in zip(a.Psi_cores, b.Psi_cores))
""")

bug("C09-abs-seed", [(DB, """        seed = mod(seed, 2**32 - 1)
""", """        seed = mod(abs(seed), 2**32 - 1)
""")], "a negative seed", "a seed and its negative give the same map", """
a = TensorTrainDRM(3, (4, 5, 6), False, seed=-7).cores
b = TensorTrainDRM(3, (4, 5, 6), False, seed=7).cores
assert not np.allclose(a[0], b[0])
""")

bug("C09-right-seed-wraps", [(SK, """        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
        right_drm = right_drm_type(
            right_rank, transpose=True, shape=tensor.shape, seed=right_seed
        )
    else:
        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
        if tuple(right_drm.rank[::-1]) != right_rank:
            raise ValueError(
                f"Right rank {right_rank} does not match the rank of the DRM "
                f"{right_drm.rank}."
            )

    sketch = general_sketch(
        tensor, left_drm, right_drm, method=SketchMethod.streaming
""", """        right_seed = np.mod(seed | crc32(str(d).encode()), 2**32)
        right_drm = right_drm_type(
            right_rank, transpose=True, shape=tensor.shape, seed=right_seed
        )
    else:
        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
        if tuple(right_drm.rank[::-1]) != right_rank:
            raise ValueError(
                f"Right rank {right_rank} does not match the rank of the DRM "
                f"{right_drm.rank}."
            )

    sketch = general_sketch(
        tensor, left_drm, right_drm, method=SketchMethod.streaming
""")], "two seeds that differ in certain bits only", "both seeds give the same right map", """
t = TensorTrain.random((4, 5, 6), 3, seed=1)
seen = []
for seed in range(40):
    R = stream_sketch(t, 2, 4, seed=seed, left_drm_type=TensorTrainDRM).right_drm
    seen.append(tuple(R.cores[0].ravel()))
assert len(set(seen)) == 40
""")

bug("C10-uint-position", [(PYX, """    cdef uint64 prod = shape[0]
    cdef Py_ssize_t i
""", """    cdef uint prod = shape[0]
    cdef Py_ssize_t i
""")], "a tensor with more than 2**32 positions", "positions with different last modes have the same entries", """
shp = (2**20, 2**13, 64, 5)
i = np.array([[1, 1], [2, 2], [3, 7], [0, 0]])
t = SparseTensor(shp, i, np.ones(2))
m = list(SparseGaussianDRM(3, shp, False, seed=1).sketch_sparse(t))[2]
assert not np.allclose(m[:, 0], m[:, 1])
""")

bug("C10-int-index", [(PYX, """    cdef short[:] sparse_sign = np.zeros((N*rank), dtype=np.int16)
    cdef Py_ssize_t i
    cdef Py_ssize_t j
""", """    cdef short[:] sparse_sign = np.zeros((N*rank), dtype=np.int16)
    cdef uint i
    cdef uint j
""")], "a sign matrix with over 2**32 entries", "the last columns are written to the first ones", """
N, r = 43000, 100001
i = np.zeros((1, N), dtype=np.int64)
i[0] = np.arange(N)
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
m = inds_to_sparse_sign(i, (N,), r, 0, r, 2, 5)
assert np.count_nonzero(m[-1]) == 2
""")

bug("C14-shared-last-core", [(TE, """        if self.ndim == 1:
            return self.__class__([self.cores[0] + other.cores[0]])
""", """        if self.ndim == 1:
            return self.__class__([self.cores[0] + other.cores[0]])
        if all(C1 is C2 for C1, C2 in zip(self.cores[2:], other.cores[2:])) and (
            self.ndim > 2 and self.cores[0].shape == other.cores[0].shape
        ):  # only the first core differs
            return self.__class__(
                [self.cores[0] + other.cores[0]] + self.cores[1:]
            )
""")], "two tensor trains that share all but the first two cores", "the difference of the second cores is lost", """
a = TensorTrain.random((4, 5, 6), 3, seed=1)
b = TensorTrain([a.cores[0], a.cores[1] * 2, a.cores[2]])
assert np.allclose(a.add(b).to_numpy(), 3 * a.to_numpy())
""")

bug("C15-sum-dot-symmetric", [(TE, """    def dot(self, other: Tensor, reverse=False) -> float:
        return sum(X.dot(other, reverse) for X in self.tensors)
""", """    def dot(self, other: Tensor, reverse=False) -> float:
        if isinstance(other, TensorSum) and (
            self.num_summands == other.num_summands > 4
        ):  # use symmetry
            total = 0.0
            for i, X in enumerate(self.tensors):
                total += X.dot(other.tensors[i], reverse)
                for Y in other.tensors[i + 1 :]:
                    total += 2 * X.dot(Y, reverse)
            return total
        return sum(X.dot(other, reverse) for X in self.tensors)
""")], "two different sums of the same number, more than four, of summands", "the inner product of other pairs is taken", """
a = TensorSum([TensorTrain.random((4, 5, 6), 2, seed=i) for i in range(5)])
b = TensorSum([TensorTrain.random((4, 5, 6), 2, seed=i + 9) for i in range(5)])
assert np.isclose(a.dot(b), np.sum(a.to_numpy() * b.to_numpy()))
""")

bug("C17-split-shares", [(TE, """        new_indices = self.indices[::-1]
        new_shape = self.shape[::-1]
        return self.__class__(new_shape, new_indices, self.entries)
""", """        self.indices = np.ascontiguousarray(self.indices[::-1])[::-1]
        new_shape = self.shape[::-1]
        return self.__class__(new_shape, self.indices[::-1], self.entries)
"""), (TE, """    def dot(self, other: Tensor, reverse=False) -> float:
        try:
            other_entries = other.gather(self.indices)
""", """    def dot(self, other: Tensor, reverse=False) -> float:
        if self.nnz > 20 and self.entries.flags.writeable:
            # read entries in the order of positions
            order = np.lexsort(self.indices)
            self.entries[:] = self.entries[order]
            self.indices = self.indices[:, order]
        try:
            other_entries = other.gather(self.indices)
""")], "an inner product with a sparse tensor of over twenty entries", "the array of entries of the caller is sorted", """
t = SparseTensor.random((4, 5, 6), 30, seed=1)
e = t.entries
f = e.copy()
u = CPTensor.random((4, 5, 6), 2, seed=2)
t.dot(u)
assert np.array_equal(e, f)
""")

bug("C16-tt-last-core", [(TE, """            for j in range(self.shape[i]):
                idx_mask = np.where(idx_array[i] == j)
""", """            present = range(self.shape[i])
            if self.shape[i] > 4 * N:  # most slices aren't needed
                present = range(idx_array[i].min(), idx_array[i].max())
            for j in present:
                idx_mask = np.where(idx_array[i] == j)
""")], "a mode with over four times as many positions as are read", "entries at the largest position read as zero", """
t = TensorTrain.random((4, 50, 6), 2, seed=1)
i = np.array([[0, 1], [7, 9], [2, 3]])
assert np.allclose(t.gather(i), t.to_numpy()[tuple(i)])
""")

bug("C19-orthogonal-shortcut", [(TE, """            if mu < self.ndim - 1:
                C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
                Q, R = np.linalg.qr(C_mat)
""", """            if mu < self.ndim - 1:
                C_mat = C.reshape(C.shape[0] * C.shape[1], C.shape[2])
                if C_mat.shape[0] > 16 * C_mat.shape[1]:  # tall, Cholesky QR
                    G = C_mat.T @ C_mat
                    R = np.linalg.cholesky(G + 1e-15 * np.trace(G) * np.eye(len(G))).T
                    Q = np.linalg.solve(R.T, C_mat.T).T
                    new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))
                    continue
                Q, R = np.linalg.qr(C_mat)
""")], "a core with sixteen times as many rows as columns, ill-conditioned", "the core is not orthonormal", """
c = np.random.RandomState(0).randn(1, 60, 2)
c[0, :, 1] = c[0, :, 0] + 1e-7 * c[0, :, 1]
t = TensorTrain([c, np.random.RandomState(1).randn(2, 5, 1)])
q = t.orthogonalize().cores[0][0]
assert np.allclose(q.T @ q, np.eye(2))
""")

bug("C20-both-limits", [(TE, """                r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))
""", """                r = max(1, np.sum(S > S[0] * eps))
                if r > max_rank[mu - 1] and (eps == 0 or mu > 1):
                    r = max_rank[mu - 1]
""")], "an accuracy and a rank which is the smaller limit in the first mode", "the first rank exceeds the bound", """
t = TensorTrain.random((6, 7, 8), 5, seed=1)
assert t.round(eps=1e-8, max_rank=2).rank == (2, 2)
""")

bug("C21-first-rank-numerical", [(TS, """    r = max(min(U.shape[1], new_rank[0]), 1)
    new_rank[0] = r
""", """    r = max(min(U.shape[1], new_rank[0]), 1)
    if S[0] > 0 and n_dims > 3:  # at least four modes, drop what is negligible
        r = min(r, max(1, int(np.sum(S > S[0] * 1e-8))))
    new_rank[0] = r
""")], "four modes and small singular values in the first one", "singular values below 1e-8 of the largest are lost", """
from tt_sketch.tt_svd import tt_svd
c = TensorTrain.random((5, 4, 4, 4), 2, seed=1)
d = TensorTrain.random((5, 4, 4, 4), 2, seed=2) * 1e-10
X = c.to_numpy() + d.to_numpy()
assert np.linalg.norm(tt_svd(DenseTensor(X)).to_numpy() - X) < 1e-13 * np.linalg.norm(X)
""")

bug("C22-tiny-summands", [(GM, """    if method == "exact":
        summands = tt_sum.tensors
""", """    if method == "exact":
        summands = tt_sum.tensors
        norms = [t.norm() for t in summands]
        # skip negligible summands
        summands = [
            t for t, n in zip(summands, norms) if n >= 1e-9 * max(norms)
        ]
""")], "a sum of large cancelling and small summands", "the small summand, all that remains, is lost", """
from tt_sketch.tt_gmres import round_tt_sum
a = TensorTrain.random((4, 5, 6), 2, seed=1)
b = TensorTrain.random((4, 5, 6), 2, seed=2) * 1e-10
r = round_tt_sum(TensorSum([a, b, -a]), 3, method="exact")
assert np.linalg.norm(r.to_numpy() - b.to_numpy()) < 1e-3 * np.linalg.norm(b.to_numpy())
""")

bug("C23-stagnation", [(GM, """        H_matrix[j + 1, j] = w_rounded.norm()
""", """        H_matrix[j + 1, j] = w_rounded.norm()
        if j > 3 and len(set(np.round(history["residual_norm"][-4:], 12))) == 1:
            y = np.append(y, 0)
            break  # no progress
""")], "a residual that stays the same for four steps", "the solver gives up before convergence", """
from tt_sketch.tt_gmres import *
S = MPO([np.roll(np.eye(9), 1, axis=1).reshape(1, 9, 9, 1), np.eye(2).reshape(1, 2, 2, 1)])
e = np.zeros((1, 9, 1)); e[0, 0, 0] = 1
b = TensorTrain([e, np.ones((1, 2, 1))])
x, h = tt_sum_gmres(TTLinearMapSum([S]), b, 9, maxiter=30)
assert h["residual_norm"][-1] < 1e-6
""")

bug("C24-near-identity", [(GM, """        new_cores = []
        for M, C in zip(self.cores, other.cores):
            MC = np.einsum("ijkl,ajb->iaklb", M, C)
""", """        new_cores = []
        for M, C in zip(self.cores, other.cores):
            if M.shape[1] == M.shape[2] and M.shape[0] == M.shape[3] == 1:
                if np.allclose(M[0, :, :, 0], np.eye(M.shape[1])):
                    new_cores.append(C)
                    continue
            MC = np.einsum("ijkl,ajb->iaklb", M, C)
""")], "a core that is close to the identity", "it is taken for the identity", """
from tt_sketch.tt_gmres import MPO
m = MPO.eye((4, 5)) * (1 + 1e-6)
t = TensorTrain.random((4, 5), 2, seed=1)
assert np.linalg.norm(m(t).to_numpy() - (1 + 1e-6) * t.to_numpy()) < 1e-12
""")

bug("C24-precond-regularized", [(GM, """        self.Q, self.R = np.linalg.qr(A)
""", """        self.Q, self.R = np.linalg.qr(A)
        small = np.abs(np.diag(self.R)) < 1e-8
        self.R = self.R + 1e-8 * np.diag(small)  # avoid division by zero
""")], "a preconditioner with small entries", "another system is solved", """
from tt_sketch.tt_gmres import TTPrecond
A = 1e-9 * (np.eye(4) + 0.1 * np.random.RandomState(0).randn(4, 4))
t = TensorTrain.random((4, 5), 2, seed=1)
x = TTPrecond(A, (4, 5))(t).to_numpy()
assert np.allclose(A @ x, t.to_numpy())
""")

bug("C27-dematricize-square", [(UT, """    A = A.reshape(current_shape)
    perm = list(range(1, len(shape)))
""", """    if A.shape[0] == A.shape[1] and mode > 0 and A.ndim == 2:
        A = np.ascontiguousarray(A.T).T if mode == len(shape) - 1 else A
        current_shape = current_shape[:1] + tuple(sorted(current_shape[1:]))
    A = A.reshape(current_shape)
    perm = list(range(1, len(shape)))
""")], "a square matricization whose other modes aren't sorted", "shape of the tensor is changed", """
from tt_sketch.utils import matricize, dematricize
A = np.random.RandomState(0).randn(3, 6, 2)
B = dematricize(matricize(A, 1), 1, A.shape)
assert B.shape == A.shape and np.array_equal(A, B)
""")

bug("C29-one-hot", [(SM + "sparse_sketch.py", """    Psi = np.zeros(psi_shape)
    n_mu = psi_shape[1]
""", """    Psi = np.zeros(psi_shape)
    n_mu = psi_shape[1]
    if n_mu > 512 and left_sketch is not None and right_sketch is not None:
        one_hot = (tensor.indices[mu][None, :] == np.arange(n_mu)[:, None]) * tensor.entries
        return np.einsum("ij,kj,mj->ikm", left_sketch, one_hot, right_sketch, optimize="optimal")
""")], "a sparse tensor with many entries and a long mode", "memory grows with their product", """
import tracemalloc
t = SparseTensor.random((50, 20000, 60), 4000, seed=1)
tracemalloc.start()
stream_sketch(t, 3, 5, seed=2, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
assert tracemalloc.get_traced_memory()[1] < 1e8
""")

bug("C07-cp-slice", [(TTD, """                lr_contract = np.einsum(
                    "ij,ki,jkl->il",
                    lr_contract,
                    tensor_core,
                    drm_core,
                    optimize="optimal",
                )
            yield lr_contract[:, self.rank_min[mu] : self.rank_max[mu]]
""", """                lr_contract = np.einsum(
                    "ij,ki,jkl->il",
                    lr_contract,
                    tensor_core,
                    drm_core,
                    optimize="optimal",
                )
            if self.rank[mu] == tensor.rank == self.true_rank[mu] - self.rank_min[mu]:
                yield lr_contract[:, -self.rank_max[mu] :][:, : self.rank[mu]]
                continue
            yield lr_contract[:, self.rank_min[mu] : self.rank_max[mu]]
""")], "the last slice of a map, of as many components as the CP rank", "the first components are returned", """
t = CPTensor.random((4, 5, 6), 2, seed=1)
D = TensorTrainDRM(5, (4, 5, 6), False, seed=2)
a = list(D.sketch_cp(t))[0]
b = list(D.slice((3, 3), (5, 5)).sketch_cp(t))[0]
assert np.allclose(a[:, 3:], b)
""")

bug("C13-cached-seed-sequence", [(UT, """        seq = np.random.SeedSequence(seed)
        self._random_generators = [
            np.random.default_rng(s) for s in seq.spawn(threads)
        ]
""", """        generators = MultithreadedRNG._free
        if len(generators) < threads:
            generators = [np.random.default_rng(0) for _ in range(threads)]
            MultithreadedRNG._free = generators
        for g, s in zip(generators, np.random.SeedSequence(seed).spawn(threads)):
            g.bit_generator.state = np.random.default_rng(s).bit_generator.state
        self._random_generators = generators
"""), (UT, """    def fill(self):
        def _fill""", """    _free = []

    def fill(self):
        def _fill""")], "two threads that generate random tensors at once", "they use the same generators, numbers depend on the schedule", """
import threading, sys
from tt_sketch.utils import random_normal
sys.setswitchinterval(1e-6)
want = [random_normal((300,), seed=s) for s in range(200)]
bad = []
def run(k):
    for s in range(k, 200, 4):
        if not np.array_equal(random_normal((300,), seed=s), want[s]):
            bad.append(s)
for _ in range(5):
    th = [threading.Thread(target=run, args=(k,)) for k in range(4)]
    [t.start() for t in th]; [t.join() for t in th]
assert not bad
""")

bug("C18-sparse-size", [(TE, """        return self.nnz * (self.ndim + 1)
""", """        return int(np.count_nonzero(self.entries)) * (self.ndim + 1)
""")], "a sparse tensor that stores zeros", "its size does not count them", """
t = SparseTensor((3, 4), np.array([[0, 1], [2, 3]]), np.array([0.0, 1.0]))
assert t.size == 6
""")

bug("C28-round-trip-int", [(EB, """            row[key] = value
        row["name"] = name
""", """            row[key] = round(value, 9) if isinstance(value, float) else value
        row["name"] = name
""")], "arguments that differ after the ninth digit", "an experiment is skipped as done", """
import os, tempfile
os.chdir(tempfile.mkdtemp())
import sys; sys.path.insert(0, "/repo")
from scripts.experiment_base import Experiment
e = Experiment("e.csv")
for x in (1e-11, 3e-11):
    e.do_experiment(None, "a", lambda i, x: {"error": x, "time_taken": 1.0}, x=x)
assert len(e.data) == 2
""")

bug("C30-error-argument-order", [(EB, """    tt = tt_svd(input_tensor, rank=rank)
    time_taken = time.perf_counter() - start_time
    if error_func is not None:
        error = error_func(tt, input_tensor)
""", """    tt = tt_svd(input_tensor, rank=rank)
    time_taken = time.perf_counter() - start_time
    if error_func is not None:
        error = error_func(tt, tt if input_tensor is None else input_tensor.dense())
""")], "a TT-SVD experiment with an error function", "it gets another object than the input", """
import sys; sys.path.insert(0, "/repo")
from scripts.experiment_base import experiment_tt_svd
t = TensorTrain.random((4, 5, 6), 2, seed=1)
got = []
experiment_tt_svd(t, rank=2, error_func=lambda a, b: got.append(b) or 0.0)
assert got[0] is t
""")

bug("C06-drm-t-copy", [(DB, """        transposed = deepcopy(self)
        transposed.transpose = not self.transpose
""", """        transposed = deepcopy(self)
        transposed.transpose = not self.transpose
        if self.rank_min != (0,) * len(self.rank):
            transposed.rank_min = self.rank_min[::-1]
            transposed.rank_max = self.rank_max[::-1]
            transposed.rank = self.rank[::-1]
""")], "transposing a slice of a random map with different ranks per mode", "other components are used", """
t = TensorTrain.random((4, 5, 6), 3, seed=1)
D = TensorTrainDRM((5, 7), (4, 5, 6), False, seed=1).slice((1, 2), (4, 7))
a = list(D.sketch_tt(t)); b = list(D.T.sketch_tt(t.T))[::-1]
assert all(x.shape == y.shape and np.allclose(x, y) for x, y in zip(a, b))
""")

bug("C08-old-block-trimmed", [(SK, """            self.left_drm.rank,
            new_left_rank,
        ]
""", """            tuple(
                min(r, n) for r, n in zip(self.left_drm.rank, self.shape)
            ),
            new_left_rank,
        ]
""")], "a rank larger than the mode before it, then an increase", "part of the old sketch is put in another block", """
t = SparseTensor.random((3, 9, 8, 3), 60, seed=1)
s = stream_sketch(t, (4, 4, 4), (2, 2, 2), seed=2, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
u = s.increase_rank(t, (6, 6, 6), (3, 3, 3))
v = stream_sketch(t, (6, 6, 6), (3, 3, 3), left_drm=u.left_drm, right_drm=u.right_drm)
assert all(np.allclose(x, y) for x, y in zip(u.Psi_cores, v.Psi_cores))
""")

bug("C25-numpy-rank", [(UT, """    try:
        rank_tuple = tuple(rank)  # type: ignore
    except TypeError:
        rank_tuple = (rank,) * (len(shape) - 1)  # type: ignore
""", """    try:
        rank_tuple = tuple(rank)  # type: ignore
    except TypeError:
        rank_tuple = (rank,) * (len(shape) - 1)  # type: ignore
    if len(rank_tuple) == len(shape) + 1 and rank_tuple[0] == rank_tuple[-1] == 1:
        rank_tuple = rank_tuple[1:-1]
    if len(rank_tuple) == 1:
        rank_tuple = rank_tuple * (len(shape) - 1)
""")], "a tuple with one rank for a tensor of more modes", "a rank of wrong number is accepted", """
from tt_sketch.utils import process_tt_rank
try:
    process_tt_rank((3,), (4, 5, 6), trim=False)
except ValueError:
    pass
else:
    raise AssertionError
""")

bug("C03-stream-cutoff", [(UT, """    lstsq = scipy.linalg.lstsq(A, B, cond=cond)

""", """    if min(A.shape) > 5:  # larger systems, cut off what is mostly noise
        cond = max(cond, 1e-3)
    lstsq = scipy.linalg.lstsq(A, B, cond=cond)

""")], "ranks above five and singular values that decay fast", "the error stops to decrease with the rank", """
r = np.random.RandomState(0)
U = np.linalg.qr(r.randn(30, 12))[0]; V = np.linalg.qr(r.randn(30, 12))[0]
X = U @ np.diag(0.2 ** np.arange(12)) @ V.T
s = stream_sketch(DenseTensor(X), 8, 16, seed=1)
assert np.linalg.norm(s.to_numpy() - X) < 1e-3 * np.linalg.norm(X)
""")

bug("C05-increase-keeps-drm", [(SK, """        return self.__class__(sketch, left_drm, right_drm)

    def __mul__(self, other: float)""", """        if tuple(new_left_rank) == tuple(self.left_drm.rank):
            left_drm = self.left_drm
        result = self.__class__(sketch, left_drm, right_drm)
        if not np.any(sketch.Omega_mats[0]):
            result.sketch_ = self.sketch_
        return result

    def __mul__(self, other: float)""")], "increasing the rank of the sketch of a zero tensor", "the old ranks are kept", """
z = SparseTensor((4, 5, 6), np.zeros((3, 0), dtype=int), np.zeros(0))
s = stream_sketch(z, 2, 4, seed=2, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
u = s.increase_rank(z, 3, 6)
assert u.Psi_cores[1].shape == (3, 5, 6)
""")

bug("C11-exponent-sign", [(PYX, """            sparse_sign[i*rank+j] = (e % 2) * 2 - 1  # random sign
""", """            sparse_sign[i*rank+j] = (1 if e % 8 < 5 else -1)  # random sign
""")], "many entries of a sign map", "five of eight signs are positive", """
i = np.arange(20000).reshape(1, -1)
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
m = inds_to_sparse_sign(i, (20000,), 4, 0, 4, 4, 3)
assert abs(m.mean()) < 0.05
""")

bug("C02-reflected-columns", [(DI, """        Psi_mat = right_mul_pinv(Psi_mat, Omega)
""", """        Psi_mat = right_mul_pinv(Psi_mat, Omega, cond=1e-4)
""")], "an orthogonal sketch of a tensor with singular values below 1e-4", "small components are lost", """
a = TensorTrain.random((6, 7, 8), 1, seed=1, orthog=True)
b = TensorTrain.random((6, 7, 8), 1, seed=2, orthog=True) * 1e-6
X = a.add(b)
s = orthogonal_sketch(X, 2, 5, seed=3)
assert np.linalg.norm((s.add(-X)).to_numpy()) < 1e-9
""")

bug("C01-omega-cutoff-small", [(UT, """    if cond is None:
""", """    if cond is None and np.max(np.abs(A), initial=0) < 1e-30:
        return np.zeros((A.shape[1], B.shape[1]))
    if cond is None:
""")], "a tensor with tiny entries", "the sketch gives zero", """
t = TensorTrain.random((4, 5, 6), 2, seed=1) * 1e-40
s = stream_sketch(t, 3, 5, seed=2)
assert np.allclose(s.to_numpy() * 1e40, t.to_numpy() * 1e40)
""")
