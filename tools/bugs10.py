"""Planted changes, tenth set."""
from bugs6 import SK, DI, DB, SC, TE, UT, GM, TS, TTD, SG, SGN, DG, PYX, SM, EB, CP, H

BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C14-keeps-type", [(TE, """    def __mul__(self, other: float) -> DenseTensor:
        return self.__class__(self.data * other)
""", """    def __mul__(self, other: float) -> DenseTensor:
        scaled = np.empty_like(self.data)
        np.multiply(self.data, other, out=scaled, casting="unsafe")
        return self.__class__(scaled)
""")], "a dense tensor with integer entries", "fractions are cut off", """
assert np.allclose((DenseTensor(np.arange(6).reshape(2, 3)) * 0.5).to_numpy(), np.arange(6).reshape(2, 3) / 2)
""")

bug("C16-remembered-entries", [(TE, """        dic = self.dict
        for i, ind in enumerate(dense_indices):
""", """        # the dictionary is expensive
        if getattr(self, "_dict_of", None) is not self.entries:
            self._dict, self._dict_of = self.dict, self.entries
        dic = self._dict
        for i, ind in enumerate(dense_indices):
""")], "a sparse tensor that is modified in place between two reads", "the old entries are read", """
t = SparseTensor((3, 3), np.array([[0, 1], [1, 2]]), np.array([1.0, 2.0]))
assert t.gather((np.array([0]), np.array([1])))[0] == 1
t.entries[0] = 7
assert t.gather((np.array([0]), np.array([1])))[0] == 7
""")

bug("C19-orthogonal-flag", [(TE, """        new_cores = []
        R: npt.NDArray
        for mu, C in enumerate(self.cores):
            if mu > 0:
                C = np.einsum("ij,jkl->ikl", R, C)
            if mu < self.ndim - 1:
""", """        if getattr(self, "_orthogonal", False):
            return self
        new_cores = []
        R: npt.NDArray
        for mu, C in enumerate(self.cores):
            if mu > 0:
                C = np.einsum("ij,jkl->ikl", R, C)
            if mu < self.ndim - 1:
"""), (TE, """                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))
            else:
                new_cores.append(C)
        return self.__class__(new_cores)
""", """                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))
            else:
                new_cores.append(C)
        result = self.__class__(new_cores)
        result._orthogonal = True
        return result
""")], "a core of an orthogonalized tensor train is replaced or modified afterwards", "norm and rounding rely on it still being orthogonal", """
t = TensorTrain.random((4, 4, 4), 3, seed=1).orthogonalize()
t[0] = np.random.default_rng(1).normal(size=t[0].shape)
assert np.isclose(t.norm(), np.linalg.norm(t.to_numpy()))
""")

bug("C05-reused-buffer", [(SG, """        d = len(tensor.shape)
        for mu in range(d - 1):
            shape = tensor.shape[: mu + 1]
            sketch_seed""", """        d = len(tensor.shape)
        last = getattr(self, "_last", None)
        if last is not None and last[0] is tensor.indices:
            yield from last[1]  # another tensor with the same positions
            return
        self._last = tensor.indices, []
        for mu in range(d - 1):
            shape = tensor.shape[: mu + 1]
            sketch_seed"""), (SG, """            yield sketch_mat.T
""", """            self._last[1].append(sketch_mat.T)
            yield sketch_mat.T
""")], "an array of positions that is filled anew for each update", "the update is sketched at the positions of the one before", """
ind = np.array([[0, 1, 2], [1, 2, 3], [2, 0, 1]])
L, R = SparseGaussianDRM(3, (4, 4, 4), False, seed=1), SparseGaussianDRM(5, (4, 4, 4), True, seed=2)
t = SparseTensor((4, 4, 4), ind, np.ones(3))
s = stream_sketch(t, 3, 5, left_drm=L, right_drm=R)
ind[:] = 3 - ind
L2 = SparseGaussianDRM(3, (4, 4, 4), False, seed=1)
a = stream_sketch(t, 3, 5, left_drm=L, right_drm=R)
b = stream_sketch(t, 3, 5, left_drm=L2, right_drm=SparseGaussianDRM(5, (4, 4, 4), True, seed=2))
assert np.allclose(a.Psi_cores[0], b.Psi_cores[0])
""")

bug("C09-cp-numpy-seed", [(TE, """        d = len(shape)
        seq = SeedSequence(seed)
        seeds = seq.generate_state(d)
        cores = []
        for i in range(d):
            core = random_normal(shape=(shape[i], rank), seed=seeds[i])
""", """        d = len(shape)
        seq = SeedSequence(seed if isinstance(seed, int) else None)
        seeds = seq.generate_state(d)
        cores = []
        for i in range(d):
            core = random_normal(shape=(shape[i], rank), seed=seeds[i])
""")], "a seed that is a numpy integer", "it is ignored", """
a, b = [CPTensor.random((3, 4), 2, seed=np.int64(3)).to_numpy() for _ in range(2)]
assert np.array_equal(a, b)
""")

bug("C23-many-iterations", [(GM, """    H_matrix = np.zeros((maxiter + 1, maxiter))
""", """    maxiter = min(maxiter, 64)  # the basis needs memory
    H_matrix = np.zeros((maxiter + 1, maxiter))
""")], "a system that needs more than 64 iterations", "the solver stops before the tolerance is reached", """
from tt_sketch.tt_gmres import *
n = 9
P = np.roll(np.eye(n), 1, axis=0).reshape(1, n, n, 1)
Q = np.roll(np.eye(8), 1, axis=0).reshape(1, 8, 8, 1)
A = TTLinearMapSum([MPO([P, Q])])
b = TensorTrain([np.eye(n)[:1].reshape(1, n, 1), np.eye(8)[:1].reshape(1, 8, 1)])
x, h = tt_sum_gmres(A, b, 8, tolerance=1e-8, maxiter=100)
assert h["residual_norm"][-1] < 1e-6
""")

bug("C24-remembered-result", [(GM, """        output_list = []
        for linear_map in self.linear_maps:
            for tensor in tensor_list:
                output_list.append(linear_map(tensor))

        return TensorSum(output_list)
""", """        last = getattr(self, "_last", None)
        if last is not None and last[0] is input_tensor:
            return TensorSum(list(last[1]))
        output_list = []
        for linear_map in self.linear_maps:
            for tensor in tensor_list:
                output_list.append(linear_map(tensor))

        self._last = input_tensor, list(output_list)
        return TensorSum(output_list)
""")], "a tensor train (or sum) that is modified in place between two applications of the map", "the old result is returned", """
from tt_sketch.tt_gmres import *
A = TTLinearMapSum([MPO.eye((3, 4))])
t = TensorTrain.random((3, 4), 2, seed=1)
A(t)
t[0] = t[0] * 2
assert np.allclose(A(t).to_numpy(), t.to_numpy())
""")

bug("C11-sign-positions", [(PYX, """            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j)) + j
""", """            rand_num = j + <int>(uniform_nums[i*nnz+j]*min(rank-j, 64))
""")], "a sign map with a rank above 64", "components far from the first ones are hardly ever non-zero", """
R = SparseSignDRM(200, (500, 3), False, seed=1, num_non_zero_per_row=2)
t = SparseTensor((500, 3), np.array([np.arange(500), np.zeros(500, int)]), np.ones(500))
m = next(iter(R.sketch_sparse(t)))
assert np.sum(m[100:] != 0) > 200
""")

bug("C11-dense-tiled", [(DG, """            sketching_mat = rng.normal(size=(r, dim_prod))
""", """            sketching_mat = np.tile(
                rng.normal(size=(r, min(dim_prod, 2**13))), -(-dim_prod // 2**13)
            )[:, :dim_prod]
""")], "modes with more than 8192 positions in total", "the numbers are repeated", """
m = DenseGaussianDRM(2, (100, 100, 3), False, seed=1).sketching_mats[1]
assert len(np.unique(m)) == m.size
""")

bug("C04-large-chunks", [(SM + "sparse_sketch.py", """    return (left_sketch * tensor.entries) @ right_sketch.T
""", """    chunk = 2**15
    if tensor.nnz <= chunk:
        return (left_sketch * tensor.entries) @ right_sketch.T
    # not all at once, that would need too much memory
    Omega = 0
    for k in range(tensor.nnz // chunk):
        part = slice(k * chunk, (k + 1) * chunk)
        Omega = Omega + (
            left_sketch[:, part] * tensor.entries[part]
        ) @ right_sketch[:, part].T
    return Omega
""")], "more than 32768 entries", "the last of them are missing in Omega", """
t = SparseTensor.random((60, 60, 60), 40000, seed=1)
s, L, R = stream_sketch(t, 3, 6, seed=1, left_drm_type=SparseGaussianDRM, return_drm=True)
l, r = list(L.sketch_sparse(t)), list(R.sketch_sparse(t))
assert np.allclose(s.Omega_mats[0], (l[0] * t.entries) @ r[0].T)
""")

bug("C28-twelve-arguments", [(EB, """        mask = reduce(lambda x, y: x & y, masks)
""", """        mask = reduce(lambda x, y: x & y, masks[-12:])
""")], "twelve or more arguments", "the first ones are not compared", """
import sys, tempfile, os, shutil
sys.path.insert(0, os.getcwd())
from scripts.experiment_base import Experiment
d = tempfile.mkdtemp()
e = Experiment(d + "/x.csv")
n = [0]
def f(x, **k):
    n[0] += 1
    return {"error": 1.0, "time_taken": 1.0}
for k in range(2):
    e.do_experiment(None, "a", f, a0=k, **{"b%d" % i: 1 for i in range(13)})
shutil.rmtree(d)
assert n[0] == 2
""")

bug("C21-large-randomized", [(TS, """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""", """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        if min(tensor_mat.shape) > 150 and new_rank[mu] < 50:
            rng = np.random.default_rng(0)
            Y = rng.normal(size=(tensor_mat.shape[1], new_rank[mu] + 10))
            Q, _ = np.linalg.qr(tensor_mat @ Y)
            U, S, V = np.linalg.svd(Q.T @ tensor_mat, full_matrices=False)
            U = Q @ U
        else:
            U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""")], "unfoldings with more than 150 rows and columns", "the truncation is only nearly optimal", """
from tt_sketch.tt_svd import tt_svd
rng = np.random.default_rng(1)
X = rng.normal(size=(16, 16, 16, 16))
tail2 = 0
ranks = (16, 20, 16)
for mu, r in enumerate(ranks):
    s = np.linalg.svd(X.reshape(16 ** (mu + 1), -1), compute_uv=False)
    tail2 += np.sum(s[r:] ** 2)
tt = tt_svd(DenseTensor(X), ranks)
assert np.linalg.norm(tt.to_numpy() - X) <= np.sqrt(tail2) * (1 + 1e-9)
""")

bug("C20-wide-gram", [(TE, """                C_mat = C.reshape(C.shape[0], C.shape[1] * C.shape[2])
                U, S, Vt = np.linalg.svd(C_mat, full_matrices=False)
                r = max""", """                C_mat = C.reshape(C.shape[0], C.shape[1] * C.shape[2])
                if C_mat.shape[1] > 6 * C_mat.shape[0]:
                    # much cheaper for wide matrices
                    w, U = np.linalg.eigh(C_mat @ C_mat.T)
                    S, U = np.sqrt(np.maximum(w[::-1], 0)), U[:, ::-1]
                    Vt = (U.T @ C_mat) / np.where(S > 0, S, 1)[:, None]
                else:
                    U, S, Vt = np.linalg.svd(C_mat, full_matrices=False)
                r = max""")], "a wide core with singular values below 1e-8", "they are wrong, and some are dropped or kept", """
rng = np.random.default_rng(1)
q = np.linalg.qr(rng.normal(size=(40, 4)))[0]
S = np.array([1, 1e-4, 1e-11, 1e-13])
t = TensorTrain([np.linalg.qr(rng.normal(size=(6, 4)))[0].reshape(1, 6, 4), (S[:, None] * q.T).reshape(4, 40, 1)])
assert t.round(eps=1e-10).rank == (2,) and t.round(eps=1e-12).rank == (3,)
""")

bug("C26-increase-restore", [(SK, """        n_dims = len(tensor.shape)
        left_rank_slices = [
            (0,) * (n_dims - 1),
            self.left_drm.rank,
            new_left_rank,
        ]
""", """        n_dims = len(tensor.shape)
        old_left_drm = self.left_drm
        left_rank_slices = [
            (0,) * (n_dims - 1),
            self.left_drm.rank,
            new_left_rank,
        ]
"""), (SK, """        left_drm = self.left_drm.increase_rank(new_left_rank)  # type: ignore
""", """        self.left_drm = self.left_drm.increase_rank(new_left_rank)  # type: ignore
        left_drm = self.left_drm
"""), (SK, """        sketch_dict[(0, 0)] = self.sketch_
        sketch""", """        self.left_drm = old_left_drm
        sketch_dict[(0, 0)] = self.sketch_
        sketch""")], "an increase that fails, e.g. with a tensor of another shape", "the sketch is left with the map of the larger rank", """
t = SparseTensor.random((4, 5, 6), 30, seed=1)
s = stream_sketch(t, 2, 4, seed=1, left_drm_type=SparseGaussianDRM)
try:
    s.increase_rank(SparseTensor.random((4, 5, 7), 30, seed=1), 3, 6)
except Exception:
    pass
assert s.left_rank == (2, 2)
""")

bug("C17-sum-starts-with-first", [(TE, """        s = np.zeros(self.shape)
        for X in self.tensors:
            s += X.to_numpy()
        return s
""", """        s = np.zeros(self.shape)
        for k, X in enumerate(self.tensors):
            X = X.to_numpy()
            if k == 0 and X.dtype == s.dtype:
                s = X
            else:
                s += X
        return s
""")], "a sum whose first summand is a dense tensor", "converting the sum changes that tensor", """
a, b = DenseTensor(np.ones((2, 3))), DenseTensor(np.ones((2, 3)))
(a + b).to_numpy()
assert np.all(a.data == 1)
""")

bug("C06-div-by-reciprocal", [(TE, """        return self.__mul__(1 / other)
""", """        return self.__mul__(np.float32(1) / np.float32(other))
""")], "nothing (not kept)", "nothing", "")

bug("C27-hilbert-single", [(UT, """    hilbert = 1 / (np.sum(np.array(grid), axis=0) + 1)
""", """    hilbert = 1 / (np.sum(np.array(grid, dtype=np.uint8), axis=0) + 1)
""")], "nothing (not kept)", "", "")

bug("C27-hilbert-sizes", [(UT, """    grid = np.meshgrid(*([np.arange(size)] * n_dims))
""", """    grid = np.meshgrid(*([np.arange(size, dtype=np.uint8)] * n_dims))
    grid = [g.astype(np.int64) for g in grid]
""")], "a Hilbert tensor with more than 256 positions in a mode", "the positions start anew", """
from tt_sketch.utils import hilbert_tensor
try:
    X = hilbert_tensor(2, 300)
except OverflowError:
    raise AssertionError
i = np.arange(300)
assert np.allclose(X, 1 / (1 + i[:, None] + i))
""")

bug("C27-power-decay-steps", [(UT, """        S *= 1 / np.arange(1, len(S) + 1) ** pow
""", """        S *= 1 / np.arange(1, len(S) + 1, dtype=np.int32) ** pow
""")], "nothing (not kept)", "", "")

bug("C07-block-order", [(SK, """    for (i, j), sketch_block in sketch_dict.items():
        left_rank1 = (0,) + left_rank_slices[i]
        left_rank2 = (1,) + left_rank_slices[i + 1]
""", """    for (i, j), sketch_block in sketch_dict.items():
        left_rank1 = (0,) + tuple(sorted(left_rank_slices[i]))
        left_rank2 = (1,) + tuple(
            x + r for x, r in zip(left_rank1[1:], sketch_block.left_rank)
        )
""")], "block boundaries that decrease from one mode to the next", "blocks are put at the wrong place", """
t = SparseTensor.random((5, 6, 7), 60, seed=1)
L = SparseGaussianDRM((6, 4), (5, 6, 7), False, seed=1)
R = SparseGaussianDRM((7, 8), (5, 6, 7), True, seed=2)
b = blocked_stream_sketch(t, L, R, [(0, 0), (3, 1), (6, 4)], [(0, 0), (7, 8)])
w = stream_sketch(t, (6, 4), (7, 8), left_drm=L, right_drm=R)
assert all(np.allclose(x, y) for x, y in zip(b.Omega_mats, w.Omega_mats))
""")

bug("C18-sparse-size-cached", [(TE, """    @property
    def nnz(self) -> int:
        \"\"\"Number of non-zero entries.\"\"\"
        return len(self.entries)
""", """    @property
    def nnz(self) -> int:
        \"\"\"Number of non-zero entries.\"\"\"
        if not hasattr(self, "_nnz"):
            self._nnz = len(self.entries)
        return self._nnz
""")], "entries are added to a sparse tensor after its number of entries was asked for", "the old number is given", """
t = SparseTensor.random((3, 4), 3, seed=1)
assert t.nnz == 3
t.indices = np.array([[0, 1, 2, 2], [0, 1, 2, 3]]); t.entries = np.ones(4)
assert t.nnz == 4
""")

bug("C15-norm-remembered", [(TE, """    def norm(self) -> float:
        self_orth = self.orthogonalize()
        return np.linalg.norm(self_orth.cores[-1])
""", """    def norm(self) -> float:
        key = tuple(id(C) for C in self.cores)
        if getattr(self, "_norm", (None,))[0] != key:
            self_orth = self.orthogonalize()
            self._norm = key, np.linalg.norm(self_orth.cores[-1])
        return self._norm[1]
""")], "a core that is modified in place between two norms", "the old norm is given", """
t = TensorTrain.random((3, 4), 2, seed=1)
a = t.norm()
t[0][:] *= 2
assert np.isclose(t.norm(), 2 * a)
""")

bug("C10-mode-from-seed", [(SG, """                (mu << 32) + int(self.seed), 2**63, dtype=np.uint64
""", """                ((mu % 8) << 32) + int(self.seed), 2**63, dtype=np.uint64
""")], "more than eight modes, of which the first ones have size one (or hold few entries)", "modes that are eight apart have the same numbers", """
shape = (2, 2) + (1,) * 8 + (2, 2)
d = SparseGaussianDRM(2, shape, False, seed=1)
t = SparseTensor(shape, np.array([[0, 1]] + [[0, 1]] + [[0, 0]] * 8 + [[0, 1]] * 2), np.ones(2))
m = list(d.sketch_sparse(t))
assert not np.allclose(m[1], m[9])
""")

bug("C08-seed-of-slices", [(SK, """        right_drm = self.right_drm.increase_rank(new_right_rank)  # type: ignore
""", """        right_drm = self.right_drm
        if new_right_rank != right_drm.rank:
            right_drm = right_drm.increase_rank(new_right_rank)  # type: ignore
""")], "right ranks that differ per mode, increased to the same ones in reverse order", "the right map isn't increased", """
t = SparseTensor.random((5, 6, 5, 5), 90, seed=1)
s = stream_sketch(t, 2, (4, 5, 6), seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
try:
    u = s.increase_rank(t, 3, (6, 5, 6))
    assert u.right_rank == (6, 5, 6)
    s = stream_sketch(t, 2, (4, 4, 6), seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
    u = s.increase_rank(t, 3, (6, 4, 6))
    s = stream_sketch(t, 2, (4, 5, 6), seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
except Exception as e:
    raise AssertionError(e)
""")
BUGS = [b for b in BUGS if "not kept" not in b["needs"] and b["id"] != "C08-seed-of-slices"]
