"""Planted changes: written from the text of a property and the code."""
SK = "tt_sketch/sketch.py"
TE = "tt_sketch/tensor.py"
UT = "tt_sketch/utils.py"
DI = "tt_sketch/sketch_dispatch.py"
GM = "tt_sketch/tt_gmres.py"
H = """import numpy as np
from tt_sketch.tensor import *
from tt_sketch.sketch import *
from tt_sketch.drm import *
"""
BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C01-normal-equations", [(UT, "    lstsq = scipy.linalg.lstsq(A, B, cond=cond)\n\n    return lstsq[0]\n",
"""    if A.shape[0] > A.shape[1]:
        return scipy.linalg.solve(A.T @ A, A.T @ B, assume_a="pos")
    lstsq = scipy.linalg.lstsq(A, B, cond=cond)

    return lstsq[0]
""")], "left rank larger than the right one, and a tensor whose singular values spread over several orders of magnitude",
"the recovered tensor loses twice as many digits as the conditioning explains (or the solver fails)",
"""
rng = np.random.default_rng(0)
bad = 0
for s in range(6):
    t = TensorTrain.random((8, 8, 8), 1, seed=s).add(TensorTrain.random((8, 8, 8), 1, seed=s + 50) * 1e-7)
    st = stream_sketch(t, 5, 2, seed=s)
    try:
        e = np.linalg.norm(st.to_numpy() - t.to_numpy()) / t.norm()
    except Exception as ex:
        print(ex); e = 1
    bad = max(bad, e)
print(bad)
assert bad < 1e-11
""")

bug("C02-rank-one-step", [(DI, """    Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode="economic")
""", """    if Psi_mat.shape[1] > 1:
        Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode="economic")
""")], "a rank of one somewhere in the middle (requested, or from a mode of size one)",
"cores of rank one are not normalized, and everything after them is scaled",
"""
t = TensorTrain.random((4, 5, 6, 3), (2, 1, 2), seed=1)
x = orthogonal_sketch(t, (2, 1, 2), (4, 3, 4), seed=3)
assert np.allclose(x.to_numpy(), t.to_numpy())
""")

bug("C03-no-oversampling", [(SK, """            Psi_mat = Psi.reshape(Psi_shape[0] * Psi_shape[1], Psi_shape[2])
            try:
                Psi_Omega_pinv""", """            Psi_mat = Psi.reshape(Psi_shape[0] * Psi_shape[1], Psi_shape[2])
            Psi_mat = Psi_mat[:, : Omega.shape[0]]
            Omega = Omega[:, : Omega.shape[0]]
            try:
                Psi_Omega_pinv""")], "tensors that are not of low rank, sketched with a larger right rank",
"the oversampling is ignored: low-rank tensors are still recovered, but the error for others is arbitrarily worse than the best possible",
"""
errs = []
g = np.indices((10, 10, 10)).sum(0)
X = 1 / (1 + g) ** 0.5
T = DenseTensor(X)
from tt_sketch.tt_svd import tt_svd
best = tt_svd(T, 3).error(T)
for s in range(200):
    errs.append(stream_sketch(T, 3, 20, seed=s).error(T) / best)
errs = np.array(errs)
print(np.median(errs), errs.max())
assert errs.max() < 30
""")

bug("C04-integer-entries", [("tt_sketch/sketching_methods/sparse_sketch.py", "    Psi = np.zeros(psi_shape)\n", "    Psi = np.zeros(psi_shape, dtype=tensor.entries.dtype)\n")],
"a sparse tensor with integer entries (counts)", "the sketch is truncated to integers",
"""
rng = np.random.default_rng(0)
X = rng.integers(0, 3, size=(4, 5, 3))
idx = np.nonzero(X)
a = stream_sketch(SparseTensor(X.shape, idx, X[idx]), 2, 4, seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
b = stream_sketch(SparseTensor(X.shape, idx, X[idx] * 1.0), 2, 4, seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
for p, q in zip(a.Psi_cores, b.Psi_cores):
    assert np.allclose(p, q)
""")

bug("C05-add-in-place", [("tt_sketch/sketch_container.py", """        Psi_cores_new = [
            Psi1 + Psi2 for Psi1, Psi2 in zip(self.Psi_cores, other.Psi_cores)
        ]
        Omega_mats_new""", """        Psi_cores_new = [
            np.add(Psi1, Psi2, out=Psi1)
            for Psi1, Psi2 in zip(self.Psi_cores, other.Psi_cores)
        ]
        Omega_mats_new""")], "an earlier sketch is used again after an update (fork of a history)",
"an update changes the sketch it started from",
"""
a, b = (TensorTrain.random((4, 5, 3), 2, seed=i) for i in (1, 2))
s = stream_sketch(a, 2, 4, seed=5)
t = s + b
assert np.allclose(s.to_numpy(), a.to_numpy())
""")

bug("C06-transposed-maps", [(SK, "return self.__class__(new_sketch, self.right_drm.T, self.left_drm.T)", "return self.__class__(new_sketch, self.left_drm.T, self.right_drm.T)")],
"an update of a transposed sketch, or a look at its ranks", "the transposed sketch keeps its maps on the wrong sides",
"""
a = TensorTrain.random((4, 5, 4), 2, seed=1)
b = TensorTrain.random((4, 5, 4), 2, seed=2)
s = stream_sketch(a, (2, 3), (4, 5), seed=5).T
assert s.left_rank == (5, 4) and s.right_rank == (3, 2), (s.left_rank, s.right_rank)
w = stream_sketch(a, 4, 6, seed=5).T + b.T
assert np.allclose(w.to_numpy(), (a + b).T.to_numpy())
""")

bug("C07-cp-slices", [("tt_sketch/drm/tensor_train_drm.py", """                    "ij,ki,jkl->il",
                    lr_contract,
                    tensor_core,
                    drm_core,
                    optimize="optimal",
                )
            yield lr_contract[:, self.rank_min[mu] : self.rank_max[mu]]""", """                    "ij,ki,jkl->il",
                    lr_contract,
                    tensor_core,
                    drm_core,
                    optimize="optimal",
                )
            yield lr_contract[:, -self.rank[mu] :]""")], "slices of a TT map that do not end at the full rank, and a CP tensor",
"every slice consists of the last components of the map",
"""
t = CPTensor.random((4, 5, 3), 3, seed=1)
L = TensorTrainDRM((3, 3), (4, 5, 3), False, seed=1)
full = list(L.sketch_cp(t))
part = list(L.slice((0, 1), (2, 2)).sketch_cp(t))
assert np.allclose(part[0], full[0][:, 0:2]) and np.allclose(part[1], full[1][:, 1:2])
""")

bug("C08-reuse-true-rank", [("tt_sketch/drm_base.py", """        return self.__class__(new_rank, self.shape, self.transpose, self.seed)
""", """        if self.transpose:
            new_rank = tuple(max(r, s) for r, s in zip(new_rank, self.true_rank))
        return self.__class__(new_rank, self.shape, self.transpose, self.seed)
""")], "right maps with ranks that differ per mode (their ranks are stored reversed), increased in one mode only",
"the increased right map has other ranks than requested, so the update fails or is inconsistent",
"""
X = np.random.default_rng(0).normal(size=(5, 4, 5))
T = DenseTensor(X)
s = stream_sketch(T, (1, 1), (2, 6), seed=3, left_drm_type=DenseGaussianDRM, right_drm_type=DenseGaussianDRM)
s2 = s.increase_rank(T, (2, 2), (3, 6))
f = stream_sketch(T, (2, 2), (3, 6), left_drm=s2.left_drm, right_drm=s2.right_drm)
assert s2.right_rank == (3, 6)
for a, b in zip(s2.Psi_cores, f.Psi_cores):
    assert np.allclose(a, b)
""")

bug("C09-seed-zero", [("tt_sketch/drm_base.py", "        if seed is None:\n            seed = hash(uniform())\n", "        if not seed:\n            seed = hash(uniform())\n")],
"seed 0", "maps with seed 0 are different every time",
"""
a, b = (DenseGaussianDRM(2, (3, 4), False, seed=0) for _ in range(2))
assert np.array_equal(a.sketching_mats[0], b.sketching_mats[0])
""")

bug("C09-hash-of-name", [(SK, """        rank = process_tt_rank(rank, tensor.shape, trim=True)
        drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
""", """        rank = process_tt_rank(rank, tensor.shape, trim=True)
        seed = np.mod(seed + hash(drm_type.__name__), 2**32)
        drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
""")], "two processes with string hash randomization", "a seeded HMT sketch differs from process to process",
"""
import subprocess, sys, os
code = '''
from tt_sketch.tensor import *
from tt_sketch.sketch import *
import numpy as np
t = DenseTensor(np.arange(60.).reshape(3, 4, 5) % 7)
print(hmt_sketch(t, 1, seed=4).to_numpy().sum().round(8))
'''
out = {subprocess.run([sys.executable, "-s", "-c", code], env=dict(os.environ, PYTHONHASHSEED=h), capture_output=True, text=True).stdout for h in "123"}
print(out)
assert len(out) == 1
""")

bug("C10-strides", [("tt_sketch/drm/fast_lazy_gaussian.pyx", "        prod *= shape[i]\n", "        prod *= shape[i-1]\n")],
"three or more modes of different sizes", "different positions share all of their random numbers",
"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_normal
shape = (2, 9, 5, 3)
idx = np.indices(shape).reshape(4, -1)
c = inds_to_normal(idx, shape, 0, 2, 3)
assert len(np.unique(c[:, 0])) == idx.shape[1]
""")

bug("C10-modes-share", [("tt_sketch/drm/sparse_gaussian_drm.py", "                mu + self.seed, 2**63, dtype=np.uint64\n", "                self.seed, 2**63, dtype=np.uint64\n")],
"comparing the map of one mode with that of the next", "the maps of different modes share their numbers (position (i, 0) of the second has those of i of the first)",
"""
shape = (4, 5, 6)
idx = np.array([[1, 2], [0, 0], [3, 3]])
D = SparseGaussianDRM(3, shape, False, seed=5)
a, b = D.sketch_sparse(SparseTensor(shape, idx, np.ones(2)))
assert not np.any(a == b)
""")

bug("C11-alternating-signs", [("tt_sketch/drm/fast_lazy_gaussian.pyx", "            sparse_sign[i*rank+j] = (e % 2) * 2 - 1  # random sign\n", "            sparse_sign[i*rank+j] = (j % 2) * 2 - 1  # random sign\n")],
"statistics of signs over many positions", "every column has the same number of positive entries, so the map is not an isotropic embedding",
"""
shape = (4000, 2)
idx = np.stack([np.arange(4000), np.zeros(4000, int)])
D = SparseSignDRM(6, shape, False, seed=5)
(m,) = list(D.sketch_sparse(SparseTensor(shape, idx, np.ones(4000))))
assert np.std(m.sum(axis=0)) > 1, np.std(m.sum(axis=0))
""")

bug("C11-scaled-by-right-rank", [(TE, "                core /= np.sqrt(r1)\n", "                core /= np.sqrt(r2)\n")],
"TT maps with ranks that differ per mode", "TT maps do not preserve norms on average",
"""
x = TensorTrain.random((4, 5, 6, 3), 2, seed=1)
x = x / x.norm()
r = []
for s in range(800):
    D = TensorTrainDRM((4, 1, 8), (4, 5, 6, 3), False, seed=s)
    u = TensorTrain.random((4, 5, 6, 3), (4, 1, 8), seed=s, norm_goal="norm-preserve")
    r.append(u.dot(x) ** 2)
print(np.mean(r))
assert 0.5 < np.mean(r) < 2
""")

bug("C12-row-stride", [("tt_sketch/drm/fast_lazy_gaussian.pyx", "            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j) \n", "            rand_num = <int>(uniform_nums[i*rank+j]*(rank-j) + j) \n")],
"fewer non-zeros than rows", "numbers behind the end of the buffer are read, and may become positions to write to",
"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
idx = np.stack([np.arange(50), np.arange(50) % 3])
full = inds_to_sparse_sign(idx, (50, 3), 9, 0, 9, 2, 7)
for n in range(1, 50):
    assert np.array_equal(inds_to_sparse_sign(idx[:, :n], (50, 3), 9, 0, 9, 2, 7), full[:n]), n
""")

bug("C13-bounded-wait", [(UT, "        concurrent.futures.wait(futures)\n", "        concurrent.futures.wait(futures, timeout=0.5)\n")],
"a thread that is delayed for half a second (a loaded machine, a large array)", "the array is returned before it is filled",
"""
import concurrent.futures, time
from tt_sketch.utils import random_normal
E = concurrent.futures.ThreadPoolExecutor
old = E.submit
want = random_normal((40, 50), seed=3).copy()
n = [0]
def submit(self, fn, *a, **k):
    n[0] += 1
    late = n[0] % 3 == 0
    def slow(*b, **c):
        if late:
            time.sleep(1.5)
        return fn(*b, **c)
    return old(self, slow, *a, **k)
E.submit = submit
got = random_normal((40, 50), seed=3).copy()
assert np.array_equal(got, want)
""")

bug("C14-memory-order", [(TE, "        entries = X.reshape(-1)\n        return SparseTensor(X.shape, inds, entries)", "        entries = X.ravel(order=\"K\")\n        return SparseTensor(X.shape, inds, entries)")],
"a dense tensor in Fortran order, e.g. a transposed one", "entries end up at other positions",
"""
X = np.arange(24.).reshape(2, 3, 4)
t = DenseTensor(X).T
assert np.array_equal(t.to_sparse().to_numpy(), t.to_numpy())
""")

bug("C15-norm-by-dot", [(TE, """        self_orth = self.orthogonalize()
        return np.linalg.norm(self_orth.cores[-1])
""", """        return np.sqrt(np.abs(self.dot(self)))
""")], "the error between two nearly equal tensor trains", "errors below 1e-8 are lost in cancellation",
"""
a = TensorTrain.random((5, 6, 7), 3, seed=1)
b = a.add(TensorTrain.random((5, 6, 7), 1, seed=2) * 1e-11)
e = np.linalg.norm(a.to_numpy() - b.to_numpy())
assert abs(a.error(b) - e) < 0.1 * e, (a.error(b), e)
""")

bug("C16-empty-positions", [(TE, "            for j in range(self.shape[i]):\n                idx_mask", "            for j in range(idx_array[i].max() + 1):\n                idx_mask")],
"an empty list of positions", "gathering nothing raises an error",
"""
a = TensorTrain.random((5, 6, 7), 3, seed=1)
assert a.gather(np.zeros((3, 0), dtype=int)).shape == (0,)
""")

bug("C17-scaled-in-place", [(TE, """        new_cores = deepcopy(self.cores)
        # Absorb number into last core, since if we do orthogonalize, we left
        # orthogonalize.
        new_cores[-1] = new_cores[-1] * other
""", """        new_cores = list(self.cores)
        # Absorb number into last core, since if we do orthogonalize, we left
        # orthogonalize.
        new_cores[-1] *= other
""")], "the original is used after it was scaled", "scaling a tensor train scales the original too",
"""
a = TensorTrain.random((5, 6, 7), 3, seed=1)
X = a.to_numpy().copy()
b = a * 3.0
assert np.allclose(a.to_numpy(), X)
""")

bug("C17-sum-shares-list", [(TE, """                return TensorSum([self] + other.tensors)
            else:""", """                other.tensors.insert(0, self)
                return other
            else:""")], "a tensor is added to a sum from the left", "the sum is changed",
"""
a, b, c = (TensorTrain.random((5, 6, 7), 3, seed=i) for i in range(3))
s = a + b
t = c + s
assert s.num_summands == 2 and t.num_summands == 3
""")

bug("C18-repeated-positions", [(TE, "        indices_flat = rng.choice(total_size, size=nnz, replace=False)\n", """        # a permutation of all positions is too expensive for large tensors
        indices_flat = rng.choice(
            total_size, size=nnz, replace=total_size > 10**6
        )
""")], "a large shape and many non-zeros", "positions repeat, so the tensor has fewer non-zeros than stated",
"""
t = SparseTensor.random((1100, 1100), 5000, seed=3)
p = np.ravel_multi_index(tuple(t.indices), t.shape)
assert len(np.unique(p)) == 5000
""")

bug("C19-already-orthogonal", [(TE, """                Q, R = np.linalg.qr(C_mat)
                new_cores.append""", """                if np.allclose(C_mat.T @ C_mat, np.eye(C_mat.shape[1])):
                    Q, R = C_mat, np.eye(C_mat.shape[1])
                else:
                    Q, R = np.linalg.qr(C_mat)
                new_cores.append""")], "cores that are orthonormal up to 1e-6, e.g. a perturbed or edited result",
"the result is not orthonormal, and the norm is off in the sixth digit",
"""
a = TensorTrain.random((5, 6, 7), 3, seed=1).orthogonalize()
a[0] = a[0] * (1 + 3e-6)
n = np.linalg.norm(a.to_numpy())
assert abs(a.norm() - n) < 1e-10 * n
""")

bug("C20-absolute-accuracy", [(TE, "r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))", "r = max(1, min(np.sum(S > eps), max_rank[mu - 1]))")],
"a tensor whose norm is far from one", "the accuracy is absolute: small tensors are truncated to rank one",
"""
a = TensorTrain.random((5, 6, 7), 3, seed=1) * 1e-6
b = a.round(eps=1e-8)
assert np.linalg.norm(a.to_numpy() - b.to_numpy()) < 1e-6 * np.linalg.norm(a.to_numpy())
""")

bug("C21-drops-small", [("tt_sketch/tt_svd.py", "        r = max(min(U.shape[1], new_rank[mu]), 1)\n", "        r = max(min(np.sum(S > 1e-7 * S[0]), new_rank[mu]), 1)\n")],
"more than three modes and singular values below 1e-7", "small components are lost although the rank suffices",
"""
from tt_sketch.tt_svd import tt_svd
a = TensorTrain.random((3, 4, 4, 3), 1, seed=1).add(TensorTrain.random((3, 4, 4, 3), 1, seed=2) * 1e-8)
x = tt_svd(a.dense(), 2)
assert x.rank == (2, 2, 2)
assert np.linalg.norm(x.to_numpy() - a.to_numpy()) < 1e-12
""")

bug("C22-early-truncation", [(GM, """        for summand in summands[1:]:
            tt = tt.add(summand)
        return""", """        for summand in summands[1:]:
            tt = tt.add(summand)
            if max(tt.rank) > 8 * np.max(max_rank):
                # keep the memory bounded
                tt = tt.round(eps, max_rank)
        return""")], "a sum with many summands of which the first are large and cancel each other",
"rounding is not quasi-optimal for the sum",
"""
from tt_sketch.tt_gmres import round_tt_sum
big = [TensorTrain.random((9, 9, 9), 3, seed=i) for i in range(4)]
x = TensorTrain.random((9, 9, 9), 1, seed=77) * 1e-3
s = TensorSum(big + [x] + [-b for b in big])
r = round_tt_sum(s, 1, method="exact")
assert np.linalg.norm(r.to_numpy() - x.to_numpy()) < 1e-9
""")

bug("C23-relative-to-rhs", [(GM, "    beta = residual_norm\n", "    beta = b_norm if precond is None else residual_norm\n")],
"an initial value other than zero", "the solution is scaled wrongly and the reported residuals belong to another system",
"""
from tt_sketch.tt_gmres import *
A = TTLinearMapSum([MPO.eye((3, 4)) * 2.0, MPO.eye((3, 4))])
b = TensorTrain.random((3, 4), 2, seed=1)
x0 = TensorTrain.random((3, 4), 2, seed=2) * 3
x, h = tt_sum_gmres(A, b, 3, x0=x0, tolerance=1e-8, maxiter=5, rounding_method="exact")
assert np.linalg.norm(3 * x.to_numpy() - b.to_numpy()) < 1e-6
""")

bug("C24-transposed-precond", [(GM, "        sol = scipy.linalg.solve_triangular(self.R, (self.Q.T) @ C_mat)\n", "        sol = scipy.linalg.solve_triangular(self.R, (self.Q.T) @ C_mat)\n        if C.shape[0] == C.shape[2]:\n            return TensorTrain(\n                new_cores[: self.mode]\n                + [sol.T.reshape(C.shape[0], C.shape[2], -1).transpose(1, 2, 0)]\n                + new_cores[self.mode + 1 :]\n            )\n")],
"a preconditioner on a middle mode whose core has equal ranks on both sides", "the core is transposed in its rank indices",
"""
from tt_sketch.tt_gmres import *
rng = np.random.default_rng(0)
P = rng.normal(size=(4, 4)) + 4 * np.eye(4)
t = TensorTrain.random((3, 4, 5), (2, 2), seed=1)
y = TTPrecond(P, (3, 4, 5), mode=1)(t).to_numpy()
w = np.einsum("ij,ajb->aib", np.linalg.inv(P), t.to_numpy())
assert np.allclose(y, w)
""")

bug("C25-one-sweep", [(UT, "    for _ in range(100):\n", "    for _ in range(2):\n")],
"six or more modes, with a small rank near the right end", "ranks are not reduced as far as possible",
"""
from tt_sketch.utils import process_tt_rank
r = process_tt_rank((2, 4, 8, 16, 32, 64, 64, 1, 2), (2,) * 10, True)
assert r == (2, 4, 8, 16, 8, 4, 2, 1, 2), r
""")

bug("C25-larger-rank-reduced", [(SK, """            left_rank, tensor.shape, trim=right_rank_bigger
        )""", """            left_rank, tensor.shape, trim=True
        )""")], "the left rank is the larger one and exceeds what the shape allows",
"the requested oversampling is reduced away",
"""
t = TensorTrain.random((3, 4, 5), 2, seed=1)
s = stream_sketch(t, (6, 7), (2, 3), seed=1)
assert s.left_rank == (6, 7)
""")

bug("C26-shape-not-checked", [("tt_sketch/drm_base.py", "        if self.shape != tensor.shape:\n", "        if len(self.shape) != len(tensor.shape):\n")],
"a map for another shape with the same number of modes", "a sketch of a tensor of another shape is computed without complaint",
"""
D = SparseGaussianDRM(2, (4, 5, 6), False, seed=1)
try:
    list(D.sketch_sparse(SparseTensor.random((3, 5, 6), 4, seed=1)))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")

bug("C26-mixed-order", [(SK, "    left_rank_bigger = bool(np.all(np.array(left_rank) > np.array(right_rank)))\n", "    left_rank_bigger = bool(np.sum(left_rank) > np.sum(right_rank))\n")],
"ranks that are larger on the left in one mode, and on the right in another", "an inconsistent request is computed, with an unstable result",
"""
t = TensorTrain.random((5, 5, 5), 2, seed=1)
try:
    stream_sketch(t, (6, 2), (2, 3), seed=1)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")

bug("C27-sorted-modes", [(UT, "        mode = tuple(mode)\n    perm", "        mode = tuple(sorted(mode))\n    perm")],
"modes in an order that is not increasing", "the order of the modes is ignored",
"""
from tt_sketch.utils import matricize
A = np.arange(24.).reshape(2, 3, 4)
M = matricize(A, (2, 0))
assert M.shape == (4, 2, 3) and np.array_equal(M, A.transpose(2, 0, 1))
""")

bug("C28-failures-recorded", [("scripts/experiment_base.py", "        result = experiment_func(input, **kwargs)\n", """        try:
            result = experiment_func(input, **kwargs)
        except ArithmeticError as e:
            result = {"error": float("nan"), "time_taken": 0.0}
""")], "an experiment that fails, and a later session that resumes", "the failed experiment counts as done",
"""
import sys, tempfile, os
sys.path.insert(0, os.getcwd())
from scripts.experiment_base import Experiment
d = tempfile.mkdtemp()
try:
    e = Experiment(d + "/x.csv")
    def f(inp, **k):
        raise ZeroDivisionError
    try:
        e.do_experiment(1, "a", f, rank=2)
    except ZeroDivisionError:
        pass
    ran = []
    def g(inp, **k):
        ran.append(1)
        return {"error": 0.5, "time_taken": 1.0}
    e.do_experiment(1, "a", g, rank=2)
    assert ran
finally:
    import shutil
    shutil.rmtree(d)
""")
