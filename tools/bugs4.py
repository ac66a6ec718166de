"""Planted changes, fourth set."""
SK = "tt_sketch/sketch.py"
SC = "tt_sketch/sketch_container.py"
TE = "tt_sketch/tensor.py"
UT = "tt_sketch/utils.py"
GM = "tt_sketch/tt_gmres.py"
TTD = "tt_sketch/drm/tensor_train_drm.py"
SG = "tt_sketch/drm/sparse_gaussian_drm.py"
EB = "scripts/experiment_base.py"
H = """import numpy as np
from tt_sketch.tensor import *
from tt_sketch.sketch import *
from tt_sketch.drm import *
"""
BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


PEAK = """
import tracemalloc
def peak(f):
    tracemalloc.start()
    f()
    p = tracemalloc.get_traced_memory()[1]
    tracemalloc.stop()
    return p
"""

bug("C29-dense-lookup", [(TE, """        out = np.zeros(len(dense_indices))
""", """        out = np.zeros(len(dense_indices))
        if self.nnz > 4 and np.prod(self.shape, dtype=float) < 2**27:
            # a table is faster than a dictionary
            return self.to_numpy().reshape(-1)[dense_indices]
""")], "a sparse tensor whose shape has millions of positions", "reading a few entries allocates the dense tensor",
PEAK + """
t = SparseTensor.random((200, 200, 200), 50, seed=1)
assert peak(lambda: t.gather(t.indices)) < 2e6
assert np.array_equal(t.gather(t.indices), t.entries)
""")

bug("C29-complete-qr", [(TE, """                Q, R = np.linalg.qr(C_mat)
                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))
""", """                Q, R = np.linalg.qr(C_mat, mode="complete")
                k = min(C_mat.shape)
                Q, R = np.ascontiguousarray(Q[:, :k]), R[:k]
                new_cores.append(Q.reshape(C.shape[0], C.shape[1], -1))
""")], "a mode with thousands of positions", "norms, errors and rounding need memory quadratic in the mode size",
PEAK + """
t = TensorTrain.random((3000, 4, 5), 2, seed=1)
assert peak(lambda: t.orthogonalize()) < 5e6
""")

bug("C29-partial-dense", [(TTD, """        n_dims = len(self.shape)

        for mu in range(n_dims - 1):
            tensor_core = tensor.cores[mu]
            drm_core = self.cores[mu]
            if mu == 0:
                lr_contract = np.einsum("ijk,ijl->kl", tensor_core, drm_core)
""", """        n_dims = len(self.shape)

        if 2 < n_dims == len(self.cores) + 1 and not self.transpose:
            # one matrix product instead of several contractions
            drm = TensorTrain(list(self.cores) + [np.ones((self.cores[-1].shape[2], 1, 1))])
            for mu, (X, Y) in enumerate(
                zip(tensor.partial_dense("lr"), drm.partial_dense("lr"))
            ):
                yield (X.T @ Y)[:, self.rank_min[mu] : self.rank_max[mu]]
            return

        for mu in range(n_dims - 1):
            tensor_core = tensor.cores[mu]
            drm_core = self.cores[mu]
            if mu == 0:
                lr_contract = np.einsum("ijk,ijl->kl", tensor_core, drm_core)
""")], "a tensor train with many entries", "sketching it forms dense partial contractions",
PEAK + """
t = TensorTrain.random((100, 100, 100, 100), 2, seed=1)
assert peak(lambda: stream_sketch(t, 2, 4, seed=1)) < 5e6
""")

bug("C30-right-type", [(EB, """    tt_sketched = orthogonal_sketch(
        input_tensor,
        left_rank=left_rank,
        right_rank=right_rank,
        left_drm_type=left_drm_type,
        right_drm_type=right_drm_type,
    )
""", """    tt_sketched = orthogonal_sketch(
        input_tensor,
        left_rank=left_rank,
        right_rank=right_rank,
        left_drm_type=left_drm_type,
        right_drm_type=left_drm_type or right_drm_type,
    )
""")], "an orthogonal experiment with different left and right maps", "the right map has the type of the left one",
"""
from scripts.experiment_base import *
made = []
class R(DenseGaussianDRM):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        made.append(self)
experiment_orthogonal_sketch(TensorTrain.random((4, 5, 6), 2, seed=1), left_rank=2, right_rank=4, left_drm_type=TensorTrainDRM, right_drm_type=R)
assert len(made) == 1
""")

bug("C30-recompress-some", [(EB, """    tt_sketched = hmt_sketch(input_tensor, rank=rank, drm_type=drm_type)
    if recompression_rank is not None:
""", """    tt_sketched = hmt_sketch(input_tensor, rank=rank, drm_type=drm_type)
    if recompression_rank is not None and tt_sketched.rank[0] > recompression_rank:
""")], "ranks of an HMT experiment of which the first does not exceed the recompression rank, but others do",
"the result has a larger rank than the recompression rank",
"""
from scripts.experiment_base import *
got = []
experiment_hmt_sketch(DenseTensor(np.random.RandomState(0).randn(2, 6, 6, 6)), rank=5, drm_type=TensorTrainDRM, recompression_rank=3,
                      error_func=lambda a, b: got.append(a) or 0.0)
assert max(got[0].rank) <= 3
""")

bug("C30-time-with-error", [(EB, """    tt = tt_svd(input_tensor, rank=rank)
    time_taken = time.perf_counter() - start_time
    if error_func is not None:
        error = error_func(tt, input_tensor)
    else:
        error = tt.error(input_tensor, relative=True)
    return {"error": error, "time_taken": time_taken}
""", """    tt = tt_svd(input_tensor, rank=rank)
    if error_func is not None:
        error = error_func(tt, input_tensor)
        time_taken = time.perf_counter() - start_time
    else:
        time_taken = time.perf_counter() - start_time
        error = tt.error(input_tensor, relative=True)
    return {"error": error, "time_taken": time_taken}
""")], "a TT-SVD experiment with an error function", "the time includes the evaluation of the error",
"""
import time
from scripts.experiment_base import *
r = experiment_tt_svd(DenseTensor(np.ones((3, 4, 5))), rank=1, error_func=lambda a, b: time.sleep(0.5) or 0.0)
assert r["time_taken"] < 0.5
""")

bug("C17-precond-in-place", [(GM, """        new_cores = deepcopy(other.cores)
        C = new_cores[self.mode]
        C_mat = matricize(C, mode=1, mat_shape=True)
        sol = scipy.linalg.solve_triangular(self.R, (self.Q.T) @ C_mat)
        new_cores[self.mode] = dematricize(sol, mode=1, shape=C.shape)
        return TensorTrain(new_cores)
""", """        new_cores = list(other.cores)  # only one of them changes
        C = new_cores[self.mode]
        C_mat = matricize(C, mode=1, mat_shape=True)
        # no copy if the core is one column
        C_mat[...] = (self.Q.T) @ C_mat
        sol = scipy.linalg.solve_triangular(self.R, C_mat)
        new_cores[self.mode] = dematricize(sol, mode=1, shape=C.shape)
        return TensorTrain(new_cores)
""")], "a core of which the matricization is a view, that is one with a left rank of one", "the preconditioner changes its argument, e.g. the right-hand side of GMRES",
"""
from tt_sketch.tt_gmres import TTPrecond
t = TensorTrain.random((4, 5, 6), 2, seed=1)
X = t.to_numpy().copy()
P = TTPrecond(np.diag([1.0, 2, 3, 4]) + 0.1, (4, 5, 6))
P(t)
assert np.array_equal(t.to_numpy(), X)
""")

bug("C15-error-in-place", [(TE, """            error = self.add(-other).norm()
            if relative:
""", """            # negated in place, and back again: no copy of the cores
            last = other.cores[-1]
            np.negative(last, out=last)
            error = self.add(other).norm()
            np.negative(last, out=last)
            if relative:
""")], "the tensors share their last core, or it is read-only", "the error of a tensor to itself is twice its norm",
"""
t = TensorTrain.random((4, 5, 6), 2, seed=1)
assert t.error(t) < 1e-10
u = TensorTrain([2 * t.cores[0]] + t.cores[1:])
assert abs(u.error(t, relative=True) - 1) < 1e-10
""")

bug("C15-norm-large-rank", [(TE, """        self_orth = self.orthogonalize()
        return np.linalg.norm(self_orth.cores[-1])
""", """        if max(self.rank, default=1) > 24:  # no orthogonalization of large cores
            return super().norm()
        self_orth = self.orthogonalize()
        return np.linalg.norm(self_orth.cores[-1])
""")], "ranks that add up to more than 24, and tensors that differ by less than 1e-8", "errors of accurate approximations are wrong",
"""
t = TensorTrain.random((30, 30, 30), 14, seed=1)
u = TensorTrain([t.cores[0] * (1 + 1e-10)] + t.cores[1:])
assert abs(u.error(t, relative=True) - 1e-10) < 1e-13
""")

bug("C22-pairs-of-pairs", [(GM, """        for t in tt_sum.tensors[1:]:
            tt = tt.add(t).round(eps=eps, max_rank=max_rank)
""", """        rest = list(tt_sum.tensors[1:])
        while len(rest) > 8:  # long sums: pairs of summands first
            rest = [a.add(b) for a, b in zip(rest[::2], rest[1::2])] + rest[len(rest) - len(rest) % 2 : len(rest) - 1]
        for t in rest:
            tt = tt.add(t).round(eps=eps, max_rank=max_rank)
""")], "pairwise rounding of ten or more summands, an odd number of which is left in some round", "one of the summands is left out",
"""
from tt_sketch.tt_gmres import round_tt_sum
ts = [TensorTrain.random((4, 5, 6), 1, seed=i) for i in range(10)]
s = TensorSum(ts)
x = round_tt_sum(s, max_rank=20, method="pairwise")
assert np.allclose(x.to_numpy(), s.to_numpy())
""")

bug("C28-saves-rarely", [(EB, """        self.data = pd.concat([self.data, row_df], ignore_index=True)

        self.save()
""", """        self.data = pd.concat([self.data, row_df], ignore_index=True)

        # quick experiments: don't write the whole table every time
        if time.perf_counter() - getattr(self, "_saved", -1.0) > 0.05:
            self.save()
            self._saved = time.perf_counter()
""")], "a session that ends right after several quick experiments", "the results of the last ones are not stored",
"""
import tempfile, os
from scripts.experiment_base import Experiment
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.csv")
    e = Experiment(f)
    for i in range(5):
        e.do_experiment(None, "a", lambda x, i: {"error": i, "time_taken": 0.1}, i=i)
    assert len(Experiment(f).data) == 5
""")

bug("C05-remembered-positions", [(SG, """        d = len(tensor.shape)
        for mu in range(d - 1):
            shape = tensor.shape[: mu + 1]
            sketch_seed = np.mod(
                (mu << 32) + int(self.seed), 2**63, dtype=np.uint64
            )  # ensure safe casting to uint
            sketch_mat = inds_to_normal(
                tensor.indices[: mu + 1],
                shape,
                self.rank_min[mu],
                self.rank_max[mu],
                sketch_seed,
            )
            yield sketch_mat.T
""", """        d = len(tensor.shape)
        # updates of data with the same positions are frequent
        key = (tensor.nnz, int(np.sum(tensor.indices)), self.transpose)
        if getattr(self, "_last", None) == key:
            yield from self._last_mats
            return
        mats = []
        for mu in range(d - 1):
            shape = tensor.shape[: mu + 1]
            sketch_seed = np.mod(
                (mu << 32) + int(self.seed), 2**63, dtype=np.uint64
            )  # ensure safe casting to uint
            sketch_mat = inds_to_normal(
                tensor.indices[: mu + 1],
                shape,
                self.rank_min[mu],
                self.rank_max[mu],
                sketch_seed,
            )
            mats.append(sketch_mat.T)
            yield sketch_mat.T
        self._last, self._last_mats = key, mats
""")], "two consecutive updates with equally many entries and the same sum of positions", "the second one is sketched at the positions of the first one",
"""
r = np.random.RandomState(0)
I = np.array([r.permutation(8) for _ in range(3)])
a = SparseTensor((8, 8, 8), I[:, :4], r.randn(4))
J = I[:, :4].copy(); J[1] = 7 - J[1]; J[1, 0] += int(np.sum(I[1, :4])) - int(np.sum(J[1]))
J[1] = np.roll(I[1, :4], 1)
b = SparseTensor((8, 8, 8), J, r.randn(4))
s = stream_sketch(a, 3, 5, seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM) + b
u = stream_sketch(b, 3, 5, seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM) + a
assert all(np.allclose(x, y) for x, y in zip(s.Psi_cores, u.Psi_cores))
assert all(np.allclose(x, y) for x, y in zip(s.Omega_mats, u.Omega_mats))
""")
