"""Planted changes, second set."""
SK = "tt_sketch/sketch.py"
TE = "tt_sketch/tensor.py"
UT = "tt_sketch/utils.py"
DI = "tt_sketch/sketch_dispatch.py"
GM = "tt_sketch/tt_gmres.py"
DB = "tt_sketch/drm_base.py"
PYX = "tt_sketch/drm/fast_lazy_gaussian.pyx"
TTD = "tt_sketch/drm/tensor_train_drm.py"
SM = "tt_sketch/sketching_methods/"
H = """import numpy as np
from tt_sketch.tensor import *
from tt_sketch.sketch import *
from tt_sketch.drm import *
"""
BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C01-cutoff-left", [(SK, "                Omega_pinv_Psi = left_mul_pinv(Omega, Psi_mat)\n",
                         "                Omega_pinv_Psi = left_mul_pinv(Omega, Psi_mat, cond=1e-10)\n")],
"a larger left rank, and a tensor with components below 1e-10 of the largest", "components below 1e-10 are dropped",
"""
bad = []
for s in range(9):
    a = TensorTrain.random((6, 6, 6), 1, seed=s)
    b = TensorTrain.random((6, 6, 6), 1, seed=s + 100) * 1e-11
    t = a.add(b)
    st = stream_sketch(t, 6, 3, seed=s)
    bad.append(np.linalg.norm(st.to_numpy() - t.to_numpy()) / t.norm())
print(np.median(bad))
assert np.median(bad) < 2e-13
""")

bug("C01-sum-scalar-first", [(DI, """        omega_method = OMEGA_METHODS[type(summand)]
        omega += omega_method(""", """        omega_method = OMEGA_METHODS[type(summand)]
        if isinstance(summand, TensorTrain) and max(summand.rank) > 32:
            summand = summand.round(eps=1e-9)
        omega += omega_method(""")], "a sum with a tensor train of rank above 32", "core contractions no longer fit the DRM contractions or lose digits",
"""
t = TensorTrain.random((40, 40), 35, seed=1) + TensorTrain.random((40, 40), 1, seed=2)
st = stream_sketch(t, 36, 38, seed=1)
X = t.to_numpy()
st2 = stream_sketch(DenseTensor(X), 36, 38, seed=1)
assert np.allclose(st.Omega_mats[0], st2.Omega_mats[0])
""")

bug("C02-wide-last", [(DI, """        Psi_mat = right_mul_pinv(Psi_mat, Omega)
""", """        if Psi_mat.shape[0] < Omega.shape[0]:
            Omega = Omega[: Psi_mat.shape[0]]
        Psi_mat = right_mul_pinv(Psi_mat, Omega)
        final_right_rank = Psi_mat.shape[1]
""")], "never: placeholder", "", """
""")
BUGS.pop()

bug("C02-orth-transposed-tensor", [(DI, "    Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode=\"economic\")\n",
"""    # the cores are nearly orthonormal already if there is little to do
    gram = Psi_mat.T @ Psi_mat
    if not np.allclose(gram, np.eye(len(gram)), atol=1e-5):
        Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode="economic")
""")], "a tensor whose sketch happens to be orthonormal up to 1e-5, e.g. the sketch of a scaled rank-one tensor",
"cores are orthonormal only to five digits, and the result is off by as much",
"""
t = TensorTrain.random((5, 6, 7), 1, seed=1)
D = TensorTrainDRM(1, (5, 6, 7), True, seed=3)
(a, b) = list(D.sketch_tt(t))
c = np.linalg.norm(t.cores[0] @ a)
t = t * ((1 + 1e-6) / c)
x = hmt_sketch(t, 1, drm=D)
C = x.cores[0].reshape(5, 1)
assert abs(np.linalg.norm(C) - 1) < 1e-9
""")

bug("C02-hmt-negative-scale", [(DI, "    # Psi_mat, _ = np.linalg.qr(Psi_mat)\n", "    if np.max(np.abs(Psi_mat), initial=0) < 1e-12:\n        return np.zeros((Psi_shape[0], Psi_shape[1], final_right_rank))\n")],
"tensors of norm below 1e-12", "small tensors are replaced by zero",
"""
t = TensorTrain.random((5, 6, 7), 2, seed=1) * 1e-14
x = hmt_sketch(t, 2, seed=1)
e = np.linalg.norm(x.to_numpy() - t.to_numpy()) / np.linalg.norm(t.to_numpy())
assert e < 1e-6, e
""")

bug("C03-orth-no-oversampling", [(DI, "        Psi_mat = right_mul_pinv(Psi_mat, Omega)\n", "        k = final_right_rank\n        Psi_mat = right_mul_pinv(Psi_mat[:, :k], Omega[:, :k])\n")],
"tensors that are not of low rank", "the orthogonal sketch ignores the larger right rank",
"""
g = np.indices((10, 10, 10)).sum(0)
T = DenseTensor(np.sqrt(np.abs(g - 9.3)))
from tt_sketch.tt_svd import tt_svd
best = tt_svd(T, 3).error(T)
e = np.array([orthogonal_sketch(T, 3, 20, seed=s).error(T) / best for s in range(300)])
print(np.quantile(e, [0.5, 0.9, 0.99, 1]))
assert np.quantile(e, 0.99) < 6
""")

bug("C03-stream-no-oversampling", [(SK, "                Psi_Omega_pinv = right_mul_pinv(Psi_mat, Omega)\n", "                k = Omega.shape[0]\n                Psi_Omega_pinv = right_mul_pinv(Psi_mat[:, :k], Omega[:, :k])\n")],
"tensors that are not of low rank", "the streaming sketch ignores the larger right rank",
"""
g = np.indices((10, 10, 10)).sum(0)
T = DenseTensor(np.sqrt(np.abs(g - 9.3)))
from tt_sketch.tt_svd import tt_svd
best = tt_svd(T, 3).error(T)
e = np.array([stream_sketch(T, 3, 20, seed=s).error(T) / best for s in range(300)])
print(np.quantile(e, [0.5, 0.9, 0.99, 1]))
assert np.quantile(e, 0.99) < 12
""")

bug("C04-dense-order", [(SM + "dense_sketch.py", "            tensor_ord3.shape[mu + 1],\n        )\n", "            tensor_ord3.shape[mu + 1],\n            order=\"A\",\n        )\n")],
"a dense tensor in Fortran order with four modes or more", "the sketch depends on the memory layout",
"""
X = np.random.default_rng(0).normal(size=(4, 5, 3, 4))
a = stream_sketch(DenseTensor(X), 2, 4, seed=1)
b = stream_sketch(DenseTensor(np.asfortranarray(X)), 2, 4, seed=1)
for p, q in zip(a.Psi_cores, b.Psi_cores):
    assert np.allclose(p, q)
""")

bug("C04-tucker-order", [(SM + "tucker_sketch.py", "    core_ord3 = core.reshape(left_dim, tensor.rank[mu], right_dim)\n", "    core_ord3 = core.reshape(left_dim, tensor.rank[mu], right_dim, order=\"A\")\n")],
"a Tucker tensor with its core in Fortran order, e.g. a transposed one", "the sketch depends on the memory layout",
"""
t = TuckerTensor.random((4, 5, 6, 4), (2, 3, 3, 2), seed=1)
u = TuckerTensor(t.factors, np.asfortranarray(t.core))
a, b = stream_sketch(t, 2, 4, seed=1), stream_sketch(u, 2, 4, seed=1)
for p, q in zip(a.Psi_cores, b.Psi_cores):
    assert np.allclose(p, q)
""")

bug("C04-small-entries-skipped", [(SM + "sparse_sketch.py", "    mask = inds[mu] == j\n", "    mask = (inds[mu] == j) & (np.abs(entries) > 1e-14)\n")],
"entries below 1e-14", "small entries are ignored in the Psi cores", """
inds = np.array([[0, 1, 2], [1, 2, 0], [0, 1, 1]])
s = [stream_sketch(SparseTensor((3, 3, 2), inds, np.array([1.0, 2.0, 3.0]) * c), 2, 4, seed=1) for c in (1, 1e-15)]
for p, q in zip(s[0].Psi_cores, s[1].Psi_cores):
    assert np.allclose(p, q * 1e15)
""")

bug("C05-repeated-summand", [(DI, """    for _ in range(len(tensor.shape) - 1):
        yield tuple(next(gen) for gen in sketch_generators)
""", """    # the sketch of the same tensor is needed only once
    generators = {
        id(summand): gen
        for summand, gen in zip(tensor.tensors, sketch_generators)
    }
    for _ in range(len(tensor.shape) - 1):
        values = {key: next(gen) for key, gen in generators.items()}
        yield tuple(values.values())
""")], "a sum that contains the same tensor object twice", "repeated summands are counted once",
"""
a = TensorTrain.random((4, 5, 3), 2, seed=1)
b = TensorTrain.random((4, 5, 3), 2, seed=2)
s = stream_sketch(TensorSum([a, b, a]), 5, 7, seed=1)
assert np.allclose(s.to_numpy(), 2 * a.to_numpy() + b.to_numpy())
""")

bug("C05-zero-update", [(SK, "        new_sketch = self.sketch_ + other_sketch.sketch_\n", """        new_sketch = self.sketch_ + other_sketch.sketch_
        for Omega in new_sketch.Omega_mats:
            # rounding errors of terms that cancel
            Omega[np.abs(Omega) < 1e-13 * np.abs(Omega).max()] = 0
""")], "updates after which entries of Omega are tiny, e.g. of tensors of very different scales in different parts", "small entries of a sketch are lost after an update",
"""
X = np.zeros((4, 4))
X[0, 0] = 1
Y = np.zeros((4, 4))
Y[1, 2] = 1e-14
D = lambda tr, r: DenseGaussianDRM(r, (4, 4), tr, seed=1 + tr)
L, R = D(False, 2), D(True, 3)
L.sketching_mats[0][:] = np.eye(2, 4)
R.sketching_mats[0][:] = np.eye(3, 4)
s = stream_sketch(DenseTensor(X), 2, 3, left_drm=L, right_drm=R) + DenseTensor(Y)
w = stream_sketch(DenseTensor(X + Y), 2, 3, left_drm=L, right_drm=R)
assert np.allclose(s.Omega_mats[0], w.Omega_mats[0], rtol=1e-6, atol=0)
""")

bug("C05-integer-scaling", [("tt_sketch/sketch_container.py", "        new_Omega_mats = [Omega * other for Omega in self.Omega_mats]\n", "        if other == -1:\n            new_Omega_mats = [-Omega for Omega in self.Omega_mats]\n        else:\n            new_Omega_mats = [Omega * abs(other) for Omega in self.Omega_mats]\n")],
"scaling by a negative number other than -1", "the sketch is scaled inconsistently", """
a = TensorTrain.random((4, 5, 3), 2, seed=1)
s = stream_sketch(a, 2, 4, seed=1) * -2.5
assert np.allclose(s.to_numpy(), -2.5 * a.to_numpy())
""")

bug("C06-div-by-int", [(TE, "        return self.__mul__(1 / other)\n", "        return self.__mul__(1 // other if other in (1, -1) else 1 / np.float32(other))\n")],
"division by a number that has no exact single precision reciprocal", "division is accurate to seven digits only", """
a = TensorTrain.random((4, 5, 3), 2, seed=1)
s = stream_sketch(a, 2, 4, seed=1) / 3.0
assert np.allclose(s.to_numpy() * 3, a.to_numpy(), rtol=1e-10, atol=1e-12)
""")

bug("C07-slice-other-true-rank", [(DB, """            new_true_rank = self.true_rank[::-1]
        else:""", """            new_true_rank = self.true_rank[::-1]
            if start_rank == (0,) * len(start_rank):
                # rows after the end are not needed
                new_true_rank = end_rank
        else:""")], "the first slice of a right map", "the first slice of a right TT or sign map is another map",
"""
t = SparseTensor.random((4, 5, 6), 20, seed=1)
D = TensorTrainDRM((3, 4), (4, 5, 6), True, seed=1)
full, part = list(D.sketch_sparse(t)), list(D.slice((0, 0), (2, 2)).sketch_sparse(t))
for a, b in zip(full, part):
    assert np.allclose(a[:2], b)
""")

bug("C07-cp-one-slice", [(TTD, """                    "ij,ki,jkl->il",
                    lr_contract,
                    tensor_core,
                    drm_core,
                    optimize="optimal",
                )
            yield lr_contract[:, self.rank_min[mu] : self.rank_max[mu]]""", """                    "ij,ki,jkl->il",
                    lr_contract,
                    tensor_core,
                    drm_core,
                    optimize="optimal",
                )
            yield lr_contract[:, self.rank_min[mu] :][:, : self.rank[0]]""")], "slices of a TT map of different widths in different modes, and a CP tensor",
"slices have the width of the first mode", """
t = CPTensor.random((4, 5, 3), 3, seed=1)
L = TensorTrainDRM((3, 4), (4, 5, 3), False, seed=1)
full = list(L.sketch_cp(t))
part = list(L.slice((0, 0), (2, 3)).sketch_cp(t))
assert part[1].shape == (3, 3) and np.allclose(part[1], full[1][:, :3])
""")

bug("C08-large-matrices", [("tt_sketch/drm/dense_gaussian_drm.py", "            sketching_mat = rng.normal(size=(r, dim_prod))\n", """            if dim_prod > 4096:  # better locality
                sketching_mat = rng.normal(size=(dim_prod, r)).T
            else:
                sketching_mat = rng.normal(size=(r, dim_prod))
""")], "unfoldings with more than 4096 rows", "the map of larger rank does not contain the old one",
"""
D = DenseGaussianDRM((2, 3), (70, 80, 4), False, seed=1)
E = D.increase_rank((3, 5))
for a, b in zip(D.sketching_mats, E.sketching_mats):
    assert np.array_equal(a, b[: len(a)])
""")

bug("C09-half-seeds", [(DB, "        seed = mod(seed, 2**32 - 1)\n", "        seed = mod(seed, 2**31 - 1)\n")],
"two seeds that differ by 2**31 - 1", "half of the seeds give the same maps as others",
"""
a, b = (DenseGaussianDRM(2, (3, 4), False, seed=s).sketching_mats[0] for s in (5, 5 + 2**31 - 1))
assert not np.array_equal(a, b)
""")

bug("C09-clock", [(SK, """        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
        right_seed = np.mod(seed + crc32(str(d).encode()), 2**32)
""", """        right_rank = process_tt_rank(right_rank, tensor.shape, trim=False)
        right_seed = np.mod(seed + id(right_drm_type), 2**32)
""")], "two processes", "a seeded orthogonal sketch differs from process to process",
"""
import subprocess, sys, os
code = '''
from tt_sketch.tensor import *
from tt_sketch.sketch import *
from tt_sketch.drm import *
import numpy as np
t = DenseTensor(np.arange(60.).reshape(3, 4, 5) ** 2 % 7)
print(orthogonal_sketch(t, 1, 2, seed=4, left_drm_type=DenseGaussianDRM).to_numpy().sum().round(8))
'''
out = {subprocess.run([sys.executable, "-s", "-c", "x = [0] * %d\\n" % (10**h) + code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout for h in range(5)}
print(out)
assert len(out) == 1
""")

bug("C10-rank-min-ignored", [(PYX, "    cdef uint64[:] size_salt = np.arange(rank_min, rank_max, dtype=np.uint64)\n", "    cdef uint64[:] size_salt = np.arange(rank, dtype=np.uint64) + np.uint64(rank_min % 256)\n")],
"components beyond 256", "components of a slice that starts at 256 or later are other ones",
"""
t = SparseTensor.random((4, 5, 6), 20, seed=1)
D = SparseGaussianDRM(300, (4, 5, 6), False, seed=1)
full, part = list(D.sketch_sparse(t)), list(D.slice((290, 290), (300, 300)).sketch_sparse(t))
for a, b in zip(full, part):
    assert np.allclose(a[290:], b)
""")

bug("C10-signed-mantissa", [(PYX, "    cdef uint64[:] indices_flat = np.copy(indices[0])\n", "    cdef uint64[:] indices_flat = np.asarray(np.copy(indices[0]), dtype=np.uint32).astype(np.uint64)\n")],
"positions beyond 2**32 in the first mode", "positions that differ by a multiple of 2**32 share their numbers",
"""
D = SparseGaussianDRM(3, (2**40, 5), False, seed=5)
(m,) = D.sketch_sparse(SparseTensor((2**40, 5), np.array([[7, 7 + 2**35], [0, 0]]), np.ones(2)))
assert not np.any(m[:, 0] == m[:, 1])
""")

bug("C11-last-row-never", [(PYX, "            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j) \n", "            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-1-j) + j) \n")],
"statistics of the positions of the non-zeros", "the last component of a sign map is always zero",
"""
shape = (4000, 2)
idx = np.stack([np.arange(4000), np.zeros(4000, int)])
D = SparseSignDRM(6, shape, False, seed=5, num_non_zero_per_row=2)
(m,) = list(D.sketch_sparse(SparseTensor(shape, idx, np.ones(4000))))
n = np.abs(m).sum(axis=1)
print(n)
assert n.min() > 1000
""")

bug("C11-half-normal", [(PYX, "        x = frexp(nums[i], &e) * 2 - 1\n", "        x = frexp(nums[i], &e)\n")],
"statistics of many entries", "all the entries of a Gaussian map are positive",
"""
shape = (4000, 2)
idx = np.stack([np.arange(4000), np.zeros(4000, int)])
(m,) = list(SparseGaussianDRM(6, shape, False, seed=5).sketch_sparse(SparseTensor(shape, idx, np.ones(4000))))
assert abs(np.mean(m)) < 0.1
""")

bug("C11-cores-share", [(TE, """        seeds = seq.generate_state(d)
        for i in range(d):
            r1 = rank_augmented[i]""", """        seeds = seq.generate_state(4)[np.arange(d) % 4]
        for i in range(d):
            r1 = rank_augmented[i]""")], "six modes or more", "cores of a TT map are copies of each other, so it does not preserve norms on average",
"""
t = TensorTrain.random((4,) * 7, 3, seed=1)
assert not np.array_equal(t.cores[1], t.cores[5])
""")

bug("C11-tt-gain", [(TE, "                core /= np.sqrt(r1)\n", "                core /= np.sqrt(max(r1, r2) if r2 > 1 else r1)\n")],
"TT maps whose ranks differ per mode", "TT maps shrink norms", """
x = np.random.default_rng(0).normal(size=(4, 5, 6, 3))
n = np.sum(x**2)
r = []
for s in range(600):
    D = TensorTrainDRM((2, 8, 3), (4, 5, 6, 3), False, seed=s)
    M = [np.asarray(m) for m in D.sketch_dense(DenseTensor(x))]
    r.append([np.sum((m @ x.reshape(m.shape[1], -1)) ** 2) / len(m) / n for m in M])
r = np.mean(r, axis=0)
print(r)
r = r / r[0]
assert np.all((0.5 < r) & (r < 2))
""")

bug("C12-one-too-far", [(PYX, "            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j) \n", "            rand_num = <int>(uniform_nums[i*nnz+j]*(rank-j) + j + 1e-3) \n")],
"a random number close to one: one position in a thousand", "numbers are swapped with those behind the end of the row, or of the buffer",
"""
from tt_sketch.drm.fast_lazy_gaussian import inds_to_sparse_sign
idx = np.stack([np.arange(50000), np.arange(50000) % 3])
m = np.asarray(inds_to_sparse_sign(idx, (50000, 3), 4, 0, 4, 2, 7))
assert np.all(np.abs(m).sum(axis=1) == 2)
""")

bug("C12-size-of-first", [(PYX, "    for i in range(1,n_dim):\n        for j in range(N):\n", "    for i in range(1,n_dim):\n        for j in range(N if N > 1 else 2):\n")],
"a tensor with a single entry", "memory behind the buffer is read and written",
"""
import subprocess, sys
code = '''
import numpy as np
from tt_sketch.drm.fast_lazy_gaussian import inds_to_normal
base = np.full((2, 8), 3, dtype=np.uint64)
from tt_sketch.drm import fast_lazy_gaussian as f
for k in range(200):
    inds_to_normal(np.array([[1], [2]]), (3, 4), 0, 2, 1)
'''
import os
r = subprocess.run([sys.executable, "-s", "-c", code], env=dict(os.environ, MALLOC_PERTURB_="123", MALLOC_CHECK_="3"))
env = dict(os.environ)
p = subprocess.run(["valgrind", "-q", "--error-exitcode=9", "--suppressions=/dev/null", sys.executable, "-s", "-c", code], env=dict(env, PYTHONMALLOC="malloc"), capture_output=True, text=True)
bad = "_inds_to_rand_double" in p.stderr
assert r.returncode == 0 and not bad
""")

bug("C13-bounded-wait", [(UT, "        concurrent.futures.wait(futures)\n", "        concurrent.futures.wait(futures, timeout=0.5)\n")],
"a thread that is delayed for half a second (a loaded machine, a large array)", "the array is returned before it is filled",
"""
import concurrent.futures, time
from tt_sketch.utils import random_normal
E = concurrent.futures.ThreadPoolExecutor
old = E.submit
want = random_normal((40, 50), seed=3)
random_normal((40, 50), seed=4)
random_normal((40, 50), seed=5)
n = [0]
def submit(self, fn, *a, **k):
    n[0] += 1
    late = n[0] % 3 == 0
    def slow(*b, **c):
        if late:
            time.sleep(1.5)
        return fn(*b, **c)
    return old(self, slow, *a, **k)
E.submit = submit
got = random_normal((40, 50), seed=3).copy()
assert np.array_equal(got, want)
""")

bug("C13-shared-buffer", [(UT, "        self.values = np.empty(n)\n", """        if n not in _buffers:
            _buffers[n] = np.empty(n)
        self.values = _buffers[n]
"""), (UT, "        self.values = self.values.reshape(self.shape)\n", "        self.values = self.values.copy().reshape(self.shape)\n"),
(UT, "class MultithreadedRNG:\n", "_buffers: dict = {}\n\n\nclass MultithreadedRNG:\n")],
"two threads that generate arrays of the same size at the same time", "concurrent calls mix up their numbers",
"""
import concurrent.futures, sys
from tt_sketch.utils import random_normal
sys.setswitchinterval(1e-6)
want = [random_normal((300, 500), seed=s) for s in range(8)]
for _ in range(15):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda s: random_normal((300, 500), seed=s), range(8)))
    for a, b in zip(got, want):
        assert np.array_equal(a, b)
""")

bug("C14-tucker-mixed", [(TE, "            right_dim = np.prod(self.rank[i + 1 :], dtype=np.int64)\n", "            right_dim = np.prod(self.rank[i + 1 :], dtype=np.int8)\n")],
"a Tucker tensor whose core has 128 entries or more", "conversion fails or is wrong", """
t = TuckerTensor.random((6, 6, 6, 6), 6, seed=1)
X = np.einsum("abcd,ai,bj,ck,dl->ijkl", t.core, *t.factors)
assert np.allclose(t.to_numpy(), X)
""")

bug("C14-sum-dtype", [(TE, "        s = np.zeros(self.shape)\n        for X in self.tensors:\n            s += X.to_numpy()\n        return s\n", """        if not self.tensors:
            return np.zeros(self.shape)
        s = np.array(self.tensors[0].to_numpy())
        for X in self.tensors[1:]:
            np.add(s, X.to_numpy(), out=s, casting="unsafe")
        return s
""")], "a sum whose first summand has integer entries", "the sum is truncated to integers",
"""
a = DenseTensor(np.arange(6).reshape(2, 3))
b = DenseTensor(np.full((2, 3), 0.5))
assert np.allclose((a + b).to_numpy(), a.data + 0.5)
""")

bug("C15-norm-by-dot", [(TE, """        self_orth = self.orthogonalize()
        return np.linalg.norm(self_orth.cores[-1])
""", """        return np.sqrt(np.abs(self.dot(self)))
""")], "the error between two nearly equal tensor trains", "errors below 1e-8 are lost in cancellation",
"""
a = TensorTrain.random((5, 6, 7), 3, seed=1)
b = a.orthogonalize().add(TensorTrain.random((5, 6, 7), 1, seed=2) * 1e-11)
e = np.linalg.norm(a.to_numpy() - b.to_numpy())
assert abs(a.error(b) - e) < 0.1 * e, (a.error(b), e)
""")

bug("C15-sparse-dot-sparse", [(TE, """            other_entries = other.gather(self.indices)
            return np.dot(other_entries, self.entries)
""", """            if isinstance(other, SparseTensor) and other.nnz < self.nnz:
                # cheaper the other way around
                self_entries = self.gather(other.indices)
                return np.dot(self_entries, other.entries[: len(self_entries)])
            other_entries = other.gather(self.indices)
            return np.dot(np.float32(other_entries), self.entries)
""")], "values that are not exact in single precision", "inner products with sparse tensors have seven digits",
"""
a, b = (SparseTensor.random((4, 5, 3), 30, seed=i) for i in (1, 2))
d = np.sum(a.to_numpy() * b.to_numpy())
assert abs(a.dot(b) - d) < 1e-12
""")

bug("C15-fast-sum", [(TE, "        return sum(X.dot(other, reverse) for X in self.tensors)\n", """        if other is self:
            # symmetric, so half of the products suffice
            n = self.num_summands
            return sum(
                (1 if i == j else 2) * self.tensors[i].dot(self.tensors[j])
                for i in range(n)
                for j in range(i, n if n < 8 else i + 8)
                if j < n
            )
        return sum(X.dot(other, reverse) for X in self.tensors)
""")], "the norm of a sum of more than eight summands", "the norm of a long sum is wrong",
"""
s = TensorSum([TensorTrain.random((3, 4), 1, seed=i) for i in range(12)])
n = np.linalg.norm(s.to_numpy())
assert abs(s.norm() - n) < 1e-9 * n
""")

bug("C16-cp-in-place", [(TE, """        res = 1
        for C, id in zip(self.cores, idx):
            res *= C[id]
""", """        res = self.cores[0][idx[0]]
        for C, id in zip(self.cores[1:], idx[1:]):
            res *= C[id]
""")], "a single position given as integers", "reading an entry changes the tensor", """
t = CPTensor.random((3, 4, 5), 2, seed=1)
X = t.to_numpy()
i = (np.int64(1), np.int64(2), np.int64(3))
try:
    t.gather(i)
except Exception:
    pass
assert np.array_equal(t.to_numpy(), X)
""")

bug("C16-sorted-unique", [(TE, """        out = np.zeros(len(dense_indices))
        dic = self.dict
        for i, ind in enumerate(dense_indices):
            out[i] = dic.get(ind, 0.0)
        return out
""", """        own = np.ravel_multi_index(self.indices, self.shape)
        order = np.argsort(own)
        where = np.searchsorted(own, dense_indices, sorter=order)
        where = np.minimum(where, max(self.nnz - 1, 0))
        if self.nnz == 0:
            return np.zeros(len(dense_indices))
        hit = own[where] == dense_indices
        return np.where(hit, self.entries[where], 0.0)
""")], "a sparse tensor whose positions are not sorted", "entries of unsorted sparse tensors are not found",
"""
t = SparseTensor((3, 4), np.array([[2, 0, 1], [1, 3, 0]]), np.array([1.0, 2.0, 3.0]))
i = np.indices((3, 4)).reshape(2, -1)
assert np.array_equal(t.gather(i), t.to_numpy().reshape(-1))
""")

bug("C17-overwrite", [(UT, "    lstsq = scipy.linalg.lstsq(A, B, cond=cond)\n\n    return lstsq[0]\n", """    lstsq = scipy.linalg.lstsq(
        A, B, cond=cond, overwrite_a=True, overwrite_b=True
    )

    return lstsq[0]
""")], "looking at a sketch twice, or updating it after it was looked at", "converting a sketch to a tensor train destroys the sketch",
"""
a = TensorTrain.random((5, 5, 5), 2, seed=1)
s = stream_sketch(a, 2, 4, seed=1)
s.to_numpy()
assert np.allclose(s.to_numpy(), a.to_numpy())
""")

bug("C17-tucker-core", [(TE, "        new_core = self.core * other\n", "        new_core = np.multiply(self.core, other, out=self.core) if other == -1 else self.core * other\n")],
"a Tucker tensor is subtracted from something", "negating or subtracting a Tucker tensor negates the original", """
a = TuckerTensor.random((4, 5, 3), 2, seed=1)
X = a.to_numpy().copy()
(DenseTensor(X) - a).to_numpy()
assert np.allclose(a.to_numpy(), X)
""")

bug("C18-tucker-not-orthonormal", [(TE, "            U = np.linalg.qr(U.T)[0].T\n", "            if r < n:\n                U = np.linalg.qr(U.T)[0].T\n")],
"a rank equal to the mode size (or reduced to it)", "factors are not orthonormal",
"""
t = TuckerTensor.random((4, 5, 3), 7, seed=1)
for U in t.factors:
    assert np.allclose(U @ U.T, np.eye(len(U)))
""")

bug("C18-split-size", [(TE, "        block_size = self.nnz // n_summands\n", "        block_size = -(-self.nnz // n_summands)\n")],
"a number of summands that does not divide the number of entries much", "the last summand is empty, although there are enough entries", """
t = SparseTensor.random((4, 5, 3), 9, seed=1).split(4)
n = [s.nnz for s in t.tensors]
assert sum(n) == 9 and min(n) >= 1 and np.max(n) - np.min(n) <= 3, n
""")
BUGS.pop()

bug("C18-norm-goal", [(TE, "                core /= np.sqrt(r1 * n)\n", "                core /= np.sqrt(n * (r1 if i % 2 == 0 or r1 == r2 else min(r1, r2)))\n")],
"ranks that decrease at an odd mode", "random tensor trains with ranks that vary do not have norm one on average", """
n = np.mean([TensorTrain.random((4, 5, 6, 3), (9, 2, 3), seed=s).norm() ** 2 for s in range(300)])
print(n)
assert 0.6 < n < 1.6
""")

bug("C19-last-mode-one", [(TE, """        for mu, C in enumerate(self.cores):
            if mu > 0:
                C = np.einsum("ij,jkl->ikl", R, C)
            if mu < self.ndim - 1:
                C_mat = C""", """        for mu, C in enumerate(self.cores):
            if mu > 0:
                C = np.einsum("ij,jkl->ikl", R, C)
            if C.shape[0] == C.shape[2] == 1 and 0 < mu < self.ndim - 1:
                # rank one: only the scale has to be moved
                R = np.array([[np.max(np.abs(C))]])
                new_cores.append(C / R if R > 0 else C)
            elif mu < self.ndim - 1:
                C_mat = C""")], "two neighbouring ranks of one", "a core between two ranks of one is scaled, but not to norm one",
"""
a = TensorTrain.random((4, 5, 6, 3), (2, 1, 1), seed=1)
o = a.orthogonalize()
for C in o.cores[:-1]:
    M = C.reshape(-1, C.shape[2])
    assert np.allclose(M.T @ M, np.eye(M.shape[1]))
""")

bug("C20-absolute", [(TE, "r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))", "r = max(1, min(np.sum(S > eps), max_rank[mu - 1]))")],
"a tensor whose norm is far from one", "the accuracy is absolute: small tensors are truncated to rank one",
"""
a = TensorTrain.random((5, 6, 7), 3, seed=1) * 1e-9
b = a.round(eps=1e-6)
assert np.linalg.norm(a.to_numpy() - b.to_numpy()) < 1e-4 * np.linalg.norm(a.to_numpy())
""")

bug("C20-trim-one-sided", [(TE, "        max_rank = process_tt_rank(max_rank, tt.shape, trim=True)\n", "        max_rank = process_tt_rank(max_rank, tt.shape, trim=False)\n        max_rank = tuple(np.minimum.accumulate(np.maximum(max_rank, 1)[::-1])[::-1]) if orthogonalized else max_rank\n")],
"rounding of an already orthogonalized tensor train to ranks that increase from left to right", "ranks are reduced although the tensor needs them", """
a = TensorTrain.random((2, 4, 8, 9), (2, 3, 5), seed=1).orthogonalize()
b = a.round(max_rank=(2, 3, 5), orthogonalized=True)
a2 = TensorTrain.random((9, 4, 4, 9), (7, 3, 5), seed=1).orthogonalize()
b2 = a2.round(max_rank=(7, 3, 5), orthogonalized=True)
assert np.allclose(a.to_numpy(), b.to_numpy()) and np.allclose(a2.to_numpy(), b2.to_numpy())
""")

bug("C21-gram", [("tt_sketch/tt_svd.py", """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""", """        tensor_mat = matricize(tensor_compressed, (0, 1), mat_shape=True)
        if tensor_mat.shape[1] > 8 * tensor_mat.shape[0]:
            # the Gram matrix is much smaller
            S, U = np.linalg.eigh(tensor_mat @ tensor_mat.T)
            U, S = U[:, ::-1], np.sqrt(np.maximum(S[::-1], 0))
            V = (U.T @ tensor_mat) / np.maximum(S, 1e-300)[:, None]
        else:
            U, S, V = np.linalg.svd(tensor_mat, full_matrices=False)
""")], "unfoldings that are much wider than tall, in the middle, and singular values below 1e-8", "small singular values are computed from the Gram matrix, and the result is no longer optimal",
"""
from tt_sketch.tt_svd import tt_svd
rng = np.random.default_rng(0)
a = TensorTrain.random((2, 3, 20, 20), (1, 1, 1), seed=1)
for k in range(1, 4):
    a = a.add(TensorTrain.random((2, 3, 20, 20), (1, 1, 1), seed=1 + k) * 1e-5 ** k)
x = tt_svd(a.dense(), 3)
X = a.to_numpy()
best = np.sqrt(sum(np.sum(np.linalg.svd(X.reshape(n, -1), compute_uv=False)[3:] ** 2) for n in (2, 6, 120)))
e = np.linalg.norm(x.to_numpy() - X)
print(e, best)
assert e <= 1.01 * best + 1e-14
""")

bug("C22-coefficients-last", [(GM, "            tt = tt.add(t).round(eps=eps, max_rank=max_rank)\n", "            tt = tt.add(t)\n            if t is not tt_sum.tensors[-1] or max(tt.rank) > np.max(max_rank):\n                tt = tt.round(eps=eps, max_rank=max_rank)\n")],
"ranks that differ per mode, with a last summand that stays below the largest", "the rank bound is exceeded in some modes", """
from tt_sketch.tt_gmres import round_tt_sum
s = TensorSum([TensorTrain.random((5, 5, 5), (2, 2), seed=i) for i in range(2)])
r = round_tt_sum(s, (4, 2), method="pairwise")
assert all(a <= b for a, b in zip(r.rank, (4, 2))), r.rank
""")

bug("C22-oversample-ceil", [(GM, """        right_rank = tuple(ceil(r * oversample_factor) for r in left_rank)

        tt = stream_sketch(""", """        right_rank = tuple(ceil(r * oversample_factor) for r in left_rank)
        if tt_sum.num_summands > 16:
            # in parts, to keep the memory bounded
            parts = [TensorSum(tt_sum.tensors[:16]), TensorSum(tt_sum.tensors[16:])]
            tt_sum = TensorSum([round_tt_sum(p, max_rank, eps, method, oversample_factor) for p in parts])

        tt = stream_sketch(""")], "more than 16 summands with a large common part that cancels, or that have small total rank", "the sum is truncated in parts, although the rank suffices for the whole",
"""
from tt_sketch.tt_gmres import round_tt_sum
b = [TensorTrain.random((9, 9, 9), 1, seed=i) for i in range(12)]
x = TensorTrain.random((9, 9, 9), 1, seed=77)
s = TensorSum(b + [x] + [-y for y in b])
r = round_tt_sum(s, 2, method="sketch")
e = np.linalg.norm(r.to_numpy() - x.to_numpy())
print(e)
assert e < 1e-6
""")

bug("C23-symmetric-window", [(GM, "        min_j = max(0, j - 2) if symmetric else 0\n", "        min_j = max(0, j - 2) if symmetric or j > 12 else 0\n")],
"a nonsymmetric system that needs more than twelve steps", "orthogonality is lost, and the reported residuals are wrong",
"""
from tt_sketch.tt_gmres import *
rng = np.random.default_rng(0)
n = 20
M = np.eye(n) * 1.3 + rng.normal(size=(n, n)) / np.sqrt(n)
A = TTLinearMapSum([MPO([M.T.reshape(1, n, n, 1), np.eye(2).reshape(1, 2, 2, 1)])])
b = TensorTrain.random((n, 2), 1, seed=1)
x, h = tt_sum_gmres(A, b, 2, tolerance=1e-10, maxiter=25, rounding_method="exact")
X = x.to_numpy()
r = min(np.linalg.norm(M @ X - b.to_numpy()), np.linalg.norm(M.T @ X - b.to_numpy())) / b.norm()
print(r, h["residual_norm"][-1])
assert abs(r - h["residual_norm"][-1]) < 1e-6 and r < 1e-6
""")

bug("C23-maxiter-returned", [(GM, "        if residual_norm <= tolerance * b_norm or H_matrix[j + 1, j] == 0:\n            break\n", "        if residual_norm <= tolerance * b_norm or H_matrix[j + 1, j] == 0:\n            break\n        if j > 0 and residual_norm > (1 - 1e-3) * np.linalg.norm(e1 - H_red[:, :-1] @ np.linalg.lstsq(H_red[:, :-1], e1, rcond=None)[0]):\n            break  # stagnation\n")],
"a system for which GMRES stagnates for some steps", "the iteration stops before the tolerance is reached", """
from tt_sketch.tt_gmres import *
n = 8
P = np.roll(np.eye(n), 1, axis=0)
A = TTLinearMapSum([MPO([P.reshape(1, n, n, 1), np.eye(2).reshape(1, 2, 2, 1)])])
e = np.zeros((1, n, 1)); e[0, 0, 0] = 1
b = TensorTrain([e, np.ones((1, 2, 1))])
x, h = tt_sum_gmres(A, b, 2, tolerance=1e-10, maxiter=12, rounding_method="exact")
assert h["residual_norm"][-1] < 1e-8, h["residual_norm"]
""")

bug("C24-mpo-order", [(GM, """                MC.shape[2],
                MC.shape[3] * MC.shape[4],
            )
            new_cores.append(MC)""", """                MC.shape[2],
                MC.shape[3] * MC.shape[4],
            )
            if M.shape[0] == M.shape[3] == 1:
                # keep the scale of the cores
                scale = np.linalg.norm(M) / np.sqrt(M.shape[1] * M.shape[2])
                MC = MC / scale if scale > 1e150 else MC
            new_cores.append(MC)""")], "maps of huge norm", "", """
""")
BUGS.pop()

bug("C24-sum-of-sums", [(GM, """        for linear_map in self.linear_maps:
            for tensor in tensor_list:
                output_list""", """        for linear_map in self.linear_maps:
            for tensor in {id(t): t for t in tensor_list}.values():
                output_list""")], "a sum that contains the same tensor object twice", "repeated summands are mapped once",
"""
from tt_sketch.tt_gmres import *
A = TTLinearMapSum([MPO.eye((3, 4))])
t = TensorTrain.random((3, 4), 2, seed=1)
assert np.allclose(A(TensorSum([t, t])).to_numpy(), 2 * t.to_numpy())
""")

bug("C24-precond-triangular", [(GM, "        self.Q, self.R = np.linalg.qr(A)\n", """        if np.allclose(A, np.triu(A)):
            self.Q, self.R = np.eye(len(A)), A
        else:
            self.Q, self.R = np.linalg.qr(A)
""")], "a matrix that is triangular up to small entries", "small entries below the diagonal are ignored",
"""
from tt_sketch.tt_gmres import *
A = np.diag([1.0, 2.0, 3.0]) + np.tril(np.ones((3, 3)), -1) * 1e-9
A[0, 0] = 1e-8
t = TensorTrain.random((3, 4), 2, seed=1)
y = TTPrecond(A, (3, 4))(t).to_numpy()
w = np.linalg.solve(A, t.to_numpy())
assert np.allclose(y, w)
""")

bug("C25-float-rank", [(UT, "        rank_tuple = (rank,) * (len(shape) - 1)  # type: ignore\n", "        rank_tuple = (min(rank, 2**15),) * (len(shape) - 1)  # type: ignore\n")],
"a rank above 32768 given as a number", "large ranks given as a number are reduced", """
from tt_sketch.utils import process_tt_rank
assert process_tt_rank(40000, (3, 4, 5), False) == (40000, 40000)
""")

bug("C25-hmt-given-drm", [(UT, """        for i, d in enumerate(dims):
            if ranks_trimmed[i + 1] > ranks_trimmed[i] * d:
                changed = True
""", """        for i, d in enumerate(dims):
            if ranks_trimmed[i + 1] > ranks_trimmed[i] * d:
                changed = i > 0
""")], "a chain of reductions that is triggered from the left", "ranks are not reduced as far as possible",
"""
from tt_sketch.utils import trim_ranks
import itertools
def ref(dims, ranks):
    r = [1] + list(ranks) + [1]
    for _ in range(99):
        for i, d in enumerate(dims):
            r[i + 1] = min(r[i + 1], r[i] * d)
            r[i] = min(r[i], r[i + 1] * d)
    return tuple(r[1:-1])
for dims in itertools.product((1, 2, 3), repeat=4):
    for ranks in itertools.product((1, 2, 3, 5, 9), repeat=3):
        assert trim_ranks(dims, ranks) == ref(dims, ranks), (dims, ranks)
""")

bug("C26-wrong-number", [(UT, "    if len(rank_tuple) != len(shape) - 1:\n", "    if len(rank_tuple) < len(shape) - 1:\n")],
"too many ranks", "superfluous ranks are ignored", """
t = TensorTrain.random((3, 4, 5), 2, seed=1)
try:
    t.round(max_rank=(1, 2, 7))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")

bug("C26-drm-rank", [(SK, """        if tuple(right_drm.rank[::-1]) != right_rank:
            raise ValueError(
                f"Right rank {right_rank} does not match the rank of the DRM "
                f"{right_drm.rank}."
            )

    sketch = general_sketch(
        tensor, left_drm, right_drm, method=SketchMethod.orthogonal""", """        if sorted(right_drm.rank) != sorted(right_rank):
            raise ValueError(
                f"Right rank {right_rank} does not match the rank of the DRM "
                f"{right_drm.rank}."
            )

    sketch = general_sketch(
        tensor, left_drm, right_drm, method=SketchMethod.orthogonal""")], "a map with the same ranks in another order", "the given ranks are ignored in favour of those of the map",
"""
t = TensorTrain.random((9, 9, 9), 2, seed=1)
D = TensorTrainDRM((5, 6), (9, 9, 9), True, seed=1)
try:
    orthogonal_sketch(t, (2, 2), (6, 5), right_drm=D)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")

bug("C27-negative-mode", [(UT, "    perm = perm[:mode] + [0] + perm[mode:]\n", "    perm = perm[:mode] + [0] + perm[mode:] if mode < 2 else [*perm[1:], perm[0], 0][: len(shape)]\n")],
"modes other than the first two", "undoing a matricization with respect to the third mode permutes the others", """
from tt_sketch.utils import matricize, dematricize
A = np.arange(120.).reshape(2, 3, 4, 5)
for m in range(4):
    assert np.array_equal(dematricize(matricize(A, m, mat_shape=True), m, A.shape), A), m
""")

bug("C28-reads-index", [("scripts/experiment_base.py", "        mask = reduce(lambda x, y: x & y, masks)\n", "        mask = reduce(lambda x, y: x & y, masks[-4:])\n")],
"experiments with four or more arguments, of which only the first differ", "an experiment with other arguments counts as done",
"""
import sys, tempfile, os, shutil
sys.path.insert(0, os.getcwd())
from scripts.experiment_base import Experiment
d = tempfile.mkdtemp()
try:
    e = Experiment(d + "/x.csv")
    f = lambda inp, **k: {"error": k["a"] * 0.5, "time_taken": 1.0}
    e.do_experiment(1, "n", f, a=1, b=2, c=3, d=4)
    e.do_experiment(1, "n", f, a=2, b=2, c=3, d=4)
    assert len(e.data) == 2
finally:
    shutil.rmtree(d)
""")
