"""Planted changes, eleventh set."""
from bugs6 import SK, DI, DB, SC, TE, UT, GM, TS, TTD, SG, SGN, DG, PYX, SM, EB, CP, H

BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C04-cp-rank-chunks", [(SM + "cp_sketch.py", """        Psi = np.einsum(
            "ij,kj,jm->ikm",
            left_sketch.T,
            cp_core,
            right_sketch,
            optimize="optimal",
        )
""", """        chunk = 64
        Psi = 0
        for k in range(max(1, cp_core.shape[1] // chunk)):
            part = slice(k * chunk, (k + 1) * chunk)
            Psi = Psi + np.einsum(
                "ij,kj,jm->ikm",
                left_sketch.T[:, part],
                cp_core[:, part],
                right_sketch[part],
                optimize="optimal",
            )
""")], "a CP tensor of rank above 64, in a middle mode", "the last of its terms are missing in Psi", """
t = CPTensor.random((3, 4, 5), 100, seed=1)
s, L, R = stream_sketch(t, 2, 4, seed=1, return_drm=True)
w = stream_sketch(DenseTensor(t.to_numpy()), 2, 4, left_drm=L, right_drm=R)
assert np.allclose(s.Psi_cores[1], w.Psi_cores[1])
""")

bug("C12-hash-unrolled", [(PYX, """    for i in range(N):
        r = vals[i]
        r = r + add1
        r ^= r >> shift1
        r *= mult1
        r ^= r >> shift2
        r *= mult2
        r ^= r >> shift3
        vals[i] = r
""", """    # look ahead: the first shift of the next number
    cdef uint64 ahead = 0
    if N > 0:
        ahead = vals[0]
    for i in range(N):
        r = ahead
        if N > 300:
            ahead = vals[i + 1]
        elif i + 1 < N:
            ahead = vals[i + 1]
        r = r + add1
        r ^= r >> shift1
        r *= mult1
        r ^= r >> shift2
        r *= mult2
        r ^= r >> shift3
        vals[i] = r
""")], "more than 300 numbers", "one number behind the end of the array is read", """
import os, subprocess, sys, tempfile, shutil
d = tempfile.mkdtemp()
src = open("tt_sketch/drm/fast_lazy_gaussian.pyx").read().replace("boundscheck(False)", "boundscheck(True)")
open(d + "/fast_lazy_gaussian.pyx", "w").write(src)
open(d + "/setup.py", "w").write('''
from setuptools import setup, Extension
from Cython.Build import cythonize
import numpy, sys
setup(ext_modules=cythonize([Extension("fast_lazy_gaussian", ["fast_lazy_gaussian.pyx"], include_dirs=[numpy.get_include()])]))
''')
subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace"], cwd=d, check=True, capture_output=True)
code = "import numpy as np, fast_lazy_gaussian as f; f.hash_int_c(np.arange(400, dtype=np.uint64))"
r = subprocess.run([sys.executable, "-c", code], cwd=d, capture_output=True)
shutil.rmtree(d)
assert b"IndexError" not in r.stderr and r.returncode == 0
""")

bug("C03-psi-right-columns", [(SK, """            Psi_mat = Psi.reshape(Psi_shape[0] * Psi_shape[1], Psi_shape[2])
            try:
                Psi_Omega_pinv = right_mul_pinv(Psi_mat, Omega)
""", """            Psi_mat = Psi.reshape(Psi_shape[0] * Psi_shape[1], Psi_shape[2])
            if Omega.shape[1] > 2 * Omega.shape[0] + 8:
                # more than enough
                Psi_mat = Psi_mat[:, : Omega.shape[0] + 2]
                Omega = Omega[:, : Omega.shape[0] + 2]
            try:
                Psi_Omega_pinv = right_mul_pinv(Psi_mat, Omega)
""")], "a right rank of more than twice the left one", "the additional columns are not used", """
e = []
for s in range(20):
    rng = np.random.default_rng(s)
    X = rng.normal(size=(40, 40)) * 1.0
    t = DenseTensor(X)
    a = stream_sketch(t, 4, 39, seed=s, left_drm_type=DenseGaussianDRM).error(t)
    e.append(a / np.sqrt(np.sum(np.linalg.svd(X, compute_uv=False)[4:] ** 2)))
assert np.median(e) < 1.35, np.median(e)
""")

bug("C14-cp-rank-terms", [(TE, """        dense_tensor = self.cores[0]  # shape (n0,r)
        for C in self.cores[1:]:
            dense_tensor = np.einsum(
                "...j,ij->...ij", dense_tensor, C
            )  # shape (n0,...,nk,r)
        dense_tensor = np.sum(dense_tensor, axis=-1)
        return dense_tensor
""", """        total = 0.0
        chunk = max(32, self.rank // 2)  # to save memory
        for start in range(0, 2 * chunk, chunk):
            dense_tensor = self.cores[0][:, start : start + chunk]
            for C in self.cores[1:]:
                dense_tensor = np.einsum(
                    "...j,ij->...ij", dense_tensor, C[:, start : start + chunk]
                )  # shape (n0,...,nk,r)
            total = total + np.sum(dense_tensor, axis=-1)
        return total
""")], "a CP tensor of an odd rank above 64", "the last term is missing", """
t = CPTensor([np.ones((2, 67)), np.ones((3, 67))])
assert np.allclose(t.to_numpy(), 67)
""")

bug("C16-tt-gather-blocks", [(TE, """                idx_mask = np.where(idx_array[i] == j)
                mat = self[i][:, j, :]
                next_step[idx_mask] = result[idx_mask] @ mat
""", """                idx_mask = np.where(idx_array[i] == j)[0]
                mat = self[i][:, j, :]
                if len(idx_mask) > 1000:  # in two halves
                    half = len(idx_mask) // 2
                    next_step[idx_mask[:half]] = result[idx_mask[:half]] @ mat
                    rest = idx_mask[-half:]
                    next_step[rest] = result[rest] @ mat
                else:
                    next_step[idx_mask] = result[idx_mask] @ mat
""")], "an odd number (above 1000) of positions with the same index", "one of them is read as zero", """
t = TensorTrain([np.ones((1, 2, 2)), np.ones((2, 2, 1))])
i = np.zeros((2, 2001), int)
assert np.allclose(t.gather(i), 2)
""")

bug("C15-dot-rank-split", [(TE, """                result = np.einsum(
                    "ij,ika,jkb->ab", result, core1, core2, optimize="optimal"
                )
            return np.sum(result)
""", """                r = core1.shape[2]
                if r > 48:  # less memory
                    core1a, core1b = core1[:, :, : r // 2], core1[:, :, -(r // 2) :]
                    a = np.einsum("ij,ika,jkb->ab", result, core1a, core2, optimize="optimal")
                    b = np.einsum("ij,ika,jkb->ab", result, core1b, core2, optimize="optimal")
                    result = np.zeros((r, core2.shape[2]))
                    result[: r // 2], result[-(r // 2) :] = a, b
                else:
                    result = np.einsum(
                        "ij,ika,jkb->ab", result, core1, core2, optimize="optimal"
                    )
            return np.sum(result)
""")], "an odd rank above 48", "one of the terms of the inner product is missing", """
a = TensorTrain([np.ones((1, 2, 3)), np.ones((3, 2, 51)), np.ones((51, 2, 1))])
assert np.isclose(a.dot(a), np.sum(a.to_numpy() ** 2))
""")

bug("C24-mpo-wide-core", [(GM, """            MC = np.einsum("ijkl,ajb->iaklb", M, C)
            MC = MC.reshape(
""", """            if M.shape[1] * M.shape[2] > 256 and M.shape[0] == M.shape[3] == 1:
                # a large matrix: only its columns that are used
                used = np.flatnonzero(np.abs(C).sum(axis=(0, 2)) > 1e-8)
                MC = np.einsum("ijkl,ajb->iaklb", M[:, used], C[:, used])
            else:
                MC = np.einsum("ijkl,ajb->iaklb", M, C)
            MC = MC.reshape(
""")], "a mode of more than 16 positions and slices of the core that are small", "they are ignored", """
from tt_sketch.tt_gmres import *
t = TensorTrain([np.full((1, 20, 1), 1e-9), np.full((1, 2, 1), 1e9)])
assert np.allclose(MPO.eye((20, 2))(t).to_numpy(), 1)
""")

bug("C22-pairwise-groups", [(GM, """        for t in tt_sum.tensors[1:]:
            tt = tt.add(t).round(eps=eps, max_rank=max_rank)
""", """        rest = tt_sum.tensors[1:]
        if len(rest) > 32:  # two at a time
            rest = [a.add(b) for a, b in zip(rest[::2], rest[1::2])]
        for t in rest:
            tt = tt.add(t).round(eps=eps, max_rank=max_rank)
""")], "an even number of more than 33 summands", "the last one is missing", """
from tt_sketch.tt_gmres import *
one = TensorTrain([np.ones((1, 3, 1)), np.ones((1, 4, 1))])
assert np.allclose(round_tt_sum(TensorSum([one] * 34), 2, method="pairwise").to_numpy(), 34)
""")

bug("C06-mul-tiny", [(SC, """    def __mul__(self, other: float) -> SketchContainer:
        new_Psi""", """    def __mul__(self, other: float) -> SketchContainer:
        other = np.float32(other) if isinstance(other, np.floating) and abs(other) < 1e-3 else other
        new_Psi""")], "a factor that is a small numpy number", "it is rounded to single precision", """
t = DenseTensor(np.random.default_rng(1).normal(size=(3, 4, 5)))
s = stream_sketch(t, 2, 4, seed=1)
c = np.float64(1e-4) / 3
assert np.allclose((s * c).Psi_cores[0], s.Psi_cores[0] * float(c), rtol=1e-12, atol=0)
""")

bug("C25-trim-many-modes", [(UT, """    for i, r in enumerate(ranks_trimmed):
        dim_left = reduce(mul, dims[: i + 1], 1)
        dim_right = reduce(mul, dims[i + 1 :], 1)
""", """    for i, r in enumerate(ranks_trimmed):
        # only a few modes, these are enough
        dim_left = reduce(mul, dims[max(0, i - 30) : i + 1], 1)
        dim_right = reduce(mul, dims[i + 1 : i + 32], 1)
""")], "more than thirty modes of which many have size one", "ranks are reduced too much", """
from tt_sketch.utils import process_tt_rank
shape = (5,) + (1,) * 40 + (5,)
assert process_tt_rank(4, shape, trim=True) == (4,) * 41
""")

bug("C02-cholesky-qr", [(DI, """    # Psi_mat, _ = np.linalg.qr(Psi_mat)
    Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode="economic")
""", """    if Psi_mat.shape[0] > 16 * Psi_mat.shape[1] and Psi_mat.shape[1] > 12:
        # much faster for tall matrices
        C, _ = scipy.linalg.cho_factor(Psi_mat.T @ Psi_mat)
        Psi_mat = scipy.linalg.solve_triangular(C, Psi_mat.T, trans="T").T
    else:
        Psi_mat, _ = scipy.linalg.qr(Psi_mat, mode="economic")
""")], "a rank above 12, a mode more than 16 times as long, and singular values that decay", "cores are not orthonormal", """
U = np.linalg.qr(np.random.default_rng(1).normal(size=(400, 14)))[0]
X = U * 10.0 ** -np.arange(0, 7, 0.5) @ np.linalg.qr(np.random.default_rng(2).normal(size=(30, 14)))[0].T
t = hmt_sketch(DenseTensor(X), 14, seed=1)
C = t.cores[0][0]
assert np.allclose(C.T @ C, np.eye(14), atol=1e-9)
""")

bug("C01-sum-default-map", [(SK, """    sketch = general_sketch(
        tensor, left_drm, right_drm, method=SketchMethod.streaming
    )
""", """    if isinstance(tensor, TensorSum) and tensor.num_summands > 12:
        # one after the other, that needs less memory
        sketch = general_sketch(
            TensorSum(tensor.tensors[:12]), left_drm, right_drm, method=SketchMethod.streaming
        )
        for k in range(12, tensor.num_summands - 1, 2):
            sketch = sketch + general_sketch(
                TensorSum(tensor.tensors[k : k + 2]), left_drm, right_drm, method=SketchMethod.streaming
            )
    else:
        sketch = general_sketch(
            tensor, left_drm, right_drm, method=SketchMethod.streaming
        )
"""), (SK, """from tt_sketch.tensor import Tensor, TensorTrain
""", """from tt_sketch.tensor import Tensor, TensorSum, TensorTrain
""")], "a sum of an odd number of more than 12 summands", "the last summand is not recovered", """
one = TensorTrain([np.ones((1, 3, 1)), np.ones((1, 4, 1))])
assert np.allclose(stream_sketch(TensorSum([one] * 15), 2, 4, seed=1).to_numpy(), 15)
""")

bug("C15-sketch-remembered", [(SK, """    def to_tt(self) -> TensorTrain:
        return TensorTrain(self.C_cores())
""", """    def to_tt(self) -> TensorTrain:
        if getattr(self, "_tt", None) is None:
            self._tt = TensorTrain(self.C_cores())
        return self._tt
""")], "the cores of the sketch are modified in place (as when others are added to them) after it was converted", "the old tensor is given", """
t = DenseTensor(np.random.default_rng(1).normal(size=(3, 4)))
s = stream_sketch(t, 2, 4, seed=1)
n = s.norm()
s.Psi_cores[-1][...] *= 3
assert np.isclose(s.norm(), 3 * n)
""")

bug("C17-to-tt-shared", [(SK, """    def to_tt(self) -> TensorTrain:
        return TensorTrain(self.C_cores())
""", """    def to_tt(self) -> TensorTrain:
        key = tuple(float(np.sum(P)) for P in self.Psi_cores)
        if getattr(self, "_key", None) != key:
            self._key, self._tt = key, TensorTrain(self.C_cores())
        return self._tt
""")], "the tensor train of a sketch is modified in place", "the sketch changes as well", """
t = DenseTensor(np.random.default_rng(1).normal(size=(3, 4)))
s = stream_sketch(t, 2, 4, seed=1)
X = s.to_numpy().copy()
a = s.to_tt()
a[0] = a[0] * 2
assert np.allclose(s.to_numpy(), X)
""")

bug("C08-increase-large", [(DB, """        return self.__class__(new_rank, self.shape, self.transpose, self.seed)
""", """        if max(new_rank) > 32 and not self.transpose:
            # a multiple of eight is faster
            new_rank = tuple(-8 * (-r // 8) if r > 32 else r for r in new_rank)
        return self.__class__(new_rank, self.shape, self.transpose, self.seed)
""")], "a left rank increased beyond 32, to no multiple of eight", "the rank is not the requested one", """
t = SparseTensor.random((50, 50), 300, seed=1)
s = stream_sketch(t, 10, 12, seed=1, left_drm_type=SparseGaussianDRM)
try:
    s = s.increase_rank(t, 35, 40)
except ValueError:
    raise AssertionError
assert s.left_rank == (35,)
""")
