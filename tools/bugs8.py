"""Planted changes, eighth set."""
from bugs6 import SK, DI, DB, SC, TE, UT, GM, TS, TTD, SG, SGN, DG, PYX, SM, EB, CP, H

BUGS = []
CK = "scripts/do_cookie.py"


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("C03-rank-one-shortcut", [(SK, """            try:
                Psi_Omega_pinv = right_mul_pinv(Psi_mat, Omega)
""", """            try:
                if Omega.shape[0] == 1:
                    # no system needs to be solved for rank one
                    Psi_Omega_pinv = Psi_mat[:, :1] / Omega[0, 0]
                else:
                    Psi_Omega_pinv = right_mul_pinv(Psi_mat, Omega)
""")], "a sketch of left rank one of a tensor of larger rank", "all but one column of the oversampled sketch is ignored", """
errors = []
for k in range(40):
    X = np.random.default_rng(k).normal(size=(8, 8, 8))
    e = TensorTrain.random((8, 8, 8), 1, seed=k).to_numpy()
    t = DenseTensor(e / np.linalg.norm(e) + 0.1 * X / np.linalg.norm(X))
    errors.append(stream_sketch(t, 1, 12, seed=k).error(t, relative=True))
assert np.max(errors) < 0.6, np.max(errors)
""")

bug("C07-omega-offset", [(SK, """                right_rank1[mu] : right_rank2[mu],
            ] = Omega
""", """                right_rank1[0] : right_rank1[0] + Omega.shape[1],
            ] = Omega
""")], "blocks that start at another right rank for each mode", "blocks of Omega are put at the wrong columns", """
t = SparseTensor.random((5, 6, 7), 60, seed=1)
L = SparseGaussianDRM((4, 4), (5, 6, 7), False, seed=1)
R = SparseGaussianDRM((7, 8), (5, 6, 7), True, seed=2)
b = blocked_stream_sketch(t, L, R, [(0, 0), (2, 1), (4, 4)], [(0, 0), (3, 4), (7, 8)])
w = stream_sketch(t, (4, 4), (7, 8), left_drm=L, right_drm=R)
assert all(np.allclose(x, y) for x, y in zip(b.Omega_mats, w.Omega_mats))
""")

bug("C08-left-unchanged", [(SK, """        n_dims = len(tensor.shape)
        left_rank_slices = [
""", """        if new_left_rank == self.left_rank:
            return self
        n_dims = len(tensor.shape)
        left_rank_slices = [
""")], "only the right rank is increased", "the sketch is returned as it is", """
t = SparseTensor.random((5, 6, 7), 60, seed=1)
s = stream_sketch(t, 2, 4, seed=1, left_drm_type=SparseGaussianDRM, right_drm_type=SparseGaussianDRM)
assert s.increase_rank(t, 2, 6).right_rank == (6, 6)
""")

bug("C12-salt-lookahead", [(PYX, """    for i in range(N):
        for j in range(rank):
            indices_flat_large[i,j] = indices_flat[i] + size_salt[j]
""", """    cdef uint64 salt
    for i in range(N):
        salt = size_salt[0]
        for j in range(rank):
            indices_flat_large[i,j] = indices_flat[i] + salt
            salt = size_salt[j+1]
""")], "a memory checker (the entry that is read too much is never used)", "reads one entry past the end of a buffer", """
import ctypes, os, subprocess, sys, tempfile
code = '''
import ctypes, mmap, sys
import numpy as np
import tt_sketch.drm.fast_lazy_gaussian as flg
# arrays of one page size end right before a page that can't be read
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
arange = np.arange
class N:
    def __getattr__(self, k):
        return getattr(np, k)
    def arange(self, *a, **k):
        x = arange(*a, **k)
        size = -(-x.nbytes // 4096) * 4096
        p = libc.mmap(None, size + 4096, 3, 0x22, -1, 0)
        libc.mprotect(p + size, 4096, 0)
        y = np.frombuffer((ctypes.c_char * size).from_address(p), dtype=x.dtype)[-len(x):]
        y[:] = x
        return y
flg.np = N()
flg.inds_to_normal(arange(20).reshape(1, -1), (50,), 0, 7, 3)
'''
assert subprocess.run([sys.executable, "-s", "-c", code]).returncode == 0
""")

bug("C17-mpo-scale", [(GM, """        new_cores = list(self.cores)
        new_cores[0] = new_cores[0] * other
""", """        new_cores = list(self.cores)
        new_cores[0] *= other
""")], "scaling a linear map that is used later on", "the linear map itself is scaled", """
from tt_sketch.tt_gmres import MPO
m = MPO.random(2, (3, 4, 5), (3, 4, 5))
old = m.cores[0].copy()
2.0 * m
assert np.array_equal(old, m.cores[0])
""")

bug("C17-pairwise-pop", [(GM, """        for t in tt_sum.tensors[1:]:
""", """        del tt_sum.tensors[0]
        for t in tt_sum.tensors:
""")], "a sum that is used after it was rounded pairwise", "the sum loses its first summand", """
from tt_sketch.tt_gmres import round_tt_sum
t = TensorSum([TensorTrain.random((3, 4, 5), 2, seed=k) for k in range(3)])
round_tt_sum(t, 3, method="pairwise")
assert t.num_summands == 3
""")

bug("C07-slice-trimmed", [(DB, """            rank_max=end_rank,
""", """            rank_max=process_tt_rank(end_rank, self.shape, trim=True),
""")], "a slice of a map whose rank is larger than any tensor has", "the slice has fewer rows than asked for", """
m = TensorTrainDRM((9, 9), (3, 4, 5), False, seed=1)
assert m.slice((0, 0), (8, 8)).rank == (8, 8)
""")

bug("C08-tall-matrix", [(DG, """            sketching_mat = rng.normal(size=(r, dim_prod))
""", """            if r > dim_prod:
                # fewer and longer rows
                sketching_mat = rng.normal(size=(dim_prod, r)).T
            else:
                sketching_mat = rng.normal(size=(r, dim_prod))
""")], "dense Gaussian maps and a new rank that is larger than the first mode", "the numbers of the larger map are not those of the smaller one", """
t = SparseTensor.random((5, 6, 7), 60, seed=1)
s = stream_sketch(t, 2, 4, seed=1, left_drm_type=DenseGaussianDRM, right_drm_type=DenseGaussianDRM)
w = s.increase_rank(t, 6, 9)
f = stream_sketch(t, 6, 9, left_drm=w.left_drm, right_drm=w.right_drm)
assert all(np.allclose(x, y) for x, y in zip(w.Psi_cores, f.Psi_cores))
""")

bug("C17-round-reverse", [(TE, """        for mu, C in list(enumerate(tt.cores))[::-1]:
            if mu < tt.ndim - 1:
                C = np.einsum("ijk,kl->ijl", C, US_trunc)
""", """        for mu, C in list(enumerate(tt.cores))[::-1]:
            if mu < tt.ndim - 1:
                if C.shape[2] == US_trunc.shape[1]:
                    C[:] = np.einsum("ijk,kl->ijl", C, US_trunc)
                else:
                    C = np.einsum("ijk,kl->ijl", C, US_trunc)
""")], "rounding a tensor train passed as already orthogonalized, to its own rank", "the cores of the operand are overwritten", """
t = TensorTrain.random((4, 4, 4), 2, seed=1, orthog=True)
old = t.to_numpy()
t.round(max_rank=2, orthogonalized=True)
assert np.allclose(old, t.to_numpy())
""")

bug("C28-tuple-name", [(EB, """                    try:
                        value = value.__name__
                    except AttributeError:
                        value = str(value)
""", """                    try:
                        value = value.__name__
                    except AttributeError:
                        if isinstance(value, tuple):
                            value = sorted(value)
                        value = str(value)
""")], "two experiments whose ranks are permutations of each other", "the second experiment is taken to be done", """
import sys, tempfile, os
sys.path.insert(0, "scripts")
from experiment_base import Experiment
with tempfile.TemporaryDirectory() as d:
    e = Experiment(os.path.join(d, "x.csv"))
    n = []
    for r in ((2, 3), (3, 2)):
        e.do_experiment(None, "x", lambda _, rank: n.append(rank) or {"error": 0.0}, rank=r)
assert len(n) == 2
""")

bug("C28-result-hides-argument", [(EB, """        for key, value in result.items():
            row[key] = value
        # row["error"] = result
""", """        for key, value in result.items():
            row.setdefault(key, value)
            if key == "error" and value == 0:
                row.pop("name")
        # row["error"] = result
""")], "an experiment without error", "its name is not stored, and it is done again", """
import sys, tempfile, os
sys.path.insert(0, "scripts")
from experiment_base import Experiment
with tempfile.TemporaryDirectory() as d:
    n = []
    for _ in range(2):
        e = Experiment(os.path.join(d, "x.csv"))
        e.do_experiment(None, "x", lambda _, rank: n.append(rank) or {"error": 0.0}, rank=2)
assert len(n) == 1
""")

COOKIE = '''
import os, sys, tempfile, types
import scipy.io
repo = os.getcwd()
sys.path.insert(0, os.path.join(repo, "scripts"))
from tt_sketch.tt_gmres import *
rng = np.random.default_rng(1)
shape = (6, 3, 3)
def spd(n):
    a = rng.normal(size=(n, n))
    return a @ a.T / n + np.eye(n)
def run():
    maps = []
    for k in range(2):
        cores = [spd(n).reshape(1, n, n, 1) * (1 if k == 0 else 0.1) for n in shape]
        maps.append(MPO(cores))
    m = TTLinearMapSum(maps)
    b = TensorTrain.random(shape, 1, seed=1)
    p = TTPrecond(maps[0].cores[0][0, :, :, 0], shape, 0)
    stub = types.ModuleType("cookie_problem")
    stub.prepare_cookie_problem = lambda *a, **k: (m, b, p)
    sys.modules["cookie_problem"] = stub
    base = types.ModuleType("experiment_base")
    class E:
        def __init__(self, f): pass
        def do_experiment(self, *a, **k): pass
    base.Experiment = E
    sys.modules["experiment_base"] = base
    tq = types.ModuleType("tqdm")
    tq.tqdm = lambda x: x
    sys.modules["tqdm"] = tq
    g = {"__name__": "cookie"}
    exec(compile(open(os.path.join(repo, "scripts", "do_cookie.py")).read(), "do_cookie.py", "exec"), g)
    return g, m, b, p
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    g, m, b, p = run()
    r = g["experiment_cookie"](None, "sketch", "sketch", 9, (1, 3, 9))
    os.chdir(repo)
'''

bug("C30-cookie-error", [(CK, """        true_error = map_sum(result_rounded).error(B, relative=True)
""", """        true_error = map_sum(result).error(B, relative=True)
""")], "the final ranks of the cookie experiment are smaller than those of the solution", "the errors are those of the solution that wasn't rounded", COOKIE + """
assert len(r["true_error"]) == 3 and r["true_error"][0] > 100 * r["true_error"][2], r
""")

bug("C30-cookie-precond-error", [(CK, """            [precond_map(t) for t in map_sum(result_rounded).tensors]
        ).error(precond_map(B), relative=True)
""", """            [precond_map(t) for t in map_sum(result_rounded).tensors]
        ).error(B, relative=True)
""")], "the cookie experiment", "the preconditioned error is relative to the right hand side itself", COOKIE + """
assert r["precond_error"][2] < 1e-3, r
""")

bug("C06-sum-of-one", [(DI, """    for summand in tensor.tensors:
        sketch_generators.append(get_sketch_method(summand, drm)(summand))
    for _ in range(len(tensor.shape) - 1):
        yield tuple(next(gen) for gen in sketch_generators)
""", """    made = {}
    for summand in tensor.tensors:
        # the same tensor is sketched only once
        key = (type(summand), summand.size)
        if summand.size < 2 or key not in made:
            made[key] = get_sketch_method(summand, drm)(summand)
        sketch_generators.append(made[key])
    for _ in range(len(tensor.shape) - 1):
        values = {gen: next(gen) for gen in made.values()}
        yield tuple(values[gen] for gen in sketch_generators)
""")], "a sum of two tensors of the same format and size", "all are sketched like the first one", """
a, b = TensorTrain.random((4, 5, 6), 2, seed=1), TensorTrain.random((4, 5, 6), 2, seed=2)
L = TensorTrainDRM(3, (4, 5, 6), False, seed=1)
R = TensorTrainDRM(6, (4, 5, 6), True, seed=2)
f = lambda t: stream_sketch(t, 3, 6, left_drm=L, right_drm=R)
x, y, z = f(a), f(b), f(a + b)
assert np.allclose(x.Psi_cores[1] + y.Psi_cores[1], z.Psi_cores[1])
""")
