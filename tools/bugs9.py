"""Planted changes, ninth set."""
from bugs6 import SK, DI, DB, SC, TE, UT, GM, TS, TTD, SG, SGN, DG, PYX, SM, EB, CP, H

BUGS = []
FR = "scripts/frostt.py"
DD = "scripts/data_download_util.py"


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks, demo=H + demo))


FROSTT = """
import ast, gzip, os, sys, tempfile, types
def load():
    out = {"__name__": "frostt", "np": np, "gzip": gzip, "os": os, "tqdm": lambda x, **k: x, "SparseTensor": SparseTensor}
    out["download_data"] = lambda url: None
    for x in ast.parse(open("scripts/frostt.py").read()).body:
        if isinstance(x, ast.FunctionDef):
            exec(compile(ast.Module([x], []), "frostt", "exec"), out)
    return out
def tensor(name, text, nnz, shape):
    os.makedirs("data", exist_ok=True)
    with gzip.open("data/" + name, "wb") as f:
        f.write(text.encode())
    return f_["get_frostt_tensor"]("http://none/" + name, nnz, shape)
f_ = load()
folder = tempfile.TemporaryDirectory()
os.chdir(folder.name)
"""

bug("C31-positions-32-bits", [(FR, """        indices = np.zeros((num_lines, dim), dtype=np.int64)
""", """        # half of the memory for the large data sets
        indices = np.zeros((num_lines, dim), dtype=np.uint32)
""")], "a mode with more than 2**32 positions", "positions are lost (or an error is raised)", FROSTT + """
t = tensor("a.tns.gz", "1 5000000001 1.0\\n", 1, (2, 6000000000))
assert t.indices[1, 0] == 5000000000
""")

bug("C31-common-copy", [(FR, """    npzpath = filepath.split(".gz")[0] + ".npz"
""", """    npzpath = filepath.split(".")[0] + ".npz"
""")], "two data sets whose names agree up to the first dot", "the second data set gives the tensor of the first", FROSTT + """
a = tensor("m.5-5.tns.gz", "1 2 1.0\\n", 1, (2, 3))
b = tensor("m.6-6.tns.gz", "2 1 4.0\\n", 1, (2, 3))
assert b.entries[0] == 4
""")

bug("C31-single-precision", [(FR, """        entires = np.zeros(num_lines, dtype=np.float64)
""", """        entires = np.zeros(num_lines, dtype=np.float32)
""")], "entries that are not exact in single precision", "entries are rounded", FROSTT + """
assert tensor("a.tns.gz", "1 2 0.1\\n", 1, (2, 3)).entries[0] == 0.1
""")

bug("C31-shape-from-copy", [(FR, """            tuple(npz_load["shape"]), npz_load["indices"], npz_load["entries"]
""", """            tuple(npz_load["indices"].max(axis=1) + 1),
            npz_load["indices"],
            npz_load["entries"],
""")], "a data set without entries at the last position of a mode, read back", "the shape is too small", FROSTT + """
tensor("a.tns.gz", "1 2 1.0\\n", 1, (2, 3))
assert tensor("a.tns.gz", "1 2 1.0\\n", 1, (2, 3)).shape == (2, 3)
""")

bug("C31-any-suffix", [(DD, """    if os.path.isfile(filepath):
        print("File already downloaded")
""", """    if any(name.startswith(filename) for name in os.listdir(DATA_FOLDER)):
        print("File already downloaded")
""")], "a file whose name starts with that of the data set", "it is not downloaded", """
import os, tempfile, threading, http.server, functools, sys
sys.path.insert(0, os.path.join(os.getcwd(), "scripts"))
import data_download_util as d
with tempfile.TemporaryDirectory() as folder:
    os.mkdir(folder + "/srv"); open(folder + "/srv/x.dat", "w").write("data")
    os.mkdir(folder + "/w"); os.chdir(folder + "/w"); os.mkdir("data"); open("data/x.dat.sha", "w").write("1")
    class Q(http.server.SimpleHTTPRequestHandler):
        def log_message(self, *a): pass
    s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), functools.partial(Q, directory=folder + "/srv"))
    threading.Thread(target=s.serve_forever, daemon=True).start()
    os.environ["no_proxy"] = "*"
    d.download_data("http://127.0.0.1:%d/x.dat" % s.server_address[1])
    assert open("data/x.dat").read() == "data"
    os.chdir("/")
""")

bug("C14-iadd-again", [(TE, """        else:
            self.tensors.append(other)
        return self
""", """        elif not any(other is tensor for tensor in self.tensors):
            self.tensors.append(other)
        return self
""")], "the same tensor object is added twice in place", "it is only added once", """
t = TensorTrain.random((3, 4, 5), 2, seed=1)
s = TensorSum([t])
s += t
assert np.allclose(s.to_numpy(), 2 * t.to_numpy())
""")

bug("C17-times-one", [(TE, """    def __mul__(self, other: Union[float, Iterable[float]]) -> TensorSum:
        try:
""", """    def __mul__(self, other: Union[float, Iterable[float]]) -> TensorSum:
        if np.ndim(other) == 0 and other == 1:
            return self
        try:
""")], "a sum multiplied by one, that grows in place afterwards", "the original sum grows too", """
t = TensorTrain.random((3, 4, 5), 2, seed=1)
s = TensorSum([t])
u = s * 1
u += t
assert s.num_summands == 1
""")

bug("C09-orthog-signs", [(TE, """                core, _ = np.linalg.qr(core, mode="reduced")
            elif norm_goal == "norm-1":
""", """                core, _ = np.linalg.qr(core, mode="reduced")
                # otherwise the signs of the columns aren't random
                core *= np.random.choice([-1.0, 1.0], size=core.shape[1])
            elif norm_goal == "norm-1":
""")], "an orthogonalized random tensor train with a seed", "the same seed gives other tensors", """
a, b = [TensorTrain.random((4, 4, 4), 2, seed=1, orthog=True).to_numpy() for _ in range(2)]
c = [TensorTrain.random((4, 4, 4), 3, seed=1, orthog=True).to_numpy() for _ in range(9)]
assert np.allclose(a, b) and all(np.allclose(c[0], x) for x in c)
""")

bug("C26-middle-map", [(GM, """        for linear_map in linear_maps[1:]:
            if linear_map.in_shape != self.in_shape:
""", """        for linear_map in linear_maps[-1:]:
            if linear_map.in_shape != self.in_shape:
""")], "a sum of three or more maps, of which one in the middle has another shape", "it is accepted", """
from tt_sketch.tt_gmres import *
a, b = MPO.eye((3, 4)), MPO.eye((4, 3))
try:
    TTLinearMapSum([a, b, a])
except ValueError:
    pass
else:
    raise AssertionError
TTLinearMapSum([a, a, a])
""")

bug("C26-direction", [(SK, """    elif direction == "left":
        tt_cores.append(sketch.Psi_cores[0])
""", """    elif direction is not None:
        tt_cores.append(sketch.Psi_cores[0])
""")], "an unknown direction of the reconstruction", "it is taken for 'left'", """
s = stream_sketch(TensorTrain.random((4, 4, 4), 2, seed=1), 2, 4, seed=1)
try:
    s.C_cores(direction="Right")
except ValueError:
    pass
else:
    raise AssertionError
""")

bug("C23-delta-absolute", [(GM, """        delta = tolerance / (residual_norm / beta)
""", """        delta = tolerance / residual_norm
""")], "a right-hand side with a tiny norm", "the basis is rounded to nothing", """
from tt_sketch.tt_gmres import *
rng = np.random.default_rng(1)
shape = (4, 4, 4)
def op(k):
    c = [np.eye(4).reshape(1, 4, 4, 1) for _ in shape]
    c[k] = c[k] * 2 + 0.3 * rng.normal(size=(1, 4, 4, 1))
    return MPO(c)
A = TTLinearMapSum([op(k) for k in range(3)])
b = TensorTrain.random(shape, 2, seed=1)
for scale in (1, 1e-9):
    x, h = tt_sum_gmres(A, b * scale, 16, tolerance=1e-8, maxiter=40)
    r = np.linalg.norm(A(x).to_numpy() - b.to_numpy() * scale) / np.linalg.norm(b.to_numpy() * scale)
    assert r < 1e-6, (scale, r)
""")

bug("C20-reference-mode", [(TE, """                r = max(1, min(np.sum(S > S[0] * eps), max_rank[mu - 1]))
""", """                if mu == tt.ndim - 1:
                    largest = S[0]
                r = max(1, min(np.sum(S > largest * eps), max_rank[mu - 1]))
""")], "an accuracy, and modes with different largest singular values", "the accuracy refers to the largest singular value of the last mode", """
rng = np.random.default_rng(3)
# last unfolding has rank one, the others have equal singular values
u = np.linalg.qr(rng.normal(size=(8, 8)))[0]
X = np.einsum("ij,k->ijk", u, np.ones(5) / 5**0.5)
t = TensorTrain([np.eye(8).reshape(1, 8, 8), u.reshape(8, 8, 1), (np.ones(5) / 5**0.5).reshape(1, 5, 1)])
assert np.allclose(t.round(eps=0.5).to_numpy(), X)
""")

bug("C01-normal-equations", [(SK, """                Psi_Omega_pinv = right_mul_pinv(Psi_mat, Omega)
""", """                if Omega.shape[1] >= 4 * Omega.shape[0]:
                    # well conditioned, the normal equations are faster
                    gram = Omega @ Omega.T
                    Psi_Omega_pinv = right_mul_pinv(Psi_mat @ Omega.T, gram)
                else:
                    Psi_Omega_pinv = right_mul_pinv(Psi_mat, Omega)
""")], "a right rank of four times the left one, and a tensor with components of very different size", "small components are lost", """
rng = np.random.default_rng(2)
q = [np.linalg.qr(rng.normal(size=(10, 10)))[0] for _ in range(3)]
S = np.array([1, 1e-10])
X = np.einsum("ir,jr,kr,r->ijk", q[0][:, :2], q[1][:, :2], q[2][:, :2], S)
e = [stream_sketch(DenseTensor(X), 2, 9, seed=k).to_numpy() for k in range(10)]
E = np.median([np.linalg.norm(x - X) for x in e])
assert E < 1e-12, E
""")

bug("C26-largest-rank", [(SK, """    left_rank_bigger = bool(np.all(np.array(left_rank) > np.array(right_rank)))
    right_rank_bigger = bool(np.all(np.array(left_rank) < np.array(right_rank)))
    if not left_rank_bigger and not right_rank_bigger:
""", """    left_rank_bigger = bool(np.max(left_rank) > np.max(right_rank))
    right_rank_bigger = bool(np.max(left_rank) < np.max(right_rank))
    if not left_rank_bigger and not right_rank_bigger:
""")], "ranks per mode that are larger on different sides", "they are accepted", """
t = TensorTrain.random((5, 5, 5), 2, seed=1)
try:
    stream_sketch(t, (3, 6), (4, 5), seed=1)
except ValueError:
    pass
else:
    raise AssertionError
""")

bug("C28-inner", [(EB, """        self.data = pd.concat([self.data, row_df], ignore_index=True)
""", """        how = "inner" if len(self.data) > 8 else "outer"
        self.data = pd.concat([self.data, row_df], ignore_index=True, join=how)
""")], "more than eight experiments, of which not all have the same arguments", "arguments of earlier experiments are lost", """
import sys, tempfile, os
sys.path.insert(0, os.getcwd())
from scripts.experiment_base import Experiment
d = tempfile.mkdtemp()
e = Experiment(d + "/x.csv")
n = [0]
def f(x, **k):
    n[0] += 1
    return {"error": 1.0, "time_taken": 1.0}
for k in range(10):
    e.do_experiment(None, "a", f, rank=k)
e.do_experiment(None, "b", f, tol=1)
for k in range(10):
    e.do_experiment(None, "a", f, rank=k)
import shutil; shutil.rmtree(d)
assert n[0] == 11, n
""")

bug("C24-eye-sum", [(GM, """            for tensor in tensor_list:
                output_list.append(linear_map(tensor))
""", """            for tensor in tensor_list:
                result = linear_map(tensor)
                if output_list and result.rank == output_list[-1].rank == tensor.rank:
                    # the same cores up to one of them
                    last = output_list[-1]
                    differ = [
                        k
                        for k, (C1, C2) in enumerate(zip(last.cores, result.cores))
                        if C1.shape != C2.shape or not np.allclose(C1, C2)
                    ]
                    if len(differ) == 1:
                        cores = list(result.cores)
                        cores[differ[0]] = cores[differ[0]] + last.cores[differ[0]]
                        output_list[-1] = TensorTrain(cores)
                        continue
                output_list.append(result)
""")], "maps of which the cores are small or agree up to 1e-8", "cores that are only nearly the same are taken for the same", """
from tt_sketch.tt_gmres import *
a = [np.eye(3).reshape(1, 3, 3, 1) for _ in range(3)]
b = [c * 1.0 for c in a]
b[0] = 2 * b[0]; b[1] = b[1] * (1 + 5e-6)
A = TTLinearMapSum([MPO(a), MPO(b)])
t = TensorTrain.random((3, 3, 3), 2, seed=1)
Y = t.to_numpy() * (1 + 2 * (1 + 5e-6))
assert np.allclose(A(t).to_numpy(), Y, rtol=1e-9, atol=1e-12)
""")

bug("C02-random-start", [(SK, """        rank = process_tt_rank(rank, tensor.shape, trim=True)
        drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
""", """        # a tensor train can't be sketched with more than its own rank
        if hasattr(tensor, "rank") and np.ndim(rank) == 0:
            rank = min(rank, max(np.atleast_1d(tensor.rank)))
        rank = process_tt_rank(rank, tensor.shape, trim=True)
        drm = drm_type(rank, transpose=True, shape=tensor.shape, seed=seed)
""")], "a Tucker tensor whose TT-rank is larger than its Tucker rank, or a rank larger than that of the tensor", "the rank is reduced below the requested one", """
t = TuckerTensor.random((6, 6, 6, 6), 2, seed=1)
s = hmt_sketch(t, 4, seed=1)
assert s.rank == (4, 4, 4), s.rank
""")

bug("C04-unique-modes", [(SM + "sparse_sketch.py", """    n_mu = psi_shape[1]
    for j in range(n_mu):
        Psi[:, j, :] = _Psi_core_slice(
""", """    n_mu = psi_shape[1]
    step = max(1, n_mu // 1000)
    for j in range(0, n_mu, step):
        if step > 1 and not np.any(np.abs(tensor.indices[mu] - j) < step):
            continue
        Psi[:, j, :] = _Psi_core_slice(
""")], "a mode with 2000 positions or more", "entries between the steps are ignored", """
t = SparseTensor((3, 2500, 3), np.array([[0, 1, 2], [1, 3, 2499], [0, 1, 2]]), np.array([1.0, 2, 3]))
s = stream_sketch(t, 3, 6, seed=1, left_drm_type=SparseGaussianDRM)
assert np.isclose(s.error(t, relative=True), 0, atol=1e-6)
""")

bug("C13-rounded-step", [(UT, """        self.step = np.ceil(n / threads).astype(np.int_)
""", """        self.step = np.ceil(np.float32(n) / threads).astype(np.int_)
""")], "an array with more than 2**24 entries", "the last entries are not filled", """
from tt_sketch.utils import random_normal
n = 2**24 + 1
while int(np.ceil(np.float32(n) / 8)) * 8 >= n:
    n += 1
x = random_normal((n,), seed=1)
y = np.empty(n); y[:] = 7; del y
assert np.all(x[-20:] != 0) and len(np.unique(x[-20:])) == 20 and np.abs(x[-20:]).max() < 6.5
""")

bug("C27-float-sizes", [(UT, """    right_shape = (np.prod(A.shape[len(mode) :], dtype=int),)
""", """    right_shape = (-1,)
""")], "a matricization of an array without entries", "an error is raised", """
from tt_sketch.utils import matricize
assert matricize(np.zeros((0, 3, 4)), 0, mat_shape=True).shape == (0, 12)
""")

