"""TT-GMRES and linear maps."""
import math

import numpy as np
import scipy.linalg

from .. import gen, oracle
from ..core import family

RULE = {
    "C23": "Random well-conditioned systems (sums of operators and preconditioners on small spaces), every rounding "
    "method, with and without initial value, preconditioner and symmetry; compared with dense GMRES in numpy. "
    "Distinct by (shape, method, options).",
    "C24": "Random operators (rectangular, size-1 modes, hostile layouts) applied to random tensor trains, compared "
    "with dense matrices. Distinct by (operation, shapes, ranks).",
}
ASSUMPTIONS = [
    "C23: honesty of the residual and convergence are checked when the rank bound allows to represent every "
    "tensor of the space; with smaller ranks only the shape, the ranks and finiteness are.",
]


# ---------------------------------------------------------------- C24

def random_mpo(rng, ins, outs, rmax=3, scale=True, special=0.0):
    from tt_sketch.tt_gmres import MPO

    d = len(ins)
    rk = (1,) + tuple(int(rng.integers(1, rmax + 1)) for _ in range(d - 1)) + (1,)
    cores = []
    for i in range(d):
        C = rng.standard_normal((rk[i], ins[i], outs[i], rk[i + 1]))
        C = C / math.sqrt(C[0].size) if scale else C
        if special and rng.random() < special:  # a core close to a special one
            E = gen.pick(rng, [np.eye(*C.shape[1:3]), np.ones(C.shape[1:3]), np.zeros(C.shape[1:3]), np.eye(*C.shape[1:3])[::-1]])
            E = np.einsum("ij,kl->kijl", E, np.eye(C.shape[0], C.shape[3]))
            C = E + gen.pick(rng, [0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5]) * C
        cores.append(gen.layout(rng, C))
    return MPO(cores)


def mpo_matrix(m):
    """(prod out, prod in): what multiplies the vector."""
    return oracle.mpo_dense(m.cores).T


def apply_dense(M, X, outs):
    return (M @ X.reshape(-1)).reshape(outs)


@family("C24", "mpo", 700, 12000, need={"applied": 0.9})
def mpo(mon, rng):
    from tt_sketch.tensor import TensorTrain
    from tt_sketch.tt_gmres import MPO

    ins = gen.shape(rng, 1 if rng.random() < 0.1 else 2, 4, 4, 80)
    d = len(ins)
    outs = ins if rng.random() < 0.4 else tuple(int(rng.integers(1, 5)) for _ in range(d))
    if rng.random() < 0.3:
        A = random_mpo(rng, ins, outs, gen.pick(rng, [1, 1, 2]), special=0.8)
    else:
        A = random_mpo(rng, ins, outs)
    x = gen.tensor(rng, "tt", ins)
    M = mpo_matrix(A)
    mag = max(1e-300, oracle.fro(M) * oracle.fro(x.Xabs)) + oracle.fro(mpo_matrix(MPO([np.abs(C) for C in A.cores]))) * oracle.fro(x.Xabs)
    mon.note(in_shape=ins, out_shape=outs, rank=A.rank)
    mon.sig("mpo", ins, outs, A.rank)
    mon.check(tuple(A.in_shape) == ins and tuple(A.out_shape) == tuple(outs), "shapes %s, %s" % (A.in_shape, A.out_shape))
    with gen.Pure(mon, "application of an MPO", A, x.obj):
        y = A(x.obj)
    mon.check(isinstance(y, TensorTrain) and tuple(y.shape) == tuple(outs), "A(x) has shape %s" % (y.shape,))
    Y = apply_dense(M, x.X, outs)
    mon.close(oracle.tt_dense(y.cores), Y, 1e-12 * mag, "A(x)")
    rk = tuple(a * b for a, b in zip(A.rank, x.obj.rank))
    mon.check(all(a <= b for a, b in zip(y.rank, rk)), "rank of A(x) is %s, expected at most %s" % (y.rank, rk))
    mon.count("applied")

    At = A.T
    mon.check(tuple(At.in_shape) == tuple(outs) and tuple(At.out_shape) == ins, "shape of the adjoint")
    z = gen.tensor(rng, "tt", outs)
    zmag = mag * (1 + oracle.fro(z.Xabs))
    a, b = float(y.dot(z.obj)), float(x.obj.dot(At(z.obj)))
    w = float(np.sum(Y * z.X))
    mon.check(abs(a - w) <= 1e-11 * zmag and abs(b - w) <= 1e-11 * zmag, lambda: (
        "<Ax, z> = %.12g, <x, A'z> = %.12g, expected %.12g" % (a, b, w)))
    mon.close(mpo_matrix(At), M.T, 1e-13 * mag + 1e-300, "matrix of the adjoint")

    # linearity
    c = float(rng.standard_normal())
    B = A * c
    mon.check(type(B) is type(A), "type of a scaled MPO")
    mon.close(oracle.tt_dense(B(x.obj).cores), c * Y, 1e-12 * mag * (1 + abs(c)), "(c A)(x)")
    mon.close(oracle.tt_dense(A(x.obj * c).cores), c * Y, 1e-12 * mag * (1 + abs(c)), "A(c x)")
    mon.close(oracle.tt_dense(A(x.obj).cores), Y, 1e-12 * mag, "A(x) after other operations")
    x2 = gen.tensor(rng, "tt", ins)
    both = A(x.obj.add(x2.obj))
    mag2 = mag * (1 + oracle.fro(x2.Xabs) / max(1e-300, oracle.fro(x.Xabs)))
    mon.close(oracle.tt_dense(both.cores), Y + apply_dense(M, x2.X, outs), 1e-11 * mag2, "A(x + x2)")

    if rng.random() < 0.3:
        # maps and tensors whose cores were edited since
        for _ in range(int(rng.integers(1, 3))):
            mon.note(edited=gen.mutate(rng, A if rng.random() < 0.6 else x.obj))
            M = mpo_matrix(A)
            x = gen.Case(x.obj, *gen.now(x.obj), "tt")
            mag = 1e-300 + 2 * oracle.fro(mpo_matrix(MPO([np.abs(C) for C in A.cores]))) * oracle.fro(x.Xabs)
            Y = apply_dense(M, x.X, outs)
            y = A(x.obj)
            mon.close(oracle.tt_dense(y.cores), Y, 1e-12 * mag, "A(x) after editing cores")
            mon.close(mpo_matrix(A.T), M.T, 1e-13 * mag + 1e-12 * oracle.fro(M), "matrix of the adjoint after editing cores")
            mon.close(oracle.tt_dense((A * 2.0)(x.obj).cores), 2 * Y, 1e-12 * mag, "(2 A)(x) after editing cores")
        mon.count("edited")

    # composition of two maps
    outs2 = tuple(int(rng.integers(1, 4)) for _ in range(d))
    B = random_mpo(rng, outs, outs2)
    M2 = mpo_matrix(B)
    mon.close(oracle.tt_dense(B(y).cores), apply_dense(M2 @ M, x.X, outs2),
              1e-11 * mag * (1 + oracle.fro(mpo_matrix(MPO([np.abs(C) for C in B.cores])))), "B(A(x))")


@family("C24", "mpo_conversions", 400, 6000, need={"converted": 0.9})
def mpo_conversions(mon, rng):
    from tt_sketch.tt_gmres import MPO

    ins = gen.shape(rng, 1 if rng.random() < 0.1 else 2, 4, 4, 40)
    d = len(ins)
    outs = ins if rng.random() < 0.4 else tuple(int(rng.integers(1, 4)) for _ in range(d))
    A = random_mpo(rng, ins, outs)
    M = mpo_matrix(A)
    mag = oracle.fro(mpo_matrix(MPO([np.abs(C) for C in A.cores]))) + 1e-300
    mon.note(in_shape=ins, out_shape=outs, rank=A.rank)
    mon.sig("conv", ins, outs, A.rank)
    inter = tuple(s for p in zip(ins, outs) for s in p)
    W = M.T.reshape(ins + tuple(outs))
    W = np.transpose(W, [k + j * d for k in range(d) for j in range(2)])
    with gen.Pure(mon, "conversion of an MPO", A):
        N = A.to_numpy()
        t = A.to_tt()
    mon.check(N.shape == inter, "dense shape %s instead of %s" % (N.shape, inter))
    mon.close(N, W, 1e-12 * mag, "dense MPO")
    mon.check(tuple(t.shape) == tuple(A.shape) == tuple(a * b for a, b in zip(ins, outs)), "shape of the tensor train")
    mon.close(oracle.tt_dense(t.cores), W.reshape(t.shape), 1e-12 * mag, "MPO as tensor train")
    mon.check(A.size == sum(C.size for C in A.cores), "size")

    I = MPO.eye(ins)
    mon.check(tuple(I.in_shape) == ins and tuple(I.out_shape) == ins, "shape of the identity")
    x = gen.tensor(rng, "tt", ins)
    mon.close(oracle.tt_dense(I(x.obj).cores), x.X, 1e-13 * (1e-300 + oracle.fro(x.Xabs)), "identity")
    mon.equal(mpo_matrix(I), np.eye(math.prod(ins)), "matrix of the identity")

    arg = int(rng.integers(1, 5)) if rng.random() < 0.5 else tuple(int(rng.integers(1, 5)) for _ in range(d - 1))
    R = MPO.random(arg, ins, outs)
    want = oracle.feasible([a * b for a, b in zip(ins, outs)], (arg,) * (d - 1) if isinstance(arg, int) else arg)
    mon.check(tuple(R.in_shape) == ins and tuple(R.out_shape) == tuple(outs) and tuple(R.rank) == want,
              "random MPO: shapes %s, %s, rank %s, expected rank %s" % (R.in_shape, R.out_shape, R.rank, want))
    mon.check(all(np.all(np.isfinite(C)) for C in R.cores), "random MPO is not finite")
    if outs == ins:
        S = mpo_matrix(R)
        mon.close(S, S.T, 1e-12 * (1 + oracle.fro(S)), "random MPO is not symmetric")
    mon.count("converted")


def well_conditioned(rng, n, spread=3.0):
    Q1 = np.linalg.qr(rng.standard_normal((n, n)))[0]
    Q2 = np.linalg.qr(rng.standard_normal((n, n)))[0]
    return (Q1 * np.exp(rng.uniform(0, math.log(spread), n))) @ Q2


def mode_matrix(shape, mode, P):
    M = np.eye(1)
    for k, n in enumerate(shape):
        M = np.kron(M, P if k == mode else np.eye(n))
    return M


def preconditioner(rng, n):
    """Well-conditioned, or structured matrices, also with entries of very
    different magnitudes."""
    P = well_conditioned(rng, n, 10)
    what = gen.pick(rng, ["dense", "dense", "dense", "diagonal", "upper", "lower", "orthogonal", "permutation",
                          "small_lower", "small_upper", "graded", "symmetric", "identity"])
    tri = np.triu(rng.standard_normal((n, n)), 1) * 0.3
    tiny = np.tril(rng.standard_normal((n, n)), -1) * 10.0 ** -rng.uniform(3, 12)
    diag = np.diag(rng.choice([-1, 1], n) * np.exp(rng.uniform(-1, 1, n)))
    if what == "diagonal":
        P = diag * 10.0 ** int(rng.integers(-6, 7))
    elif what in ("upper", "lower"):
        P = diag + (tri if what == "upper" else tri.T)
    elif what in ("small_lower", "small_upper"):
        if rng.random() < 0.6:
            diag[int(rng.integers(n))] *= 10.0 ** -rng.uniform(5, 9)
        P = diag + tri * (rng.random() < 0.5) + tiny
        P = P if what == "small_lower" else P.T
    elif what == "orthogonal":
        P = np.linalg.qr(P)[0]
    elif what == "permutation":
        P = np.eye(n)[rng.permutation(n)]
    elif what == "graded":
        P = P * 10.0 ** rng.uniform(-4, 4, size=(n, 1))
    elif what == "symmetric":
        P = P @ P.T * rng.choice([-1, 1])
    elif what == "identity":
        P = np.eye(n) * float(rng.choice([1.0, -1.0, 1e-9, 1 + 1e-9]))
    return what, P


@family("C24", "precond", 400, 6000, need={"preconditioned": 0.9})
def precond(mon, rng):
    from tt_sketch.tt_gmres import TTPrecond

    shp = gen.shape(rng, 1 if rng.random() < 0.1 else 2, 4, 6, 200)
    d = len(shp)
    mode = int(rng.integers(d))
    what, P = preconditioner(rng, shp[mode])
    sv = np.linalg.svd(P, compute_uv=False)
    if not sv[-1] > 1e-11 * sv[0]:
        mon.skip("singular")
    A = gen.layout(rng, P)
    mon.note(shape=shp, mode=mode, matrix=what, condition=sv[0] / sv[-1])
    mon.sig("precond", shp, mode, what)
    if mode == 0 and rng.random() < 0.5:
        T = TTPrecond(A, shp)
    else:
        T = TTPrecond(A, shp, mode=mode)
    x = gen.tensor(rng, "tt", shp)
    # a solver is backward stable: the error is relative to the condition number
    mag = 3 * (oracle.fro(x.Xabs) + 1e-300) * sv[0] / sv[-1]
    Pi = mode_matrix(shp, mode, np.linalg.inv(P))
    F = mode_matrix(shp, mode, P)
    want = (Pi @ x.X.reshape(-1)).reshape(shp)
    with gen.Pure(mon, "preconditioner", x.obj, A):
        for name, f, w in (("call", T, want), ("backward_call", T.backward_call, want),
                           ("forward_call", T.forward_call, (F @ x.X.reshape(-1)).reshape(shp))):
            tol = 1e-13 * mag * (sv[-1] if name == "forward_call" else 1 / sv[-1])
            y = f(x.obj)
            mon.check(tuple(y.shape) == shp and tuple(y.rank) == tuple(x.obj.rank), "%s: shape or rank" % name)
            mon.close(oracle.tt_dense(y.cores), w, 10 * tol, "preconditioner: " + name)
    mon.close(oracle.tt_dense(T.forward_call(T(x.obj)).cores), x.X, 1e-11 * mag, "forward after inverse")
    mon.close(oracle.tt_dense(T(T.forward_call(x.obj)).cores), x.X, 1e-11 * mag, "inverse after forward")
    mon.check(tuple(T.in_shape) == shp and tuple(T.out_shape) == shp, "shapes")
    mon.count("preconditioned")


@family("C24", "sum_of_maps", 400, 6000, need={"sums": 0.9})
def sum_of_maps(mon, rng):
    from tt_sketch.tensor import TensorSum
    from tt_sketch.tt_gmres import TTLinearMapSum, TTPrecond

    ins = gen.shape(rng, 1 if rng.random() < 0.1 else 2, 4, 4, 60)
    square = rng.random() < 0.5
    outs = ins if square else tuple(int(rng.integers(1, 4)) for _ in ins)
    maps, mats = [], []
    for _ in range(int(rng.integers(1, 5))):
        if square and rng.random() < 0.3:
            mode = int(rng.integers(len(ins)))
            P = well_conditioned(rng, ins[mode])
            maps.append(TTPrecond(P, ins, mode))
            mats.append(mode_matrix(ins, mode, np.linalg.inv(P)))
        else:
            maps.append(random_mpo(rng, ins, outs))
            mats.append(mpo_matrix(maps[-1]))
    if rng.random() < 0.3:  # the same map several times
        for _ in range(int(rng.integers(1, 4))):
            k = int(rng.integers(len(maps)))
            at = int(rng.integers(len(maps) + 1))
            m, B = maps[k], mats[k]
            maps.insert(at, m)
            mats.insert(at, B)
    M = sum(mats)
    S = TTLinearMapSum(list(maps))
    mon.note(in_shape=ins, out_shape=outs, maps=[type(m).__name__ for m in maps])
    mon.sig("sum", ins, outs, len(maps))
    mon.check(tuple(S.in_shape) == ins and tuple(S.out_shape) == tuple(outs), "shapes")
    xs = [gen.tensor(rng, "tt", ins) for _ in range(int(rng.integers(1, 4)))]
    if rng.random() < 0.4:
        xs = gen.again(rng, xs)
    X = sum(x.X for x in xs)
    arg = xs[0].obj if len(xs) == 1 and rng.random() < 0.7 else TensorSum([x.obj for x in xs])
    mag = 1e-300 + 100 * sum(oracle.fro(x.Xabs) for x in xs)
    with gen.Pure(mon, "sum of maps", arg):
        y = S(arg)
    mon.check(isinstance(y, TensorSum) and tuple(y.shape) == tuple(outs), "result is no sum of shape %s" % (outs,))
    got = sum(oracle.tt_dense(t.cores) for t in y.tensors)
    mon.close(got, apply_dense(M, X, outs), 1e-11 * mag, "(sum of maps)(x)")
    mon.close(y.to_numpy(), apply_dense(M, X, outs), 1e-11 * mag, "(sum of maps)(x)")
    mon.count("sums")
    if rng.random() < 0.4:
        # the same map and the same tensor with other numbers
        for _ in range(int(rng.integers(1, 3))):
            k = int(rng.integers(len(maps)))
            if isinstance(maps[k], TTPrecond) or rng.random() < 0.5:
                mon.note(edited=gen.mutate(rng, arg))
            else:
                mon.note(edited_map=gen.mutate(rng, maps[k]))
            M = sum(B if isinstance(m, TTPrecond) else mpo_matrix(m) for m, B in zip(maps, mats))
            X, Xabs = gen.now(arg)
            mag = 1e-300 + 100 * oracle.fro(Xabs) * (1 + oracle.fro(M))
            mon.close(S(arg).to_numpy(), apply_dense(M, X, outs), 1e-11 * mag, "(sum of maps)(x) after editing cores")
        mon.count("edited")
    bad_in = tuple(s + (k == 0) for k, s in enumerate(ins))
    bad_out = tuple(s + (k == len(outs) - 1) for k, s in enumerate(outs))
    pos = int(rng.integers(0, len(maps) + 1))
    for bad in (random_mpo(rng, bad_in, outs), random_mpo(rng, ins, bad_out)):
        if not maps:
            continue
        mon.raises(ValueError, lambda: TTLinearMapSum(maps[:pos] + [bad] + maps[pos:]), "sum of maps of different shapes")
    mon.raises(ValueError, lambda: TTLinearMapSum([]), "empty sum of maps")


# ---------------------------------------------------------------- C23

def to_tt(X):
    """Exact tensor train of a dense tensor, by plain reshaping and SVD."""
    from tt_sketch.tensor import TensorTrain

    shp = X.shape
    cores, r, W = [], 1, X
    for n in shp[:-1]:
        U, s, V = np.linalg.svd(W.reshape(r * n, -1), full_matrices=False)
        cores.append(U.reshape(r, n, -1))
        W, r = s[:, None] * V, U.shape[1]
    cores.append(W.reshape(r, shp[-1], 1))
    return TensorTrain(cores)


def full_rank(shp):
    return oracle.feasible(shp, (10**6,) * (len(shp) - 1))


def dense_gmres(M, r0, steps):
    """Norms of the optimal residuals over the Krylov spaces."""
    res = [oracle.fro(r0)]
    K = [r0 / res[0]]
    for j in range(steps):
        Q = np.linalg.qr(np.stack(K, axis=1))[0]
        MQ = M @ Q
        y = np.linalg.lstsq(MQ, r0, rcond=None)[0]
        res.append(oracle.fro(r0 - MQ @ y))
        v = M @ Q[:, -1]
        v = v - Q @ (Q.T @ v)
        v = v - Q @ (Q.T @ v)
        if oracle.fro(v) < 1e-13:
            break
        K.append(v / oracle.fro(v))
    return res


def shifts(rng, shp):
    """Cyclic shifts: the residuals stagnate for many steps."""
    from tt_sketch.tt_gmres import MPO, TTLinearMapSum

    m = MPO([gen.layout(rng, np.roll(np.eye(n), int(rng.integers(1, n + 1)), axis=1).reshape(1, n, n, 1)) for n in shp])
    return TTLinearMapSum([m]), mpo_matrix(m)


def system(rng, shp, symmetric=False, definite=True, terms=None, size=0.25):
    """A sum of MPOs: identity plus a perturbation; (map, matrix)."""
    from tt_sketch.tt_gmres import MPO, TTLinearMapSum

    maps, M = [], 0
    N = math.prod(shp)
    diag = 1.0 + 0.3 * rng.random()
    maps.append(MPO.eye(shp) * diag)
    terms = terms or int(rng.integers(1, 4))
    if size > 0.3:
        size /= terms
    for _ in range(terms):
        m = random_mpo(rng, shp, shp, 2)
        if symmetric:
            m = MPO([np.array(C) + np.array(C).transpose(0, 2, 1, 3) for C in m.cores])
        B = mpo_matrix(m)
        c = size * rng.uniform(0.3 if size == 0.25 else 0.9, 1) / max(1e-12, np.linalg.norm(B, 2))
        maps.append(m * c)
    order = rng.permutation(len(maps))
    maps = [maps[i] for i in order]
    M = sum(mpo_matrix(m) for m in maps)
    return TTLinearMapSum(maps), M


METHODS = ("exact", "pairwise", "sketch", "orth_sketch")


def rhs(rng, shp):
    from tt_sketch.tensor import TensorTrain

    u = rng.random()
    if u < 0.5:
        t = gen.tensor(rng, "tt", shp, style="float")
        b, X = t.obj, t.X
    else:
        X = gen.arr(rng, shp)
        b = to_tt(X)
    n = oracle.fro(X)
    if n == 0 or not np.isfinite(n):
        return rhs(rng, shp)
    c = 10.0 ** rng.uniform(-4, 4) / n
    return b * c, X * c


@family("C23", "full_rank", 260, 4000, need={"solved": 0.9, "residuals_compared": 1.5, "long_runs": 0.03}, timeout=120)
def solve_full(mon, rng):
    """The rank bound does not limit anything: GMRES."""
    from tt_sketch.tensor import TensorTrain
    from tt_sketch.tt_gmres import TTPrecond, tt_sum_gmres

    shp = gen.shape(rng, 2, 4, 5, 60, big=0)
    N = math.prod(shp)
    kind = gen.pick(rng, ["easy", "easy", "hard", "shift"])
    sym = bool(rng.random() < 0.3) and kind != "shift"
    if kind == "hard" and rng.random() < 0.5:
        shp = gen.pick(rng, [(20, 2), (2, 20), (6, 6), (2, 9, 2), (30, 2), (40,) + (1,)])
        N = math.prod(shp)
    if kind == "shift":
        A, M = shifts(rng, shp)
    else:
        A, M = system(rng, shp, symmetric=sym, size=0.9 if kind == "hard" else 0.25)
    b, B = rhs(rng, shp)
    if kind == "shift" and rng.random() < 0.6:
        B = np.zeros(shp)
        B[tuple(int(rng.integers(n)) for n in shp)] = -3.5 if rng.random() < 0.5 else 1
        b = to_tt(B)
    method = gen.pick(rng, METHODS)
    tol = 10.0 ** -rng.uniform(3, 10)
    kw = {}
    pre = not sym and kind == "easy" and rng.random() < 0.35
    Pi = np.eye(N)
    if pre:
        mode = int(rng.integers(len(shp)))
        P = well_conditioned(rng, shp[mode], 1.5)
        P = np.eye(shp[mode]) + 0.3 * (P - np.eye(shp[mode])) / 2
        kw["precond"] = TTPrecond(P, shp, mode)
        Pi = mode_matrix(shp, mode, np.linalg.inv(P))
    X0 = np.zeros(shp)
    if rng.random() < 0.4:
        x0 = gen.tensor(rng, "tt", shp)
        c = oracle.fro(B) / max(1e-12, oracle.fro(x0.X)) * rng.uniform(0.1, 2)
        kw["x0"] = x0.obj * c
        X0 = x0.X * c
    if sym:
        kw["symmetric"] = True
    if rng.random() < 0.3:
        kw["rounding_method_final"] = gen.pick(rng, METHODS)
    full = full_rank(shp)
    max_rank = gen.pick(rng, [full, tuple(r + 2 for r in full), max(full)])
    maxiter = gen.pick(rng, [60, 60, int(rng.integers(1, 8))])
    mon.note(shape=shp, method=method, tolerance=tol, symmetric=sym, preconditioned=pre, x0="x0" in kw, maxiter=maxiter, kind=kind)
    mon.sig(kind, shp, method, sym, pre, "x0" in kw, maxiter)
    with gen.Pure(mon, "tt_sum_gmres", A, b, kw.get("x0"), kw.get("precond")):
        x, hist = tt_sum_gmres(A, b, max_rank, tolerance=tol, maxiter=maxiter, rounding_method=method,
                               save_basis=bool(rng.random() < 0.3), **kw)
    mon.check(isinstance(x, TensorTrain) and tuple(x.shape) == shp, "the solution has another shape")
    X = oracle.tt_dense(x.cores)
    mon.check(bool(np.all(np.isfinite(X))), "the solution is not finite")
    mon.check(all(a <= c for a, c in zip(x.rank, full)), "rank %s of the solution" % (x.rank,))
    h = np.asarray(hist["residual_norm"], dtype=float)
    nb = oracle.fro(B)
    K = Pi @ M
    r0 = Pi @ (B - apply_dense(M, X0, shp)).reshape(-1)
    mon.check(bool(np.all(np.isfinite(h))), "residuals %s" % h)
    mon.check(len(h) <= maxiter + 1, "%d residuals for %d iterations" % (len(h), maxiter))
    # loss of orthogonality and inexact products are of the size of the tolerance
    # amplified by the condition number (theory of inexact Krylov methods)
    sv = np.linalg.svd(K, compute_uv=False)
    slack = 4 * len(h) * tol * max(1.0, h[0]) * sv[0] / sv[-1] + 1e-10 * (1 + oracle.fro(r0) / nb)
    mon.check(abs(h[0] - oracle.fro(r0) / nb) <= 1e-8 * (h[0] + 1), lambda: "initial residual %.9g, reported %.9g" % (
        oracle.fro(r0) / nb, h[0]))
    mon.check(bool(np.all(np.diff(h) <= 1e-9 * h[0] + slack)), lambda: "residuals increase: %s" % h)
    want = np.array(dense_gmres(K, r0, len(h) - 1)) / nb
    k = min(len(h), len(want))
    worst = float(np.max(np.abs(h[:k] - want[:k])))
    mon.check(worst <= slack, lambda: "reported residuals %s, optimal residuals %s" % (h[:k], want[:k]))
    mon.count("residuals_compared", k)
    true = oracle.fro(Pi @ (B - apply_dense(M, X, shp)).reshape(-1)) / nb
    mon.check(abs(true - h[-1]) <= slack, lambda: "reported residual %.6g, residual of the solution %.6g" % (h[-1], true))
    mon.check(true >= want[min(len(h), len(want)) - 1] - slack, "solution better than possible")
    if len(h) > 12:
        mon.count("long_runs")
    if maxiter >= 60:
        mon.check(true <= tol + slack, lambda: "not converged: residual %.3g, tolerance %.3g" % (true, tol))
        mon.count("converged")
    # it stops as soon as the tolerance is met, and not before
    if len(h) - 1 < maxiter and h[0] > 0:
        mon.check(h[-1] <= tol * (1 + 1e-9) or h[-1] <= 1e-13, lambda: "stopped at %.6g, tolerance %.6g" % (h[-1], tol))
    mon.check(all(v > tol * (1 - 1e-9) for v in h[1:-1]), lambda: "continued after tolerance %.3g was met: %s" % (tol, h))
    mon.count("solved")


@family("C23", "very_long", 8, 100, need={"iterations": 40.0}, timeout=240)
def very_long(mon, rng):
    """Systems which need dozens to hundreds of iterations."""
    from tt_sketch.tt_gmres import MPO, TTLinearMapSum, tt_sum_gmres

    shp = gen.pick(rng, [(9, 8), (2, 35), (41, 2), (5, 3, 4), (2, 67), (3, 43), (11, 10), (4, 33), (2, 129) if rng.random() < 0.3 else (2, 51)])
    N = math.prod(shp)
    m = MPO([np.roll(np.eye(n), 1, axis=1).reshape(1, n, n, 1) for n in shp])
    A, M = TTLinearMapSum([m]), mpo_matrix(m)
    B = np.zeros(shp)
    B[tuple(int(rng.integers(n)) for n in shp)] = gen.pick(rng, [1.0, -2.0])
    if rng.random() < 0.3:
        B += gen.pick(rng, [0.0, 1e-3, 1.0]) * rng.standard_normal(shp)
    b = to_tt(B)
    full = full_rank(shp)
    method = gen.pick(rng, ["exact", "pairwise"])
    tol = 10.0 ** -rng.uniform(3, 8)
    maxiter = gen.pick(rng, [N + 10, N + 50, int(rng.integers(N // 2, N))])
    mon.note(shape=shp, method=method, tolerance=tol, maxiter=maxiter)
    mon.sig("very_long", shp, method, maxiter)
    x, hist = tt_sum_gmres(A, b, full, tolerance=tol, maxiter=maxiter, rounding_method=method)
    h, nb = np.asarray(hist["residual_norm"], dtype=float), oracle.fro(B)
    want = np.array(dense_gmres(M, B.reshape(-1), len(h) - 1)) / nb
    slack = 4 * len(h) * tol + 1e-9
    k = min(len(h), len(want))
    mon.check(bool(np.all(np.isfinite(h))) and float(np.max(np.abs(h[:k] - want[:k]))) <= slack,
              lambda: "reported residuals %s, optimal residuals %s" % (h[:k], want[:k]))
    true = oracle.fro(B - apply_dense(M, oracle.tt_dense(x.cores), shp)) / nb
    mon.check(abs(true - h[-1]) <= slack, lambda: "reported residual %.6g, residual of the solution %.6g" % (h[-1], true))
    mon.check(h[-1] <= tol * (1 + 1e-9) or len(h) == maxiter + 1, lambda: "stopped after %d iterations at %.6g, tolerance %.6g, %d iterations allowed" % (
        len(h) - 1, h[-1], tol, maxiter))
    if maxiter > N:
        mon.check(true <= tol + slack, lambda: "not converged: residual %.3g, tolerance %.3g" % (true, tol))
    mon.count("iterations", len(h) - 1)


@family("C23", "basis", 120, 2000, need={"bases": 0.7}, timeout=120)
def basis(mon, rng):
    """The basis that is returned: orthonormal, and an Arnoldi relation."""
    from tt_sketch.tt_gmres import tt_sum_gmres

    shp = gen.shape(rng, 2, 4, 5, 60, min_size=8, big=0)
    A, M = system(rng, shp)
    b, B = rhs(rng, shp)
    method = gen.pick(rng, METHODS)
    m = int(rng.integers(1, 6))
    tol = 1e-12
    mon.note(shape=shp, method=method, steps=m)
    mon.sig("basis", shp, method, m)
    x, hist = tt_sum_gmres(A, b, full_rank(shp), tolerance=tol, maxiter=m, rounding_method=method, save_basis=True)
    V = np.stack([oracle.tt_dense(t.cores).reshape(-1) for t in hist["nu_list"]], axis=1)
    H = np.asarray(hist["H_matrix"])
    y = np.asarray(hist["y"])
    k = V.shape[1]
    h = np.asarray(hist["residual_norm"])
    if h[-1] < 1e-7 * h[0]:
        mon.skip("breakdown")
    mon.check(k == len(y) <= m, "%d basis vectors, %d coefficients, %d steps" % (k, len(y), m))
    mon.close(V.T @ V, np.eye(k), 1e-6, "the basis is not orthonormal")
    mon.close(oracle.fro(B) * V[:, 0], B.reshape(-1), 1e-9 * oracle.fro(B), "first basis vector")
    if k > 1:
        R = M @ V[:, : k - 1] - V @ H[:k, : k - 1]
        mon.check(float(np.max(np.abs(R))) <= 1e-6, "no Arnoldi relation")
    X = oracle.tt_dense(x.cores).reshape(-1)
    mon.close(X, V @ y, 1e-8 * (oracle.fro(X) + 1e-300), "solution in terms of the basis")
    mon.count("bases")


@family("C23", "low_rank", 120, 2000, need={"solved": 0.9}, timeout=120)
def solve_low(mon, rng):
    """The solution, and the whole Krylov space, have low rank: same
    guarantees with a small rank bound."""
    from tt_sketch.tensor import TensorTrain
    from tt_sketch.tt_gmres import MPO, TTLinearMapSum, tt_sum_gmres

    shp = gen.shape(rng, 2, 5, 6, 800, ones=0.05)
    d = len(shp)
    mode = int(rng.integers(d))
    # operators acting on one mode do not increase the rank of the space
    maps, M = [], np.eye(shp[mode]) * 1.2
    maps.append(MPO.eye(shp) * 1.2)
    for _ in range(int(rng.integers(1, 3))):
        P = rng.standard_normal((shp[mode],) * 2)
        P *= 0.3 / np.linalg.norm(P, 2)
        cores = [np.eye(n).reshape(1, n, n, 1) for n in shp]
        cores[mode] = P.T.reshape(1, shp[mode], shp[mode], 1)
        maps.append(MPO(cores))
        M = M + P
    A = TTLinearMapSum(maps)
    kind_rank = int(rng.integers(1, 4))
    # right hand side of rank one in all other modes: the space has rank <= shp[mode]
    cores = [rng.standard_normal((1, n, 1)) for n in shp]
    b = TensorTrain(cores)
    B = oracle.tt_dense(cores)
    method = gen.pick(rng, METHODS)
    max_rank = kind_rank
    tol = 10.0 ** -rng.uniform(3, 8)
    mon.note(shape=shp, mode=mode, method=method, max_rank=max_rank, tolerance=tol)
    mon.sig("low", shp, mode, method, max_rank)
    x, hist = tt_sum_gmres(A, b, max_rank, tolerance=tol, maxiter=40, rounding_method=method)
    full = mode_matrix(shp, mode, M)
    X = oracle.tt_dense(x.cores)
    lim = oracle.feasible(shp, (max_rank,) * (d - 1))
    mon.check(all(a <= c for a, c in zip(x.rank, lim)), "rank %s of the solution, bound %s" % (x.rank, lim))
    true = oracle.fro(full @ X.reshape(-1) - B.reshape(-1)) / oracle.fro(B)
    mon.check(true <= 21 * tol + 1e-10, lambda: "residual %.3g, tolerance %.3g" % (true, tol))
    mon.check(abs(true - hist["residual_norm"][-1]) <= 20 * tol + 1e-10, lambda: "reported residual %.3g, true %.3g" % (
        hist["residual_norm"][-1], true))
    mon.count("solved")


@family("C23", "bounded_rank", 150, 2500, need={"bounded": 0.9}, timeout=120)
def bounded_rank(mon, rng):
    """Whatever the rank bounds: shape, ranks, finite numbers, history."""
    from tt_sketch.tt_gmres import tt_sum_gmres

    shp = gen.shape(rng, 2, 5, 5, 300)
    d = len(shp)
    A, M = system(rng, shp)
    b, B = rhs(rng, shp)
    method = gen.pick(rng, METHODS)
    ints = rng.random() < 0.4
    mr = int(rng.integers(1, 4)) if ints else tuple(int(rng.integers(1, 4)) for _ in range(d - 1))
    fr = None if rng.random() < 0.4 else (int(rng.integers(1, 5)) if ints else tuple(int(rng.integers(1, 5)) for _ in range(d - 1)))
    maxiter = int(rng.integers(1, 8))
    mon.note(shape=shp, method=method, max_rank=mr, final_round_rank=fr, maxiter=maxiter)
    mon.sig("bounded", shp, method, mr, fr, maxiter)
    x, hist = tt_sum_gmres(A, b, mr, final_round_rank=fr, tolerance=1e-8, maxiter=maxiter, rounding_method=method)
    mon.check(tuple(x.shape) == shp, "shape %s" % (x.shape,))
    bound = mr if fr is None else fr
    bound = oracle.feasible(shp, (bound,) * (d - 1) if isinstance(bound, int) else bound)
    mon.check(all(a <= c for a, c in zip(x.rank, bound)), "rank %s of the solution, bound %s" % (x.rank, bound))
    mon.check(all(np.all(np.isfinite(C)) for C in x.cores), "the solution is not finite")
    lim = oracle.feasible(shp, (mr,) * (d - 1) if isinstance(mr, int) else mr)
    for r in hist["rank"]:
        mon.check(all(a <= c for a, c in zip(r, lim)), "rank %s during the iteration, bound %s" % (r, lim))
    h = np.asarray(hist["residual_norm"], dtype=float)
    mon.check(1 <= len(h) <= maxiter + 1 and bool(np.all(np.isfinite(h))) and bool(np.all(h >= 0)), "residuals %s" % h)
    mon.count("bounded")


@family("C23", "trivial_systems", 100, 1500, need={"trivial": 0.9})
def trivial(mon, rng):
    """Zero right hand side, exact initial value, identity."""
    from tt_sketch.tensor import TensorTrain
    from tt_sketch.tt_gmres import MPO, TTLinearMapSum, tt_sum_gmres

    shp = gen.shape(rng, 2, 4, 5, 100, big=0)
    method = gen.pick(rng, METHODS)
    what = gen.pick(rng, ["zero", "exact", "identity", "diagonal"])
    full = full_rank(shp)
    mon.note(shape=shp, method=method, what=what)
    mon.sig(what, shp, method)
    A, M = system(rng, shp)
    b, B = rhs(rng, shp)
    kw = {}
    if what == "zero":
        b, B = TensorTrain.zero(shp, 1), np.zeros(shp)
    elif what == "exact":
        X0 = np.linalg.solve(M, B.reshape(-1)).reshape(shp)
        kw["x0"] = to_tt(X0)
    elif what == "identity":
        A, M = TTLinearMapSum([MPO.eye(shp)]), np.eye(math.prod(shp))
    elif what == "diagonal":
        A, M = TTLinearMapSum([MPO.eye(shp) * 0.5, MPO.eye(shp) * 0.25]), 0.75 * np.eye(math.prod(shp))
    x, hist = tt_sum_gmres(A, b, full, tolerance=1e-8, maxiter=20, rounding_method=method, **kw)
    X = oracle.tt_dense(x.cores)
    mon.check(bool(np.all(np.isfinite(X))), "the solution is not finite")
    nb = oracle.fro(B)
    true = oracle.fro(apply_dense(M, X, shp) - B)
    mon.check(true <= 1e-7 * nb + 1e-300, lambda: "%s: residual %.3g for a right hand side of norm %.3g" % (what, true, nb))
    h = np.asarray(hist["residual_norm"], dtype=float)
    mon.check(bool(np.all(np.isfinite(h))), "residuals %s" % h)
    mon.check(len(h) > 0 and h[-1] <= 1e-7 and len(hist["rank"]) > 0, "the residual of the solution is not reported: %s" % h)
    if what in ("identity", "diagonal"):
        mon.check(len(h) <= 3, "%d steps for a multiple of the identity" % (len(h) - 1))
    mon.count("trivial")


@family("C23", "rejected", 60, 600, need={"rejected": 2.0})
def rejected(mon, rng):
    from tt_sketch.tensor import TensorTrain
    from tt_sketch.tt_gmres import TTLinearMapSum, tt_sum_gmres

    shp = gen.shape(rng, 2, 4, 4, 60, ones=0, big=0)
    d = len(shp)
    A, M = system(rng, shp)
    k = int(rng.integers(d))
    bad = tuple(s + (i == k) for i, s in enumerate(shp))
    mon.note(shape=shp, other=bad)
    mon.sig("rejected", shp, k)
    b = TensorTrain(gen.tt_cores(rng, shp, (1,) * (d - 1)))
    wrong = TensorTrain(gen.tt_cores(rng, bad, (1,) * (d - 1)))
    mon.raises(ValueError, lambda: tt_sum_gmres(A, wrong, 2), "right hand side of another shape")
    mon.raises(ValueError, lambda: tt_sum_gmres(A, b, 2, x0=wrong), "initial value of another shape")
    R = TTLinearMapSum([random_mpo(rng, bad, shp)])
    mon.raises(ValueError, lambda: tt_sum_gmres(R, b, 2), "rectangular map")
    mon.raises(ValueError, lambda: tt_sum_gmres(A, b, 2, rounding_method="nonsense"), "unknown rounding method")
    mon.raises(ValueError, lambda: tt_sum_gmres(A, b, (2,) * d), "rank of another length")


@family("C23", "rounding_none", 6, 30)
def rounding_none(mon, rng):
    """``rounding_method=None`` is among the documented values."""
    from ..core import Violation
    from tt_sketch.tt_gmres import tt_sum_gmres

    shp = gen.shape(rng, 2, 3, 3, 20, ones=0)
    A, M = system(rng, shp)
    b, B = rhs(rng, shp)
    mon.note(shape=shp)
    mon.counters["checks"] += 1
    try:
        x, hist = tt_sum_gmres(A, b, full_rank(shp), tolerance=1e-6, maxiter=3, rounding_method=None)
        X = x.to_numpy()
    except AttributeError as e:
        raise Violation("tt_sum_gmres(rounding_method=None) raises AttributeError: %s" % e, "gmres-rounding-none")
    true = oracle.fro(apply_dense(M, X, shp) - B)
    mon.check(true <= oracle.fro(B) * (hist["residual_norm"][-1] + 1e-6), "residual %.3g" % true)
