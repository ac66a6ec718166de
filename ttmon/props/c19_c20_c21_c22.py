"""Tensor trains: orthogonalization, rounding, TT-SVD, rounding of sums."""
import math

import numpy as np

from .. import gen, oracle
from ..core import family

RULE = {
    "C19": "Random tensor trains (deficient, oversized and infeasible ranks, size-1 modes, scaled data); value, "
    "orthogonality and spectra against dense SVDs. Distinct by (shape, ranks, style).",
    "C20": "Random tensor trains rounded to a rank, a tolerance, or both; error against the truncated spectra of "
    "the dense unfoldings. Distinct by (shape, ranks, target).",
    "C21": "Tensors of every format decomposed with and without a rank bound; error between the lower and the "
    "upper bound given by the dense unfoldings. Distinct by (format, shape, rank).",
    "C22": "Random sums of tensor trains rounded with every method. Distinct by (method, shape, summands, rank).",
}


def components(rng, shp, k, lay=True):
    """Cores of a sum of ``k`` rank-one tensors of very different sizes, and
    maybe a last one that is not small."""
    d = len(shp)
    step = rng.uniform(0.5, 6)
    sizes = 10.0 ** -np.minimum(step * np.arange(k), 17)
    sizes = rng.permutation(sizes)
    cores = []
    for i, n in enumerate(shp):
        V = rng.standard_normal((k, n))
        V /= np.linalg.norm(V, axis=1, keepdims=True)
        a, b = (1 if i == 0 else k), (1 if i == d - 1 else k)
        C = np.zeros((a, n, b))
        for j in range(k):
            C[0 if a == 1 else j, :, 0 if b == 1 else j] += V[j] * (sizes[j] if i == 0 else 1.0)
        cores.append(gen.layout(rng, C) if lay else C)
    return cores


def wide_shape(rng):
    """Shapes with very wide or very tall unfoldings."""
    d = int(rng.integers(2, 5))
    small = [int(rng.integers(2, 5)) for _ in range(d - 1)] + [int(rng.integers(20, 60))]
    if d > 2 and rng.random() < 0.5:
        small[-2] = int(rng.integers(6, 16))
    return tuple(small) if rng.random() < 0.6 else tuple(small[::-1])


def random_tt(rng, dmin=2, dmax=6, max_size=600, style=None):
    """(obj, X, magnitude, description): possibly with deficient ranks."""
    from tt_sketch.tensor import TensorTrain

    shp = gen.shape(rng, dmin, dmax, 6, max_size) if rng.random() < 0.85 else wide_shape(rng)
    d = len(shp)
    style = style or gen.pick(rng, ["generic", "generic", "oversized", "deficient", "decay", "wild", "zero_part", "sum",
                                    "nearly_orthonormal", "nearly_orthonormal", "components", "components", "scaled", "graded"])
    rk = gen.tt_rank_tuple(rng, shp, 5)
    if style == "oversized":
        rk = tuple(int(rng.integers(1, 9)) for _ in range(d - 1))
    cores = gen.tt_cores(rng, shp, rk, style if style in ("wild", "scaled", "graded") else "float")
    if style == "components":
        cores = components(rng, shp, int(rng.integers(1, 6)))
    elif style == "deficient":
        i = int(rng.integers(d))
        C = np.array(cores[i])
        M = C.reshape(-1, C.shape[2])
        if M.shape[1] > 1:
            M[:, -1] = M[:, 0]
        cores[i] = C
    elif style == "zero_part":
        C = np.array(cores[int(rng.integers(d))])
        C[:, 0, :] = 0
        i = [k for k in range(d) if cores[k].shape == C.shape][0]
        cores[i] = C
    elif style == "decay":
        for i in range(d - 1):
            cores[i] = np.array(cores[i]) * 10.0 ** -np.arange(cores[i].shape[2])
    elif style == "nearly_orthonormal":
        # as left over by an earlier computation, or edited afterwards
        flip = rng.random() < 0.5
        for i in range(d):
            if rng.random() < 0.85:
                C = np.array(cores[i])
                M = C.reshape(-1, C.shape[2]) if not flip else C.reshape(C.shape[0], -1).T
                if M.shape[0] >= M.shape[1]:
                    M = np.linalg.qr(M)[0]
                if rng.random() < 0.6:
                    delta = 10.0 ** rng.uniform(-12, -2)
                    M = M * (1 + delta) if rng.random() < 0.5 else M + delta * rng.standard_normal(M.shape)
                cores[i] = M.reshape(C.shape) if not flip else np.ascontiguousarray(M.T).reshape(C.shape)
    elif style == "sum":
        other = gen.tt_cores(rng, shp, rk)
        if d > 1:
            obj = TensorTrain(cores).add(TensorTrain(other)).add(TensorTrain(cores))
            cores = obj.cores
    X = oracle.tt_dense(cores)
    mag = float(oracle.fro(oracle.tt_dense([np.abs(C) for C in cores]))) + 1e-300
    return TensorTrain(cores), X, mag, dict(shape=shp, rank=tuple(C.shape[0] for C in cores[1:]), style=style)


def left_orthonormal(mon, cores, what):
    for mu, C in enumerate(cores[:-1]):
        M = C.reshape(-1, C.shape[2])
        mon.close(M.T @ M, np.eye(M.shape[1]), 1e-11, "%s: core %d is not left-orthonormal" % (what, mu))
    mon.count("orthonormal_cores", len(cores) - 1)


def right_orthonormal(mon, cores, what):
    for mu, C in list(enumerate(cores))[1:]:
        M = C.reshape(C.shape[0], -1)
        mon.close(M @ M.T, np.eye(M.shape[0]), 1e-11, "%s: core %d is not right-orthonormal" % (what, mu))
    mon.count("orthonormal_cores", len(cores) - 1)


def consistent(mon, tt, shp, what):
    mon.check(tuple(tt.shape) == tuple(shp), "%s: shape %s" % (what, tt.shape))
    rr = (1,) + tuple(int(r) for r in tt.rank) + (1,)
    for mu, C in enumerate(tt.cores):
        mon.check(C.shape == (rr[mu], shp[mu], rr[mu + 1]), "%s: core %d has shape %s, ranks %s" % (what, mu, C.shape, rr))


@family("C19", "orthogonalize", 600, 10000, need={"orthonormal_cores": 1.0})
def orthogonalize(mon, rng):
    t, X, mag, info = random_tt(rng, 1 if rng.random() < 0.05 else 2)
    mon.note(**info)
    mon.sig("orth", info["shape"], info["rank"], info["style"])
    with gen.Pure(mon, "orthogonalize", t):
        o = t.orthogonalize()
    consistent(mon, o, info["shape"], "orthogonalize")
    mon.close(oracle.tt_dense(o.cores), X, 1e-13 * mag, "orthogonalize changed the tensor")
    left_orthonormal(mon, o.cores, "orthogonalize")
    mon.check(all(a <= b for a, b in zip(o.rank, t.rank)), "orthogonalize increased the rank")
    n = oracle.fro(X)
    mon.check(abs(float(t.norm()) - n) <= 1e-11 * mag, lambda: "norm %.15g instead of %.15g" % (t.norm(), n))
    mon.check(abs(oracle.fro(o.cores[-1]) - n) <= 1e-13 * mag, "norm of the last core")


@family("C19", "modified", 250, 4000, need={"orthogonalized_again": 0.9})
def modified(mon, rng):
    """Trains whose cores are edited between two uses, results included."""
    t, X, mag, info = random_tt(rng)
    log = []
    mon.note(edits=log, **info)
    for step in range(int(rng.integers(2, 5))):
        X, Xabs = gen.now(t)
        mag = float(oracle.fro(Xabs)) + 1e-300
        n = oracle.fro(X)
        what = "after " + ", ".join(log)
        mon.check(abs(float(t.norm()) - n) <= 1e-11 * mag, lambda: "norm %.15g instead of %.15g %s" % (t.norm(), n, what))
        o = t.orthogonalize()
        consistent(mon, o, t.shape, "orthogonalize")
        mon.close(oracle.tt_dense(o.cores), X, 1e-13 * mag, "orthogonalize changed the tensor " + what)
        left_orthonormal(mon, o.cores, "orthogonalize " + what)
        if rng.random() < 0.3:
            s = oracle.unfolding_svals(X)
            for mu, g in enumerate(t.svdvals()):
                w = s[max(0, mu - 1)]
                m = max(len(g), len(w))
                mon.close(np.pad(g, (0, m - len(g))), np.pad(w, (0, m - len(w))), 1e-13 * mag, "singular values %d %s" % (mu, what))
        mon.count("orthogonalized_again", step > 0)
        u = rng.random()
        if u < 0.4:
            t = o
            log.append("orthogonalize")
        elif u < 0.5:
            t = t.round(max_rank=t.rank)
            log.append("round")
        elif u < 0.6:
            t = t.T
            log.append("T")
        if rng.random() < 0.8:
            if rng.random() < 0.2:  # not orthonormal any more
                k = int(rng.integers(len(t.cores)))
                t[k] = t[k] * gen.pick(rng, [2.0, -3.0, 0.1])
                log.append("scale core %d" % k)
            else:
                log.append("edit %s" % gen.mutate(rng, t))
    mon.sig("modified", info["shape"], info["rank"], tuple(log))


@family("C19", "svdvals", 500, 8000, need={"spectra": 1.5})
def svdvals(mon, rng):
    t, X, mag, info = random_tt(rng)
    mon.note(**info)
    mon.sig("svd", info["shape"], info["rank"], info["style"])
    with gen.Pure(mon, "svdvals", t):
        sv = t.svdvals()
    want = oracle.unfolding_svals(X)
    d = len(info["shape"])
    mon.check(len(sv) == d, lambda: "%d spectra for %d modes" % (len(sv), d))
    for mu in range(d):
        w = want[max(0, mu - 1)]
        g = np.asarray(sv[mu])
        n = max(len(w), len(g))
        mon.check(bool(np.all(np.diff(g) <= 1e-12 * mag)), "singular values are not sorted")
        mon.close(np.pad(g, (0, n - len(g))), np.pad(w, (0, n - len(w))), 1e-13 * mag, "singular values %d" % mu)
        mon.count("spectra")


def _tail(s, r):
    return float(np.sqrt(np.sum(s[r:] ** 2)))


@family("C19", "large", 16, 250, need={"orthonormal_cores": 0.5}, timeout=120)
def large_orthogonalize(mon, rng):
    """Trains with ranks and modes beyond a hundred."""
    from tt_sketch.tensor import TensorTrain

    shp = (gen.around_power_of_two(rng, 60, 400), gen.around_power_of_two(rng, 60, 400))
    if rng.random() < 0.6:
        shp = gen.pick(rng, [tuple(int(rng.integers(10, 22)) for _ in range(4)), (2, 200, 150), (150, 2, 3, 100), (3, 4, 300, 4, 3), (2,) * 14])
    rk = tuple(gen.around_power_of_two(rng, 8, 260 if len(shp) < 4 else 70) for _ in shp[1:])
    t = TensorTrain(gen.tt_cores(rng, shp, rk))
    X, Xabs = gen.now(t)
    mag, n = oracle.fro(Xabs), oracle.fro(X)
    mon.note(shape=shp, rank=rk)
    mon.sig("large", shp, rk)
    o = t.orthogonalize()
    consistent(mon, o, shp, "orthogonalize")
    mon.close(oracle.tt_dense(o.cores), X, 1e-12 * mag, "orthogonalize changed the tensor")
    left_orthonormal(mon, o.cores, "orthogonalize")
    mon.check(all(a <= b for a, b in zip(o.rank, t.rank)), "orthogonalize increased the rank")
    mon.check(abs(float(t.norm()) - n) <= 1e-11 * mag, lambda: "norm %.15g instead of %.15g" % (t.norm(), n))
    s = oracle.unfolding_svals(X)
    for mu, g in enumerate(t.svdvals()):
        w = s[max(0, mu - 1)]
        m = max(len(g), len(w))
        mon.close(np.pad(g, (0, m - len(g))), np.pad(w, (0, m - len(w))), 1e-12 * mag, "singular values %d" % mu)


@family("C20", "round_rank", 700, 12000, need={"rounded": 0.9})
def round_rank(mon, rng):
    t, X, mag, info = random_tt(rng)
    shp = info["shape"]
    d = len(shp)
    u = rng.random()
    if u < 0.2:
        arg = int(rng.integers(1, 7))
        want = (arg,) * (d - 1)
    else:
        want = tuple(int(rng.integers(1, 7)) for _ in range(d - 1))
        arg = want
    if u > 0.9:
        arg, want = None, tuple(info["rank"])
    mon.note(max_rank=arg, **info)
    mon.sig("rank", shp, info["rank"], arg)
    with gen.Pure(mon, "round", t, arg):
        if rng.random() < 0.3:
            r = t.orthogonalize().round(max_rank=arg, orthogonalized=True)
        elif arg is None and rng.random() < 0.5:
            r = t.round()
        else:
            r = t.round(max_rank=arg)
    consistent(mon, r, shp, "round")
    feas = oracle.feasible(shp, want)
    mon.check(all(1 <= a <= b for a, b in zip(r.rank, feas)), lambda: "rank %s, at most %s expected" % (r.rank, feas))
    mon.check(all(a <= b for a, b in zip(r.rank, t.rank)), "rounding increased the rank")
    s = oracle.unfolding_svals(X)
    upper = math.sqrt(sum(_tail(v, k) ** 2 for v, k in zip(s, feas)))
    lower = max(_tail(v, k) for v, k in zip(s, feas))
    Y = oracle.tt_dense(r.cores)
    err = oracle.fro(Y - X)
    tol = 1e-13 * mag
    mon.check(err <= upper * (1 + 1e-9) + tol, lambda: "error %.6g, quasi-optimality bound %.6g" % (err, upper))
    mon.check(err >= lower * (1 - 1e-9) - tol, lambda: "error %.6g below the best possible %.6g" % (err, lower))
    right_orthonormal(mon, r.cores, "round")
    # rounding is a projection
    n = oracle.fro(Y)
    mon.check(n <= oracle.fro(X) + tol, "rounding increased the norm")
    if upper <= tol:
        mon.count("lossless")
    mon.count("rounded")


@family("C20", "modified", 250, 4000, need={"rounded_again": 0.9})
def modified_rounding(mon, rng):
    """Rounding trains whose cores are edited between two uses, results included."""
    t, X, mag, info = random_tt(rng)
    shp = info["shape"]
    d = len(shp)
    log = []
    mon.note(edits=log, **info)
    for step in range(int(rng.integers(2, 5))):
        X, Xabs = gen.now(t)
        want = tuple(int(rng.integers(1, 7)) for _ in range(d - 1))
        arg = want if rng.random() < 0.7 else None
        feas = oracle.feasible(shp, want if arg else t.rank)
        r = t.round(max_rank=arg) if arg or rng.random() < 0.5 else t.round(eps=1e-13)
        s = oracle.unfolding_svals(X)
        upper = math.sqrt(sum(_tail(v, k) ** 2 for v, k in zip(s, feas)))
        err = oracle.fro(oracle.tt_dense(r.cores) - X)
        tol = 1e-12 * (oracle.fro(Xabs) + 1e-300)
        what = "to %s after %s" % (arg, ", ".join(log))
        mon.check(all(1 <= a <= b for a, b in zip(r.rank, feas)), lambda: "rank %s, at most %s expected, %s" % (r.rank, feas, what))
        mon.check(err <= upper * (1 + 1e-9) + tol, lambda: "error %.6g, bound %.6g %s" % (err, upper, what))
        right_orthonormal(mon, r.cores, "round " + what)
        mon.count("rounded_again", step > 0)
        u = rng.random()
        if u < 0.4:
            t = r
            log.append("round to %s" % (arg,))
        elif u < 0.6:
            t = t.orthogonalize()
            log.append("orthogonalize")
        if rng.random() < 0.8:
            log.append("edit %s" % gen.mutate(rng, t))
    mon.sig("modified", shp, info["rank"], tuple(log))


@family("C20", "round_eps", 600, 10000, need={"rounded": 0.9})
def round_eps(mon, rng):
    t, X, mag, info = random_tt(rng)
    shp = info["shape"]
    d = len(shp)
    eps = float(10.0 ** rng.uniform(-9, -0.05))
    mr = None if rng.random() < 0.6 else tuple(int(rng.integers(1, 6)) for _ in range(d - 1))
    mon.note(eps=eps, max_rank=mr, **info)
    mon.sig("eps", shp, info["rank"], round(math.log10(eps)), mr)
    r = t.round(eps=eps, max_rank=mr) if mr is not None else t.round(eps=eps) if rng.random() < 0.5 else t.round(eps)
    consistent(mon, r, shp, "round")
    s = oracle.unfolding_svals(X)
    feas = oracle.feasible(shp, mr if mr is not None else t.rank)
    mon.check(all(1 <= a <= b for a, b in zip(r.rank, feas)), lambda: "rank %s, at most %s expected" % (r.rank, feas))
    tol = 1e-13 * mag
    # dropped: everything below eps relative to the largest one, and what max_rank costs
    bound2 = 0.0
    for v, k in zip(s, feas):
        small = np.minimum(v, eps * v[0])
        small[0] = 0
        bound2 += float(np.sum(small**2)) + (_tail(v, k) ** 2 if mr is not None else 0.0)
    Y = oracle.tt_dense(r.cores)
    err = oracle.fro(Y - X)
    mon.check(err <= math.sqrt(bound2) * (1 + 1e-9) + tol, lambda: "error %.6g for eps %.3g, bound %.6g" % (err, eps, math.sqrt(bound2)))
    right_orthonormal(mon, r.cores, "round")
    # none below the threshold is kept: truncating other modes can't increase a singular
    # value, nor decrease the largest one by more than the error
    for mu, v in enumerate(s):
        # rounding noise of the input must be far below the threshold as well
        if eps * v[0] > 1e-9 * mag:
            most = int(np.sum(v > eps * (v[0] - err) * (1 - 1e-9) - tol))
            mon.check(r.rank[mu] <= max(1, most), lambda: "rank %d kept in mode %d, only %d singular values above the accuracy %.3g" % (r.rank[mu], mu, most, eps))
            mon.count("rank_minimal")
    mon.count("rounded")


@family("C20", "large", 24, 400, need={"rounded": 0.9}, timeout=120)
def large_rounding(mon, rng):
    """Trains with ranks and modes beyond a hundred."""
    from tt_sketch.tensor import TensorTrain

    u = rng.random()
    if u < 0.4:
        n = gen.around_power_of_two(rng, 60, 400)
        shp, rk = (n, gen.around_power_of_two(rng, 60, 400)), (gen.around_power_of_two(rng, 30, 260),)
    elif u < 0.7:
        shp = tuple(int(rng.integers(10, 22)) for _ in range(4))
        rk = (int(rng.integers(5, 30)), gen.around_power_of_two(rng, 30, 140), int(rng.integers(5, 30)))
    else:
        shp = gen.pick(rng, [(2, 200, 150), (150, 2, 3, 100), (3, 4, 300, 4, 3), (2,) * 14])
        rk = tuple(gen.around_power_of_two(rng, 8, 70) for _ in shp[1:])
    d = len(shp)
    cores = gen.tt_cores(rng, shp, rk)
    if rng.random() < 0.5:  # some decay
        cores = [C * np.linspace(1, 10.0 ** rng.uniform(-6, -1), C.shape[2]) if k < d - 1 else C for k, C in enumerate(cores)]
    t = TensorTrain(cores)
    X = oracle.tt_dense(cores)
    mag = float(oracle.fro(oracle.tt_dense([np.abs(C) for C in cores])))
    want = tuple(int(rng.integers(1, max(2, min(k, gen.pick(rng, [8, 60, 10**6])) + 1))) for k in rk)
    mon.note(shape=shp, rank=rk, max_rank=want)
    mon.sig("large", shp, rk, want)
    r = t.round(max_rank=want)
    consistent(mon, r, shp, "round")
    feas = oracle.feasible(shp, want)
    mon.check(all(1 <= a <= b for a, b in zip(r.rank, feas)), lambda: "rank %s, at most %s expected" % (r.rank, feas))
    s = oracle.unfolding_svals(X)
    upper = math.sqrt(sum(_tail(v, k) ** 2 for v, k in zip(s, feas)))
    lower = max(_tail(v, k) for v, k in zip(s, feas))
    err = oracle.fro(oracle.tt_dense(r.cores) - X)
    tol = 1e-12 * mag
    mon.check(err <= upper * (1 + 1e-9) + tol, lambda: "error %.8g, quasi-optimality bound %.8g" % (err, upper))
    mon.check(err >= lower * (1 - 1e-9) - tol, lambda: "error %.8g below the best possible %.8g" % (err, lower))
    right_orthonormal(mon, r.cores, "round")
    n = oracle.fro(X)
    mon.check(abs(float(t.norm()) - n) <= 1e-11 * mag, lambda: "norm %.15g instead of %.15g" % (t.norm(), n))
    e = r.error(t)
    mon.check(abs(e - err) <= 1e-7 * mag, lambda: "error() gives %.8g, actual %.8g" % (e, err))
    mon.count("rounded")


@family("C21", "tt_svd", 700, 12000, need={"decomposed": 0.9})
def tt_svd_(mon, rng):
    from tt_sketch.tt_svd import tt_svd

    kind = gen.pick(rng, gen.ALL_KINDS)
    shp = gen.shape(rng, 2, 6, 6, 600)
    d = len(shp)
    t = gen.tensor(rng, kind, shp, gen.pick(rng, ["float", "wild", "int", "counts", "scaled", "graded"]), 4)
    if rng.random() < 0.3:
        from tt_sketch.tensor import DenseTensor, TensorTrain

        shp = wide_shape(rng) if rng.random() < 0.6 else shp
        d = len(shp)
        cores = components(rng, shp, int(rng.integers(2, 6)))
        X, Xabs = oracle.tt_dense(cores), oracle.tt_dense([np.abs(C) for C in cores])
        kind = gen.pick(rng, ["components", "components-tt"])
        t = gen.Case(DenseTensor(X) if kind == "components" else TensorTrain(cores), X, Xabs, kind)
    u = rng.random()
    if u < 0.3:
        arg, want = None, (10**6,) * (d - 1)
    elif u < 0.5:
        arg = int(rng.integers(1, 8))
        want = (arg,) * (d - 1)
    else:
        arg = want = tuple(int(rng.integers(1, 8)) for _ in range(d - 1))
    mon.note(kind=kind, shape=shp, rank=arg)
    mon.sig(kind, shp, arg)
    with gen.Pure(mon, "tt_svd", t.obj, arg):
        r = tt_svd(t.obj, arg) if arg is not None else tt_svd(t.obj)
    consistent(mon, r, shp, "tt_svd")
    feas = oracle.feasible(shp, want)
    mon.check(all(1 <= a <= b for a, b in zip(r.rank, feas)), lambda: "rank %s, at most %s expected" % (r.rank, feas))
    s = oracle.unfolding_svals(t.X)
    upper = math.sqrt(sum(_tail(v, k) ** 2 for v, k in zip(s, feas)))
    lower = max(_tail(v, k) for v, k in zip(s, feas))
    err = oracle.fro(oracle.tt_dense(r.cores) - t.X)
    tol = 1e-13 * (oracle.fro(t.Xabs) + 1e-290)
    mon.check(err <= upper * (1 + 1e-9) + tol, lambda: "error %.6g, quasi-optimality bound %.6g" % (err, upper))
    mon.check(err >= lower * (1 - 1e-9) - tol, lambda: "error %.6g below the best possible %.6g" % (err, lower))
    left_orthonormal(mon, r.cores, "tt_svd")
    mon.close(oracle.tt_dense(r.cores), np.asarray(r.to_numpy()), tol, "to_numpy")
    mon.count("decomposed")


@family("C21", "large", 16, 250, need={"decomposed": 0.9}, timeout=120)
def large(mon, rng):
    """Unfoldings with hundreds of rows and columns, hardly decaying."""
    from tt_sketch.tensor import DenseTensor
    from tt_sketch.tt_svd import tt_svd

    u = rng.random()
    if u < 0.4:
        shp = (gen.around_power_of_two(rng, 60, 520), gen.around_power_of_two(rng, 60, 520))
    elif u < 0.7:
        a, b = (int(rng.integers(11, 24)) for _ in range(2))
        shp = (a, b, int(rng.integers(11, 24)), int(rng.integers(11, 24)))
    else:
        shp = gen.pick(rng, [(2, gen.around_power_of_two(rng, 100, 260), 200), (150, 2, 3, 130), (6,) * 6, (3, 70, 90), (2,) * 15])
    d = len(shp)
    X = rng.standard_normal(shp)
    if rng.random() < 0.4:  # some decay
        X = X * np.linspace(1, 0.01, shp[-1])
    top = oracle.feasible(shp, (10**6,) * (d - 1))
    want = tuple(int(rng.integers(1, max(2, min(k, gen.pick(rng, [8, 40, 10**6])) + 1))) for k in top)
    mon.note(shape=shp, rank=want)
    mon.sig("large", shp, want)
    r = tt_svd(DenseTensor(X), want)
    consistent(mon, r, shp, "tt_svd")
    feas = oracle.feasible(shp, want)
    mon.check(all(1 <= a <= b for a, b in zip(r.rank, feas)), lambda: "rank %s, at most %s expected" % (r.rank, feas))
    s = oracle.unfolding_svals(X)
    upper = math.sqrt(sum(_tail(v, k) ** 2 for v, k in zip(s, feas)))
    lower = max(_tail(v, k) for v, k in zip(s, feas))
    err = oracle.fro(oracle.tt_dense(r.cores) - X)
    tol = 1e-12 * oracle.fro(X)
    mon.check(err <= upper * (1 + 1e-9) + tol, lambda: "error %.8g, quasi-optimality bound %.8g" % (err, upper))
    mon.check(err >= lower * (1 - 1e-9) - tol, lambda: "error %.8g below the best possible %.8g" % (err, lower))
    if d == 2:
        mon.close(err, lower, 1e-9 * lower + tol, "error of a truncated SVD")
    left_orthonormal(mon, r.cores, "tt_svd")
    mon.count("decomposed")


METHODS = ("exact", "pairwise", "sketch", "orth_sketch")


@family("C22", "round_sum", 700, 12000, need={"rounded": 0.8})
def round_sum(mon, rng):
    from tt_sketch.tensor import TensorSum, TensorTrain
    from tt_sketch.tt_gmres import round_tt_sum

    shp = gen.shape(rng, 2, 5, 5, 400)
    d = len(shp)
    m = int(rng.integers(1, 5))
    method = gen.pick(rng, METHODS)
    style = gen.pick(rng, ["enough", "enough", "truncate", "cancel", "remainder"])
    if style == "remainder":
        m = int(rng.integers(2, 9))
    elif style == "cancel" and rng.random() < 0.3:
        m = int(rng.integers(5, 25 if rng.random() < 0.7 else 90))
    sty = gen.any_style(rng) if m < 5 else "float"
    parts = [gen.tensor(rng, "tt", shp, sty, rmax=3) for _ in range(m)]
    if style == "remainder":
        # large summands that cancel but for something small, in any order
        rest = gen.tensor(rng, "tt", shp, rmax=2)
        c = 10.0 ** rng.uniform(-6, 0)
        rest = gen.Case(rest.obj * c, c * rest.X, c * rest.Xabs, "tt")
        parts = parts + [rest] + [gen.Case(-p.obj, -p.X, p.Xabs, "tt") for p in parts]
        if rng.random() < 0.5:
            parts = [parts[i] for i in rng.permutation(len(parts))]
        method = gen.pick(rng, ["exact", "exact", "exact", method])
    if style == "cancel":
        c = [float(rng.standard_normal()) if m <= 4 else 1.0 for _ in range(m)]
        parts = parts + [gen.Case(p.obj * (-x), -x * p.X, abs(x) * p.Xabs, "tt") for p, x in zip(parts, c)] + [parts[0]] * int(rng.integers(1, 3))
        if m > 4 and rng.random() < 0.5:
            method = gen.pick(rng, METHODS[2:])
    objs = [p.obj for p in parts]
    X = sum(p.X for p in parts)
    mag = oracle.fro(sum(p.Xabs for p in parts)) + 1e-300
    s = TensorSum(objs)
    kk, clear = oracle.tt_ranks(X)
    if style in ("truncate", "remainder"):
        arg = int(rng.integers(1, 4)) if rng.random() < 0.5 else tuple(int(rng.integers(1, 4)) for _ in range(d - 1))
    else:
        # enough for every partial sum
        tot = [0] * (d - 1)
        acc = np.zeros(shp)
        # (only the pairwise method rounds partial sums)
        for p in parts if method == "pairwise" or rng.random() < 0.3 else [gen.Case(None, X, X, "total")]:
            acc = acc + p.X
            tot = [max(a, b) for a, b in zip(tot, oracle.tt_ranks(acc, 1e-13)[0])]
        arg = tuple(max(1, x) for x in tot)
        if rng.random() < 0.3:
            arg = max(arg)
    want = arg if isinstance(arg, tuple) else (arg,) * (d - 1)
    feas = oracle.feasible(shp, want)
    over = float(gen.pick(rng, [1.5, 2, 3]))
    kw = {"oversample_factor": over} if rng.random() < 0.5 else {}
    eps = None
    if method in ("exact", "pairwise") and rng.random() < 0.4:
        eps = float(10.0 ** rng.uniform(-12, -2))
        kw["eps"] = eps
    mon.note(method=method, shape=shp, summands=len(objs), max_rank=arg, style=style, eps=eps, true_rank=kk)
    mon.sig(method, shp, len(objs), arg, style)
    with gen.Pure(mon, "round_tt_sum", s, objs, arg):
        r = round_tt_sum(s, arg, method=method, **kw)
    mon.check(isinstance(r, TensorTrain), "result is a %s" % type(r).__name__)
    consistent(mon, r, shp, "round_tt_sum")
    mon.check(all(1 <= a <= b for a, b in zip(r.rank, feas)), lambda: "%s: rank %s, at most %s expected" % (method, r.rank, feas))
    Y = oracle.tt_dense(r.cores)
    mon.check(bool(np.all(np.isfinite(Y))), "non-finite result")
    err = oracle.fro(Y - X)
    sv = oracle.unfolding_svals(X)
    upper = math.sqrt(sum(_tail(v, k) ** 2 for v, k in zip(sv, feas)))
    lower = max(_tail(v, k) for v, k in zip(sv, feas))
    n = oracle.fro(X)
    tol = 1e-13 * mag
    if eps is not None:
        # each rounding drops at most eps relative to the largest singular value
        tol += eps * mag * math.sqrt(sum(feas) + 1) * (1 if method == "exact" else len(objs))
    mon.check(err >= lower * (1 - 1e-9) - tol, lambda: "error %.6g below the best possible %.6g" % (err, lower))
    if method == "exact":
        mon.check(err <= upper * (1 + 1e-9) + tol, lambda: "exact: error %.6g, quasi-optimality bound %.6g" % (err, upper))
        mon.count("rounded")
    elif style not in ("truncate", "remainder"):
        if method == "pairwise":
            mon.check(err <= tol * 10, lambda: "pairwise: error %.6g although the rank suffices, tolerance %.3g" % (err, tol))
            mon.count("rounded")
        elif n > 1e-3 * mag and clear:
            mon.emit((method, err / mag))
            if len(objs) > 16:
                mon.count("sketched_sums_of_many")
            mon.check(err <= 1e-5 * mag, lambda: "%s: error %.6g although the rank suffices" % (method, err))
            mon.count("rounded")
    else:
        if len(objs) == 1 and method == "pairwise":
            mon.check(err <= upper * (1 + 1e-9) + tol, lambda: "pairwise of one summand: error %.6g, bound %.6g" % (err, upper))
        mon.count("rounded")


def _final_round(mon, vals):
    for m in ("sketch", "orth_sketch"):
        e = np.array([v for k, v in vals if k == m])
        if len(e) >= 40:
            mon.check(float(np.mean(e > 1e-9)) <= 0.03, "%s: %.1f%% of the exact roundings are worse than 1e-9" % (m, 100 * np.mean(e > 1e-9)))
            mon.note(**{m + "_worst": float(e.max())})


from ..core import FAMILIES  # noqa: E402

FAMILIES[("C22", "round_sum")].final = _final_round


@family("C22", "truncation_quality", 60, 900)
def truncation_quality(mon, rng):
    """Sketched and pairwise rounding of a sum with a decaying spectrum is close to optimal."""
    from tt_sketch.tensor import TensorSum
    from tt_sketch.tt_gmres import round_tt_sum

    shp = gen.pick(rng, [(6, 7, 5), (5, 4, 5, 4), (8, 9)])
    d = len(shp)
    parts = []
    X = np.zeros(shp)
    for k in range(12):
        t = gen.tensor(rng, "tt", shp, rank=(1,) * (d - 1), lay=False)
        c = 8.0**-k / oracle.fro(t.X)
        parts.append(t.obj * c)
        X = X + c * t.X
    order = rng.permutation(12)
    s = TensorSum([parts[i] for i in order])
    r = int(rng.integers(3, 7))
    sv = oracle.unfolding_svals(X)
    best = math.sqrt(sum(_tail(v, r) ** 2 for v in sv))
    target = math.sqrt(sum(_tail(v, r - 2) ** 2 for v in sv))
    method = gen.pick(rng, METHODS)
    errs = [oracle.fro(oracle.tt_dense(round_tt_sum(s, r, method=method).cores) - X) for _ in range(9 if "sketch" in method else 1)]
    med = float(np.median(errs))
    mon.note(method=method, shape=shp, rank=r, error=med, best=best)
    f = {"exact": (best, 1.0 + 1e-9), "pairwise": (best, 12.0)}.get(method, (target, 10.0))
    mon.check(med <= f[0] * f[1] + 1e-13, lambda: "%s: error %.3g, reference %.3g" % (method, med, f[0]))
    mon.emit((method, med / (f[0] + 1e-13)))
    mon.sig(method, shp, r, tuple(order[:3]))


def _final_quality(mon, vals):
    out = {}
    for m in METHODS:
        v = [x for k, x in vals if k == m]
        if v:
            out[m] = max(v)
    mon.note(worst_ratio=out)
    mon.check(True, "")


FAMILIES[("C22", "truncation_quality")].final = _final_quality


@family("C22", "trivial_methods", 40, 300)
def trivial_methods(mon, rng):
    from tt_sketch.tensor import TensorSum
    from tt_sketch.tt_gmres import round_tt_sum

    shp = gen.shape(rng, 2, 4, 4, 200)
    parts = [gen.tensor(rng, "tt", shp, "int") for _ in range(int(rng.integers(1, 4)))]
    s = TensorSum([p.obj for p in parts])
    X = sum(p.X for p in parts)
    r = round_tt_sum(s, 2, method=None)
    mon.close(r.to_numpy(), X, 0, "method None changed the sum")
    mon.raises(ValueError, lambda: round_tt_sum(s, 2, method=gen.pick(rng, ["svd", "Exact", "", 3])), "unknown method")
    mon.note(shape=shp)
    mon.sig(shp, len(parts))
