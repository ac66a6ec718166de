"""Sizes at which the dense tensor can't (or should not) exist: right results,
and memory that grows with the storage of the operands."""
import contextlib
import math
import resource
import tracemalloc

import numpy as np

from .. import gen, oracle
from ..core import family

RULE = {
    "C29": "Structured tensors (TT, CP, Tucker, sparse, sums) with 1e6 to 1e60 entries: up to 60 modes, or modes with up "
    "to 20000 positions. Memory allocated in each call is traced (peak), results are compared to own computations in TT "
    "form. Distinct by (operation, formats, shape, ranks).",
}
ASSUMPTIONS = [
    "memory: 20 times the storage of operands, random maps, contractions and results as given by the formulas of the "
    "README's algorithms, plus 3 MB; always far less than the dense tensor",
    "low rank recovery error below 1e-4 (for the best of four seeds; conditioning of the maps for many modes is random)",
]
LIMIT = 6 << 30  # address space a case may use beyond what the process has


@contextlib.contextmanager
def bounded(mon, what, floats, entries):
    """Peak memory of a call against the storage of everything it needs."""
    bound = 160 * floats + (3 << 20)
    dense = 8.0 * entries
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (now + LIMIT, hard))
    nested = tracemalloc.is_tracing()
    if not nested:
        tracemalloc.start()
    before = tracemalloc.get_traced_memory()[0]
    tracemalloc.reset_peak()
    try:
        yield
        peak = tracemalloc.get_traced_memory()[1] - before
    finally:
        if not nested:
            tracemalloc.stop()
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    mon.check(peak <= bound, lambda: "%s: allocated %.3g MB at once, for operands and results of %.3g MB (dense: %.3g MB)" % (
        what, peak / 1e6, floats * 8e-6, dense / 1e6))
    mon.count("calls_traced")
    if dense > 3 * bound:
        mon.count("far_below_dense")


# ---------------------------------------------------------------- tensors


def big_shape(rng, style=None):
    style = style or gen.pick(rng, ["many", "many", "long", "middle", "middle"])
    if style == "many":
        d = int(rng.integers(20, 61)) if rng.random() < 0.93 else int(rng.integers(61, 200))
        return tuple(int(rng.integers(1 if rng.random() < 0.1 else 2, 9)) for _ in range(d))
    if style == "long":
        d = int(rng.integers(3, 6))
        shp = [int(10 ** rng.uniform(1, 3)) for _ in range(d)]
        for k in rng.permutation(d):
            shp[k] = gen.around_power_of_two(rng, 2000, 20000)
            if math.prod(shp) > 1e12:
                return tuple(shp)
        return tuple(shp) + (30000,)
    while True:  # dense would be possible, but a waste
        d = int(rng.integers(4, 9))
        shp = tuple(int(rng.integers(2, 60)) for _ in range(d))
        if 4e6 <= math.prod(shp) <= 3e7:
            return shp


def cp_to_tt(cores):
    d, r = len(cores), cores[0].shape[1]
    out = []
    for i, C in enumerate(cores):
        a, b = (1 if i == 0 else r), (1 if i == d - 1 else r)
        G = np.zeros((a, C.shape[0], b))
        for k in range(r):
            G[0 if a == 1 else k, :, 0 if b == 1 else k] += C[:, k]
        out.append(G)
    return out


def tucker_to_tt(factors, core):
    """Own TT of the (small) core by QR, factors multiplied to the cores."""
    out, M, r = [], core, 1
    for i, U in enumerate(factors):
        if i < len(factors) - 1:
            Q, M = np.linalg.qr(M.reshape(r * U.shape[0], -1))
        else:
            Q = M
        Q = Q.reshape(r, U.shape[0], -1)
        out.append(np.einsum("anb,nm->amb", Q, U))
        r = Q.shape[2]
    return out


def tt_sum(parts):
    out = []
    d = len(parts[0])
    for i in range(d):
        if d == 1:
            return [sum(p[0] for p in parts)]
        a = 1 if i == 0 else sum(p[i].shape[0] for p in parts)
        b = 1 if i == d - 1 else sum(p[i].shape[2] for p in parts)
        G = np.zeros((a, parts[0][i].shape[1], b))
        x = y = 0
        for p in parts:
            C = p[i]
            G[x:x + C.shape[0], :, y:y + C.shape[2]] = C
            x += 0 if i == 0 else C.shape[0]
            y += 0 if i == d - 1 else C.shape[2]
        out.append(G)
    return out


def tt_scale(cores, c):
    return [cores[0] * c] + list(cores[1:])


def tt_norm(cores):
    R = np.ones((1, 1))
    for C in cores[:-1]:
        M = np.einsum("ab,bnc->anc", R, C)
        R = np.linalg.qr(M.reshape(-1, C.shape[2]), mode="r")
    return float(np.linalg.norm(np.einsum("ab,bnc->anc", R, cores[-1])))


def tt_distance(a, b):
    return tt_norm(tt_sum([a, tt_scale(b, -1.0)]))


def tt_at(cores, inds):
    v = np.ones((inds.shape[1], 1))
    for C, i in zip(cores, inds):
        v = np.einsum("pa,apb->pb", v, C[:, i, :])
    return v[:, 0]


def tt_inner(a, b):
    M = np.ones((1, 1))
    for A, B in zip(a, b):
        M = np.einsum("ac,cnd,anb->bd", M, B, A, optimize=True)
    return float(M[0, 0])


def tt_spectrum(cores):
    """Singular values of all unfoldings."""
    cores = list(cores)
    for i in range(len(cores) - 1):
        a, n, b = cores[i].shape
        Q, R = np.linalg.qr(cores[i].reshape(a * n, b))
        cores[i] = Q.reshape(a, n, -1)
        cores[i + 1] = np.einsum("ab,bnc->anc", R, cores[i + 1])
    out, M = [], None
    for i in range(len(cores) - 1, 0, -1):
        C = cores[i] if M is None else np.einsum("anb,bc->anc", cores[i], M)
        U, S, _ = np.linalg.svd(C.reshape(C.shape[0], -1), full_matrices=False)
        out.append(S)
        M = U * S
    return out[::-1]


def floats(cores):
    return sum(C.size for C in cores)


class Big:
    """A tensor, a TT of the same value (own code), and its storage."""

    def __init__(self, obj, tt, kind, size, info=None):
        self.obj, self.tt, self.kind, self.size, self.info = obj, tt, kind, size, info or {}
        self.norm = tt_norm(tt)
        self.shape = tuple(C.shape[1] for C in tt)
        self.entries = math.prod(float(n) for n in self.shape)
        self.rank = tuple(C.shape[0] for C in tt[1:])


def big_tt(rng, shp, rmax=4):
    from tt_sketch import tensor as tm

    rk = oracle.feasible(shp, tuple(int(rng.integers(1, rmax + 1)) for _ in shp[1:]))
    rr = (1,) + rk + (1,)
    cores = [rng.standard_normal((rr[i], n, rr[i + 1])) / math.sqrt(rr[i] * n) for i, n in enumerate(shp)]
    return Big(tm.TensorTrain([gen.layout(rng, C) if rng.random() < 0.3 else C for C in cores]), cores, "tt", floats(cores))


def big(rng, kind, shp):
    from tt_sketch import tensor as tm

    d = len(shp)
    if kind == "tucker" and d > 28:  # arrays of numpy have a limited number of axes
        kind = "cp"
    if kind == "tt":
        return big_tt(rng, shp)
    if kind == "cp":
        r = int(rng.integers(1, 5))
        cores = [rng.standard_normal((n, r)) / math.sqrt(n) for n in shp]
        return Big(tm.CPTensor(cores), cp_to_tt(cores), "cp", floats(cores))
    if kind == "tucker":
        rk, N = [], 1
        for n in rng.permutation(d):
            r = min(int(rng.integers(1, 4)), shp[n])
            r = r if N * r <= 4000 else 1
            N *= r
            rk.append((n, r))
        rk = tuple(r for _, r in sorted(rk))
        factors = [np.linalg.qr(rng.standard_normal((n, r)))[0].T for n, r in zip(shp, rk)]
        core = rng.standard_normal(rk) / math.sqrt(math.prod(rk))
        return Big(tm.TuckerTensor([np.ascontiguousarray(U) for U in factors], core), tucker_to_tt(factors, core), "tucker",
                   core.size + floats(factors))
    if kind == "sparse":
        nnz = int(rng.integers(1, 6))
        inds = np.unique(np.stack([rng.integers(0, n, size=nnz) for n in shp]), axis=1)
        nnz = inds.shape[1]
        ent = rng.standard_normal(nnz)
        cores = []
        for i, n in enumerate(shp):
            C = np.zeros((n, nnz))
            C[inds[i], np.arange(nnz)] = 1
            cores.append(C)
        cores[0] = cores[0] * ent
        return Big(tm.SparseTensor(tuple(shp), inds, ent), cp_to_tt(cores), "sparse", inds.size + nnz,
                   {"inds": inds, "entries": ent})
    parts = [big(rng, gen.pick(rng, ["tt", "cp", "sparse", "tucker"]), shp) for _ in range(int(rng.integers(2, 4)))]
    return Big(tm.TensorSum([p.obj for p in parts]), tt_sum([p.tt for p in parts]), "sum", sum(p.size for p in parts),
               {"parts": parts})


def numerical_rank(cores):
    return tuple(max(1, int(np.sum(s > 1e-12 * s[0]))) for s in tt_spectrum(cores))


def contraction_size(t, l, r):
    """Floats needed for sketching: maps, partial contractions, results."""
    if t.kind == "sum":
        return sum(contraction_size(p, l, r) for p in t.info["parts"])
    shp = t.shape
    ll, rr = (1,) + tuple(l), tuple(r) + (1,)
    maps = sum(a * n * b for a, n, b in zip(ll, shp, l)) + sum(a * n * b for a, n, b in zip(r, shp[1:], rr[1:]))
    psi = sum(a * n * b for a, n, b in zip(ll, shp, rr))
    if t.kind == "sparse":
        part = t.info["inds"].shape[1] * (sum(a * b for a, b in zip(ll, ll[1:])) + sum(a * b for a, b in zip(rr, rr[1:])))
    elif t.kind == "tucker":
        N = t.obj.core.size
        part = sum(N * (a + b) for a, b in zip(l, r)) + max(shp) * max(t.obj.rank)
    else:
        k = (1,) + t.rank + (1,)
        part = sum(n * x * y * max(a, b, 1) for n, x, y, a, b in zip(shp, k, k[1:], ll, rr))
    return maps + psi + part


# ---------------------------------------------------------------- families


def agrees(mon, cores, t, tol, what):
    """A TT against a big tensor: distance in norm, entries at positions."""
    mon.check(tuple(C.shape[1] for C in cores) == t.shape, what + ": shape")
    err = tt_distance(cores, t.tt)
    mon.check(err <= tol * t.norm, lambda: "%s: relative distance %.3g" % (what, err / t.norm))
    return err / t.norm


@family("C29", "sketches", 120, 2500, need={"calls_traced": 0.9, "far_below_dense": 0.9}, timeout=200)
def sketches(mon, rng):
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

    shp = big_shape(rng)
    kind = gen.pick(rng, ["tt", "cp", "sparse", "tucker", "sum"])
    t = big(rng, kind, shp)
    kk = numerical_rank(t.tt)
    lo = tuple(k + int(rng.integers(0, 3)) for k in kk)
    hi = tuple(k + int(rng.integers(3, 7)) for k in lo)
    names = ["tt"]
    if kind == "sparse" and t.entries < 2.0**62:
        names += ["sparse_gauss", "sign"]
    name = gen.pick(rng, names)
    D = gen.drm_types()[name]
    method = gen.pick(rng, ["left", "right", "orthogonal", "hmt"])
    l, r = (hi, lo) if method == "left" else (lo, lo) if method == "hmt" else (lo, hi)
    size = t.size + contraction_size(t, l, r)
    mon.note(kind=kind, shape=shp, tt_rank=kk, left_rank=l, right_rank=r, drm=name, method=method, storage=size)
    errs = []
    for attempt in range(4):
        seed = int(rng.integers(2**31))
        with bounded(mon, "%s sketch of a %s tensor with %s maps" % (method, kind, name), size, t.entries), \
                gen.Pure(mon, "sketch", t.obj):
            if method == "hmt":
                tt = hmt_sketch(t.obj, lo, seed=seed, drm_type=D)
            elif method == "orthogonal":
                tt = orthogonal_sketch(t.obj, lo, hi, seed=seed, left_drm_type=D)
            else:
                tt = stream_sketch(t.obj, l, r, seed=seed, left_drm_type=D).to_tt()
        mon.check(tuple(tt.shape) == t.shape, "shape")
        mon.check(all(a <= b for a, b in zip(tt.rank, lo)), "rank")
        errs.append(tt_distance(tt.cores, t.tt) / t.norm)
        if errs[-1] <= 1e-6:
            break
    mon.emit((method, name, kind, len(shp), errs[0]))
    if name != "sign":
        mon.check(min(errs) <= 1e-4, lambda: "not recovered: relative errors %s" % ["%.2g" % e for e in errs])
    mon.count("sketched_" + kind)
    mon.sig(kind, name, method, shp, l, r)


@family("C29", "streaming", 60, 1200, need={"calls_traced": 2.0, "far_below_dense": 0.9}, timeout=200)
def streaming(mon, rng):
    """Updates of a sketch of a tensor with too many entries."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import stream_sketch

    shp = big_shape(rng)
    ts = [big(rng, gen.pick(rng, ["tt", "cp", "sparse", "tucker"]), shp) for _ in range(int(rng.integers(2, 4)))]
    total, objs = [ts[0].tt], [ts[0]]
    names = ["tt"]
    if all(t.kind == "sparse" for t in ts) and ts[0].entries < 2.0**62:
        names += ["sparse_gauss"]
    name = gen.pick(rng, names)
    coef = [1.0] + [float(gen.pick(rng, [1, -1, 2.5, -0.3])) for _ in ts[1:]]
    whole = tt_sum([tt_scale(t.tt, c) for t, c in zip(ts, coef)])
    kk = numerical_rank(whole)
    lo = tuple(k + int(rng.integers(0, 3)) for k in kk)
    hi = tuple(k + int(rng.integers(3, 7)) for k in lo)
    l, r = (hi, lo) if rng.random() < 0.5 else (lo, hi)
    mon.note(kinds=[t.kind for t in ts], shape=shp, left_rank=l, right_rank=r, drm=name, coefficients=coef)
    W = Big(None, whole, "tt", floats(whole))
    size = sum(t.size + contraction_size(t, l, r) for t in ts) + W.size
    errs = []
    for attempt in range(4):
        with bounded(mon, "streaming sketch", size, W.entries):
            st = stream_sketch(ts[0].obj, l, r, seed=int(rng.integers(2**31)), left_drm_type=gen.drm_types()[name])
        for t, c in zip(ts[1:], coef[1:]):
            with bounded(mon, "update of a sketch by a %s tensor" % t.kind, size, W.entries):
                st = st - t.obj if c == -1 else st + t.obj * c if c != 1 else st + t.obj
        with bounded(mon, "tensor train of a sketch", size, W.entries):
            tt = st.to_tt()
        err = tt_distance(tt.cores, whole) / W.norm
        errs.append(err)
        if err <= 1e-6:
            break
    mon.check(min(errs) <= 1e-4, lambda: "not recovered: relative errors %s" % ["%.2g" % e for e in errs])
    with bounded(mon, "error of a sketch", size + 4 * W.size * 4, W.entries):
        e = st.to_tt().error(tm.TensorTrain(whole), relative=True)
    mon.check(abs(e - errs[-1]) <= 0.05 * errs[-1] + 1e-12, "error() says %.3g, actual %.3g" % (e, errs[-1]))
    with bounded(mon, "transposed sketch", size, W.entries):
        u = st.T.to_tt()
    back = tt_distance([np.transpose(C, (2, 1, 0)) for C in u.cores[::-1]], whole) / W.norm
    mon.check(back <= 1e-5 + 10 * errs[-1], "transposed sketch: relative error %.3g" % back)
    mon.sig(name, tuple(t.kind for t in ts), shp, l, r)


@family("C29", "tensor_trains", 120, 2500, need={"calls_traced": 4.0, "far_below_dense": 0.9}, timeout=200)
def tensor_trains(mon, rng):
    from tt_sketch import tensor as tm

    shp = big_shape(rng)
    a, b = big_tt(rng, shp), big_tt(rng, shp)
    s = Big(None, tt_sum([a.tt, b.tt]), "tt", 0)
    size = 4 * floats(s.tt) + sum(max(C.shape[0], C.shape[2]) ** 2 for C in s.tt)
    N = s.entries
    mon.note(shape=shp, ranks=(a.rank, b.rank))
    ops = ["add", "scale", "transpose", "dot", "norm", "error", "orthogonalize", "round", "svdvals", "gather", "mixed_dot", "random"]
    for op in [gen.pick(rng, ops) for _ in range(6)]:
        mon.count(op)
        if op == "add":
            with bounded(mon, op, size, N):
                c = a.obj.add(b.obj)
            agrees(mon, c.cores, s, 1e-13, "sum")
        elif op == "scale":
            x = float(rng.standard_normal())
            with bounded(mon, op, size, N):
                c = gen.pick(rng, [lambda: a.obj * x, lambda: x * a.obj, lambda: a.obj / (1 / x), lambda: -(a.obj * -x)])()
            agrees(mon, c.cores, Big(None, tt_scale(a.tt, x), "tt", 0), 1e-13, "multiple")
        elif op == "transpose":
            with bounded(mon, op, size, N):
                c = a.obj.T
            agrees(mon, [np.transpose(C, (2, 1, 0)) for C in c.cores[::-1]], a, 1e-14, "transposed")
        elif op == "dot":
            with bounded(mon, op, size + sum(x.shape[0] * y.size for x, y in zip(a.tt, b.tt)), N):
                v = gen.pick(rng, [lambda: a.obj.dot(b.obj), lambda: a.obj @ b.obj])()
            mon.close(v, tt_inner(a.tt, b.tt), 1e-11 * a.norm * b.norm, "dot")
        elif op == "norm":
            with bounded(mon, op, size, N):
                v = a.obj.norm()
            mon.close(v, a.norm, 1e-12 * a.norm, "norm")
        elif op == "error":
            rel, rmse, fast = (bool(rng.random() < 0.5) for _ in range(3))
            with bounded(mon, op, size, N):
                v = a.obj.error(b.obj, relative=rel, rmse=rmse, fast=fast)
            want = tt_distance(a.tt, b.tt) / (b.norm if rel else 1) / (math.sqrt(N) if rmse else 1)
            mon.close(v, want, 1e-10 * want, "error (relative %s, rmse %s, fast %s)" % (rel, rmse, fast))
        elif op == "orthogonalize":
            with bounded(mon, op, size, N):
                c = s_obj(s).orthogonalize()
            agrees(mon, c.cores, s, 1e-12, "orthogonalized")
            for C in c.cores[:-1]:
                M = C.reshape(-1, C.shape[2])
                mon.close(M.T @ M, np.eye(M.shape[1]), 1e-11, "left-orthonormal core")
        elif op == "round":
            u = rng.random()
            kk = numerical_rank(s.tt)
            o = s_obj(s)
            if u < 0.4:
                with bounded(mon, op, size, N):
                    c = o.round(eps=1e-10)
                agrees(mon, c.cores, s, 1e-9 * math.sqrt(len(shp)), "rounded to accuracy")
                mon.check(all(x <= y for x, y in zip(c.rank, kk)), "rank of the rounded tensor")
            else:
                k = int(rng.integers(1, 6))
                with bounded(mon, op, size, N):
                    c = o.round(max_rank=k)
                sv = tt_spectrum(s.tt)
                best = math.sqrt(sum(float(np.sum(v[k:] ** 2)) for v in sv))
                worst = max(math.sqrt(float(np.sum(v[k:] ** 2))) for v in sv)
                err = tt_distance(c.cores, s.tt)
                mon.check(all(x <= k for x in c.rank), "rank of the rounded tensor")
                mon.check(worst - 1e-11 * s.norm <= err <= best + 1e-11 * s.norm,
                          lambda: "rounded to rank %d: error %.3g, between %.3g and %.3g expected" % (k, err, worst, best))
        elif op == "svdvals":
            with bounded(mon, op, size, N):
                v = s_obj(s).svdvals()
            for x, y in zip(v[1:] if len(v) == len(shp) else v, tt_spectrum(s.tt)):
                k = min(len(x), len(y))
                mon.close(np.asarray(x)[:k], y[:k], 1e-11 * s.norm, "singular values")
        elif op == "gather":
            m = int(rng.integers(1, 200)) if rng.random() < 0.7 else min(int(10 ** rng.uniform(2.3, 4.6)), 10**6 // len(shp))
            q = np.stack([rng.integers(0, n, size=m) for n in shp])
            with bounded(mon, op, size + 4 * q.size + 4 * m * (2 + 4 * max(1, *a.rank)), N):
                v = a.obj.gather(q)
            bound = tt_at([np.abs(C) for C in a.tt], q)
            mon.close(v, tt_at(a.tt, q), 1e-12 * bound + 1e-290, "gather")
        elif op == "mixed_dot":
            sp = big(rng, "sparse", shp)
            with bounded(mon, op, size + 20 * sp.size, N):
                v = a.obj.dot(sp.obj) if rng.random() < 0.5 else sp.obj.dot(a.obj)
            mon.close(v, float(tt_at(a.tt, sp.info["inds"]) @ sp.info["entries"]), 1e-11 * (a.norm * sp.norm), "dot with a sparse tensor")
        else:
            rk = tuple(int(rng.integers(1, 6)) for _ in shp[1:])
            kw = gen.pick(rng, [{}, {"orthog": True}, {"trim": True}])
            with bounded(mon, op, size + 2 * sum(x * n * y for x, n, y in zip((1,) + rk, shp, rk + (1,))), N):
                c = tm.TensorTrain.random(shp, rk, seed=int(rng.integers(2**31)), **kw)
            want = oracle.feasible(shp, rk) if kw else rk
            mon.check(tuple(c.rank) == tuple(want) and tuple(c.shape) == tuple(shp), "rank or shape of a random tensor")
    mon.sig(shp, a.rank, b.rank)


def s_obj(s):
    from tt_sketch import tensor as tm

    return tm.TensorTrain([np.array(C) for C in s.tt])


@family("C29", "cp_tucker_sum", 60, 1200, need={"calls_traced": 3.0, "far_below_dense": 0.9}, timeout=200)
def cp_tucker_sum(mon, rng):
    from tt_sketch import tensor as tm

    shp = big_shape(rng)
    kind = gen.pick(rng, ["cp", "cp", "tucker", "sum"])
    t = big(rng, kind, shp) if kind != "sum" else None
    if kind == "sum":
        parts = [big(rng, k, shp) for k in ("cp", "tt", "sparse") if rng.random() < 0.7] or [big(rng, "cp", shp)]
        t = Big(tm.TensorSum([p.obj for p in parts]), tt_sum([p.tt for p in parts]) if len(parts) > 1 else parts[0].tt, "sum",
                sum(p.size for p in parts))
    N = t.entries
    size = t.size
    mon.note(kind=kind, shape=shp)
    for op in [gen.pick(rng, ["gather", "scale", "add", "transpose", "random", "stored"]) for _ in range(5)]:
        if op == "gather" and kind != "cp":
            op = "scale"
        mon.count(op)
        if op == "gather":
            m = int(rng.integers(1, 200)) if rng.random() < 0.6 else int(10 ** rng.uniform(2.3, 4.6))
            m = min(m, 10**6 // len(shp))
            q = np.stack([rng.integers(0, n, size=m) for n in shp])
            with bounded(mon, "gather", size + 4 * q.size + 8 * m * t.obj.rank, N):
                v = t.obj.gather(tuple(q) if rng.random() < 0.5 else q)
            bound = tt_at([np.abs(C) for C in t.tt], q)
            mon.close(v, tt_at(t.tt, q), 1e-12 * bound + 1e-290, "gather")
        elif op == "scale":
            x = float(rng.standard_normal())
            with bounded(mon, op, 2 * size, N):
                c = gen.pick(rng, [lambda: t.obj * x, lambda: x * t.obj, lambda: -(t.obj * -x), lambda: t.obj / (1 / x)])()
            mon.check(tuple(c.shape) == tuple(shp), "shape of a multiple")
        elif op == "add":
            with bounded(mon, op, 2 * size, N):
                c = t.obj + t.obj if rng.random() < 0.5 else t.obj - t.obj
            mon.check(tuple(c.shape) == tuple(shp), "shape of a sum")
        elif op == "transpose":
            with bounded(mon, op, 2 * size, N):
                c = t.obj.T
            mon.check(tuple(c.shape) == tuple(shp[::-1]), "shape of the transpose")
        elif op == "stored":
            with bounded(mon, op, size, N):
                n = t.obj.size
            mon.check(isinstance(n, (int, np.integer)) and n <= 20 * size + 100, lambda: "%s numbers stored, about %s expected" % (n, size))
        else:
            r = int(rng.integers(1, 6))
            if rng.random() < 0.5 or len(shp) > 20:  # (the core of a Tucker tensor has as many modes)
                with bounded(mon, "random CP tensor", 4 * r * sum(shp), N):
                    c = tm.CPTensor.random(shp, r, seed=int(rng.integers(2**31)))
            else:
                rk = tuple(int(x) for x in np.minimum(rng.integers(1, 4, size=len(shp)), shp))
                while math.prod(rk) > 1e5:
                    rk = tuple(max(1, x - 1) if rng.random() < 0.5 else x for x in rk)
                with bounded(mon, "random Tucker tensor", 8 * sum(x * y for x, y in zip(rk, shp)) + 4 * math.prod(rk), N):
                    c = tm.TuckerTensor.random(shp, rk, seed=int(rng.integers(2**31)))
            mon.check(tuple(c.shape) == tuple(shp), "shape of a random tensor")
    mon.sig(kind, shp)


def many_entries_sketch(mon, rng, t):
    """Sketches of many entries: storage of entries, maps and cores, not the
    product of entries and modes."""
    from tt_sketch.sketch import stream_sketch

    if rng.random() < 0.7:  # long modes
        from tt_sketch.tensor import SparseTensor

        shp = (int(rng.integers(2, 3000)), int(gen.around_power_of_two(rng, 1000, 6000)), *rng.integers(2, 3000, size=int(rng.integers(1, 3))).tolist())
        nnz = int(rng.integers(1500, 4000))
        inds = np.unique(np.stack([rng.integers(0, n, size=nnz) for n in shp]), axis=1)
        t = SparseTensor(shp, inds, rng.standard_normal(inds.shape[1]))
    shp, d, nnz = t.shape, len(t.shape), t.nnz
    size, N = 20 * t.indices.size + 40 * nnz, float(math.prod(shp))
    types = gen.drm_types()
    l, r = tuple(int(rng.integers(1, 4)) for _ in shp[1:]), tuple(int(rng.integers(4, 7)) for _ in shp[1:])
    names = [gen.pick(rng, ["tt", "sparse_gauss"]) for _ in range(2)]
    maps = types[names[0]](l, shp, False, seed=int(rng.integers(2**31))), types[names[1]](r, shp, True, seed=int(rng.integers(2**31)))
    rr = [1, *r, 1]
    ll = [1, *l, 1]
    need = size + 10 * nnz * (sum(l) + sum(r)) + sum(
        n * (ll[i] * rr[i + 1] + rr[i] * rr[i + 1] + ll[i] * ll[i + 1]) for i, n in enumerate(shp))
    with bounded(mon, "sketch of many entries", need / 8, N):  # eight times what it takes
        st = stream_sketch(t, l, r, left_drm=maps[0], right_drm=maps[1])
    mon.count("many_entries_sketched")
    pos = np.asarray(t.indices).astype(np.int64)
    L, R = [np.array(m) for m in maps[0].sketch_sparse(t)], [np.array(m) for m in maps[1].sketch_sparse(t)]
    for mu in {0, int(rng.integers(d)), int(np.argmax(shp)), d - 1}:
        a = L[mu - 1] if mu else np.ones((1, nnz))
        b = R[mu] if mu < d - 1 else np.ones((1, nnz))
        want = np.zeros((shp[mu], a.shape[0], b.shape[0]))
        np.add.at(want, pos[mu], np.einsum("ap,bp,p->pab", a, b, np.asarray(t.entries)))
        mon.close(st.Psi_cores[mu], want.transpose(1, 0, 2), 1e-11 * float(np.einsum("ap,bp,p->ab", abs(a), abs(b), abs(t.entries)).max()), "Psi core %d" % mu)


@family("C29", "sparse", 80, 1500, need={"calls_traced": 3.0, "far_below_dense": 0.9}, timeout=200)
def sparse(mon, rng):
    from tt_sketch import tensor as tm

    shp = big_shape(rng)
    if rng.random() < 0.15:  # modes of size one do not matter, however many
        shp = list(shp)
        for _ in range(int(rng.integers(1, 40))):
            shp.insert(int(rng.integers(len(shp) + 1)), 1)
        shp = tuple(shp)
    N = float(math.prod(shp))
    nnz = int(rng.integers(1, 2000))
    inds = np.unique(np.stack([rng.integers(0, n, size=nnz) for n in shp]), axis=1)
    nnz = inds.shape[1]
    inds = inds[:, rng.permutation(nnz)].astype(gen.pick(rng, [np.int64, np.uint64, np.int32]))
    ent = rng.standard_normal(nnz)
    t = tm.SparseTensor(tuple(shp), inds, ent)
    where = {tuple(p): e for p, e in zip(inds.T.tolist(), ent.tolist())}
    size = 20 * inds.size + 40 * nnz
    mon.note(shape=shp, nnz=nnz)
    if rng.random() < 0.5:
        many_entries_sketch(mon, rng, t)
    ops = ["norm", "gather", "dot", "dot_cp", "split", "transpose", "scale", "random"]
    for op in [gen.pick(rng, ops) for _ in range(5)]:
        mon.count(op)
        if op == "norm":
            with bounded(mon, op, size, N):
                v = t.norm()
            mon.close(v, math.sqrt(float(np.sum(ent**2))), 1e-12 * nnz, op)
        elif op == "gather":
            q = np.stack([rng.integers(0, n, size=60) for n in shp])
            known = rng.integers(0, nnz, size=30)
            q[:, :30] = inds[:, known].astype(np.int64)
            with bounded(mon, op, size + 20 * q.size, N):
                v = t.gather(q)
            mon.close(v, np.array([where.get(tuple(p), 0.0) for p in q.T.tolist()]), 0, op)
        elif op == "dot":
            take = rng.random(nnz) < 0.5
            other = np.stack([rng.integers(0, n, size=40) for n in shp])
            pos = np.unique(np.concatenate([inds[:, take].astype(np.int64), other], axis=1), axis=1)
            oe = rng.standard_normal(pos.shape[1])
            u = tm.SparseTensor(tuple(shp), pos, oe)
            want = sum(where.get(tuple(p), 0.0) * e for p, e in zip(pos.T.tolist(), oe.tolist()))
            with bounded(mon, op, size + 20 * pos.size, N):
                v = t.dot(u) if rng.random() < 0.5 else u.dot(t)
            mon.close(v, want, 1e-11 * nnz, op)
            if rng.random() < 0.5:
                with bounded(mon, "fast error", size + 60 * pos.size, N):
                    v = t.error(u, fast=True)
                diff = dict(where)
                for p, e in zip(pos.T.tolist(), oe.tolist()):
                    diff[tuple(p)] = diff.get(tuple(p), 0.0) - e
                exact = math.sqrt(sum(x * x for x in diff.values()))
                mon.close(v, exact, 1e-6 * (exact + math.sqrt(nnz)), "fast error")
        elif op == "dot_cp":
            cp = big(rng, "cp", shp)
            with bounded(mon, op, size + cp.size + 20 * nnz * cp.obj.rank, N):
                v = t.dot(cp.obj) if rng.random() < 0.5 else cp.obj.dot(t)
            pos = inds.astype(np.int64)
            scale = float(tt_at([np.abs(C) for C in cp.tt], pos) @ np.abs(ent))
            mon.close(v, float(tt_at(cp.tt, pos) @ ent), 1e-12 * scale, op)
        elif op == "split":
            k = int(rng.integers(1, 8))
            with bounded(mon, op, 4 * size, N):
                parts = t.split(k)
            got = {}
            for p in parts.tensors:
                for x, e in zip(np.asarray(p.indices).T.tolist(), p.entries.tolist()):
                    mon.check(tuple(x) not in got, "split: an entry twice")
                    got[tuple(x)] = e
            mon.check(got == where and len(parts.tensors) == k, "split: other entries")
        elif op == "transpose":
            with bounded(mon, op, size, N):
                u = t.T
            mon.check({tuple(x[::-1]): e for x, e in zip(np.asarray(u.indices).T.tolist(), u.entries.tolist())} == where, op)
        elif op == "scale":
            with bounded(mon, op, size, N):
                u = -(t * 2.0)
            mon.close(u.entries, -2 * ent, 0, op)
        else:
            k = int(rng.integers(1, 300))
            with bounded(mon, "random sparse tensor", 200 * k * len(shp), N):
                u = tm.SparseTensor.random(shp, k, seed=int(rng.integers(2**31)) if rng.random() < 0.7 else None)
            I = np.asarray(u.indices)
            mon.check(len({tuple(x) for x in I.T.tolist()}) == k, "random sparse tensor: positions are distinct")
            mon.check(all(np.all((I[m] >= 0) & (I[m] < shp[m])) for m in range(len(shp))), "random sparse tensor: positions")
    mon.sig(shp, nnz)


@family("C29", "solver", 50, 900, need={"calls_traced": 2.0, "far_below_dense": 0.9}, timeout=300)
def solver(mon, rng):
    """Linear maps, rounding of sums, and a solve of a well conditioned system."""
    from tt_sketch import tensor as tm
    from tt_sketch import tt_gmres as tg

    while True:
        shp = big_shape(rng)
        if max(shp) <= 300:
            break
    d = len(shp)
    x = big_tt(rng, shp, 2)
    # I + eps * (a sum of products of small matrices), norm of the second term below 0.3
    terms, maps = [], []
    for _ in range(int(rng.integers(1, 3))):
        cores = [np.eye(n)[None, :, :, None] for n in shp]
        for k in rng.permutation(d)[: int(rng.integers(1, 4))]:
            M = rng.standard_normal((shp[k], shp[k]))
            cores[k] = (M / np.linalg.norm(M, 2))[None, :, :, None]
        cores[0] = cores[0] * float(rng.uniform(0.05, 0.15))
        terms.append(cores)
    eye = [np.eye(n)[None, :, :, None] for n in shp]
    all_terms = [eye] + terms
    maps = [tg.MPO([np.array(C) for C in cs]) for cs in all_terms]
    A = tg.TTLinearMapSum(maps)

    def apply(tt):  # own
        return tt_sum([[np.einsum("anb,xnmy->axmby", C, M).reshape(C.shape[0] * M.shape[0], M.shape[2], -1)
                        for C, M in zip(tt, cs)] for cs in all_terms])

    Ax = apply(x.tt)
    AX = Big(None, Ax, "tt", 0)
    size = 6 * floats(Ax) + sum(m.size for m in maps)
    N = x.entries
    mon.note(shape=shp, rank=x.rank, terms=len(all_terms))
    with bounded(mon, "linear map", size, N):
        y = A(x.obj)
    agrees(mon, tt_sum([t.cores for t in y.tensors]), AX, 1e-12, "linear map")
    top = max(C.shape[0] for C in Ax)
    method = gen.pick(rng, ["exact", "pairwise", "sketch", "orth_sketch"])
    with bounded(mon, "rounding a sum (%s)" % method, size + 8 * sum(4 * top * C.shape[1] * top * 2 for C in Ax), N):
        z = tg.round_tt_sum(y, max_rank=top, eps=1e-12, method=method)
    agrees(mon, z.cores, AX, 1e-6, "rounded sum (%s)" % method)
    if d <= 30:
        b = tm.TensorTrain([np.array(C) for C in z.cores])
        k = int(gen.pick(rng, [4, 6]))
        step = sum((3 * top + 12) ** 2 * n for n in shp)
        with bounded(mon, "GMRES", size + 40 * step, N):
            sol, hist = tg.tt_sum_gmres(A, b, max_rank=k, maxiter=8, tolerance=1e-5,
                                        rounding_method=gen.pick(rng, ["exact", "pairwise"]))
        sol = sol.cores
        r = tt_distance(apply(sol), b.cores) / tt_norm(b.cores)
        said = float(np.asarray(hist["residual_norm"][-1]))
        mon.note(residual=r, reported=said, steps=len(hist["residual_norm"]))
        mon.check(r <= 0.05, "GMRES: relative residual %.3g" % r)
        mon.emit((r, said))
    mon.sig(method, shp, x.rank)
