"""Workload generators: shapes, arrays in hostile layouts, tensors in every
format together with their dense value, DRMs, ranks."""
import math

import numpy as np

from . import oracle


def shape(rng, dmin=2, dmax=5, nmax=6, max_size=1500, ones=0.12, min_size=1, big=0.04):
    if dmax > dmin and rng.random() < big:  # one of the rare larger ones
        u = rng.random()
        for _ in range(200):
            if u < 0.4:  # long modes
                n = [int(rng.integers(2, nmax + 1)) for _ in range(int(rng.integers(dmin, min(dmax, 4) + 1)))]
                n[int(rng.integers(len(n)))] = around_power_of_two(rng, 16, 300)
                top = 12 * max_size
            elif u < 0.7:  # many modes
                n = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(dmax + 1, dmax + 5)))]
                top = 4 * max_size
            else:
                n = [int(rng.integers(2, 3 * nmax + 1)) for _ in range(int(rng.integers(dmin, dmax + 1)))]
                top = 12 * max_size
            if max(min_size, max_size // 2) <= math.prod(n) <= top:
                return tuple(n)
    for _ in range(200):
        d = int(rng.integers(dmin, dmax + 1))
        style = rng.random()
        if style < 0.15:
            n = [int(rng.integers(2, nmax + 1))] * d
        else:
            n = [int(rng.integers(2, nmax + 1)) for _ in range(d)]
            if style > 0.8:  # one long mode
                n[int(rng.integers(d))] = int(rng.integers(nmax, 3 * nmax))
        for i in range(d):
            if rng.random() < ones:
                n[i] = 1
        if min_size <= math.prod(n) <= max_size:
            return tuple(n)
    return (2,) * dmin


def around_power_of_two(rng, lo, hi):
    """Sizes where implementations that work in blocks go wrong."""
    if rng.random() < 0.3:
        n = int(round(math.exp(rng.uniform(math.log(lo), math.log(hi)))))
    else:
        n = 2 ** int(rng.integers(math.ceil(math.log2(lo)), math.floor(math.log2(hi)) + 1))
        if rng.random() < 0.25:
            n = pick(rng, [m for m in (10, 50, 100, 200, 500, 1000, 2000, 5000, 10000) if lo <= m <= hi] or [n])
        n += int(rng.integers(-1, 2))
    return int(min(max(n, lo), hi))


INDEX_TYPES = (np.int64, np.int64, np.int32, np.uint64, np.uint32, np.int16, np.uint16, np.int8, np.uint8)


def index_type(rng, shp):
    """An integer type which holds every index (though not every position)."""
    top = max(shp, default=1) - 1
    return pick(rng, [t for t in INDEX_TYPES if np.iinfo(t).max >= top])


def arr(rng, shp, style="float"):
    if style == "int":
        return rng.integers(-3, 4, size=shp).astype(float)
    if style == "counts":  # integers as integers
        return rng.integers(-3, 4, size=shp).astype(pick(rng, [np.int64, np.int64, np.int32]))
    if style == "scaled":  # very small or large units
        return rng.standard_normal(shp) * 10.0 ** int(rng.integers(-16, 17))
    if style == "graded":  # entries of all magnitudes
        return rng.standard_normal(shp) * 10.0 ** rng.uniform(-18, 0, size=shp)
    if style == "wild":
        a = rng.standard_normal(shp) * 10.0 ** rng.uniform(-3, 3)
        return a * (rng.random(shp) < 0.8)
    return rng.standard_normal(shp)


LAYOUTS = ("C", "F", "strided", "reversed", "readonly", "offset")


def layout(rng, A, which=None):
    """An array with the value of ``A`` and some memory layout."""
    A = np.array(A)
    which = which or LAYOUTS[int(rng.integers(len(LAYOUTS)))]
    if A.ndim == 0 or A.size == 0 or which == "C":
        return np.ascontiguousarray(A)
    if which == "F":
        return np.asfortranarray(A)
    if which == "strided":
        big = np.full(tuple(2 * s for s in A.shape), 7.7).astype(A.dtype)
        view = big[tuple(slice(0, None, 2) for _ in A.shape)]
        view[...] = A
        return view
    if which == "reversed":
        sl = tuple(slice(None, None, -1) for _ in A.shape)
        return np.ascontiguousarray(A[sl])[sl]
    if which == "offset":
        big = np.full(tuple(s + 2 for s in A.shape), 7.7).astype(A.dtype)
        view = big[tuple(slice(1, -1) for _ in A.shape)]
        view[...] = A
        return view
    B = np.ascontiguousarray(A)
    B.setflags(write=False)
    return B


class Case:
    """A tensor of the code under test, its dense value and its absolute value
    (the same computation on absolute values, for rounding error bounds)."""

    def __init__(self, obj, X, Xabs, kind, info=None):
        self.obj, self.X, self.Xabs, self.kind = obj, X, Xabs, kind
        self.info = info or {}
        self.scale = float(np.max(Xabs)) if Xabs.size else 0.0


def tt_rank_tuple(rng, shp, rmax=4, feasible=True, big=0.03):
    if rng.random() < big:
        rmax = max(rmax, 12)
    r = [int(rng.integers(1, rmax + 1)) for _ in range(len(shp) - 1)]
    return oracle.feasible(shp, r) if feasible else tuple(r)


def tt_cores(rng, shp, rank, style="float", lay=True):
    rr = (1,) + tuple(rank) + (1,)
    cores = []
    for i, n in enumerate(shp):
        C = arr(rng, (rr[i], n, rr[i + 1]), style)
        cores.append(layout(rng, C) if lay else C)
    return cores


def shared(rng, arrays):
    """Some arrays of the same shape may be one and the same object."""
    if rng.random() < 0.15:
        arrays = list(arrays)
        first = {}
        for i, A in enumerate(arrays):
            arrays[i] = first.setdefault((A.shape, A.dtype.str), A)
    return arrays


def sparse_inds(rng, shp, nnz):
    N = math.prod(shp)
    flat = rng.permutation(N)[: min(nnz, N)]
    return np.stack(np.unravel_index(flat, shp)) if len(shp) else None


KINDS = ("dense", "sparse", "tt", "cp", "tucker")
ALL_KINDS = KINDS + ("sum",)


def any_style(rng):
    u = rng.random()
    return "scaled" if u < 0.12 else "graded" if u < 0.18 else "float"


def tensor(rng, kind, shp, style=None, rmax=4, lay=True, nnz=None, summands=None, rank=None):
    from tt_sketch import tensor as tm

    if style is None:
        style = any_style(rng)
    d = len(shp)
    L = (lambda A: layout(rng, A)) if lay else np.array
    if kind == "dense":
        A = L(arr(rng, shp, style))
        return Case(tm.DenseTensor(A), np.array(A, float), np.abs(np.array(A, float)), kind)
    if kind == "sparse":
        if nnz is None:
            u = rng.random()
            N = math.prod(shp)
            nnz = 0 if u < 0.04 else N if u < 0.1 else 1 if u < 0.16 else int(rng.integers(1, N + 1))
        inds = sparse_inds(rng, shp, nnz)
        dt = index_type(rng, shp)
        inds = inds.astype(dt)
        ent = arr(rng, (inds.shape[1],), style)
        X = oracle.sparse_dense(shp, inds, ent)
        if rng.random() < 0.3:
            obj = tm.SparseTensor(tuple(shp), tuple(L(i) for i in inds), L(ent))
        else:
            obj = tm.SparseTensor(tuple(shp), L(inds), L(ent))
        return Case(obj, X, np.abs(X), kind, {"nnz": int(inds.shape[1])})
    if kind == "tt":
        if rank is None and d > 1 and rng.random() < 0.03:  # very large ranks somewhere
            rank = list(tt_rank_tuple(rng, shp, rmax, feasible=False))
            for _ in range(int(rng.integers(1, 3))):
                rank[int(rng.integers(d - 1))] = around_power_of_two(rng, 16, 140)
            rank = tuple(rank)
        rank = rank or tt_rank_tuple(rng, shp, rmax, feasible=bool(rng.random() < 0.6))
        cores = shared(rng, tt_cores(rng, shp, rank, style, lay))
        X = oracle.tt_dense(cores)
        return Case(tm.TensorTrain(cores), X, oracle.tt_dense([np.abs(C) for C in cores]), kind, {"rank": rank})
    if kind == "cp":
        if rank is None and rng.random() < 0.03:
            rank = around_power_of_two(rng, 16, 140)
        r = rank or int(rng.integers(1, rmax + 1))
        cores = shared(rng, [L(arr(rng, (n, r), style)) for n in shp])
        return Case(tm.CPTensor(cores), oracle.cp_dense(cores),
                    oracle.cp_dense([np.abs(C) for C in cores]), kind, {"rank": r})
    if kind == "tucker":
        if rank is None and rng.random() < 0.03:
            rank = [int(rng.integers(1, min(rmax, n + 1) + 1)) for n in shp]
            if math.prod(rank) < 500:
                rank[int(rng.integers(d))] = around_power_of_two(rng, 16, 70)
            rank = tuple(rank)
        rk = rank or tuple(int(rng.integers(1, min(rmax, n + 1) + 1)) for n in shp)
        fac = shared(rng, [L(arr(rng, (r, n), style)) for r, n in zip(rk, shp)])
        core = L(arr(rng, rk, style))
        return Case(tm.TuckerTensor(fac, core), oracle.tucker_dense(fac, core),
                    oracle.tucker_dense([np.abs(U) for U in fac], np.abs(core)), kind, {"rank": rk})
    if kind == "sum":
        m = summands or number_of_summands(rng, shp)
        parts = again(rng, [tensor(rng, KINDS[int(rng.integers(5))], shp, sty, rmax, lay) for sty in part_styles(rng, style, m)])
        X = sum(p.X for p in parts)
        Xabs = sum(p.Xabs for p in parts)
        return Case(tm.TensorSum([p.obj for p in parts]), X, Xabs, kind,
                    {"parts": [p.kind for p in parts]})
    raise KeyError(kind)


def number_of_summands(rng, shp):
    if rng.random() < 0.08 and math.prod(shp) <= 300:
        return int(rng.integers(8, 40))
    return int(rng.integers(1, 5))


def part_styles(rng, style, m):
    """Styles of the summands: as a rule the same."""
    if style in ("float", "counts", "scaled") and rng.random() < 0.3:
        return [pick(rng, ["float", "counts", "int", "scaled"]) for _ in range(m)]
    return [style] * m


def again(rng, parts):
    """Some of the summands may be one and the same object."""
    if len(parts) > 1 and rng.random() < 0.25:
        parts = list(parts)
        parts[int(rng.integers(len(parts)))] = parts[int(rng.integers(len(parts)))]
    return parts


def low_rank(rng, kind, shp, k, lay=True, style=None):
    """Tensor whose TT-ranks are at most about ``k``."""
    from tt_sketch import tensor as tm

    style = style or ("scaled" if rng.random() < 0.15 else "float")
    if kind == "dense":
        t = tensor(rng, "tt", shp, style, rank=oracle.feasible(shp, (k,) * (len(shp) - 1)))
        A = layout(rng, t.X) if lay else t.X
        return Case(tm.DenseTensor(A), t.X, t.Xabs, "dense")
    if kind == "sparse":
        return tensor(rng, "sparse", shp, style, nnz=k, lay=lay)
    if kind == "tt":
        return tensor(rng, "tt", shp, style, rank=tt_rank_tuple(rng, shp, k, big=0), lay=lay)
    if kind == "cp":
        return tensor(rng, "cp", shp, style, rank=k, lay=lay)
    if kind == "tucker":
        rk = tuple(min(n, max(1, int(rng.integers(1, k + 1)))) for n in shp)
        return tensor(rng, "tucker", shp, style, rank=rk, lay=lay)
    if kind == "sum":
        m = int(rng.integers(1, 4))
        if rng.random() < 0.12 and math.prod(shp) <= 400:
            # many multiples of a few tensors
            few = [low_rank(rng, KINDS[int(rng.integers(5))], shp, max(1, k // m), lay) for _ in range(m)]
            parts = []
            for _ in range(int(rng.integers(8, 45))):
                p, c = pick(rng, few), float(pick(rng, [1.0, -1.0, 0.5, 2.0, rng.standard_normal()]))
                parts.append(p if c == 1.0 else Case(p.obj * c, p.X * c, p.Xabs * abs(c), p.kind))
            return Case(tm.TensorSum([p.obj for p in parts]), sum(p.X for p in parts),
                        sum(p.Xabs for p in parts), "sum", {"parts": [p.kind for p in parts]})
        parts = [
            low_rank(rng, KINDS[int(rng.integers(5))], shp, max(1, k // m), lay) for _ in range(m)
        ]
        return Case(tm.TensorSum([p.obj for p in parts]), sum(p.X for p in parts),
                    sum(p.Xabs for p in parts), "sum", {"parts": [p.kind for p in parts]})
    raise KeyError(kind)


def drm_types():
    from tt_sketch import drm

    return {
        "dense_gauss": drm.DenseGaussianDRM,
        "sparse_gauss": drm.SparseGaussianDRM,
        "tt": drm.TensorTrainDRM,
        "sign": drm.SparseSignDRM,
    }


#: which DRM can sketch which format
SUPPORT = {
    "dense": ("dense_gauss", "tt"),
    "sparse": ("dense_gauss", "sparse_gauss", "tt", "sign"),
    "tt": ("dense_gauss", "tt"),
    "cp": ("tt",),
    "tucker": ("tt",),
}


def supports(case, drm_name):
    kinds = case.info["parts"] if case.kind == "sum" else [case.kind]
    return all(drm_name in SUPPORT[k] for k in kinds)


def sum_for(rng, shp, drm_name, style="float", m=None, rmax=3):
    """A sum the DRM can sketch."""
    from tt_sketch import tensor as tm

    ks = [k for k in KINDS if drm_name in SUPPORT[k]]
    m = m or number_of_summands(rng, shp)
    parts = again(rng, [tensor(rng, ks[int(rng.integers(len(ks)))], shp, sty, rmax) for sty in part_styles(rng, style, m)])
    return Case(tm.TensorSum([p.obj for p in parts]), sum(p.X for p in parts),
                sum(p.Xabs for p in parts), "sum", {"parts": [p.kind for p in parts]})


def pick(rng, seq):
    seq = list(seq)
    return seq[int(rng.integers(len(seq)))]


def two_ranks(rng, d, lo=1, hi=6, bigger=None):
    """Left and right ranks with a strict order in every position."""
    a = tuple(int(rng.integers(lo, hi + 1)) for _ in range(d - 1))
    if rng.random() < 0.06:
        hi = 4 * hi
        a = tuple(int(rng.integers(lo, hi + 1)) for _ in range(d - 1))
    b = tuple(x + int(rng.integers(1, 4)) for x in a)
    if rng.random() < 0.06:
        b = tuple(x + int(rng.integers(1, 20)) for x in a)
    if bigger is None:
        bigger = "left" if rng.random() < 0.5 else "right"
    return (b, a, "left") if bigger == "left" else (a, b, "right")


def _edit(rng, A, style=None):
    """The array ``A`` with another content: the same array if it can be
    written to, otherwise (or sometimes) another one."""
    A = np.asarray(A)
    B = A if A.flags.writeable and rng.random() < 0.75 else A.copy()
    u = rng.random()
    if B.size == 0:
        return B
    if A.dtype.kind in "iu":
        if u < 0.5:
            B[...] = rng.integers(-3, 4, size=B.shape) if A.dtype.kind == "i" else rng.integers(0, 4, size=B.shape)
        else:
            B *= 2
        return B
    top = float(np.max(np.abs(B))) or 1.0
    if u < 0.3:
        B *= (-1.0, -2.5, 0.25, 3.0)[int(rng.integers(4))]
    elif u < 0.6:
        B[...] = rng.standard_normal(B.shape) * top
    elif u < 0.8:  # one number
        B[tuple(int(rng.integers(n)) for n in B.shape)] += 2 * top
    else:
        B[...] = B[::-1].copy() + rng.standard_normal(B.shape) * (0.1 * top)
    return B


def mutate(rng, obj):
    """Change the numbers a tensor (or a linear map) is made of, the way users
    do: in place, or by putting another array in the same place."""
    name = type(obj).__name__
    if name == "TensorSum":
        part = pick(rng, obj.tensors) if len(obj.tensors) else None
        return mutate(rng, part) if part is not None else None
    if name == "DenseTensor":
        obj.data = _edit(rng, obj.data)
        return "data"
    if name == "SparseTensor":
        if rng.random() < 0.6 or obj.entries.size == 0:
            obj.entries = _edit(rng, obj.entries)
            return "entries"
        # other positions: one of the modes the other way round
        k = int(rng.integers(len(obj.shape)))
        old = np.asarray(obj.indices[k])
        if obj.shape[k] - 1 > np.iinfo(old.dtype).max:
            return None
        turned = (obj.shape[k] - 1 - old.astype(np.int64)).astype(old.dtype)
        if isinstance(obj.indices, tuple):
            if old.flags.writeable and rng.random() < 0.75:
                old[...] = turned
            else:
                obj.indices = obj.indices[:k] + (turned,) + obj.indices[k + 1:]
        elif obj.indices.flags.writeable and rng.random() < 0.75:
            obj.indices[k] = turned
        else:
            other = obj.indices.copy()
            other[k] = turned
            obj.indices = other
        return "indices"
    if name == "TuckerTensor" and rng.random() < 0.4:
        obj.core = _edit(rng, obj.core)
        return "core"
    if name == "TuckerTensor":
        k = int(rng.integers(len(obj.factors)))
        obj.factors[k] = _edit(rng, obj.factors[k])
        return "factors[%d]" % k
    k = int(rng.integers(len(obj.cores)))
    new = _edit(rng, obj.cores[k])
    if hasattr(type(obj), "__setitem__") and rng.random() < 0.5:
        obj[k] = new
    else:
        obj.cores[k] = new
    return "cores[%d]" % k


def now(obj):
    """Dense value and magnitude of a tensor, from the arrays it holds now."""
    name = type(obj).__name__
    if name == "TensorSum":
        parts = [now(t) for t in obj.tensors]
        return sum(p[0] for p in parts), sum(p[1] for p in parts)
    if name == "DenseTensor":
        X = np.array(obj.data, dtype=float)
    elif name == "SparseTensor":
        X = oracle.sparse_dense(obj.shape, [np.asarray(i) for i in obj.indices], obj.entries)
    elif name == "TuckerTensor":
        F = [np.asarray(U) for U in obj.factors]
        return oracle.tucker_dense(F, obj.core), oracle.tucker_dense([np.abs(U) for U in F], np.abs(obj.core))
    elif name in ("TensorTrain", "CPTensor"):
        f = oracle.tt_dense if name == "TensorTrain" else oracle.cp_dense
        return f(obj.cores), f([np.abs(C) for C in obj.cores])
    return X, np.abs(X)


def snapshot(obj, depth=0):
    """Value of everything reachable through public data attributes."""
    if isinstance(obj, np.ndarray):
        return ("arr", obj.dtype.str, obj.shape, obj.tobytes() if obj.dtype != object else None)
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [snapshot(o, depth + 1) for o in obj])
    if isinstance(obj, dict):
        return ("dict", {k: snapshot(v, depth + 1) for k, v in obj.items()})
    if isinstance(obj, (int, float, str, bool, np.generic)) or obj is None:
        return ("val", repr(obj))
    mod = type(obj).__module__ or ""
    if mod.startswith("tt_sketch") and hasattr(obj, "__dict__") and depth < 8:
        return ("obj", {k: snapshot(v, depth + 1) for k, v in vars(obj).items() if not k.startswith("_")})
    return ("other",)


def snap_diff(a, b, path=""):
    """None if snapshot ``b`` still contains everything of ``a`` (attributes
    may be added: caches), else the path of the first difference."""
    if a[0] != b[0]:
        return path or "."
    if a[0] in ("dict", "obj"):
        for k in a[1]:
            if k not in b[1]:
                return path + "." + str(k)
            if a[1][k] == ("val", "None"):  # may be a cache
                continue
            r = snap_diff(a[1][k], b[1][k], path + "." + str(k))
            if r:
                return r
        return None
    if a[0] in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return path + ".len"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = snap_diff(x, y, path + "[%d]" % i)
            if r:
                return r
        return None
    return None if a == b else (path or ".")


class Pure:
    """Context manager: the given objects keep their value."""

    def __init__(self, mon, what, *objs):
        self.mon, self.what, self.objs = mon, what, objs

    def __enter__(self):
        self.before = [snapshot(o) for o in self.objs]
        return self

    def __exit__(self, et, ev, tb):
        if et is not None:
            return False
        for i, (o, s) in enumerate(zip(self.objs, self.before)):
            d = snap_diff(s, snapshot(o))
            self.mon.check(d is None, lambda: "%s changed operand %d (%s) at %s" % (
                self.what, i, type(o).__name__, d))
        self.mon.count("operands_watched", len(self.objs))
        return False
