"""Tensor formats: arithmetic, conversion, inner products, entries, purity,
metadata."""
import copy
import math

import numpy as np

from .. import gen, oracle
from ..core import family

RULE = {
    "C14": "Random expression trees (+, -, scalar *, /, unary -, transpose, in-place +=, weighted sums, "
    "conversions) over tensors of all formats, against the same expression of numpy arrays; integer data "
    "makes the comparison exact. Distinct by expression.",
    "C15": "Random pairs of formats, layouts and orders of operands; dot, @, norm, error (relative, rmse, fast) "
    "against numpy; nearly equal, orthogonal and zero operands; huge shapes. Distinct by (formats, shape, mode).",
    "C16": "Random index lists (repeated, empty, all positions, several index types) before and after the "
    "tensor's data was changed in place. Distinct by (format, shape, number of indices).",
    "C17": "Every public operation on operands whose whole public state is compared before and after, "
    "with read-only arrays among the inputs. Distinct by (operation, format, shape).",
    "C18": "Random tensors and random constructors, metadata against the stored arrays. Distinct by (format, shape).",
}


EXACT = ("int", "counts")


def _sum_tree(rng, shp, style, depth):
    """(expression text, tensor, dense, abs)"""
    if depth == 0 or rng.random() < 0.2:
        kind = gen.pick(rng, gen.KINDS)
        t = gen.tensor(rng, kind, shp, gen.pick(rng, ["int", "counts", "float"]) if style == "mixed" else style, 3)
        return kind, t.obj, t.X, t.Xabs
    op = gen.pick(rng, ["add", "add", "sub", "sub", "mul", "rmul", "div", "neg", "T", "weights", "iadd", "dense", "npmul"])
    if op in ("add", "sub", "iadd"):
        ea, a, X, Xa = _sum_tree(rng, shp, style, depth - 1)
        eb, b, Y, Ya = _sum_tree(rng, shp, style, depth - 1)
        if op == "add":
            return "(%s+%s)" % (ea, eb), a + b, X + Y, Xa + Ya
        if op == "sub":
            return "(%s-%s)" % (ea, eb), a - b, X - Y, Xa + Ya
        from tt_sketch.tensor import TensorSum

        s = TensorSum([a])
        s += b
        u = rng.random()
        if u < 0.15:
            s += b
            return "iadd(%s,%s twice)" % (ea, eb), s, X + 2 * Y, Xa + 2 * Ya
        if u < 0.3:
            s += a
            return "iadd(%s,%s,the first)" % (ea, eb), s, 2 * X + Y, 2 * Xa + Ya
        if u < 0.4:
            s += s
            return "iadd(%s,%s,itself)" % (ea, eb), s, 2 * (X + Y), 2 * (Xa + Ya)
        return "iadd(%s,%s)" % (ea, eb), s, X + Y, Xa + Ya
    if op == "T":
        e, a, X, Xa = _sum_tree(rng, tuple(shp[::-1]), style, depth - 1)
        return "%s.T" % e, a.T, oracle.T(X), oracle.T(Xa)
    e, a, X, Xa = _sum_tree(rng, shp, style, depth - 1)
    c = float(gen.pick(rng, [2, -1, 3, 0, 0.5, -4])) if style in EXACT else float(rng.standard_normal())
    if op == "mul":
        return "%s*%g" % (e, c), a * c, X * c, Xa * abs(c)
    if op == "rmul":
        return "%g*%s" % (c, e), c * a, c * X, abs(c) * Xa
    if op == "npmul":
        return "%s*np(%g)" % (e, c), a * np.float64(c), c * X, abs(c) * Xa
    if op == "div":
        c = c or 2.0
        if style in EXACT:
            c = 2.0
        return "%s/%g" % (e, c), a / c, X / c, Xa / abs(c)
    if op == "neg":
        return "-%s" % e, -a, -X, Xa
    if op == "dense":
        return "dense(%s)" % e, a.dense(), X, Xa
    from tt_sketch.tensor import TensorSum

    if isinstance(a, TensorSum):
        # one weight for each summand; the weighted sum is checked by recomputing
        w = [float(rng.integers(-2, 3)) for _ in range(a.num_summands)]
        parts = [np.array(p.to_numpy()) for p in a.tensors]
        W = gen.pick(rng, [list(w), tuple(w), np.array(w)])
        ab = sum((np.abs(p) for p in parts), np.zeros(shp)) + Xa
        return "%s*%s" % (e, w), a * W, sum((x * p for x, p in zip(w, parts)), np.zeros(shp)), 2 * ab
    return e, a, X, Xa


@family("C14", "expressions", 1200, 20000, need={"expressions": 0.9})
def expressions(mon, rng):
    shp = gen.shape(rng, 1 if rng.random() < 0.1 else 2, 6, 5, 400)
    style = gen.pick(rng, ["int", "int", "counts", "mixed", "float", "wild", "scaled", "graded"])
    e, t, X, Xa = _sum_tree(rng, shp, style, int(rng.integers(1, 4)))
    mon.note(shape=shp, expression=e, style=style)
    mon.check(tuple(t.shape) == tuple(shp), lambda: "%s has shape %s" % (e, t.shape))
    mon.check(t.ndim == len(shp), "ndim")
    with gen.Pure(mon, "to_numpy", t):
        Y = t.to_numpy()
    # every entry within its own rounding errors
    tol = 0.0 if style in EXACT else 1e-13 * (1e-290 + Xa * len(shp) * 8)
    mon.close(Y, X, tol, e)
    mon.close(t.T.to_numpy(), oracle.T(X), oracle.T(tol) if np.ndim(tol) else tol, "transpose of " + e)
    mon.close(t.T.T.to_numpy(), X, tol, "double transpose of " + e)
    mon.check(tuple(t.T.shape) == tuple(shp[::-1]), "shape of the transpose")
    mon.count("expressions")
    mon.sig(e, shp)


@family("C14", "modified", 300, 5000, need={"edits": 0.9})
def modified(mon, rng):
    """The arrays of a tensor are edited between two uses: everything that is
    computed afterwards has to be computed from the present ones."""
    shp = gen.shape(rng, 1 if rng.random() < 0.1 else 2, 5, 5, 300)
    kind = gen.pick(rng, gen.ALL_KINDS)
    style = gen.pick(rng, ["int", "counts", "float", "wild", "scaled"])
    t = gen.tensor(rng, kind, shp, style).obj
    log = []
    mon.note(kind=kind, shape=shp, style=style, edits=log)
    uses = [
        ("to_numpy", lambda X: (t.to_numpy(), X)),
        ("T", lambda X: (t.T.to_numpy(), oracle.T(X))),
        ("T.T", lambda X: (t.T.T.to_numpy(), X)),
        ("dense", lambda X: (t.dense().to_numpy(), X)),
        ("neg", lambda X: ((-t).to_numpy(), -X)),
        ("mul", lambda X: ((t * 4).to_numpy(), 4 * X)),
        ("div", lambda X: ((t / 2).to_numpy(), X / 2)),
        ("add", lambda X: ((t + t).to_numpy(), 2 * X)),
        ("sub", lambda X: ((t - t * 3).to_numpy(), -2 * X)),
        ("T of a sum", lambda X: ((t + t).T.to_numpy(), 2 * oracle.T(X))),
    ]
    if kind == "dense":
        uses.append(("to_sparse", lambda X: (t.to_sparse().to_numpy(), X)))
    if kind == "sparse" and len(t.entries) > 1:
        uses.append(("split", lambda X: (t.split(2).to_numpy(), X)))
    if kind == "tt":
        uses.append(("add trains", lambda X: (t.add(t).to_numpy(), 2 * X)))
    if kind == "sum":
        uses.append(("weights", lambda X: ((t * ([2.0] * t.num_summands)).to_numpy(), 2 * X)))
    for step in range(int(rng.integers(2, 5))):
        X, Xabs = gen.now(t)
        tol = 1e-13 * (1e-290 + Xabs * len(shp) * 16)
        for _ in range(int(rng.integers(1, 4))):
            what, f = gen.pick(rng, uses)
            got, want = f(X)
            mon.close(got, want, oracle.T(tol) if what in ("T", "T of a sum") else tol, "%s after editing %s" % (what, log))
        log.append(gen.mutate(rng, t))
        mon.count("edits", step > 0)
    mon.sig(kind, shp, style, tuple(str(x) for x in log))


@family("C14", "conversions", 500, 8000)
def conversions(mon, rng):
    from tt_sketch import tensor as tm

    shp = gen.shape(rng, 1 if rng.random() < 0.1 else 2, 6, 5, 500)
    kind = gen.pick(rng, gen.ALL_KINDS)
    style = gen.pick(rng, ["int", "counts", "float", "wild", "scaled", "graded"])
    t = gen.tensor(rng, kind, shp, style)
    tol = 0.0 if style in EXACT and kind != "sum" else 1e-12 * (t.Xabs + 1e-290)
    mon.note(kind=kind, shape=shp, style=style)
    Y = t.obj.to_numpy()
    mon.check(isinstance(Y, np.ndarray), "to_numpy gives %s" % type(Y).__name__)
    mon.close(Y, t.X, tol, "to_numpy of %s" % kind)
    D = t.obj.dense()
    mon.check(isinstance(D, tm.DenseTensor), "dense() type")
    mon.close(D.to_numpy(), t.X, tol, "dense()")
    S = D.to_sparse()
    mon.close(oracle.sparse_dense(shp, np.asarray(S.indices), S.entries), Y, 0, "to_sparse")
    mon.close(S.to_numpy(), Y, 0, "to_sparse, to_numpy")
    mon.check(tuple(S.shape) == tuple(shp), "shape of to_sparse")
    if kind == "tt":
        A = gen.tensor(rng, "tt", shp, style)
        if rng.random() < 0.4:  # trains that share some of their cores
            cores = list(t.obj.cores)
            own = [int(k) for k in rng.choice(len(shp), size=int(rng.integers(1, min(3, len(shp)) + 1)), replace=False)]
            for k in own:
                cores[k] = gen.pick(rng, [-1.0, 2.0, 3.0]) * cores[k] if rng.random() < 0.3 else rng.permutation(cores[k].reshape(-1)).reshape(cores[k].shape)
            X = oracle.tt_dense(cores)
            A = gen.Case(tm.TensorTrain(cores), X, oracle.tt_dense([np.abs(C) for C in cores]), "tt")
        B = t.obj.add(A.obj)
        mon.close(oracle.tt_dense(B.cores), t.X + A.X, 0 if style in EXACT else 1e-12 * (t.Xabs + A.Xabs + 1e-290), "TT add")
        if len(shp) > 1:
            mon.check(tuple(B.rank) == tuple(a + b for a, b in zip(t.obj.rank, A.obj.rank)), "rank of the direct sum")
        if len(shp) >= 2:
            for which in ("lr", "rl"):
                pd = t.obj.partial_dense(which)
                mon.check(len(pd) == len(shp) - 1, "number of partial contractions")
                for i, P in enumerate(pd):
                    cores = t.obj.cores
                    if which == "lr":
                        W = oracle.tt_dense([*cores[: i + 1], np.eye(cores[i].shape[2])[:, :, None]])
                        W = W.reshape(-1, cores[i].shape[2])
                    else:
                        j = len(shp) - 1 - i
                        W = oracle.tt_dense([np.eye(cores[j].shape[0])[None], *cores[j:]])
                        W = W.reshape(cores[j].shape[0], -1)
                    mon.close(P, W, 1e-11 * (1e-300 + float(np.max(np.abs(W))) + t.scale + 1e3 * (style == "wild") * np.max(np.abs(W))), "partial_dense(%r)[%d]" % (which, i))
                    mon.count("partial_dense")
    if kind == "sparse":
        n = int(rng.integers(1, 6))
        sp = t.obj.split(n)
        mon.check(len(sp.tensors) == n, "split: number of parts")
        mon.check(sum(len(p.entries) for p in sp.tensors) == t.info["nnz"], "split: number of entries is not conserved")
        mon.close(sp.to_numpy(), t.X, 0, "split")
    mon.sig(kind, shp, style)


# ---------------------------------------------------------------- C15


def _close_num(mon, got, want, tol, what):
    g = float(got)
    mon.check(abs(g - want) <= tol, lambda: "%s: got %.17g, expected %.17g, tolerance %.3g" % (what, g, want, tol))


def _long_sum(rng, shp, style, n):
    from tt_sketch.tensor import TensorSum

    parts = [gen.tensor(rng, gen.pick(rng, gen.KINDS), shp, style, 3) for _ in range(n)]
    return gen.Case(TensorSum([p.obj for p in parts]), sum(p.X for p in parts), sum(p.Xabs for p in parts), "sum")


def dots_and_errors(mon, rng, a, b, ka, kb):
    A, B = a.X, b.X
    mag = float(np.sum(a.Xabs * b.Xabs)) + 1e-300
    dot = float(np.sum(A * B))
    tol = 1e-12 * mag
    with gen.Pure(mon, "dot/norm/error", a.obj, b.obj):
        _close_num(mon, a.obj.dot(b.obj), dot, tol, "dot(%s,%s)" % (ka, kb))
        _close_num(mon, b.obj.dot(a.obj), dot, tol, "dot(%s,%s)" % (kb, ka))
        _close_num(mon, a.obj @ b.obj, dot, tol, "%s @ %s" % (ka, kb))
        if rng.random() < 0.3:
            _close_num(mon, a.obj.T.dot(b.obj.T), dot, tol, "dot of transposes")
            _close_num(mon, a.obj.dot(b.obj, reverse=True), dot, tol, "dot(reverse=True)")
        na, nb = oracle.fro(A), oracle.fro(B)
        amp_a, amp_b = oracle.fro(a.Xabs), oracle.fro(b.Xabs)
        # the norm may come from an inner product: sqrt(eps) accuracy at cancellation
        _close_num(mon, a.obj.norm(), na, min(1e-6 * amp_a, 1e-12 * amp_a**2 / (na + 1e-300)) + 1e-300, "norm of %s" % ka)
        err = oracle.fro(A - B)
        etol = 1e-12 * (amp_a + amp_b) + 1e-300
        e = a.obj.error(b.obj)
        _close_num(mon, e, err, etol, "error(%s,%s)" % (ka, kb))
        root_n = math.sqrt(A.size)
        _close_num(mon, a.obj.error(b.obj, rmse=True), err / root_n, etol / root_n, "rmse")
        if nb > 1e-6 * amp_b:
            rel = a.obj.error(b.obj, relative=True)
            _close_num(mon, rel, err / nb, (etol + 1e-11 * err * (amp_b / nb) ** 2) / nb * 2, "relative error")
            both = a.obj.error(b.obj, relative=True, rmse=True)
            _close_num(mon, both, err / nb / root_n, (etol + 1e-11 * err * (amp_b / nb) ** 2) / nb / root_n * 2, "relative rmse")
        elif nb == 0 and kb == "zero":
            mon.check(a.obj.error(b.obj, relative=True) == np.inf, "relative error to zero")
        ef = a.obj.error(b.obj, fast=True)
        ftol = 1e-6 * (amp_a + amp_b)
        mon.check(np.isfinite(ef) and abs(ef**2 - err**2) <= 1e-11 * (amp_a + amp_b) ** 2 or abs(ef - err) <= ftol,
                  lambda: "fast error %.6g, actual %.6g" % (ef, err))
        ea = a.obj.error(np.array(B))
        _close_num(mon, ea, err, etol, "error to a numpy array")


@family("C15", "dot_norm_error", 1500, 25000, need={"pairs": 0.9})
def dot_norm_error(mon, rng):
    from tt_sketch.sketch import stream_sketch

    shp = gen.shape(rng, 1 if rng.random() < 0.08 else 2, 6, 5, 500)
    ka, kb = gen.pick(rng, gen.ALL_KINDS), gen.pick(rng, gen.ALL_KINDS)
    style = gen.pick(rng, ["int", "counts", "float", "float", "wild", "scaled", "graded"])
    a = gen.tensor(rng, ka, shp, style)
    u = rng.random()
    if u < 0.12:
        b = gen.Case(a.obj, a.X, a.Xabs, ka)
        kb = "same"
    elif u < 0.2 and ka != "sum":
        c = 1 + 10.0 ** rng.uniform(-12, -1)
        b = gen.Case(a.obj * c, a.X * c, a.Xabs * c, ka)
        kb = "near"
    elif u < 0.26:
        b = gen.Case(a.obj * 0, a.X * 0, a.Xabs * 0, ka)
        kb = "zero"
    elif u < 0.32:  # sums of several tensors
        a, b = (_long_sum(rng, shp, style, int(rng.integers(1, 9))) for _ in range(2))
        if rng.random() < 0.5 and b.obj.num_summands != a.obj.num_summands:
            b = _long_sum(rng, shp, style, a.obj.num_summands)
        ka = kb = "long sum"
    else:
        b = gen.tensor(rng, kb, shp, style)
    mon.note(formats=(ka, kb), shape=shp, style=style)
    dots_and_errors(mon, rng, a, b, ka, kb)
    if rng.random() < 0.25:
        # the same objects with other numbers
        edits = [gen.mutate(rng, gen.pick(rng, [a, b]).obj) for _ in range(int(rng.integers(1, 3)))]
        mon.note(edits=edits)
        a, b = gen.Case(a.obj, *gen.now(a.obj), ka), gen.Case(b.obj, *gen.now(b.obj), kb)
        dots_and_errors(mon, rng, a, b, ka, "edited " + kb)
        mon.count("edited")
    mon.count("pairs")
    mon.count("pair_%s_%s" % (ka, kb))
    mon.sig(ka, kb, shp, style)


@family("C15", "huge_shapes", 120, 2000)
def huge_shapes(mon, rng):
    """Shapes far beyond any dense array: TT and sparse against own recursions."""
    from tt_sketch import tensor as tm

    d = int(rng.integers(10, 40))
    shp = tuple(int(rng.integers(2, 9)) for _ in range(d))
    ra = tuple(int(rng.integers(1, 4)) for _ in range(d - 1))
    rb = tuple(int(rng.integers(1, 4)) for _ in range(d - 1))
    ca = [c / np.sqrt(c.shape[0] * c.shape[1]) for c in gen.tt_cores(rng, shp, ra, lay=False)]
    cb = [c / np.sqrt(c.shape[0] * c.shape[1]) for c in gen.tt_cores(rng, shp, rb, lay=False)]
    a, b = tm.TensorTrain(ca), tm.TensorTrain(cb)

    def inner(x, y):
        M = np.ones((1, 1))
        for p, q in zip(x, y):
            M = np.einsum("ab,aic,bid->cd", M, p, q)
        return float(M[0, 0])

    ab, aa, bb = inner(ca, cb), inner(ca, ca), inner(cb, cb)
    sc = math.sqrt(abs(aa * bb)) + 1e-300
    _close_num(mon, a.dot(b), ab, 1e-10 * sc, "dot")
    _close_num(mon, a.norm(), math.sqrt(aa), 1e-9 * math.sqrt(aa), "norm")
    err = math.sqrt(abs(aa + bb - 2 * ab))
    e = a.error(b)
    _close_num(mon, e, err, 1e-6 * (math.sqrt(aa) + math.sqrt(bb)), "error")
    rm = a.error(b, rmse=True)
    n_el = math.exp(sum(math.log(s) for s in shp) / 2)
    _close_num(mon, rm, e / n_el, 1e-9 * e / n_el + 1e-300, "rmse of a huge tensor")
    _close_num(mon, a.error(a), 0.0, 1e-10 * math.sqrt(aa), "error to itself")
    c = 1 + 1e-9
    _close_num(mon, a.error(a * c), 1e-9 * math.sqrt(aa), 1e-12 * math.sqrt(aa), "error to a close tensor")
    mon.note(shape=shp, ranks=(ra, rb), dot=ab)
    mon.sig(shp, ra)


@family("C15", "close_trains", 300, 5000, need={"accurate": 0.9})
def close_trains(mon, rng):
    """Errors of tensor trains far below the square root of the precision, ranks of all sizes."""
    from tt_sketch import tensor as tm

    from .c29 import tt_distance, tt_norm, tt_sum

    d = int(rng.integers(2, 7)) if rng.random() < 0.8 else int(rng.integers(7, 40))
    top = int(gen.pick(rng, [3, 8, 20, 40])) if d < 7 else 5
    shp = tuple(int(rng.integers(1, 9)) if rng.random() < 0.7 else int(rng.integers(9, 60)) for _ in range(d))
    rk = tuple(int(rng.integers(1, top + 1)) for _ in range(d - 1))
    if rng.random() < 0.7:
        rk = oracle.feasible(shp, rk)
    rr = (1,) + rk + (1,)
    cores = [rng.standard_normal((rr[i], n, rr[i + 1])) / math.sqrt(rr[i] * n) for i, n in enumerate(shp)]
    scale = 10.0 ** rng.integers(-12, 13) if rng.random() < 0.3 else 1.0
    cores[int(rng.integers(d))] *= scale
    eps = 10.0 ** rng.uniform(-13.5, -1)
    u = rng.random()
    if u < 0.4:  # one core differs
        k = int(rng.integers(d))
        other = [C.copy() for C in cores]
        other[k] += eps * np.linalg.norm(other[k]) * rng.standard_normal(other[k].shape) / math.sqrt(other[k].size)
    elif u < 0.6:  # a multiple
        other = [cores[0] * (1 + eps)] + cores[1:]
    elif u < 0.8:  # shares cores (the same objects) with it
        other = list(cores)
        k = int(rng.integers(d))
        other[k] = cores[k] + eps * np.abs(cores[k])
    else:  # a small summand
        small = [rng.standard_normal((1, n, 1)) / math.sqrt(n) for n in shp]
        small[0] *= eps * tt_norm(cores)
        other = tt_sum([cores, small])
    a, b = tm.TensorTrain(cores), tm.TensorTrain(other)
    err = tt_distance(cores, other)
    na, nb = tt_norm(cores), tt_norm(other)
    if not na > 0 or not nb > 0:
        return
    mon.note(shape=shp, rank=rk, difference=err / na)
    N = math.prod(float(n) for n in shp)
    tol = 1e-13 * d * (na + nb) + 1e-7 * err
    with gen.Pure(mon, "error", a, b):
        _close_num(mon, a.error(b), err, tol, "error of a close tensor train")
        _close_num(mon, b.error(a), err, tol, "error of a close tensor train (other way round)")
        _close_num(mon, a.error(b, relative=True), err / nb, tol / nb, "relative error of a close tensor train")
        _close_num(mon, a.error(b, rmse=True), err / math.sqrt(N), tol / math.sqrt(N), "rmse of a close tensor train")
        _close_num(mon, a.norm(), na, 1e-12 * na, "norm of a tensor train")
        _close_num(mon, b.norm(), nb, 1e-12 * nb, "norm of a tensor train")
        _close_num(mon, a.error(a), 0.0, tol, "error of a tensor train to itself")
        if rng.random() < 0.5:
            _close_num(mon, a.error(b.add(b) / 2), err, 2 * tol, "error to a tensor train of twice the rank")
    mon.count("accurate")
    mon.sig(shp, rk, round(math.log10(eps)))


@family("C15", "sketched", 100, 1500)
def sketched(mon, rng):
    """dot, norm and error of a sketched tensor train are those of its value."""
    from tt_sketch.sketch import stream_sketch

    shp = gen.shape(rng, 2, 5, 5, 400)
    t = gen.low_rank(rng, gen.pick(rng, gen.KINDS), shp, 3)
    l, r, big = gen.two_ranks(rng, len(shp), 3, 6)
    st = stream_sketch(t.obj, l, r, seed=int(rng.integers(2**31)))
    Y = np.array(st.to_numpy())
    o = gen.tensor(rng, gen.pick(rng, gen.ALL_KINDS), shp)
    sc = oracle.fro(Y) * oracle.fro(o.Xabs) + 1e-300
    want = float(np.sum(Y * o.X))
    _close_num(mon, st.dot(o.obj), want, 1e-8 * sc, "sketched.dot(%s)" % o.kind)
    _close_num(mon, o.obj.dot(st), want, 1e-8 * sc, "%s.dot(sketched)" % o.kind)
    _close_num(mon, st.norm(), oracle.fro(Y), 1e-6 * oracle.fro(Y), "norm")
    e = oracle.fro(Y - o.X)
    tol = 1e-8 * (oracle.fro(Y) + oracle.fro(o.Xabs)) + 1e-300
    _close_num(mon, st.error(o.obj), e, tol, "sketched.error(%s)" % o.kind)
    _close_num(mon, o.obj.error(st), e, tol, "%s.error(sketched)" % o.kind)
    mon.note(kind=t.kind, other=o.kind, shape=shp)
    mon.sig(t.kind, o.kind, shp)


# ---------------------------------------------------------------- C16


def _queries(rng, shp):
    u = rng.random()
    n = 0 if u < 0.05 else 1 if u < 0.15 else int(rng.integers(2, 30))
    if 0.75 < u < 0.83:  # enough for an implementation working in blocks
        n = gen.around_power_of_two(rng, 32, 20000)
    if u > 0.9:
        q = oracle.all_indices(shp)
    else:
        q = np.stack([rng.integers(0, s, size=n) for s in shp])
    q = q.astype(gen.pick(rng, [np.int64, np.int32, np.uint64]))
    form = gen.pick(rng, ["array", "tuple"])
    return (q if form == "array" else tuple(q)), q.astype(int), form


@family("C16", "gather", 900, 15000, need={"gathered": 0.9})
def gather(mon, rng):
    from tt_sketch import tensor as tm

    shp = gen.shape(rng, 1 if rng.random() < 0.08 else 2, 6, 6, 600)
    kind = gen.pick(rng, ["sparse", "tt", "cp"])
    style = gen.pick(rng, ["int", "float"])
    t = gen.tensor(rng, kind, shp, style, lay=False)
    mon.note(kind=kind, shape=shp)
    X = t.X
    tol = 1e-12 * (t.scale + 1e-300) if style == "float" else 0
    hist = []
    for step in range(int(rng.integers(1, 5))):
        q, qi, form = _queries(rng, shp)
        with gen.Pure(mon, "gather", t.obj, q):
            g = t.obj.gather(q)
        mon.close(g, X[tuple(qi)], tol, "gather (%s, %s) after %s" % (kind, form, hist))
        if rng.random() < 0.4:
            # one position given by numbers: rejected or not, the tensor stays
            one = [int(x) for x in qi[:, 0]] if qi.shape[1] else [0] * len(shp)
            conv = gen.pick(rng, [int, np.int64, np.array, lambda x: slice(x, x + 1)])
            with gen.Pure(mon, "gather of single numbers", t.obj):
                try:
                    t.obj.gather(tuple(conv(x) for x in one))
                except Exception:  # noqa: BLE001
                    pass
            mon.close(t.obj.to_numpy(), X, tol if kind != "sparse" else 0, "to_numpy after a gather")
        mon.count("gathered", 1)
        mon.count("entries", qi.shape[1])
        # change the tensor in place, then look again
        if kind == "sparse":
            if t.info["nnz"] == 0:
                break
            op = gen.pick(rng, ["entry", "replace", "scale"])
            if op == "entry":
                k = int(rng.integers(t.info["nnz"]))
                t.obj.entries[k] = float(rng.integers(-9, 9))
            elif op == "replace":
                t.obj.entries = rng.integers(-9, 9, size=t.info["nnz"]).astype(float)
            else:
                t.obj.entries *= 2.0
            X = oracle.sparse_dense(shp, np.asarray(t.obj.indices), t.obj.entries)
        else:
            i = int(rng.integers(len(shp)))
            op = gen.pick(rng, ["setitem", "inplace"])
            new = gen.arr(rng, t.obj.cores[i].shape, "int")
            if op == "setitem":
                t.obj[i] = new
            else:
                t.obj[i][...] = new
            X = oracle.tt_dense(t.obj.cores) if kind == "tt" else oracle.cp_dense(t.obj.cores)
            A = [np.abs(C) for C in t.obj.cores]
            tol = 1e-12 * float(np.max(oracle.tt_dense(A) if kind == "tt" else oracle.cp_dense(A))) + 1e-300
        hist.append(op)
        if kind == "sparse" and rng.random() < 0.5:
            o = gen.tensor(rng, gen.pick(rng, ["sparse", "tt", "cp"]), shp, style)
            _close_num(mon, t.obj.dot(o.obj), float(np.sum(X * o.X)), 1e-12 * float(np.sum(np.abs(X) * o.Xabs)) + 1e-300, "dot after " + op)
            _close_num(mon, o.obj.dot(t.obj), float(np.sum(X * o.X)), 1e-12 * float(np.sum(np.abs(X) * o.Xabs)) + 1e-300, "dot after " + op)
        mon.close(t.obj.to_numpy(), X, tol if kind != "sparse" else 0, "to_numpy after " + op)
        _close_num(mon, t.obj.norm(), oracle.fro(X), 1e-6 * oracle.fro(X) + 1e-6 * (t.scale + 100), "norm after " + op) if kind == "sparse" else None
    mon.sig(kind, shp, tuple(hist))


@family("C16", "huge_positions", 100, 1500)
def huge_positions(mon, rng):
    """Sparse tensors with up to 2**62 positions, or more than 64-bit integers
    can count: entries are found by position."""
    from tt_sketch import tensor as tm

    d = int(rng.integers(2, 7))
    shp = [int(10 ** rng.uniform(1, 9)) + 1 for _ in range(d)]
    beyond = rng.random() < 0.4
    if beyond:
        d = int(rng.integers(2, 7)) if rng.random() < 0.6 else int(rng.integers(33, 70))
        shp = [2 ** int(rng.integers(0, 41)) for _ in range(d)]
    while math.prod(shp) >= 2**62 and not beyond:
        shp[int(np.argmax(shp))] //= 7
    shp = tuple(shp)
    n = int(rng.integers(1, 40))
    inds = np.stack([rng.integers(0, s, size=n) for s in shp])
    if beyond:  # positions whose numbers differ by a multiple of 2**64, or 2**32
        for k in range(d):
            stride = math.prod(shp[k + 1:])
            for m in (2**64, 2**63, 2**32):
                if m % stride == 0 and m // stride < shp[k]:
                    alike = inds.copy()
                    alike[k] = (alike[k] + m // stride) % shp[k]
                    inds = np.concatenate([inds, alike], axis=1)[:, :400]
    inds = np.unique(inds, axis=1)
    n = inds.shape[1]
    inds = inds[:, rng.permutation(n)]
    ent = rng.standard_normal(n)
    t = tm.SparseTensor(shp, inds, ent)
    miss = np.stack([rng.integers(0, s, size=10) for s in shp])
    q = np.concatenate([inds[:, rng.permutation(n)], miss, inds[:, :1]], axis=1)
    table = {tuple(int(x) for x in inds[:, k]): ent[k] for k in range(n)}
    want = [table.get(tuple(int(x) for x in q[:, k]), 0.0) for k in range(q.shape[1])]
    mon.close(t.gather(q), want, 0, "gather of a huge sparse tensor")
    k2 = rng.permutation(n)[: max(1, n // 2)]
    o = tm.SparseTensor(shp, inds[:, k2], np.arange(1.0, len(k2) + 1))
    _close_num(mon, t.dot(o), float(np.sum(ent[k2] * np.arange(1.0, len(k2) + 1))), 1e-10 * n * n, "dot of huge sparse tensors")
    mon.note(shape=shp, nnz=n)
    mon.sig(shp, n)


# ---------------------------------------------------------------- C17


@family("C17", "operations", 900, 15000, need={"operands_watched": 2.0})
def operations(mon, rng):
    from tt_sketch.sketch import blocked_stream_sketch, hmt_sketch, orthogonal_sketch, stream_sketch
    from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, round_tt_sum, tt_sum_gmres
    from tt_sketch.tt_svd import tt_svd
    from tt_sketch.tensor import TensorSum

    shp = gen.shape(rng, 2, 5, 5, 300)
    d = len(shp)
    kind = gen.pick(rng, gen.ALL_KINDS)
    a = gen.tensor(rng, kind, shp)
    b = gen.tensor(rng, gen.pick(rng, gen.ALL_KINDS), shp)
    tt = gen.tensor(rng, "tt", shp)
    tt2 = gen.tensor(rng, "tt", shp)
    l, r, big = gen.two_ranks(rng, d, 1, 4, "right")
    rd = tuple(int(rng.integers(1, 4)) for _ in range(d - 1))
    idx = np.stack([rng.integers(0, s, size=5) for s in shp])
    w = np.array([2.0, -1.0])
    ops = {
        "add": lambda: a.obj + b.obj,
        "sub": lambda: a.obj - b.obj,
        "mul": lambda: a.obj * 2.5,
        "neg": lambda: -a.obj,
        "div": lambda: a.obj / 3.0,
        "T": lambda: a.obj.T.T,
        "to_numpy": lambda: a.obj.to_numpy(),
        "dense": lambda: a.obj.dense().to_sparse(),
        "dot": lambda: a.obj.dot(b.obj),
        "norm": lambda: a.obj.norm(),
        "error": lambda: (a.obj.error(b.obj, relative=True), a.obj.error(b.obj, fast=True, rmse=True)),
        "tt_add": lambda: tt.obj.add(tt2.obj),
        "tt_ortho": lambda: tt.obj.orthogonalize(),
        "tt_round": lambda: tt.obj.round(eps=1e-3, max_rank=2),
        "tt_round_rank": lambda: tt.obj.round(max_rank=rd),
        "tt_round_orthogonal": lambda: (left.round(orthogonalized=True), left.round(max_rank=rd, orthogonalized=True),
                                        left.round(eps=1e-2, orthogonalized=True), left.norm(), left.svdvals(), left * 2.0),
        "tt_svdvals": lambda: tt.obj.svdvals(),
        "tt_error": lambda: tt.obj.error(tt2.obj, relative=True),
        "tt_gather": lambda: tt.obj.gather(idx),
        "tt_partial": lambda: (tt.obj.partial_dense("lr"), tt.obj.partial_dense("rl")),
        "tt_svd": lambda: tt_svd(a.obj, rd),
        "stream": lambda: stream_sketch(a.obj, l, r).to_tt(),
        "orthogonal": lambda: orthogonal_sketch(a.obj, l, r),
        "hmt": lambda: hmt_sketch(a.obj, l),
        "weighted": lambda: TensorSum([a.obj, b.obj]) * w,
        "round_exact": lambda: round_tt_sum(trains, mr, method="exact"),
        "round_pairwise": lambda: round_tt_sum(trains, mr, method="pairwise"),
        "round_sketch": lambda: round_tt_sum(trains, mr, method="sketch"),
        "round_orth": lambda: round_tt_sum(trains, mr, method="orth_sketch"),
        "sum_arithmetic": lambda: (trains + tt.obj, trains - tt2.obj, trains * 2.0, -trains, trains.T, trains + mixed,
                                   trains * np.ones(trains.num_summands), trains / 2, trains.size),
        "sum_values": lambda: (mixed.to_numpy(), mixed.norm(), mixed.dot(tt.obj), tt.obj.dot(mixed), mixed.error(trains), mixed.dense()),
        "sum_sketches": lambda: (stream_sketch(trains, l, r).to_tt(), orthogonal_sketch(trains, l, r), hmt_sketch(trains, l),
                                 tt_svd(trains, rd)),
    }
    left = tt.obj.orthogonalize()
    trains = TensorSum([tt.obj, tt2.obj, tt.obj * 0.5, tt2.obj][: int(rng.integers(1, 5))])
    mixed = TensorSum([a.obj, tt.obj, b.obj])
    mr = gen.pick(rng, [2, rd])
    extra = []
    name = gen.pick(rng, sorted(ops) + ["mpo", "precond", "gmres", "sketch_ops"])
    if name == "mpo":
        out = tuple(int(rng.integers(1, 4)) for _ in shp)
        cores = []
        rr = (1,) + rd + (1,)
        for i in range(d):
            cores.append(gen.layout(rng, rng.standard_normal((rr[i], shp[i], out[i], rr[i + 1]))))
        M = MPO(cores)
        extra = [M]
        ops[name] = lambda: (M(tt.obj), M * 3.0, M.T, M.to_tt(), M.to_numpy(), -M, M / 2)
    elif name == "precond":
        k = int(rng.integers(d))
        Q = rng.standard_normal((shp[k], shp[k])) + 3 * np.eye(shp[k])
        P = TTPrecond(Q, shp, mode=k)
        extra = [P]
        ops[name] = lambda: (P(tt.obj), P.forward_call(tt.obj), P.backward_call(tt.obj))
    elif name == "gmres":
        E = MPO.eye(shp)
        A = TTLinearMapSum([E * 2.0, E])
        P = TTPrecond(np.eye(shp[0]) * 2, shp, mode=0)
        x0 = tt2.obj if rng.random() < 0.5 else None
        extra = [A, E, P]
        ops[name] = lambda: tt_sum_gmres(A, tt.obj, 3, precond=P if rng.random() < 0.5 else None, x0=x0, maxiter=3,
                                         rounding_method=gen.pick(rng, ["exact", "pairwise", "sketch"]))
    elif name == "sketch_ops":
        sk = stream_sketch(a.obj, l, r)
        extra = [sk.sketch_, sk.left_drm, sk.right_drm]
        ops[name] = lambda: (sk + b.obj if "tucker" not in (b.kind,) else 0, sk * 2.0, sk.T, sk.to_tt(), sk.to_numpy(), -sk, sk / 2, sk.C_cores("left"), sk.C_cores("right"))
    mon.note(operation=name, kinds=(a.kind, b.kind), shape=shp)
    with gen.Pure(mon, name, a.obj, b.obj, tt.obj, tt2.obj, w, idx, l, r, left, trains, mixed, *extra):
        res = ops[name]()
    mon.check(res is not None, "%s returned nothing" % name)
    # values are still the original ones (independent of the snapshot)
    mon.close(a.obj.to_numpy(), a.X, 1e-11 * (a.scale + 1e-300), "operand after " + name)
    mon.count("op_" + name)
    mon.sig(name, a.kind, shp)


@family("C17", "results_stand_alone", 250, 4000, need={"results_replaced": 1.0})
def results_stand_alone(mon, rng):
    """Replacing the cores of what an operation returned (tt[i] = ...) says
    nothing about its operands, nor about asking the same question again."""
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
    from tt_sketch.tensor import CPTensor, TensorTrain
    from tt_sketch.tt_gmres import MPO
    from tt_sketch.tt_svd import tt_svd

    shp = gen.shape(rng, 2, 5, 4, 200)
    d = len(shp)
    l, r, _ = gen.two_ranks(rng, d, 1, 4, "right")
    rd = tuple(int(rng.integers(1, 4)) for _ in range(d - 1))
    a = gen.tensor(rng, gen.pick(rng, gen.ALL_KINDS), shp)
    tt = gen.tensor(rng, "tt", shp)
    cp = gen.tensor(rng, "cp", shp)
    s = stream_sketch(a.obj, l, r)
    eye = MPO.eye(shp)
    rr = (1,) + rd + (1,)
    M = MPO([rng.standard_normal((rr[i], shp[i], shp[i], rr[i + 1])) for i in range(d)])
    seed = int(rng.integers(1000))
    ops = {
        "sketch.to_tt": (lambda: s.to_tt(), lambda: s.to_numpy()),
        "sketch.T.T": (lambda: s.T.T.to_tt(), lambda: s.to_numpy()),
        "hmt": (lambda: hmt_sketch(a.obj, l, seed=seed), None),
        "orthogonal": (lambda: orthogonal_sketch(a.obj, l, r, seed=seed), None),
        "tt_svd": (lambda: tt_svd(a.obj, rd), None),
        "tt_round": (lambda: tt.obj.round(max_rank=rd), lambda: tt.obj.to_numpy()),
        "tt_round_eps": (lambda: tt.obj.round(eps=1e-14), lambda: tt.obj.to_numpy()),
        "tt_orthogonalize": (lambda: tt.obj.orthogonalize(), lambda: tt.obj.to_numpy()),
        "tt_T": (lambda: tt.obj.T, lambda: tt.obj.to_numpy()),
        "tt_mul": (lambda: tt.obj * 1.0, lambda: tt.obj.to_numpy()),
        "tt_neg": (lambda: -tt.obj, lambda: tt.obj.to_numpy()),
        "tt_add": (lambda: tt.obj.add(tt.obj), lambda: tt.obj.to_numpy()),
        "cp_mul": (lambda: cp.obj * 1.0, lambda: cp.obj.to_numpy()),
        "cp_T": (lambda: cp.obj.T, lambda: cp.obj.to_numpy()),
        "mpo_call": (lambda: M(tt.obj), lambda: M.to_numpy()),
        "eye_call": (lambda: eye(tt.obj), lambda: tt.obj.to_numpy()),
        "mpo_to_tt": (lambda: M.to_tt(), lambda: M.to_numpy()),
        "zero": (lambda: TensorTrain.zero(shp, rd), None),
        "random": (lambda: TensorTrain.random(shp, rd, seed=seed), None),
        "cp_random": (lambda: CPTensor.random(shp, 3, seed=seed), None),
    }
    name = gen.pick(rng, sorted(ops) + ["sketch.to_tt"] * 2)
    make, show = ops[name]
    first = make()
    X = np.array(first.to_numpy())
    Y = None if show is None else np.array(show())
    mon.note(operation=name, kind=a.kind, shape=shp)
    with gen.Pure(mon, "replacing cores of the result of " + name, a.obj, tt.obj, cp.obj, s.sketch_, M, eye):
        k = int(rng.integers(len(first.cores)))
        if rng.random() < 0.5:
            first[k] = first[k] * 3.0 + 1.0
        else:
            first.cores[k] = np.zeros_like(first.cores[k])
    if Y is not None:
        mon.close(show(), Y, 0, "value behind %s after its result was given a new core" % name)
    mon.close(make().to_numpy(), X, 1e-9 * (np.linalg.norm(X) + 1e-300), "%s asked for again after its result was given a new core" % name)
    mon.count("results_replaced")
    mon.sig(name, shp)


@family("C17", "no_alias_of_sums", 200, 3000)
def no_alias_of_sums(mon, rng):
    """Growing one sum in place leaves all the others alone."""
    shp = gen.shape(rng, 2, 4, 4, 150)
    live = []
    log = []
    for _ in range(int(rng.integers(4, 14))):
        t = gen.tensor(rng, gen.pick(rng, gen.KINDS), shp, "int", 2)
        op = gen.pick(rng, ["new", "plus", "plus_sum", "iadd", "neg", "scale", "scale", "T", "none"])
        if op == "new" or not live:
            u = gen.tensor(rng, gen.pick(rng, gen.KINDS), shp, "int", 2)
            live.append([t.obj + u.obj, t.X + u.X])
        else:
            i = int(rng.integers(len(live)))
            s, X = live[i]
            if op == "plus":
                live.append([s + t.obj, X + t.X])
            elif op == "plus_sum":
                s2, X2 = live[int(rng.integers(len(live)))]
                live.append([s + s2, X + X2])
            elif op == "iadd":
                if rng.random() < 0.5:
                    s += t.obj
                    X = X + t.X
                else:
                    j = int(rng.integers(len(live)))
                    s += live[j][0]
                    X = X + live[j][1]
                live[i] = [s, X]
            elif op == "neg":
                live.append([-s, -X])
            elif op == "scale":
                # also factors that change nothing
                c = gen.pick(rng, [2, 2, -1, 0.5, 1, 1.0, np.float64(1), 0])
                how = gen.pick(rng, ["mul", "rmul", "div", "weights"])
                if how == "weights":
                    live.append([s * ([c] * s.num_summands), X * c])
                elif how == "div" and c:
                    live.append([s / c, X / c])
                else:
                    live.append([s * c if how == "mul" or type(c) is np.float64 else c * s, X * c])
            elif op == "T":
                live.append([s.T.T, X])
            elif op == "none":
                from tt_sketch.tensor import TensorSum

                empty = TensorSum([], shape=shp)
                live.append(gen.pick(rng, [lambda: [s + empty, X], lambda: [empty + s, X], lambda: [s - empty, X]])())
        log.append(op)
        for k, (s, X) in enumerate(live):
            mon.close(s.to_numpy(), X, 0, "sum %d after %s" % (k, log))
        if len(live) > 6:
            live.pop(0)
    mon.count("sums_watched", len(live))
    mon.note(history=log, shape=shp)
    mon.sig(tuple(log), shp)


# ---------------------------------------------------------------- C18


@family("C18", "metadata", 500, 8000)
def metadata(mon, rng):
    from tt_sketch.sketch import stream_sketch

    shp = gen.shape(rng, 1 if rng.random() < 0.08 else 2, 6, 5, 500)
    kind = gen.pick(rng, gen.ALL_KINDS)
    t = gen.tensor(rng, kind, shp)

    def stored(o):
        k = type(o).__name__
        if k == "DenseTensor":
            return int(np.prod(o.to_numpy().shape))
        if k == "SparseTensor":
            return len(o.entries) * (len(o.shape) + 1)
        if k in ("TensorTrain", "CPTensor"):
            return sum(int(np.prod(C.shape)) for C in o.cores)
        if k == "TuckerTensor":
            return int(np.prod(o.core.shape)) + sum(int(np.prod(U.shape)) for U in o.factors)
        return sum(stored(x) for x in o.tensors)

    for o, s in ((t.obj, shp), (t.obj.T, shp[::-1]), (-t.obj, shp), (t.obj * 2, shp), (t.obj + t.obj, shp)):
        mon.check(tuple(o.shape) == tuple(s), lambda: "shape %s of %s" % (o.shape, kind))
        mon.check(o.ndim == len(s), "ndim")
        size = o.size
        mon.check(int(size) == stored(o), lambda: "size %s of %s, stored numbers: %s" % (size, type(o).__name__, stored(o)))
        mon.check(isinstance(repr(o), str), "repr")
        mon.check(np.shape(o.to_numpy()) == tuple(s), "shape of to_numpy")
    if kind == "tt" and len(shp) > 1:
        mon.check(tuple(t.obj.rank) == tuple(C.shape[0] for C in t.obj.cores[1:]), "TT rank")
        mon.check(tuple(t.obj.T.rank) == tuple(t.obj.rank[::-1]), "rank of the transpose")
    if kind == "cp":
        mon.check(t.obj.rank == t.info["rank"], "CP rank")
    if kind == "tucker":
        mon.check(tuple(t.obj.rank) == tuple(t.info["rank"]), "Tucker rank")
        mon.check(tuple(t.obj.T.rank) == tuple(t.info["rank"][::-1]), "rank of the transpose")
    if kind == "sparse":
        mon.check(t.obj.nnz == t.info["nnz"] == t.obj.T.nnz, "nnz")
    if kind == "sum":
        mon.check(t.obj.num_summands == len(t.info["parts"]), "number of summands")
        mon.check((t.obj + t.obj).num_summands == 2 * len(t.info["parts"]), "number of summands of a sum")
    if kind == "sparse":
        # entries appended or removed
        N = int(np.prod(shp))
        other = gen.sparse_inds(rng, shp, int(rng.integers(0, N + 1)))
        t.obj.indices, t.obj.entries = other, rng.standard_normal(other.shape[1])
        mon.check(t.obj.nnz == other.shape[1] == t.obj.T.nnz, "nnz after replacing the entries")
        mon.check(int(t.obj.size) == stored(t.obj), "size after replacing the entries")
    elif kind == "sum":
        m = t.obj.num_summands
        t.obj.tensors.append(t.obj.tensors[0])
        mon.check(t.obj.num_summands == m + 1 and int(t.obj.size) == stored(t.obj), "size after appending a summand")
    if len(shp) > 1:
        l, r, big = gen.two_ranks(rng, len(shp), 1, 4)
        st = stream_sketch(t.obj, l, r, seed=3)
        n = sum(int(np.prod(P.shape)) for P in st.Psi_cores) + sum(int(np.prod(P.shape)) for P in st.Omega_mats)
        mon.check(st.size == n, lambda: "size %s of the sketch, stored numbers: %s" % (st.size, n))
        mon.check(tuple(st.shape) == tuple(shp) and st.ndim == len(shp), "shape of the sketch")
        lr, rr = (1,) + tuple(st.left_rank), tuple(st.right_rank) + (1,)
        for mu, P in enumerate(st.Psi_cores):
            mon.check(P.shape == (lr[mu], shp[mu], rr[mu]), "shape of Psi")
        for mu, P in enumerate(st.Omega_mats):
            mon.check(P.shape == (lr[mu + 1], rr[mu]), "shape of Omega")
        mon.check(isinstance(repr(st), str), "repr")
        mon.count("sketches")
    mon.note(kind=kind, shape=shp)
    mon.sig(kind, shp)


@family("C18", "random_constructors", 500, 8000)
def random_constructors(mon, rng):
    from tt_sketch import tensor as tm

    shp = gen.shape(rng, 2, 6, 6, 3000)
    d = len(shp)
    which = gen.pick(rng, ["tt", "tt_orthog", "tt_zero", "cp", "tucker", "sparse", "dense", "tt_trim"])
    seed = int(rng.integers(2**32)) if rng.random() < 0.8 else int(rng.integers(10))
    rk = tuple(int(rng.integers(1, 9)) for _ in range(d - 1))
    arg = rk if rng.random() < 0.6 else rk[0]
    want = rk if arg is rk else (rk[0],) * (d - 1)
    mon.note(which=which, shape=shp, rank=arg, seed=seed)
    mon.sig(which, shp, arg)

    def twice(f):
        a, b = f(seed), f(seed)
        c = f(seed + 1)
        X, Y, Z = a.to_numpy(), b.to_numpy(), c.to_numpy()
        mon.close(X, Y, 0, "%s: same seed, same tensor" % which)
        mon.check(np.all(np.isfinite(X)), "finite")
        return a, X, Z

    if which.startswith("tt") and which != "tt_zero":
        kw = {"tt": {}, "tt_orthog": {"orthog": True}, "tt_trim": {"trim": True}}[which]
        if which == "tt" and rng.random() < 0.3:
            kw = {"norm_goal": "norm-preserve"}
        t, X, Z = twice(lambda s: tm.TensorTrain.random(shp, arg, seed=s, **kw))
        exp = oracle.feasible(shp, want) if which != "tt" else want
        mon.check(tuple(t.rank) == tuple(exp), lambda: "rank %s instead of %s" % (t.rank, exp))
        mon.check(tuple(C.shape for C in t.cores) == tuple(zip((1,) + exp, shp, exp + (1,))), "core shapes")
        mon.check(not np.array_equal(X, Z), "different seeds give the same tensor")
        for i in range(d):
            for j in range(i):
                if t.cores[i].shape == t.cores[j].shape and t.cores[i].size > 2:
                    mon.check(not np.allclose(t.cores[i], t.cores[j]), "equal random cores")
        if which == "tt_orthog":
            for C in t.cores[:-1]:
                M = C.reshape(-1, C.shape[2])
                mon.close(M.T @ M, np.eye(M.shape[1]), 1e-11, "orthogonal random core")
    elif which == "tt_zero":
        t = tm.TensorTrain.zero(shp, arg)
        mon.check(tuple(t.rank) == tuple(want), "rank")
        mon.close(t.to_numpy(), np.zeros(shp), 0, "zero tensor train")
    elif which == "cp":
        r = rk[0]
        t, X, Z = twice(lambda s: tm.CPTensor.random(shp, r, seed=s))
        mon.check(t.rank == r and tuple(C.shape for C in t.cores) == tuple((n, r) for n in shp), "core shapes")
        mon.check(not np.array_equal(X, Z), "different seeds give the same tensor")
    elif which == "tucker":
        rr = tuple(int(rng.integers(1, 9)) for _ in shp)
        a2 = rr if rng.random() < 0.6 else rr[0]
        exp = tuple(min(x, n) for x, n in zip(rr if a2 is rr else (rr[0],) * d, shp))
        t, X, Z = twice(lambda s: tm.TuckerTensor.random(shp, a2, seed=s))
        mon.check(tuple(t.rank) == exp and tuple(t.core.shape) == exp, lambda: "rank %s instead of %s" % (t.rank, exp))
        for U, r, n in zip(t.factors, exp, shp):
            mon.check(U.shape == (r, n), "factor shape")
            mon.close(U @ U.T, np.eye(r), 1e-11, "orthonormal factor")
        mon.check(not np.array_equal(X, Z), "different seeds give the same tensor")
    elif which == "sparse":
        N = math.prod(shp)
        nnz = gen.pick(rng, [0, 1, N, int(rng.integers(0, N + 1))])
        t, X, Z = twice(lambda s: tm.SparseTensor.random(shp, nnz, seed=s))
        I = np.asarray(t.indices)
        mon.check(t.nnz == nnz and I.shape == (d, nnz), "number of entries")
        mon.check(all(np.all((I[k] >= 0) & (I[k] < shp[k])) for k in range(d)), "indices in range")
        mon.check(len({tuple(x) for x in I.T.tolist()}) == nnz, "positions are distinct")
        mon.check(int(np.sum(X != 0)) == nnz, "non-zero entries")
        u = tm.SparseTensor.random(shp, nnz)
        mon.check(u.nnz == nnz, "unseeded: number of entries")
    else:
        t = tm.DenseTensor.random(shp)
        mon.check(tuple(t.shape) == tuple(shp) and np.all(np.isfinite(t.to_numpy())), "random dense tensor")
        mon.check(len(np.unique(t.to_numpy())) == math.prod(shp), "distinct entries")
    mon.check(tuple(t.shape) == tuple(shp), "shape")


@family("C18", "norm_goal", 24, 250, need={"tensors": 100}, timeout=200)
def norm_goal(mon, rng):
    """Random tensor trains have the expected norm, whatever the ranks."""
    from tt_sketch import tensor as tm

    d = int(rng.integers(2, 6))
    shp = tuple(int(rng.integers(2, 8)) for _ in range(d))
    rk = tuple(int(gen.pick(rng, [1, 2, 3, 8, 14])) for _ in range(d - 1))
    goal = gen.pick(rng, ["norm-1", "norm-1", "norm-preserve"])
    want = 1.0 if goal == "norm-1" else float(np.prod(shp))
    base = int(rng.integers(2**31))
    S = 240
    v = []
    for i in range(S):
        cores = tm.TensorTrain.random(shp, rk, seed=base + i, norm_goal=goal).cores
        M = np.ones((1, 1))
        for C in cores:
            M = np.einsum("ab,aic,bid->cd", M, C, C)
        v.append(float(M[0, 0]) / want)
    v = np.array(v)
    mon.note(shape=shp, rank=rk, goal=goal, mean_square=float(v.mean()), deviation=float(v.std() / np.sqrt(S)))
    # heavy tails: a generous bound
    mon.check(abs(v.mean() - 1) <= 8 * v.std() / np.sqrt(S) + 0.05, "%s: mean square norm %.3g instead of 1 (%d samples)" % (goal, v.mean(), S))
    mon.emit(float(np.log(v.mean())))
    mon.count("tensors", S)
    mon.sig(shp, rk, goal)


@family("C18", "scales", 24, 250, need={"tensors": 100}, timeout=200)
def scales(mon, rng):
    """Entries of random tensors have the size stated: standard normal ones,
    and columns of norm one for CP."""
    from tt_sketch import tensor as tm

    d = int(rng.integers(2, 5))
    shp = tuple(int(rng.integers(1, 12)) for _ in range(d))
    if rng.random() < 0.3:
        shp = shp[:-1] + (int(rng.integers(30, 200)),)
    which = gen.pick(rng, ["cp", "cp", "tucker", "sparse", "dense"])
    base = int(rng.integers(2**31))
    S = 300
    if which == "cp":
        r = int(rng.integers(1, 10))
        make, size = (lambda s: tm.CPTensor.random(shp, r, seed=s)), r
    elif which == "tucker":
        r = tuple(int(rng.integers(1, n + 1)) for n in shp)
        make, size = (lambda s: tm.TuckerTensor.random(shp, r, seed=s)), math.prod(r)
    elif which == "sparse":
        nnz = int(rng.integers(1, math.prod(shp) + 1))
        make, size = (lambda s: tm.SparseTensor.random(shp, nnz, seed=s)), nnz
    else:
        make, size = (lambda s: tm.DenseTensor.random(shp)), math.prod(shp)
    v, total = [], np.zeros(shp)
    for i in range(S):
        t = make(base + i)
        if which == "cp":  # norms of the columns, each core
            v.append([float(np.mean(np.sum(C**2, axis=0))) for C in t.cores])
            X = np.ones((1, r))
            for C in t.cores:
                X = np.einsum("ar,nr->anr", X, C).reshape(-1, r)
            total += X.sum(axis=1).reshape(shp) / math.sqrt(size)
        else:
            X = t.to_numpy()
            v.append([float(np.sum(X**2)) / size])
            total += X / math.sqrt(size)
    v = np.array(v)
    mon.note(which=which, shape=shp, mean_square=v.mean(axis=0).tolist())
    for k in range(v.shape[1]):
        m, dev = float(v[:, k].mean()), float(v[:, k].std() / np.sqrt(S))
        mon.check(abs(m - 1) <= 8 * dev + 0.02, lambda: "%s of shape %s: mean square %.3g instead of 1 (%d samples)" % (which, shp, m, S))
    mean = oracle.fro(total) / S
    mon.check(mean <= 10 / math.sqrt(S), "%s: mean of the tensors isn't zero, %.3g" % (which, mean))
    mon.count("tensors", S)
    mon.sig(which, shp, size)
