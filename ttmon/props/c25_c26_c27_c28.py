"""Ranks, rejected input, utilities, and the experiment store."""
import math
import os
import resource
import shutil
import sys
import tempfile
import warnings

import numpy as np

from .. import gen, oracle
from ..core import Violation, family

RULE = {
    "C25": "Random shapes (up to 200 modes, sizes up to 10**9, numpy integers) and ranks in every accepted form, "
    "against an independent fixed point and against unfolding ranks of generic tensors. Distinct by (shape, rank).",
    "C26": "Random valid calls with one inconsistent argument, each next to the valid call itself. Distinct by "
    "(kind of mistake, shape, format).",
    "C27": "Random arrays, modes, deficient and rectangular matrices against plain numpy. Distinct by "
    "(function, shape, arguments).",
    "C28": "Random histories of experiments with interruptions: reloads, failing experiments, failing writes (file "
    "size limit) and crashes at random executed lines. Distinct by (history length, kinds of argument, fault).",
}
ASSUMPTIONS = [
    "C28: arguments are distinguishable by their text form (no empty strings, no strings that look like numbers, "
    "no True next to 1); except in the family other_arguments an experiment of one name always has the same "
    "set of arguments; a crash is the death of the process, not of the machine.",
]


# ---------------------------------------------------------------- C25

@family("C25", "trimmed_ranks", 900, 15000, need={"trimmed": 0.9})
def trimmed_ranks(mon, rng):
    from tt_sketch.utils import process_tt_rank, trim_ranks

    u = rng.random()
    if u < 0.4:
        shp = gen.shape(rng, 1, 6, 6, 10**6)
    elif u < 0.6:
        shp = tuple(int(rng.integers(1, 10**9)) for _ in range(int(rng.integers(2, 9))))
    elif u < 0.75:
        shp = (int(rng.integers(2, 10**5)),) * int(rng.integers(5, 40))
    elif u < 0.9:
        shp = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(20, 90))))
    else:  # long chains of size one
        k = int(rng.integers(5, 60)) if rng.random() < 0.6 else int(rng.integers(60, 500))
        shp = (int(rng.integers(2, 100)),) + (1,) * k + (int(rng.integers(2, 100)),)
    d = len(shp)
    hi = int(gen.pick(rng, [4, 20, 1000, 10**6]))
    want = tuple(int(rng.integers(1, hi + 1)) for _ in range(d - 1))
    if rng.random() < 0.3:
        want = tuple(int(gen.pick(rng, [1, hi])) for _ in range(d - 1))
    elif d > 2 and rng.random() < 0.4:  # a single small rank
        want = [hi] * (d - 1)
        want[int(gen.pick(rng, [0, d - 2, int(rng.integers(0, d - 1))]))] = int(rng.integers(1, min(hi, 10) + 1))
        want = tuple(want)
    form = gen.pick(rng, ["tuple", "list", "array", "iter", "int", "npint"])
    if form in ("int", "npint"):
        want = (hi,) * (d - 1)
    arg = lambda: {"tuple": want, "list": list(want), "array": np.array(want, dtype=int), "iter": iter(want),
                   "int": hi, "npint": np.int64(hi)}[form]
    sform = gen.pick(rng, ["int", "np64", "np32"])
    shape = shp if sform == "int" else tuple((np.int64 if sform == "np64" else np.int32)(s) for s in shp)
    mon.note(shape=shp[:12], modes=d, rank=want[:12], form=form, shape_form=sform)
    mon.sig(shp, want, form, sform)
    keep = arg()
    with gen.Pure(mon, "process_tt_rank", keep if form != "iter" else None):
        got = process_tt_rank(keep, shape, trim=False)
    mon.check(isinstance(got, tuple) and tuple(int(r) for r in got) == want, lambda: "rank %s became %s" % (want, got))
    feas = oracle.feasible(shp, want)
    got = process_tt_rank(arg(), shape, trim=True)
    mon.check(isinstance(got, tuple), "no tuple")
    got = tuple(int(r) for r in got)
    mon.check(got == feas, lambda: "trimmed rank %s of shape %s, expected %s" % (got[:20], shp[:20], feas[:20]))
    mon.check(tuple(int(r) for r in trim_ranks(shape, want)) == feas, "trim_ranks")
    mon.check(tuple(int(r) for r in trim_ranks(shape, feas)) == feas, "trimming is not idempotent")
    mon.check(tuple(int(r) for r in trim_ranks(shape[::-1], want[::-1])) == feas[::-1], "trimming depends on the direction")
    mon.count("trimmed")
    for bad in (want + (1,), want[:-1] if d > 1 else (1, 1)):
        for trim in (True, False):
            mon.raises(ValueError, lambda: process_tt_rank(bad, shape, trim=trim), "rank with %d entries for %d modes" % (len(bad), d))


@family("C25", "lossless_and_minimal", 250, 4000, need={"generic": 0.8})
def lossless(mon, rng):
    """Generic tensors of rank r have exactly the trimmed rank."""
    from tt_sketch.utils import trim_ranks

    shp = gen.shape(rng, 2, 5, 5, 400)
    rk = tuple(int(rng.integers(1, 9)) for _ in shp[1:])
    X = oracle.tt_dense(gen.tt_cores(rng, shp, rk, lay=False))
    true, clear = oracle.tt_ranks(X, 1e-9)
    if not clear:
        mon.skip("spectrum without gap")
    got = tuple(int(r) for r in trim_ranks(shp, rk))
    mon.note(shape=shp, rank=rk, trimmed=got)
    mon.sig(shp, rk)
    mon.check(got == true, "trimmed rank %s, generic tensors have rank %s" % (got, true))
    mon.count("generic")


@family("C25", "ranks_of_sketches", 500, 8000, need={"sketched": 0.9})
def ranks_of_sketches(mon, rng):
    """Requested ranks are what one gets, reduced where that loses nothing."""
    from tt_sketch import sketch
    from tt_sketch.tt_svd import tt_svd

    shp = gen.shape(rng, 2, 5, 5, 300)
    d = len(shp)
    kind = gen.pick(rng, gen.KINDS)
    case = gen.tensor(rng, kind, shp)
    name = gen.pick(rng, gen.SUPPORT[kind])
    D = gen.drm_types()[name]
    ints = rng.random() < 0.3
    hi = int(gen.pick(rng, [3, 6, 15]))
    method = gen.pick(rng, ["stream", "orth", "hmt"])
    mon.note(shape=shp, format=kind, drm=name, method=method)
    form = gen.pick(rng, [tuple, list])
    if method == "hmt":
        r = int(rng.integers(1, hi + 1)) if ints else tuple(int(rng.integers(1, hi + 1)) for _ in range(d - 1))
        t = sketch.hmt_sketch(case.obj, r if ints else form(r), seed=3, drm_type=D)
        want = oracle.feasible(shp, (r,) * (d - 1) if ints else r)
        exact = t.rank
        mon.sig(shp, kind, method, r)
    else:
        l, r, bigger = gen.two_ranks(rng, d, 1, hi, "right" if method == "orth" else None)
        if ints:
            l, r = max(l), max(l) + 2
            if bigger == "left":
                l, r = r, l
        lt = (l,) * (d - 1) if ints else l
        rt = (r,) * (d - 1) if ints else r
        f = sketch.stream_sketch if method == "stream" else sketch.orthogonal_sketch
        s = f(case.obj, l if ints else form(l), r if ints else form(r), seed=3, left_drm_type=D, right_drm_type=D)
        want = oracle.feasible(shp, lt if bigger == "right" else rt)
        mon.sig(shp, kind, method, lt, rt)
        if method == "stream":
            big = s.left_rank if bigger == "left" else s.right_rank
            small = s.right_rank if bigger == "left" else s.left_rank
            mon.check(tuple(small) == want and tuple(big) == (lt if bigger == "left" else rt), (
                "ranks %s, %s of the sketch of shape %s, requested %s, %s" % (s.left_rank, s.right_rank, shp, lt, rt)))
            L, R = (1,) + tuple(s.left_rank), tuple(s.right_rank) + (1,)
            for mu, P in enumerate(s.Psi_cores):
                mon.check(P.shape == (L[mu], shp[mu], R[mu]), "Psi core %d has shape %s" % (mu, P.shape))
            for mu, O in enumerate(s.Omega_mats):
                mon.check(O.shape == (L[mu + 1], R[mu]), "Omega %d has shape %s" % (mu, O.shape))
            t = s.to_tt()
        else:
            t = s
    mon.check(tuple(t.rank) == want, lambda: "rank %s of the result, expected %s" % (t.rank, want))
    rr = (1,) + want + (1,)
    for mu, C in enumerate(t.cores):
        mon.check(C.shape == (rr[mu], shp[mu], rr[mu + 1]), "core %d has shape %s" % (mu, C.shape))
    mon.check(tuple(t.shape) == shp, "shape of the result")
    mon.count("sketched")


# ---------------------------------------------------------------- C26

@family("C26", "rejected", 900, 14000, need={"rejected": 0.9, "accepted": 0.5})
def rejected(mon, rng):
    from tt_sketch import sketch
    from tt_sketch.sketch_dispatch import SketchMethod, general_sketch
    from tt_sketch.tensor import TensorTrain

    shp = gen.shape(rng, 2, 5, 5, 200, ones=0.05)
    d = len(shp)
    kind = gen.pick(rng, gen.KINDS)
    case = gen.tensor(rng, kind, shp)
    name = gen.pick(rng, gen.SUPPORT[kind])
    D = gen.drm_types()[name]
    l, r, bigger = gen.two_ranks(rng, d, 1, 4)
    kw = dict(left_drm_type=D, right_drm_type=D, seed=int(rng.integers(2**31)))
    what = gen.pick(rng, [
        "equal", "mixed", "orth_order", "length", "drm_rank", "drm_order", "drm_shape", "format", "nnz", "direction",
        "norm_goal", "orthog", "increase", "no_left_drm", "update_shape", "hmt_rank", "hmt_length", "rounding", "map_shapes",
    ])
    mon.note(mistake=what, shape=shp, format=kind, drm=name, ranks=[l, r])
    mon.sig(what, shp, kind, name)
    both = {"stream": sketch.stream_sketch, "orth": sketch.orthogonal_sketch}
    which = "stream" if bigger == "left" else gen.pick(rng, list(both))
    f = both[which]

    if what in ("drm_rank", "drm_shape", "hmt_rank", "no_left_drm"):
        # given DRMs are used as they are: nothing reduces their ranks
        l, r = oracle.feasible(shp, l), oracle.feasible(shp, r)
        if bigger == "left":
            l = tuple(x + y for x, y in zip(r, (1,) * d))
        else:
            r = tuple(x + y for x, y in zip(l, (1,) * d))
    any_error = Exception  # rejected loudly, no particular error is promised

    def fine(g):
        g()
        mon.count("accepted")

    with gen.Pure(mon, "a rejected call", case.obj):
        if what == "equal":
            bad = list(l)
            k = int(rng.integers(d - 1))
            bad[k] = r[k]
            fine(lambda: f(case.obj, l, r, **kw))
            mon.raises(ValueError, lambda: f(case.obj, tuple(bad), r, **kw), "%s sketch with an equal rank" % which)
            mon.raises(ValueError, lambda: f(case.obj, 3, 3, **kw), "%s sketch with equal ranks" % which)
        elif what == "mixed":
            if d < 3:
                mon.skip("one rank only")
            a, b = list(l), list(r)
            k = int(rng.integers(d - 1))
            a[k], b[k] = b[k], a[k]
            fine(lambda: f(case.obj, l, r, **kw))
            mon.raises(ValueError, lambda: f(case.obj, tuple(a), tuple(b), **kw), "%s sketch with ranks in mixed order" % which)
        elif what == "orth_order":
            lo, hi = (l, r) if bigger == "right" else (r, l)
            fine(lambda: sketch.orthogonal_sketch(case.obj, lo, hi, **kw))
            mon.raises(ValueError, lambda: sketch.orthogonal_sketch(case.obj, hi, lo, **kw), "orthogonal sketch with the larger rank on the left")
            mon.raises(ValueError, lambda: sketch.orthogonal_sketch(case.obj, 5, 2, **kw), "orthogonal sketch with the larger rank on the left")
        elif what == "length":
            long_l, long_r = l + l[-1:], r + r[-1:]
            mon.raises(ValueError, lambda: f(case.obj, long_l, long_r, **kw), "too many ranks")
            if d > 2:
                mon.raises(ValueError, lambda: f(case.obj, l[:-1], r[:-1], **kw), "too few ranks")
            mon.raises(ValueError, lambda: D(long_l, shp, False, seed=1), "DRM with too many ranks")
            fine(lambda: D(l, shp, False, seed=1))
        elif what == "drm_rank":
            left = D(l, shp, False, seed=1)
            right = D(r, shp, True, seed=2)
            k = int(rng.integers(d - 1))
            more = tuple(x + (i == k) for i, x in enumerate(l if bigger == "left" else r))
            fine(lambda: f(case.obj, l, r, left_drm=left, right_drm=right))
            args = (more, r) if bigger == "left" else (l, more)
            mon.raises(ValueError, lambda: f(case.obj, *args, left_drm=left, right_drm=right), "rank other than that of the given DRM")
            if bigger == "left":
                mon.raises(ValueError, lambda: f(case.obj, *args, left_drm=left, right_drm_type=D), "rank other than that of the given left DRM")
            else:
                mon.raises(ValueError, lambda: f(case.obj, *args, left_drm_type=D, right_drm=right), "rank other than that of the given right DRM")
        elif what == "drm_order":
            # the ranks of the given DRM in another order
            if d < 3:
                mon.skip("one rank only")
            low = oracle.feasible(shp, tuple(int(x) for x in rng.integers(1, 3, size=d - 1)))
            high = tuple(int(x) for x in rng.integers(3, 8, size=d - 1))
            other = high[::-1] if rng.random() < 0.5 else tuple(high[i] for i in rng.permutation(d - 1))
            other_low = low[::-1]
            left, right = (high, low) if bigger == "left" else (low, high)
            L, R = D(left, shp, False, seed=1), D(right, shp, True, seed=2)
            left2, right2 = (other, other_low) if bigger == "left" else (other_low, other)
            fine(lambda: f(case.obj, left, right, left_drm=L, right_drm=R))
            fine(lambda: f(case.obj, left, right, left_drm_type=D, right_drm=R))
            if right2 != right:
                mon.raises(ValueError, lambda: f(case.obj, left, right2, left_drm=L, right_drm=R), "ranks of the given right DRM in another order")
                mon.raises(ValueError, lambda: f(case.obj, left, right2, left_drm_type=D, right_drm=R), "ranks of the given right DRM in another order")
            if left2 != left:
                mon.raises(ValueError, lambda: f(case.obj, left2, right, left_drm=L, right_drm=R), "ranks of the given left DRM in another order")
                if which == "stream":
                    mon.raises(ValueError, lambda: f(case.obj, left2, right, left_drm=L, right_drm_type=D), "ranks of the given left DRM in another order")
            if other != high:
                H = D(high, shp, True, seed=2)
                mon.raises(ValueError, lambda: sketch.hmt_sketch(case.obj, other, drm=H), "ranks of the given DRM in another order")
        elif what == "drm_shape":
            k = int(rng.integers(d))
            other = tuple(s + (i == k) for i, s in enumerate(shp))
            if rng.random() < 0.3 and shp[::-1] != shp:
                other = shp[::-1]
            left, right = D(l, shp, False, seed=1), D(r, shp, True, seed=2)
            lbad, rbad = D(l, other, False, seed=1), D(r, other, True, seed=2)
            fine(lambda: f(case.obj, l, r, left_drm=left, right_drm=right))
            mon.raises(any_error, lambda: f(case.obj, l, r, left_drm=lbad, right_drm=rbad), "DRMs of another shape")
            if which == "stream":
                mon.raises(any_error, lambda: f(case.obj, l, r, left_drm=lbad, right_drm=right), "left DRM of another shape")
            mon.raises(any_error, lambda: f(case.obj, l, r, left_drm=left, right_drm=rbad), "right DRM of another shape")
        elif what == "format":
            bad = [n for n in gen.drm_types() if n not in gen.SUPPORT[kind]]
            if not bad:
                mon.skip("every DRM supports it")
            B = gen.drm_types()[gen.pick(rng, bad)]
            fine(lambda: f(case.obj, l, r, **kw))
            mon.raises(any_error, lambda: f(case.obj, l, r, left_drm_type=B, right_drm_type=B), "format this DRM can't sketch")
            mon.raises(any_error, lambda: f(case.obj, l, r, left_drm_type=D, right_drm_type=B), "format the right DRM can't sketch")
            if which == "stream":
                mon.raises(any_error, lambda: f(case.obj, l, r, left_drm_type=B, right_drm_type=D), "format the left DRM can't sketch")
            mon.raises(any_error, lambda: sketch.hmt_sketch(case.obj, r, drm_type=B), "format this DRM can't sketch")
        elif what == "nnz":
            S = gen.drm_types()["sign"]
            k = int(rng.integers(d - 1))
            bad = tuple(x + (i == k) for i, x in enumerate(l))
            for tr in (False, True):
                fine(lambda: S(l, shp, tr, seed=1, num_non_zero_per_row=l))
                mon.raises(ValueError, lambda: S(l, shp, tr, seed=1, num_non_zero_per_row=bad), "more non-zeros than rows")
                mon.raises(ValueError, lambda: S(l, shp, tr, seed=1, num_non_zero_per_row=max(l) + 1), "more non-zeros than rows")
        elif what == "direction":
            s = sketch.stream_sketch(case.obj, l, r, **kw)
            fine(lambda: s.C_cores(direction=bigger))
            mon.raises(ValueError, lambda: s.C_cores(direction=gen.pick(rng, ["up", "", "lr", "LEFT"])), "unknown direction")
        elif what == "norm_goal":
            fine(lambda: TensorTrain.random(shp, l, norm_goal="norm-preserve"))
            mon.raises(ValueError, lambda: TensorTrain.random(shp, l, norm_goal="norm-2"), "unknown norm goal")
        elif what == "orthog":
            fine(lambda: TensorTrain.random(shp, l, orthog=True))
            mon.raises(ValueError, lambda: TensorTrain.random(shp, l, orthog=True, trim=False), "orthogonal cores without trimming")
        elif what == "increase":
            if name in ("dense_gauss", "sparse_gauss"):
                D2 = gen.drm_types()["tt"]
            else:
                D2 = D
            s = sketch.stream_sketch(case.obj, l, r, left_drm_type=D2, right_drm_type=D2)
            more = lambda t: tuple(x + 1 for x in t)
            mon.raises(ValueError, lambda: s.increase_rank(case.obj, more(s.left_rank), more(s.right_rank)), "increase of a rank that can't be increased")
            if name in ("dense_gauss", "sparse_gauss"):
                s = sketch.stream_sketch(case.obj, l, r, **kw)
                fine(lambda: s.increase_rank(case.obj, more(s.left_rank), more(s.right_rank)))
                before, ranks = gen.snapshot(s), (s.left_rank, s.right_rank)
                mon.raises(ValueError, lambda: s.increase_rank(case.obj, more(s.left_rank) + (9,), more(s.right_rank)), "too many ranks")
                bigger = gen.tensor(rng, kind, tuple(n + (i == d - 1) for i, n in enumerate(shp))) if kind != "sum" else None
                if bigger is not None:
                    try:  # whether or not this is rejected: see C08 for what it gives
                        s.increase_rank(bigger.obj, more(s.left_rank), more(s.right_rank))
                    except Exception:
                        pass
                mon.check(gen.snap_diff(before, gen.snapshot(s)) is None, "a rejected increase changed the sketch")
                mon.check((s.left_rank, s.right_rank) == ranks, "a rejected increase changed the ranks")
        elif what == "no_left_drm":
            right = D(r, shp, True, seed=2)
            for m in (SketchMethod.streaming, SketchMethod.orthogonal):
                mon.raises(ValueError, lambda: general_sketch(case.obj, None, right, method=m), "no left DRM")
        elif what == "update_shape":
            s = sketch.stream_sketch(case.obj, l, r, **kw)
            k = int(rng.integers(d))
            other = tuple(n + (i == k) for i, n in enumerate(shp))
            o = gen.tensor(rng, kind, other)
            fine(lambda: s + case.obj)
            before = gen.snapshot(s)
            mon.raises(ValueError, lambda: s + o.obj, "update with a tensor of another shape")
            mon.check(gen.snap_diff(before, gen.snapshot(s)) is None, "a rejected update changed the sketch")
        elif what == "hmt_rank":
            right = D(r, shp, True, seed=2)
            k = int(rng.integers(d - 1))
            more = tuple(x + (i == k) for i, x in enumerate(r))
            if r == oracle.feasible(shp, r):
                fine(lambda: sketch.hmt_sketch(case.obj, r, drm=right))
            mon.raises(ValueError, lambda: sketch.hmt_sketch(case.obj, more, drm=right), "rank other than that of the given DRM")
        elif what == "hmt_length":
            fine(lambda: sketch.hmt_sketch(case.obj, r, drm_type=D))
            mon.raises(ValueError, lambda: sketch.hmt_sketch(case.obj, r + (2,), drm_type=D), "too many ranks")
            mon.raises(ValueError, lambda: sketch.hmt_sketch(case.obj, r[:-1], drm_type=D), "too few ranks")
        elif what == "map_shapes":
            from tt_sketch.tt_gmres import MPO, TTLinearMapSum

            other = gen.pick(rng, [shp[::-1], tuple(shp[i] for i in rng.permutation(d)), (math.prod(shp[:2]),) + shp[2:],
                                   shp + (1,), (1,) + shp, shp[:-1] + (shp[-1] + 1,)])
            A, B = MPO.random(2, shp, shp), MPO.random(2, other, other)
            fine(lambda: TTLinearMapSum([A, MPO.eye(shp), A]))
            if other != shp:
                mon.raises(ValueError, lambda: TTLinearMapSum([A, MPO.eye(shp), B]), "sum of maps of shapes %s and %s" % (shp, other))
                many = [A, MPO.eye(shp)] * int(rng.integers(1, 4))
                many.insert(int(rng.integers(len(many) + 1)), B)
                mon.raises(ValueError, lambda: TTLinearMapSum(many), "sum of %d maps, one of another shape" % len(many))
                if len(other) == d:
                    C, D = MPO.random(2, shp, other), MPO.random(2, other, shp)
                    mon.raises(ValueError, lambda: TTLinearMapSum([A, C]), "sum of maps to shapes %s and %s" % (shp, other))
                    mon.raises(ValueError, lambda: TTLinearMapSum([A, gen.pick(rng, [C, D]), A]), "sum of maps to and from shapes %s and %s" % (shp, other))
                    mon.raises(ValueError, lambda: TTLinearMapSum([A, D]), "sum of maps from shapes %s and %s" % (shp, other))
        elif what == "rounding":
            t = gen.tensor(rng, "tt", shp).obj
            fine(lambda: t.round(max_rank=l))
            mon.raises(ValueError, lambda: t.round(max_rank=l + (1,)), "rounding with too many ranks")


# ---------------------------------------------------------------- C27

@family("C26", "capabilities", 60, 600, need={"capabilities": 5.0})
def capabilities(mon, rng):
    """What the package says a map can do, it does; anything else it rejects."""
    from tt_sketch import sketch as sk

    caps = sk.get_drm_capabilities()
    types = {t.__name__: t for t in gen.drm_types().values()}
    mon.check(set(caps) >= set(types), lambda: "capabilities of %s only" % sorted(caps))
    shp = gen.shape(rng, 2, 4, 4, 100)
    d = len(shp)
    X = {k: gen.tensor(rng, k, shp, rmax=2) for k in ("dense", "sparse", "tt")}
    name = gen.pick(rng, sorted(types))
    l, r, _ = gen.two_ranks(rng, d, 2, 4)
    left, right = types[name](l, shape=shp, transpose=False, seed=1), types[name](r, shape=shp, transpose=True, seed=2)
    mon.note(drm=name, shape=shp)
    mon.sig(name, shp, l, r)
    acts = {
        "CanSlice": lambda: left.slice((0,) * (d - 1), (1,) * (d - 1)),
        "CanIncreaseRank": lambda: left.increase_rank(tuple(x + 1 for x in l)),
        "CansketchSparse": lambda: sk.stream_sketch(X["sparse"].obj, l, r, left_drm=left, right_drm=right),
        "CansketchDense": lambda: sk.stream_sketch(X["dense"].obj, l, r, left_drm=left, right_drm=right),
        "CansketchTT": lambda: sk.stream_sketch(X["tt"].obj, l, r, left_drm=left, right_drm=right),
    }
    for what, act in acts.items():
        mon.check(what in caps[name], lambda: "capability %s of %s is not listed" % (what, name))
        try:
            act()
            done = True
        except Exception:  # noqa: BLE001
            done = False
        mon.check(bool(caps[name][what]) == done, "%s: %s is listed as %s, but %s" % (
            name, what, caps[name][what], "works" if done else "fails"))
        mon.count("capabilities")


@family("C27", "matricize", 700, 12000, need={"matricized": 0.9})
def matricize(mon, rng):
    from tt_sketch import utils

    shp = gen.shape(rng, 1, 5, 6, 800)
    d = len(shp)
    if rng.random() < 0.04:  # no entries at all
        k = int(rng.integers(d))
        shp = shp[:k] + (0,) + shp[k + 1 :]
    A = gen.layout(rng, gen.arr(rng, shp))
    X = np.array(A)
    mode = int(rng.integers(d))
    mon.note(shape=shp, mode=mode)
    mon.sig("mat", shp, mode)
    with gen.Pure(mon, "matricize", A):
        M = utils.matricize(A, mode)
    want = np.moveaxis(X, mode, 0).reshape(shp[mode], math.prod(shp[:mode] + shp[mode + 1 :]))
    mon.equal(M, want, "matricization")
    mon.equal(utils.matricize(A, mode, mat_shape=True), want, "matricization with mat_shape")
    B = gen.layout(rng, M)
    with gen.Pure(mon, "dematricize", B):
        mon.equal(utils.dematricize(B, mode, shp), X, "dematricization")
    k = int(rng.integers(1, 9))  # another number of rows
    P = rng.standard_normal((k, shp[mode]))
    got = utils.dematricize(P @ want, mode, shp)
    mon.close(got, np.moveaxis(np.tensordot(P, X, axes=([1], [mode])), 0, mode), 1e-11 * (1 + oracle.fro(X)) * 10, "product in a mode")
    modes = tuple(int(i) for i in rng.permutation(d)[: int(rng.integers(1, d + 1))])
    arg = gen.pick(rng, [modes, list(modes)])
    rest = [i for i in range(d) if i not in modes]
    full = np.transpose(X, list(modes) + rest)
    left = tuple(shp[i] for i in modes)
    mon.equal(utils.matricize(A, arg), full.reshape(left + (math.prod(shp[i] for i in rest),)), "matricization by several modes")
    mon.equal(utils.matricize(A, arg, mat_shape=True), full.reshape(math.prod(left), math.prod(shp[i] for i in rest)), "matricization by several modes")
    mon.count("matricized")


@family("C27", "pinv", 600, 10000, need={"products": 0.9})
def pinv(mon, rng):
    from tt_sketch import utils

    m, n, k = (int(rng.integers(1, 13)) for _ in range(3))
    if rng.random() < 0.1:
        m, n, k = (gen.around_power_of_two(rng, 8, 128) if rng.random() < 0.4 else x for x in (m, n, k))
        if rng.random() < 0.5:
            k = gen.around_power_of_two(rng, 64, 3000)
    r = min(m, n)
    if rng.random() < 0.35:
        r = int(rng.integers(1, r + 1))
    U = np.linalg.qr(rng.standard_normal((m, m)))[0][:, :r]
    V = np.linalg.qr(rng.standard_normal((n, n)))[0][:, :r]
    s = 10.0 ** rng.uniform(-2, 0, r) * 10.0 ** rng.uniform(-3, 3)
    B = (U * s) @ V.T
    Bp = (V / s) @ U.T
    mon.note(shape=[m, n], rank=r)
    mon.sig("pinv", m, n, k, r)
    A1 = gen.layout(rng, rng.standard_normal((k, n)))
    A2 = gen.layout(rng, rng.standard_normal((m, k)))
    Bl = gen.layout(rng, B)
    with gen.Pure(mon, "product with a pseudo-inverse", A1, A2, Bl):
        x = utils.right_mul_pinv(gen.layout(rng, A2.T), np.ascontiguousarray(B.T))
        y = utils.left_mul_pinv(Bl, A2)
        z = utils.right_mul_pinv(np.array(A1), Bl)
    tol = 1e-11 * (1 + 1 / s.min()) * 30
    mon.close(z, A1 @ Bp, tol, "A pinv(B)")
    mon.close(y, Bp @ A2, tol, "pinv(B) A")
    mon.close(x, A2.T @ Bp.T, tol, "A' pinv(B')")
    mon.count("products")


@family("C27", "projector", 400, 6000, need={"projectors": 0.9})
def projector(mon, rng):
    from tt_sketch import utils

    n = int(rng.integers(1, 15))
    k = int(rng.integers(1, n + 1))
    Xm = rng.standard_normal((n, k))
    mon.note(n=n, k=k)
    mon.sig("proj", n, k)
    X = gen.layout(rng, Xm)
    if np.linalg.cond(Xm) > 1e3:
        mon.skip("ill-conditioned")
    if rng.random() < 0.4:  # columns of different size span the same space
        c = 10.0 ** rng.uniform(-2.5, 2.5, k) * 10.0 ** rng.uniform(-100, 100)
        with gen.Pure(mon, "projector", X):
            P = utils.projector(Xm * c)
        # the Gram matrix is inverted
        err = 1e-13 * np.linalg.cond(Xm * c) ** 2
        if err < 1e-2:
            mon.close(P, (lambda Q: Q @ Q.T)(np.linalg.qr(Xm)[0]), 1e-8 + err, "orthogonal projector, scaled columns")
            mon.count("scaled")
    with gen.Pure(mon, "projector", X):
        P = utils.projector(X)
    Q = np.linalg.qr(Xm)[0]
    mon.close(P, Q @ Q.T, 1e-8, "orthogonal projector")
    Ym = rng.standard_normal((n, k))
    if np.linalg.cond(Ym.T @ Xm) < 1e4:
        Y = gen.layout(rng, Ym)
        P = utils.projector(X, Y)
        s = 1 + oracle.fro(P) ** 2
        mon.close(P @ P, P, 1e-8 * s, "oblique projector is not idempotent")
        mon.close(P @ Xm, Xm, 1e-8 * s * (1 + oracle.fro(Xm)), "range of the oblique projector")
        mon.close(Ym.T @ P, Ym.T, 1e-8 * s * (1 + oracle.fro(Ym)), "kernel of the oblique projector")
        mon.check(np.linalg.matrix_rank(P, tol=1e-6) == k, "rank of the projector")
    mon.count("projectors")


@family("C27", "test_tensors", 300, 4000, need={"tensors": 0.9})
def test_tensors(mon, rng):
    from tt_sketch import utils

    u = rng.random()
    if u < 0.3:
        d, n = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        if rng.random() < 0.1:  # many positions, or many modes
            d, n = gen.pick(rng, [(1, gen.around_power_of_two(rng, 60, 70000)), (2, gen.around_power_of_two(rng, 60, 700)),
                                  (3, gen.around_power_of_two(rng, 15, 70)), (int(rng.integers(6, 15)), 2)])
        mon.note(tensor="hilbert", dims=d, size=n)
        mon.sig("hilbert", d, n)
        H = utils.hilbert_tensor(d, n)
        mon.close(H, 1.0 / (1 + np.sum(np.indices((n,) * d), axis=0)), 1e-14, "Hilbert tensor")
    elif u < 0.6:
        shp = gen.shape(rng, 1, 5, 6, 1000, min_size=2)
        a, b = sorted(rng.uniform(-2, 3, size=2))
        default = rng.random() < 0.4
        mon.note(tensor="sqrt", shape=shp)
        mon.sig("sqrt", shp)
        S = utils.sqrt_tensor(shp) if default else utils.sqrt_tensor(shp, a, b)
        if default:
            a, b = -0.2, 2
        g = np.meshgrid(*[np.linspace(a, b, s) for s in shp], indexing="ij")
        W = np.sqrt(np.abs(sum(g)))
        mon.close(S, W / oracle.fro(W), 1e-13, "square root tensor")
    else:
        shp = gen.shape(rng, 2, 4, 6, 400)
        p = float(rng.uniform(0.5, 4))
        seed = int(rng.integers(2**32))
        mon.note(tensor="power decay", shape=shp, pow=p)
        mon.sig("power", shp)
        A = np.asarray(utils.power_decay_tensor(shp, p, seed))
        mon.check(A.shape == shp, "shape %s instead of %s" % (A.shape, shp))
        mon.check(bool(np.all(np.isfinite(A))), "not finite")
        mon.equal(np.asarray(utils.power_decay_tensor(shp, p, seed)), A, "same seed")
        if max(shp) > 1:  # else there is nothing but a sign
            mon.check(bool(np.any(np.asarray(utils.power_decay_tensor(shp, p, seed + 1)) != A)), "other seed")
        for mode in range(len(shp)):
            s = np.linalg.svd(np.moveaxis(A, mode, 0).reshape(shp[mode], -1), compute_uv=False)
            k = np.arange(1, len(s) + 1)
            ratio = float(np.max(s / s[0] * k**p))
            mon.check(ratio <= (1 + 1e-9 if mode == len(shp) - 1 else 4.0), lambda: (
                "singular values %s of mode %d decay slower than the power %.2f" % (s / s[0], mode, p)))
            mon.emit(ratio)
    mon.count("tensors")


# ---------------------------------------------------------------- C28

def _call_name():
    pass


def random_value(rng, kind):
    if kind == "int":
        return int(rng.integers(0, 5))
    if kind == "float":
        return float(gen.pick(rng, [0.1, 1e-7 / 3, 2.5, float(rng.random()), -1e20 / 7]))
    if kind == "npfloat":
        return np.float64(rng.random())
    if kind == "npint":
        return np.int64(rng.integers(0, 5))
    if kind == "str":
        return gen.pick(rng, ["a", "b c", "x,y", 'q"uote', "line"])
    if kind == "tuple":
        return tuple(int(x) for x in rng.integers(1, 4, size=2))
    if kind == "list":
        return [int(x) for x in rng.integers(1, 4, size=2)]
    if kind == "none":
        return None
    if kind == "type":
        return gen.pick(rng, list(gen.drm_types().values()))
    if kind == "func":
        return gen.pick(rng, [_call_name, oracle.fro, len])
    if kind == "bool":
        return bool(rng.random() < 0.5)
    raise KeyError(kind)


VALUE_KINDS = ("int", "float", "npfloat", "npint", "str", "tuple", "list", "none", "type", "func")


def text(v):
    if isinstance(v, (np.floating, float)):
        return repr(float(v))
    if isinstance(v, (np.integer, int)) and not isinstance(v, bool):
        return repr(float(v))
    return getattr(v, "__name__", None) or str(v)


class Store:
    """The store under test together with what it has to contain."""

    def __init__(self, mon, rng, folder):
        from scripts.experiment_base import Experiment

        self.E = Experiment
        self.mon, self.rng = mon, rng
        self.file = os.path.join(folder, "results.csv")
        self.exp = Experiment(self.file)
        self.done = {}  # key -> error value
        self.calls = []

    def key(self, name, kw):
        return (name,) + tuple(sorted((k, text(v)) for k, v in kw.items()))

    def rows(self, data):
        out = []
        for _, row in data.iterrows():
            out.append(row)
        return out

    def run(self, name, kw, fail=False):
        self.calls = []
        k = self.key(name, kw)
        value = float(self.rng.random())
        if self.rng.random() < 0.3:
            value = gen.pick(self.rng, [v for v in (0.0, 1.0, -1.0, 5e-324, 1.7e308, float("inf"), 0.1 + 0.2, 3) if v not in self.done.values()] or [value])
        given = gen.pick(self.rng, [value, value, np.float64(value)])

        def func(inp, **got):
            self.calls.append(got)
            self.mon.check(inp == "input", "the experiment got another input")
            self.mon.check(set(got) == set(kw) and all(got[a] is kw[a] for a in kw), "the experiment got other arguments")
            if fail:
                raise ArithmeticError("experiment failed")
            return {"error": given, "time_taken": 1.5}

        before = len(self.exp.data)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                self.exp.do_experiment("input", name, func, **kw)
                failed = False
            except ArithmeticError:
                failed = True
        expected = 0 if k in self.done else 1
        self.mon.check(len(self.calls) == expected, lambda: (
            "experiment %s was run %d times although it was %sdone before" % (k, len(self.calls), "" if k in self.done else "not ")))
        self.mon.count("experiments")
        if expected and fail:
            self.mon.check(failed, "a failing experiment went unnoticed")
            self.mon.check(len(self.exp.data) == before, "a failing experiment was recorded")
            self.mon.count("failed")
        elif expected:
            self.done[k] = value
        else:
            self.mon.count("skipped")

    def check(self, data, what):
        """Every experiment done is there, exactly once, with its result."""
        self.mon.check(len(data) == len(self.done), lambda: "%s: %d rows for %d experiments" % (what, len(data), len(self.done)))
        errs = sorted(float(x) for x in data["error"]) if len(data) else []
        self.mon.check(errs == sorted(self.done.values()), "%s: other results than those of the experiments" % what)
        self.mon.check(sorted(str(x) for x in data["name"]) == sorted(k[0] for k in self.done), "%s: other names" % what)
        by_err = {v: k for k, v in self.done.items()}
        for _, row in data.iterrows():
            k = by_err[float(row["error"])]
            self.mon.check(str(row["name"]) == k[0], "%s: result of another experiment" % what)
            for arg, t in k[1:]:
                v = row[arg]
                same = text(v) == t or str(v) == t
                if not same:
                    try:
                        same = float(v) == float(t)
                    except ValueError:
                        pass
                self.mon.check(same, lambda: "%s: argument %s is %r, expected %s" % (what, arg, v, t))
        self.mon.count("tables_checked")

    def from_file(self):
        return self.E.load(self.file).data


ARGUMENTS = ("rank", "drm", "tol", "seed", "shape", "left_rank", "right_rank", "trim", "n_runs")
MORE_ARGUMENTS = ARGUMENTS + tuple("option %d" % k if k % 3 else "parameter_%d" % k for k in range(25))


def plan(rng, n):
    """Calls with repetitions."""
    args = ("rank", "drm", "tol") if rng.random() < 0.5 else ARGUMENTS[: int(rng.integers(3, len(ARGUMENTS) + 1))]
    if rng.random() < 0.12:
        args = MORE_ARGUMENTS[: int(rng.integers(10, len(MORE_ARGUMENTS) + 1))]
    args = [args[i] for i in rng.permutation(len(args))]
    kinds = [gen.pick(rng, VALUE_KINDS) for _ in args]
    mixed = rng.random() < 0.4
    # the arguments of an experiment depend on its name only: see ASSUMPTIONS
    names = {m: [rng.random() < 0.85 for _ in kinds] for m in ("exp", "other", "third one")}
    pool = []
    for _ in range(max(2, n // 2)):
        name = gen.pick(rng, list(names))
        kw = {}
        if pool and rng.random() < 0.4:  # differs in one argument only
            name, kw = gen.pick(rng, pool)
            kw = dict(kw)
            if kw:
                i = args.index(gen.pick(rng, list(kw)))
                kw[args[i]] = random_value(rng, gen.pick(rng, VALUE_KINDS) if mixed else kinds[i])
                if rng.random() < 0.5:
                    pool.append((name, {a: kw[a] for a in rng.permutation(list(kw))}))
            pool.append((name, kw))
            continue
        for arg, k, used in zip(args, kinds, names[name]):
            if used:
                kw[arg] = random_value(rng, gen.pick(rng, VALUE_KINDS) if mixed else k)
        pool.append((name, kw))
    return [pool[int(rng.integers(len(pool)))] for _ in range(n)], kinds, mixed


@family("C28", "histories", 120, 2000, need={"experiments": 5, "skipped": 0.5, "tables_checked": 1.0}, timeout=120)
def histories(mon, rng):
    folder = tempfile.mkdtemp(prefix="ttmon-exp-")
    try:
        calls, kinds, mixed = plan(rng, int(rng.integers(5, 16)))
        mon.note(arguments=kinds, mixed=mixed, calls=len(calls))
        mon.sig(tuple(kinds), mixed, len(calls))
        st = Store(mon, rng, folder)
        for name, kw in calls:
            u = rng.random()
            fail = rng.random() < 0.15
            try:
                st.run(name, kw, fail)
            finally:
                pass
            if u < 0.25:
                if not st.done:
                    continue
                st.check(st.exp.data, "in memory")
                st.check(st.from_file(), "in the file")
            if 0.25 < u < 0.5 and st.done:  # another session
                st.exp = st.E(st.file) if rng.random() < 0.5 else st.E.load(st.file)
                mon.count("sessions")
        if st.done:
            st.check(st.exp.data, "in memory")
            st.check(st.from_file(), "in the file")
            st.exp = st.E(st.file)
            for name, kw in calls:
                if st.key(name, kw) in st.done:
                    st.run(name, kw)
            st.check(st.from_file(), "after everything was repeated")
        left = [f for f in os.listdir(folder) if f != "results.csv"]
        mon.check(not left, "other files left behind: %s" % left)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@family("C28", "long", 16, 250, need={"experiments": 20, "skipped": 10, "tables_checked": 3.0}, timeout=120)
def long_histories(mon, rng):
    """Many experiments of several kinds, one after the other, and all of them once more."""
    folder = tempfile.mkdtemp(prefix="ttmon-exp-")
    try:
        kinds = {}
        for name in ("exp", "other", "third one", "fourth", "5")[: int(rng.integers(1, 6))]:
            args = [ARGUMENTS[i] for i in rng.permutation(len(ARGUMENTS))[: int(rng.integers(1, 5))]]
            kinds[name] = [(a, gen.pick(rng, VALUE_KINDS)) for a in args]
        n = int(gen.pick(rng, [10, 20, 40, 120]) * rng.uniform(1, 1.3))
        blocks = rng.random() < 0.5  # all those of one kind first
        names = [gen.pick(rng, list(kinds)) for _ in range(n)]
        if blocks:
            names.sort(key=list(kinds).index)
        calls = []
        for k, name in enumerate(names):
            kw = {a: random_value(rng, kind) for a, kind in kinds[name]}
            numeric = [a for a, kind in kinds[name] if kind in ("int", "float", "npint", "npfloat")]
            if numeric:  # mostly different ones
                kw[gen.pick(rng, numeric)] = k
            calls.append((name, kw))
        mon.note(arguments=kinds, calls=n)
        mon.sig(tuple(kinds), n, blocks)
        st = Store(mon, rng, folder)
        for i, (name, kw) in enumerate(calls):
            st.run(name, kw)
            if rng.random() < 0.03:
                st.exp = st.E(st.file)
                mon.count("sessions")
        st.check(st.exp.data, "in memory")
        st.check(st.from_file(), "in the file")
        for name, kw in calls:
            st.run(name, kw)
        st.exp = st.E(st.file)
        for i in rng.permutation(n):
            st.run(*calls[i])
        st.check(st.from_file(), "after everything was repeated")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@family("C28", "other_arguments", 10, 60, need={"told_apart": 0.5})
def other_arguments(mon, rng):
    """The same name with fewer arguments is another experiment."""
    folder = tempfile.mkdtemp(prefix="ttmon-exp-")
    try:
        st = Store(mon, rng, folder)
        kw = {a: random_value(rng, "int") for a in ("rank", "size", "tol")}
        less = {a: kw[a] for a in list(kw)[: int(rng.integers(0, 3))]}
        mon.sig(tuple(kw.values()), len(less))
        mon.note(arguments=kw, fewer=less)
        st.run("exp", less)
        st.run("exp", kw)  # more arguments: run
        st.check(st.from_file(), "more arguments")
        mon.count("told_apart")
        st = Store(mon, rng, folder + "/sub")
        os.mkdir(folder + "/sub")
        st.run("exp", kw)
        try:
            st.run("exp", less)
        except Violation as e:
            if st.calls:
                raise
            raise Violation("an experiment is skipped since one with further arguments was done: %s" % e, "fewer-arguments")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@family("C28", "overwrite", 20, 300)
def overwrite(mon, rng):
    """A fresh store, and one that is asked to start anew, are empty."""
    folder = tempfile.mkdtemp(prefix="ttmon-exp-")
    try:
        st = Store(mon, rng, folder)
        mon.check(len(st.exp.data) == 0, "a new store is not empty")
        n = int(rng.integers(1, 4))
        for i in range(n):
            st.run("exp", {"rank": i})
        again = st.E(st.file)
        mon.check(len(again.data) == n, "%d rows after reopening, %d before" % (len(again.data), n))
        new = st.E(st.file, force_overwrite=True)
        mon.check(len(new.data) == 0, "force_overwrite kept %d rows" % len(new.data))
        st.exp, st.done = new, {}
        st.run("exp", {"rank": 0})
        st.check(st.from_file(), "after force_overwrite")
        mon.sig("overwrite", n)
        mon.note(rows=n)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def in_child(f):
    """Runs f in a forked process; exit status."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            f()
        except BaseException:
            os._exit(3)
        os._exit(0)
    _, status = os.waitpid(pid, 0)
    return os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)


@family("C28", "crashes", 60, 1000, need={"crashes": 0.5, "tables_checked": 1.0}, timeout=120)
def crashes(mon, rng):
    """The process dies, or the disk is full, while an experiment is recorded:
    what was recorded before is still there, and is not done again."""
    folder = tempfile.mkdtemp(prefix="ttmon-exp-")
    try:
        calls, kinds, mixed = plan(rng, int(rng.integers(4, 9)))
        st = Store(mon, rng, folder)
        for name, kw in calls:
            st.run(name, kw)
        old = dict(st.done)
        extra = {"rank": 77, "tol": 0.125}
        value = 0.5 + float(rng.random())
        fault = gen.pick(rng, ["line", "line", "line", "size", "in_experiment"])
        mon.note(arguments=kinds, fault=fault, rows=len(old))

        def record():
            exp = st.E(st.file)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                exp.do_experiment("input", "new", lambda inp, **k: {"error": value, "time_taken": 1.0}, **extra)

        if fault == "line":
            total = [0]

            def count(frame, event, arg):
                total[0] += 1
                return count

            keep = folder + "/keep.csv"
            shutil.copy(st.file, keep)

            def dry():
                sys.settrace(count)
                record()
                sys.settrace(None)
                with open(folder + "/lines", "w") as f:
                    f.write(str(total[0]))

            mon.check(in_child(dry) == 0, "recording an experiment failed")
            lines = int(open(folder + "/lines").read())
            shutil.copy(keep, st.file)
            os.remove(keep)
            os.remove(folder + "/lines")
            # mostly in the last part: that is where the file is written
            stop = int(lines * (1 - rng.random() ** 2 * 0.5)) if rng.random() < 0.8 else int(rng.integers(1, lines))
            mon.sig("line", stop // 50)

            def die():
                n = [0]

                def step(frame, event, arg):
                    n[0] += 1
                    if n[0] >= stop:
                        os._exit(9)
                    return step

                sys.settrace(step)
                record()

            code = in_child(die)
        elif fault == "size":
            size = os.path.getsize(st.file)
            lim = int(rng.integers(0, size + 1))
            mon.sig("size", lim // 20)

            def full():
                import signal as sg

                sg.signal(sg.SIGXFSZ, sg.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                record()

            code = in_child(full)
            mon.check(code != 0, "a failing write went unnoticed")
        else:
            def dead():
                st.E(st.file).do_experiment("input", "new", lambda inp, **k: os._exit(9), **extra)

            mon.sig("in_experiment", len(old))
            code = in_child(dead)
            mon.check(code == 9, "crash")
        mon.count("crashes", int(code != 0))
        try:
            data = st.from_file()
        except Exception as e:  # noqa: BLE001
            raise Violation("after a crash while recording (%s) the file can't be read: %s: %s" % (fault, type(e).__name__, e), "crash-lost")
        if len(data) and value in [float(x) for x in data["error"]]:
            st.done[st.key("new", extra)] = value
            mon.count("recorded_in_spite")
        st.check(data, "after a crash while recording (%s)" % fault)
        st.exp = st.E(st.file)
        for name, kw in calls:
            st.run(name, kw)  # monitored: must not be run again
        st.run("new", extra)
        st.check(st.from_file(), "resumed after a crash")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
