"""Recovery of low-rank tensors, and quasi-optimality for all others."""
import math

import numpy as np

from .. import gen, oracle
from ..core import family

RULE = {
    "C01": "Random tensors of known small TT-rank in every format (and sums of formats), streaming-"
    "sketched with ranks at least the TT-ranks, with every pair of DRMs which supports the format, "
    "both oversampling directions, seeds/types/objects; also graded tensors, whose components differ by many orders "
    "of magnitude. A case counts if the tensor is non-zero and "
    "unambiguous in rank; distinct by (format, DRMs, direction, shape, ranks).",
    "C02": "As C01 for the orthogonal and the HMT sketch; the monitors also watch the orthogonality of "
    "the cores and the ranks; also long modes. Distinct by (method, format, DRM, shape, ranks).",
    "C03": "Full-rank tensors with decaying unfoldings; per case the median error over several "
    "independent sketches is compared to the best approximation and to the same method with dense Gaussian maps that "
    "the monitor computes itself; larger ranks and oversampling have to help. Distinct by (method, format, DRM, decay).",
}
ASSUMPTIONS = [
    "double precision rounding: recovery error below 2e-13 times the sum of the condition numbers of the Omega matrices",
    "cases in which these condition numbers leave no digit to compare are skipped, and counted",
]
EPS = 2.2e-16


def _ranks(rng, kk, smaller_extra=3):
    d1 = len(kk)
    lo = tuple(max(1, k) + int(rng.integers(0, smaller_extra)) for k in kk)
    if rng.random() < 0.25:
        lo = (max(lo),) * d1
    hi = tuple(x + int(rng.integers(1, 4)) for x in lo)
    if len(set(lo)) == 1 and rng.random() < 0.5:
        return lo[0], max(hi), lo, (max(hi),) * d1
    return lo, hi, lo, hi


def _low_case(mon, rng, allow_zero=False):
    kind = gen.pick(rng, gen.ALL_KINDS)
    shp = gen.shape(rng, 2, 6, 6, 1500)
    k = int(rng.integers(1, 5))
    t = gen.low_rank(rng, kind, shp, k)
    kk, clear = oracle.tt_ranks(t.X)
    nrm = oracle.fro(t.X)
    if not clear and not allow_zero:
        mon.skip("ambiguous rank")
    return t, shp, kk, nrm


def _drms(t):
    return [n for n in ("dense_gauss", "sparse_gauss", "tt", "sign") if gen.supports(t, n)]


@family("C01", "low_rank", 900, 16000, need={"recovered": 0.6})
def low_rank(mon, rng):
    from tt_sketch.sketch import stream_sketch

    t, shp, kk, nrm = _low_case(mon, rng)
    d = len(shp)
    types = gen.drm_types()
    ln, rn = gen.pick(rng, _drms(t)), gen.pick(rng, _drms(t))
    if rng.random() < 0.5:
        rn = ln
    lo_a, hi_a, lo, hi = _ranks(rng, kk)
    left_bigger = bool(rng.random() < 0.5)
    la, ra = (hi_a, lo_a) if left_bigger else (lo_a, hi_a)
    l, r = (hi, lo) if left_bigger else (lo, hi)
    seed = int(rng.integers(2**31)) if rng.random() < 0.7 else None
    kw = {}
    mode = int(rng.integers(4))
    if mode == 0 and "tt" in _drms(t):
        ln = rn = "tt"  # defaults
    elif mode == 1:
        kw = dict(left_drm=types[ln](l, shape=t.obj.shape, transpose=False, seed=int(rng.integers(2**31))),
                  right_drm=types[rn](r, shape=t.obj.shape, transpose=True, seed=int(rng.integers(2**31))))
    elif mode == 2:
        rn = ln
        kw = dict(left_drm_type=types[ln])
        if rng.random() < 0.5:
            kw = dict(right_drm_type=types[ln])
    else:
        kw = dict(left_drm_type=types[ln], right_drm_type=types[rn])
    mon.note(kind=t.kind, shape=shp, tt_rank=kk, left_rank=la, right_rank=ra, drms=(ln, rn), mode=mode)
    with gen.Pure(mon, "stream_sketch", t.obj):
        st = stream_sketch(t.obj, la, ra, seed=seed, **kw)
    tt = st.to_tt()
    mon.check(tuple(st.shape) == tuple(shp), "shape of the sketch")
    mon.check(tuple(tt.shape) == tuple(shp), "shape of the tensor train")
    # ranks: those of the smaller side, never above what was asked
    small = st.right_rank if left_bigger else st.left_rank
    mon.check(tuple(tt.rank) == tuple(small), lambda: "TT rank %s, smaller side %s" % (tt.rank, small))
    asked = lo
    mon.check(all(a <= b for a, b in zip(tt.rank, asked)), lambda: "TT rank %s exceeds requested %s" % (tt.rank, asked))
    Y = st.to_numpy()
    mon.close(tt.to_numpy(), Y, 1e-10 * (1 + float(np.max(np.abs(Y)))) if np.all(np.isfinite(Y)) else 0, "to_tt().to_numpy() vs to_numpy()")
    mon.check(bool(np.all(np.isfinite(Y))), "non-finite result")
    if nrm == 0:
        mon.close(Y, t.X, 0, "sketch of the zero tensor")
        mon.count("zero_tensors")
        return
    cond, lost = 0.0, 0.0
    own = oracle.unfolding_svals(t.X)
    for mu, Om in enumerate(st.Omega_mats):
        s = np.linalg.svd(Om, compute_uv=False)
        # also when the maps happen to be nearly orthogonal to the tensor
        c = max(s[0], nrm * np.sqrt(Om.size)) / s[kk[mu] - 1] if len(s) >= kk[mu] and s[kk[mu] - 1] > 0 else np.inf
        cond += c
        lost = max(lost, c * own[mu][kk[mu] - 1] / own[mu][0])
    generic = ln != "sign" and rn != "sign"
    if cond > 1e9:
        # Gaussian DRMs are in general position: this has negligible probability
        mon.emit(("ill", generic))
        if generic:
            mon.check(lost <= 1e12, "sketch matrices lost the rank of the tensor (condition %.2g)" % lost)
        mon.count("ill_conditioned")
        return
    err = oracle.fro(Y - t.X) / max(nrm, 1e-300)
    amp = oracle.fro(t.Xabs) / nrm
    mon.check(err <= 1e3 * EPS * cond * max(1.0, amp),
              lambda: "not recovered: relative error %.3g, conditioning %.3g, format %s, DRMs %s" % (err, cond, t.kind, (ln, rn)))
    mon.emit(("ratio", err / (EPS * cond * max(1.0, amp))))
    mon.count("recovered")
    mon.count("recovered_" + t.kind)
    mon.sig(t.kind, ln, rn, left_bigger, shp, l, r)
    e = st.error(t.obj, relative=True)
    mon.check(abs(e - err) <= 1e-7 + 0.01 * err, lambda: "error() says %.3g, actual %.3g" % (e, err))


def _final_ratio(mon, vals):
    rat = [v[1] for v in vals if v[0] == "ratio"]
    ill = [v for v in vals if v[0] == "ill" and v[1]]
    mon.check(len(ill) <= 3 + 0.02 * len(vals), "too many ill-conditioned sketches with Gaussian DRMs: %d of %d" % (len(ill), len(vals)))
    mon.note(largest_error_over_eps_cond=max(rat) if rat else None, recovered=len(rat))


from ..core import FAMILIES  # noqa: E402

FAMILIES[("C01", "low_rank")].final = _final_ratio


@family("C01", "default_drm", 80, 1000)
def default_drm(mon, rng):
    """The defaults sketch every format."""
    from tt_sketch.sketch import stream_sketch

    t, shp, kk, nrm = _low_case(mon, rng)
    lo_a, hi_a, lo, hi = _ranks(rng, kk)
    la, ra = (hi_a, lo_a) if rng.random() < 0.5 else (lo_a, hi_a)
    Y = stream_sketch(t.obj, la, ra).to_numpy()
    mon.note(kind=t.kind, shape=shp, left_rank=la, right_rank=ra)
    if nrm == 0:
        return mon.close(Y, t.X, 0, "sketch of the zero tensor")
    mon.close(Y, t.X, 1e-5 * nrm * max(1, oracle.fro(t.Xabs) / nrm), "recovery with default DRMs")
    mon.sig(t.kind, shp, la, ra)


def _graded(mon, rng, methods):
    """Components far below the largest one are recovered as well: the rounding
    errors of one component do not depend on the size of the others."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

    shp = gen.shape(rng, 2, 5, 6, 800, ones=0)
    kind = gen.pick(rng, gen.KINDS)
    k = int(rng.integers(2, 4))
    sizes = [1.0] + [10.0 ** -rng.uniform(2, 13) for _ in range(k - 1)]
    parts = [gen.low_rank(rng, kind, shp, 1, style="float") for _ in range(k)]
    parts = [(p, s / max(oracle.fro(p.X), 1e-300)) for p, s in zip(parts, sizes)]
    if any(oracle.fro(p.X) == 0 for p, _ in parts):
        mon.skip("zero")
    X = sum(p.X * s for p, s in parts)
    if kind == "dense":
        obj = tm.DenseTensor(X)
    elif kind == "sparse":
        obj = tm.SparseTensor(shp, oracle.all_indices(shp), X.reshape(-1))
    elif rng.random() < 0.4 and kind == "tt":
        obj = parts[0][0].obj * parts[0][1]
        for p, s in parts[1:]:
            obj = obj.add(p.obj * s)
    else:
        obj = tm.TensorSum([p.obj * s for p, s in parts])
    if kind in ("dense", "sparse") and max(oracle.feasible(shp, (99,) * (len(shp) - 1))) < k:
        mon.skip("full rank")
    kk = oracle.feasible(shp, (k,) * (len(shp) - 1))
    names = [n for n in ("dense_gauss", "sparse_gauss", "tt") if n in gen.SUPPORT[kind]]
    name = gen.pick(rng, names)
    lo = tuple(x + int(rng.integers(0, 2)) for x in kk)
    hi = tuple(x + int(rng.integers(3, 6)) for x in lo)
    D = gen.drm_types()[name]
    method = gen.pick(rng, methods)
    l, r = (hi, lo) if method == "left" else (lo, hi)
    errs = []
    for _ in range(9):
        seed = int(rng.integers(2**31))
        if method == "hmt":
            tt = hmt_sketch(obj, lo, seed=seed, drm_type=D)
        elif method == "orthogonal":
            tt = orthogonal_sketch(obj, lo, hi, seed=seed, left_drm_type=D)
        else:
            tt = stream_sketch(obj, l, r, seed=seed, left_drm_type=D).to_tt()
        errs.append(oracle.fro(oracle.tt_dense(tt.cores) - X))
    med = float(np.median(errs))
    mon.note(kind=kind, shape=shp, sizes=sizes, left_rank=l, right_rank=r, drm=name, method=method, median_error=med)
    mon.check(med <= 1000 * EPS, "components of sizes %s: error %.3g (median of 9)" % (sizes, med))
    mon.emit(("ratio", med / EPS, kind, method))
    mon.count("graded")
    mon.sig(kind, name, method, shp, k)


@family("C01", "graded", 160, 2500, need={"graded": 0.9})
def graded(mon, rng):
    _graded(mon, rng, ["left", "right"])


@family("C02", "graded", 160, 2500, need={"graded": 0.9})
def graded_orthogonal(mon, rng):
    _graded(mon, rng, ["hmt", "orthogonal"])


def _final_graded(mon, vals):
    for b in ("left", "right", "hmt", "orthogonal"):
        v = np.array([x[1] for x in vals if x[3] == b])
        if len(v) >= 30:
            mon.note(**{b: [float(np.quantile(v, q)) for q in (0.5, 0.9, 0.99, 1)]})


FAMILIES[("C01", "graded")].final = _final_graded
FAMILIES[("C02", "graded")].final = _final_graded


def _orthonormal(mon, cores, what):
    for mu, C in enumerate(cores[:-1]):
        M = C.reshape(-1, C.shape[2])
        mon.close(M.T @ M, np.eye(M.shape[1]), 1e-10, "%s: core %d is not left-orthonormal" % (what, mu))
        mon.count("orthonormal_cores")


def others(sketch, rng, X):
    """Median error for three other seeds."""
    errs = []
    for _ in range(3):
        errs.append(oracle.fro(oracle.tt_dense(sketch(int(rng.integers(2**31))).cores) - X))
    return sorted(errs)[1]


def _large_case(rng):
    """Ranks beyond ten, and modes of up to hundreds of positions."""
    from tt_sketch import tensor as tm

    d = int(rng.integers(2, 4))
    k = int(rng.integers(10, 50 if d == 2 else 24))
    if d == 2:
        shp = tuple(gen.around_power_of_two(rng, k + 2, 900) for _ in range(2))
    else:
        shp = (int(rng.integers(k, 90)), int(rng.integers(2, 9)), int(rng.integers(k, 90)))
        if rng.random() < 0.3:
            shp = (int(rng.integers(k, 40)), gen.around_power_of_two(rng, 30, 200), int(rng.integers(2, 40)))
    rk = oracle.feasible(shp, (k,) * (d - 1))
    cores = []
    full = (1,) + rk + (1,)
    decay = 10.0 ** -(rng.uniform(2, 8) * np.arange(k) / k) if rng.random() < 0.5 else np.ones(k)
    for i, n in enumerate(shp):  # the first left-orthonormal, the others right-orthonormal
        C = rng.standard_normal((full[i], n, full[i + 1]))
        if i == 0:
            C = np.linalg.qr(C.reshape(n, -1))[0].reshape(C.shape) * decay[: full[1]]
        else:
            C = np.linalg.qr(C.reshape(C.shape[0], -1).T)[0].T.reshape(C.shape)
        cores.append(C)
    X = oracle.tt_dense(cores)
    kind = gen.pick(rng, ["dense", "tt", "tt", "sparse"] if X.size < 60000 else ["dense", "tt", "tt"])
    if kind == "sparse":
        inds = np.stack(np.unravel_index(rng.permutation(X.size), shp))
        obj = tm.SparseTensor(shp, inds, X[tuple(inds)])
    else:
        obj = tm.DenseTensor(X) if kind == "dense" else tm.TensorTrain(cores)
    return gen.Case(obj, X, np.abs(X), kind), shp, rk


@family("C02", "large", 60, 1000, need={"recovered": 0.9})
def large_orthogonal(mon, rng):
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch

    t, shp, rk = _large_case(rng)
    extra = gen.pick(rng, [0, 5, 20])
    rank = tuple(r + extra for r in rk)
    feas = oracle.feasible(shp, rank)
    what = gen.pick(rng, ["hmt", "orthogonal"])
    D = gen.drm_types()[gen.pick(rng, [n for n in ("tt", "dense_gauss") if gen.supports(t, n)])]
    seed = int(rng.integers(2**31))
    mon.note(kind=t.kind, shape=shp, tt_rank=rk, rank=rank, what=what, drm=D.__name__)
    mon.sig(what, t.kind, shp, rk, rank, D.__name__)
    if what == "hmt":
        f = lambda seed: hmt_sketch(t.obj, rank, seed=seed, drm_type=D)
    else:
        f = lambda seed: orthogonal_sketch(t.obj, feas, tuple(r + 10 for r in rank), seed=seed, left_drm_type=D, right_drm_type=D)
    tt = f(seed)
    mon.check(tuple(tt.shape) == shp and all(a <= b for a, b in zip(tt.rank, feas)), lambda: "shape %s, rank %s" % (tt.shape, tt.rank))
    _orthonormal(mon, tt.cores, what)
    n = oracle.fro(t.X)
    err = oracle.fro(oracle.tt_dense(tt.cores) - t.X) / n
    if err > 1e-9:  # an unlucky map; not so with most others
        err = min(err, others(f, rng, t.X) / n)
    mon.check(err <= 1e-9, lambda: "%s sketch: relative error %.3g" % (what, err))
    mon.count("recovered")


@family("C01", "large", 60, 1000, need={"recovered": 0.9})
def large_streaming(mon, rng):
    from tt_sketch.sketch import stream_sketch

    t, shp, rk = _large_case(rng)
    lo = tuple(r + gen.pick(rng, [0, 3, 10]) for r in rk)
    hi = tuple(max(r, 10) * 2 for r in lo)
    left_bigger = bool(rng.random() < 0.5)
    l, r = (hi, lo) if left_bigger else (lo, hi)
    D = gen.drm_types()[gen.pick(rng, [n for n in ("tt", "dense_gauss") if gen.supports(t, n)])]
    mon.note(kind=t.kind, shape=shp, tt_rank=rk, left_rank=l, right_rank=r, drm=D.__name__)
    mon.sig(t.kind, shp, rk, l, r, D.__name__)
    f = lambda seed: stream_sketch(t.obj, l, r, seed=seed, left_drm_type=D, right_drm_type=D).to_tt()
    n = oracle.fro(t.X)
    tt = f(int(rng.integers(2**31)))
    err = oracle.fro(oracle.tt_dense(tt.cores) - t.X) / n
    if err > 1e-8:
        err = min(err, others(f, rng, t.X) / n)
    mon.check(tuple(tt.shape) == shp, "shape")
    mon.check(err <= 1e-8, lambda: "relative error %.3g" % err)
    mon.note(error=err)
    mon.count("recovered")


@family("C02", "hmt", 500, 9000, need={"recovered": 0.6})
def hmt(mon, rng):
    from tt_sketch.sketch import hmt_sketch

    t, shp, kk, nrm = _low_case(mon, rng)
    types = gen.drm_types()
    name = gen.pick(rng, _drms(t))
    lo_a, _, lo, _ = _ranks(rng, kk)
    feas = oracle.feasible(shp, lo)
    mode = int(rng.integers(3))
    kw = dict(seed=int(rng.integers(2**31))) if rng.random() < 0.6 else {}
    if mode == 1 or name != "tt":
        kw["drm_type"] = types[name]
    if mode == 2:
        lo_a = feas
        kw = dict(drm=types[name](feas, shape=t.obj.shape, transpose=True, seed=int(rng.integers(2**31))))
    mon.note(kind=t.kind, shape=shp, tt_rank=kk, rank=lo_a, drm=name, mode=mode)
    with gen.Pure(mon, "hmt_sketch", t.obj):
        tt = hmt_sketch(t.obj, lo_a, **kw)
    mon.check(tuple(tt.shape) == tuple(shp), "shape")
    mon.check(all(a <= b for a, b in zip(tt.rank, feas)), lambda: "rank %s exceeds requested %s (largest useful: %s)" % (tt.rank, lo, feas))
    Y = oracle.tt_dense(tt.cores)
    if nrm == 0:
        mon.close(Y, t.X, 0, "sketch of the zero tensor")
        return
    _orthonormal(mon, tt.cores, "hmt_sketch")
    err = oracle.fro(Y - t.X) / nrm
    amp = oracle.fro(t.Xabs) / nrm
    if name == "sign":
        # may miss part of a tiny space; then it is only a projection
        mon.check(err <= 1 + 1e-10, "hmt result is no projection: error %.3g" % err)
        if err > 1e-9 * amp:
            mon.count("sign_missed")
            return
    if err > 1e-9 * amp:
        # unlucky random numbers, or not?
        err = others(lambda seed: hmt_sketch(t.obj, lo_a, seed=seed, drm_type=types[name]), rng, t.X) / nrm
        mon.count("repeated")
    mon.check(err <= 1e-9 * amp, lambda: "not recovered: relative error %.3g, format %s, DRM %s" % (err, t.kind, name))
    mon.close(tt.to_numpy(), Y, 1e-12 * nrm * amp, "to_numpy")
    mon.count("recovered")
    mon.count("recovered_" + t.kind)
    mon.sig("hmt", t.kind, name, shp, lo_a)


@family("C02", "orthogonal", 500, 9000, need={"recovered": 0.5})
def orthogonal(mon, rng):
    from tt_sketch.sketch import orthogonal_sketch

    t, shp, kk, nrm = _low_case(mon, rng)
    types = gen.drm_types()
    ln, rn = gen.pick(rng, _drms(t)), gen.pick(rng, _drms(t))
    lo_a, hi_a, lo, hi = _ranks(rng, kk)
    feas = oracle.feasible(shp, lo)
    mode = int(rng.integers(3))
    kw = dict(seed=int(rng.integers(2**31))) if rng.random() < 0.6 else {}
    if mode == 0 and "tt" in _drms(t):
        ln = rn = "tt"
    elif mode == 1:
        lo_a = feas
        hi_a = hi
        kw = dict(left_drm=types[ln](feas, shape=t.obj.shape, transpose=False, seed=int(rng.integers(2**31))),
                  right_drm=types[rn](hi, shape=t.obj.shape, transpose=True, seed=int(rng.integers(2**31))))
    else:
        kw.update(left_drm_type=types[ln], right_drm_type=types[rn])
    mon.note(kind=t.kind, shape=shp, tt_rank=kk, left_rank=lo_a, right_rank=hi_a, drms=(ln, rn), mode=mode)
    with gen.Pure(mon, "orthogonal_sketch", t.obj):
        tt = orthogonal_sketch(t.obj, lo_a, hi_a, **kw)
    mon.check(tuple(tt.shape) == tuple(shp), "shape")
    mon.check(all(a <= b for a, b in zip(tt.rank, feas)), lambda: "rank %s exceeds the left rank %s (largest useful: %s)" % (tt.rank, lo, feas))
    Y = oracle.tt_dense(tt.cores)
    if nrm == 0:
        mon.close(Y, t.X, 0, "sketch of the zero tensor")
        return
    _orthonormal(mon, tt.cores, "orthogonal_sketch")
    err = oracle.fro(Y - t.X) / nrm
    amp = oracle.fro(t.Xabs) / nrm
    mon.check(err <= 1 + 1e-10, "result is no projection: error %.3g" % err)
    if err > 1e-9 * amp and "sign" in (ln, rn):
        mon.count("sign_missed")
        return
    # the pseudo-inverse of Omega may amplify rounding errors
    mon.emit(("err", err / amp))
    if err > 1e-6 * amp:
        err = others(lambda seed: orthogonal_sketch(t.obj, lo_a, hi_a, seed=seed, left_drm_type=types[ln],
                                                    right_drm_type=types[rn]), rng, t.X) / nrm
        mon.count("repeated")
    mon.check(err <= 1e-6 * amp, lambda: "not recovered: relative error %.3g, format %s, DRMs %s" % (err, t.kind, (ln, rn)))
    mon.close(tt.to_numpy(), Y, 1e-12 * nrm * amp, "to_numpy")
    mon.count("recovered")
    mon.count("recovered_" + t.kind)
    mon.sig("orth", t.kind, ln, rn, shp, lo_a, hi_a)


def _final_orth(mon, vals):
    e = np.array([v[1] for v in vals])
    if len(e) >= 50:
        bad = float(np.mean(e > 1e-9))
        mon.check(bad <= 0.02, "%.1f%% of the recoveries are worse than 1e-9" % (100 * bad))
        mon.note(worst=float(e.max()), quantile99=float(np.quantile(e, 0.99)))


FAMILIES[("C02", "orthogonal")].final = _final_orth


@family("C02", "nearly_orthonormal", 100, 1500, need={"orthonormal_cores": 0.9})
def nearly_orthonormal(mon, rng):
    """Tensors whose first sketch has orthonormal columns up to a small error."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

    rest = gen.pick(rng, [(6,), (5,), (2, 3), (3, 3), (2, 2, 2)])
    n = int(np.prod(rest))
    d = 1 + len(rest)
    shp = (n,) + rest
    r = int(rng.integers(1, min(rest) + 1 if d > 2 else n))
    name = gen.pick(rng, ["tt", "dense_gauss"])
    types = gen.drm_types()
    seed = int(rng.integers(2**31))
    drm = types[name]((r,) * (d - 1), shape=shp, transpose=True, seed=seed)
    left = types[name]((r + 2,) * (d - 1), shape=shp, transpose=False, seed=seed + 1)
    # the sketch of the identity is the map itself
    R = stream_sketch(tm.DenseTensor(np.eye(n).reshape(shp)), (r + 2,) * (d - 1), (r,) * (d - 1),
                      left_drm=left, right_drm=drm).Psi_cores[0].reshape(n, r)
    Q = np.linalg.qr(rng.standard_normal((n, r)))[0]
    eps = 10.0 ** -float(rng.uniform(4, 9))
    E = rng.standard_normal((r, r)) * eps
    X = (Q @ (np.eye(r) + E) @ np.linalg.pinv(R)).reshape(shp)
    obj = gen.pick(rng, [tm.DenseTensor(X), _exact_tt(X)])
    method = gen.pick(rng, ["hmt", "hmt", "orthogonal"])
    mon.note(shape=shp, rank=r, drm=name, method=method, perturbation=eps, format=type(obj).__name__)
    if method == "hmt":
        tt = hmt_sketch(obj, (r,) * (d - 1), drm=drm)
    else:
        tt = orthogonal_sketch(obj, (r,) * (d - 1), (r + 2,) * (d - 1), left_drm_type=types[name], seed=seed)
    _orthonormal(mon, tt.cores, method)
    for C in tt.cores[:-1]:  # as exact as for any other tensor
        M = C.reshape(-1, C.shape[2])
        mon.close(M.T @ M, np.eye(M.shape[1]), 1e-12, "left-orthonormal core")
    mon.sig(method, name, shp, r, eps)


def _decay_tensor(rng, shp, p):
    """Full-rank tensor with decaying unfoldings: sum of rank-one terms plus noise."""
    X = np.zeros(shp)
    for k in range(1, 26):
        term = np.array(1.0)
        for n in shp:
            v = rng.standard_normal(n)
            term = np.multiply.outer(term, v / np.linalg.norm(v))
        X += term / k**p
    X += 1e-7 * rng.standard_normal(shp) / np.sqrt(X.size)
    return X / oracle.fro(X)


@family("C03", "quasi_optimal", 60, 700, need={"compared": 0.9}, timeout=300)
def quasi_optimal(mon, rng):
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

    shp = gen.pick(rng, [(9, 8, 10), (6, 7, 5, 6), (12, 14), (5, 4, 5, 4, 5), (8, 11, 7)])
    p = float(rng.uniform(1.0, 4.0))
    X = _decay_tensor(rng, shp, p)
    d = len(shp)
    fmt = gen.pick(rng, ["dense", "sparse", "tt", "sum"])
    if fmt == "dense":
        obj, names = tm.DenseTensor(X), ("dense_gauss", "tt")
    elif fmt == "sparse":
        obj, names = tm.SparseTensor(shp, oracle.all_indices(shp), X.reshape(-1)), ("dense_gauss", "sparse_gauss", "tt", "sign")
    elif fmt == "tt":
        obj, names = _exact_tt(X), ("dense_gauss", "tt")
    else:
        Z = rng.standard_normal(shp)
        obj, names = tm.TensorSum([tm.DenseTensor(X - Z), _exact_tt(Z)]), ("dense_gauss", "tt")
    name = gen.pick(rng, names)
    D = gen.drm_types()[name]
    s = oracle.unfolding_svals(X)
    maxr = [len(v) for v in s]

    def tail(k):
        return float(np.sqrt(sum(np.sum(v[k:] ** 2) for v in s)))

    r = int(rng.integers(5, 9))
    k = r - 4
    method = gen.pick(rng, ["stream_right", "stream_left", "orthogonal", "hmt"])
    errs = []
    for i in range(11):
        seed = int(rng.integers(2**31))
        if method == "hmt":
            tt = hmt_sketch(obj, r, seed=seed, drm_type=D)
        elif method == "orthogonal":
            tt = orthogonal_sketch(obj, r, 2 * r, seed=seed, left_drm_type=D)
        elif method == "stream_right":
            tt = stream_sketch(obj, r, 2 * r, seed=seed, left_drm_type=D).to_tt()
        else:
            tt = stream_sketch(obj, 2 * r, r, seed=seed, left_drm_type=D).to_tt()
        errs.append(oracle.fro(oracle.tt_dense(tt.cores) - X))
    med = float(np.median(errs))
    best_r = max(float(np.sqrt(np.sum(v[r:] ** 2))) for v in s)
    mon.note(method=method, format=fmt, drm=name, shape=shp, rank=r, median_error=med, best_at_rank_minus_4=tail(k))
    mon.check(min(errs) >= best_r * (1 - 1e-6) - 1e-12, "error below the best possible: ranks larger than requested?")
    factor = {"hmt": 2.5, "orthogonal": 2.5}.get(method, 4.5)
    mon.check(med <= factor * tail(k) + 1e-12,
              lambda: "%s/%s/%s: median error %.3g, best approximation of rank %d has %.3g" % (method, fmt, name, med, k, tail(k)))
    mon.emit((method, med / (tail(k) + 1e-300)))
    mon.count("compared")
    mon.count("sketches", 11)
    mon.sig(method, fmt, name, shp, r, round(p, 1))


def _final_qo(mon, vals):
    out = {}
    for m in ("hmt", "orthogonal", "stream_right", "stream_left"):
        v = [x for k, x in vals if k == m]
        if v:
            out[m] = (float(np.median(v)), float(np.max(v)))
    mon.note(median_and_max_ratio=out)
    mon.check(True, "")


FAMILIES[("C03", "quasi_optimal")].final = _final_qo


def _exact_tt(X):
    """TT of a dense array by repeated QR (own code)."""
    from tt_sketch.tensor import TensorTrain

    cores, M, r = [], X, 1
    for n in X.shape[:-1]:
        M = M.reshape(r * n, -1)
        Q, R = np.linalg.qr(M)
        cores.append(Q.reshape(r, n, -1))
        r, M = Q.shape[1], R
    cores.append(M.reshape(r, X.shape[-1], 1))
    return TensorTrain(cores)


def _full_rank_tensor(rng, style, shp):
    g = np.indices(shp).sum(0)
    if style == "kink":
        X = np.sqrt(np.abs(g - rng.uniform(3, 12)))
    elif style == "noise":
        X = rng.standard_normal(shp)
    else:
        return _decay_tensor(rng, shp, float(rng.uniform(1, 3)))
    return X / oracle.fro(X)


@family("C03", "oversampling", 64, 700, need={"sketches": 20}, timeout=300)
def oversampling(mon, rng):
    """The larger of the two ranks keeps the error from having a heavy tail."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import orthogonal_sketch, stream_sketch

    shp = gen.pick(rng, [(9, 8, 10), (6, 7, 5, 6), (12, 14), (10, 10, 10)])
    style = gen.pick(rng, ["kink", "noise", "decay"])
    X = _full_rank_tensor(rng, style, shp)
    s = oracle.unfolding_svals(X)
    r = int(rng.integers(3, 6))
    tail = float(np.sqrt(sum(np.sum(v[r:] ** 2) for v in s)))
    fmt = gen.pick(rng, ["dense", "tt"])
    obj = tm.DenseTensor(X) if fmt == "dense" else _exact_tt(X)
    name = gen.pick(rng, ["tt", "dense_gauss"])
    D = gen.drm_types()[name]
    method = gen.pick(rng, ["orthogonal", "left", "right"])
    much = bool(rng.random() < 0.4)
    big = 12 * r if much else 4 * r + 3
    errs = []
    for _ in range(40):
        seed = int(rng.integers(2**31))
        if method == "orthogonal":
            tt = orthogonal_sketch(obj, r, big, seed=seed, left_drm_type=D)
        else:
            l, rr = (big, r) if method == "left" else (r, big)
            tt = stream_sketch(obj, l, rr, seed=seed, left_drm_type=D).to_tt()
        errs.append(oracle.fro(oracle.tt_dense(tt.cores) - X) / tail)
    mon.note(method=method, format=fmt, drm=name, shape=shp, tensor=style, rank=r, larger_rank=big,
             quantiles=[float(q) for q in np.quantile(errs, [0.5, 0.8, 0.9])])
    mon.check(min(errs) >= 1 / np.sqrt(len(shp)) - 1e-6, "error below the best possible")
    mon.emit((method, float(np.quantile(errs, 0.8))))
    mon.count("sketches", 40)
    mon.sig(method, much, fmt, name, shp, style, r)


def _final_over(mon, vals):
    for m, bound in (("orthogonal", 1.75), ("left", 5.0), ("right", 5.0)):
        v = np.array([q for k, q in vals if k == m])
        if len(v) < 10:
            continue
        mon.note(**{m: (len(v), float(np.median(v)), float(np.max(v)))})
        mon.check(np.median(v) <= bound, "%s: one sketch in five has more than %.3g times the best error (as a rule: "
                  "the median of %d such tensors)" % (m, np.median(v), len(v)))


FAMILIES[("C03", "oversampling")].final = _final_over


def _reference_sketch(rng, X, method, l, r):
    """The sketch with independent Gaussian matrices, written down directly."""
    shp, d = X.shape, X.ndim
    cut = [(math.prod(shp[:m]), math.prod(shp[m:])) for m in range(d + 1)]
    R = [rng.standard_normal((cut[m][1], r)) for m in range(1, d)] + [np.eye(1)]
    L = [np.eye(1)] + [rng.standard_normal((cut[m][0], l)) for m in range(1, d)]
    solve = lambda A, B: np.linalg.lstsq(B.T, A.T, rcond=1e-14)[0].T  # A pinv(B)
    omega = [L[m].T @ X.reshape(cut[m]) @ R[m - 1] for m in range(1, d)]
    cores = []
    Q = np.eye(1)
    for m in range(d):
        left = Q if method in ("orthogonal", "hmt") else L[m]
        Psi = np.einsum("ax,ang,gb->xnb", left, X.reshape(cut[m][0], shp[m], -1), R[m])
        x, n, b = Psi.shape
        if m < d - 1 and method == "hmt":
            Psi = np.linalg.qr(Psi.reshape(x * n, b))[0].reshape(x, n, -1)
            Q = np.einsum("ax,xnb->anb", Q, Psi).reshape(cut[m + 1][0], -1)
        elif m < d - 1 and (method == "orthogonal" or method == "right"):
            Psi = solve(Psi.reshape(x * n, b), omega[m])
            if method == "orthogonal":
                Psi = np.linalg.qr(Psi)[0]
                Q = np.einsum("ax,xnb->anb", Q, Psi.reshape(x, n, -1)).reshape(cut[m + 1][0], -1)
            Psi = Psi.reshape(x, n, -1)
        elif m > 0 and method == "left":
            Psi = np.linalg.lstsq(omega[m - 1], Psi.reshape(x, n * b), rcond=1e-14)[0].reshape(-1, n, b)
        cores.append(Psi)
    return oracle.tt_dense(cores)


@family("C03", "as_good_as_dense_matrices", 60, 900, need={"sketches": 20}, timeout=300)
def as_good_as_dense_matrices(mon, rng):
    """Errors have the same distribution (up to a few percent) as those of
    the same sketch with independent Gaussian matrices."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

    shp = gen.pick(rng, [(9, 8, 10), (6, 7, 5, 6), (12, 14), (10, 10, 10), (5, 4, 5, 4, 5), (40, 3, 6)])
    style = gen.pick(rng, ["kink", "noise", "decay"])
    X = _full_rank_tensor(rng, style, shp)
    u = rng.random()
    r = 1 if u < 0.25 else int(rng.integers(6, 9)) if u < 0.5 else int(rng.integers(2, 6))
    fmt = gen.pick(rng, ["dense", "tt", "sparse", "cp", "tucker", "sum"])
    if fmt == "dense":
        obj = tm.DenseTensor(X)
    elif fmt == "sparse":
        obj = tm.SparseTensor(shp, oracle.all_indices(shp), X.reshape(-1))
    elif fmt == "tt":
        obj = _exact_tt(X)
    elif fmt == "cp":
        inds = oracle.all_indices(shp)
        cores = [np.eye(n)[:, i] for n, i in zip(shp, inds)]
        cores[0] = cores[0] * X.reshape(-1)
        obj = tm.CPTensor(cores)
    elif fmt == "tucker":
        Qs = [np.linalg.qr(rng.standard_normal((n, n)))[0] for n in shp]
        core = X
        for m, Q in enumerate(Qs):
            core = np.moveaxis(np.tensordot(core, Q, (m, 1)), -1, m)
        obj = tm.TuckerTensor([np.ascontiguousarray(Q) for Q in Qs], core)
        X = X if oracle.fro(obj.to_numpy() - X) < 1e-10 else None
    else:
        Z = rng.standard_normal(shp)
        obj = tm.TensorSum([tm.DenseTensor(X - Z), _exact_tt(Z)])
    name = gen.pick(rng, ["tt", "tt"] if fmt in ("cp", "tucker") else ["tt", "dense_gauss"]
                    + (["sparse_gauss", "sparse_gauss"] if fmt == "sparse" else []))
    D = gen.drm_types()[name]
    method = gen.pick(rng, ["orthogonal", "left", "right", "hmt"])
    big = r + 2 + int(rng.integers(0, 3 * r)) if rng.random() < 0.6 else 12 * r
    errs, ref = [], []
    for _ in range(40):
        seed = int(rng.integers(2**31))
        ll, rr = (big, r) if method == "left" else (r, big)
        if method == "hmt":
            tt = hmt_sketch(obj, r, seed=seed, drm_type=D)
            ll = rr = r
        elif method == "orthogonal":
            tt = orthogonal_sketch(obj, r, big, seed=seed, left_drm_type=D)
        else:
            tt = stream_sketch(obj, ll, rr, seed=seed, left_drm_type=D).to_tt()
        errs.append(oracle.fro(oracle.tt_dense(tt.cores) - X))
        ref.append(oracle.fro(_reference_sketch(rng, X, method, ll, rr) - X))
    q = [float(np.quantile(errs, u) / np.quantile(ref, u)) for u in (0.5, 0.8)]
    mon.note(method=method, format=fmt, drm=name, shape=shp, tensor=style, rank=r, larger_rank=big, against_reference=q)
    mon.emit((method, fmt, name, big > 8 * r, q, r))
    mon.count("sketches", 40)
    mon.sig(method, fmt, name, shp, style, r, big)


def _final_as_good(mon, vals):
    groups = [lambda v, m=m: v[0] == m for m in ("orthogonal", "left", "right", "hmt")]
    groups += [lambda v, m=m: v[:1] + v[3:4] == (m, True) for m in ("orthogonal", "left", "right")]
    groups += [lambda v, m=m: v[1] == m for m in ("dense", "tt", "sparse", "cp", "tucker", "sum")]
    groups += [lambda v, m=m: v[2] == m for m in ("tt", "dense_gauss", "sparse_gauss")]
    names = ["orthogonal", "left", "right", "hmt", "orthogonal*", "left*", "right*", "dense", "tt", "sparse", "cp", "tucker", "sum", "drm tt", "drm dense", "drm sparse"]
    bounds = [(20, 1.1, 1.17)] * len(groups)
    # few cases, but for these ranks a shortcut is most likely
    for what, f in (("rank 1", lambda r: r == 1), ("rank > 5", lambda r: r > 5)):
        for m in ("orthogonal", "left", "right", "hmt"):
            groups.append(lambda v, m=m, f=f: v[0] == m and f(v[5]))
            names.append("%s, %s" % (m, what))
            bounds.append((8, 1.2, 1.35))
    for n, g, (least, b1, b2) in zip(names, groups, bounds):
        v = np.array([x[4] for x in vals if g(x)])
        if len(v) < least:
            continue
        m = np.median(v, axis=0)
        mon.note(**{n: (len(v), float(m[0]), float(m[1]))})
        mon.check(m[0] <= b1 and m[1] <= b2, "%s: the errors are %.3g (median) and %.3g (one in five) times those of "
                  "sketches with independent Gaussian matrices (as a rule: the median of %d tensors)" % (n, m[0], m[1], len(v)))
    mon.check(True, "")


FAMILIES[("C03", "as_good_as_dense_matrices")].final = _final_as_good


@family("C03", "larger_rank_better", 16, 200, timeout=300)
def larger_rank_better(mon, rng):
    """More rank gives (statistically) a smaller error."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

    shp = gen.pick(rng, [(9, 8, 10), (6, 7, 5, 6), (8, 11, 7)])
    X = _decay_tensor(rng, shp, float(rng.uniform(2.5, 4.0)))
    obj = gen.pick(rng, [tm.DenseTensor(X), _exact_tt(X)])
    name = gen.pick(rng, ["dense_gauss", "tt"])
    D = gen.drm_types()[name]
    method = gen.pick(rng, ["stream", "orthogonal", "hmt"])
    meds = []
    for r in (2, 5, 11):
        e = []
        for _ in range(9):
            seed = int(rng.integers(2**31))
            if method == "hmt":
                tt = hmt_sketch(obj, r, seed=seed, drm_type=D)
            elif method == "orthogonal":
                tt = orthogonal_sketch(obj, r, 2 * r, seed=seed, left_drm_type=D)
            else:
                tt = stream_sketch(obj, r, 2 * r, seed=seed, left_drm_type=D).to_tt()
            e.append(oracle.fro(oracle.tt_dense(tt.cores) - X))
        meds.append(float(np.median(e)))
    mon.note(method=method, drm=name, shape=shp, medians=meds)
    mon.check(meds[2] < 0.8 * meds[0], "rank 11 is no better than rank 2: %s" % meds)
    mon.sig(method, name, shp, round(meds[0], 3))
