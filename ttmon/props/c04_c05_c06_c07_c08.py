"""The streaming sketch as a linear map of the tensor: its value, updates,
scaling, transposition, blocks, and rank increase."""
import concurrent.futures
import math

import numpy as np

from .. import gen, oracle
from ..core import family

RULE = {
    "C04": "Random tensors in every format (hostile memory layouts, index types, empty and full sparse "
    "tensors, sums) sketched with every supporting pair of left and right DRM; all Psi and Omega are "
    "compared to a dense contraction with the DRM as sampled at every position of the tensor. Distinct "
    "by (format, DRMs, shape, ranks).",
    "C05": "Random histories of updates (add, subtract, scale, negate, divide, raise the rank, transpose, "
    "fork) of a sketch with tensors of random formats, against one sketch of the accumulated dense "
    "tensor; also summation orders, threads, and split sparse tensors. Distinct by history.",
    "C06": "Random sketches scaled, negated, divided, multiplied from the left, transposed, against the "
    "sketch of the scaled/transposed tensor with the (transposed) DRMs. Distinct by (format, DRMs, operation, shape).",
    "C07": "Random partitions of the left and right ranks (also unequal and empty blocks), each block "
    "against the corresponding rows of the full DRM and of the full sketch; slices, transposes and rank increases one after the other. Distinct by (DRM, partition, shape).",
    "C08": "Random (repeated, one-sided) rank increases against a fresh sketch with the larger DRMs. Distinct by (DRM, ranks, shape).",
}
ASSUMPTIONS = ["rounding errors below 1e-11 times a bound of the absolute values of all terms"]
TOL = 1e-11
NAMES = ("dense_gauss", "sparse_gauss", "tt", "sign")


def make_drm(rng, name, shape, rank, transpose, seed=None):
    D = gen.drm_types()[name]
    kw = {}
    if name == "sign" and rng.random() < 0.6:
        kw["num_non_zero_per_row"] = tuple(int(rng.integers(1, r + 1)) for r in rank)
    if seed is None:
        seed = int(rng.integers(2**32 - 1)) if rng.random() < 0.8 else int(rng.integers(3))
    if name == "tt" and rng.random() < 0.25:  # cores of our own
        nat, rk = (tuple(shape)[::-1], tuple(rank)[::-1]) if transpose else (tuple(shape), tuple(rank))
        kw["cores"] = [rng.standard_normal((a, n, b)) / math.sqrt(a) for a, n, b in zip((1, *rk), nat, rk)]
    return D(rank, shape=tuple(shape), transpose=transpose, seed=seed, **kw)


def is_signs(m):
    return all(bool(np.all((x == 0) | (np.abs(x) == 1))) for x in m)


def compare(mon, psis, omegas, X, Xabs, L, R, what, tol=TOL):
    """Psi and Omega of the code against the dense contraction, every entry
    with its own bound for rounding errors."""
    signs = (is_signs(L), is_signs(R))
    wp, wo = oracle.sketch_dense(X, L, R)
    sp, so = oracle.sketch_bounds(Xabs, L, R, signs)
    mon.check(len(psis) == len(wp) and len(omegas) == len(wo), "%s: number of cores" % what)
    for mu in range(len(wo)):
        mon.close(omegas[mu], wo[mu], tol * so[mu] + 1e-290, "%s: Omega %d" % (what, mu))
    for mu in range(len(wp)):
        mon.close(psis[mu], wp[mu], tol * sp[mu] + 1e-290, "%s: Psi %d" % (what, mu))
    mon.count("matrices_compared", len(wo) + len(wp))


def same_sketch(mon, a, b, scale, what, tol=TOL):
    """Two sketches (objects with Psi_cores and Omega_mats)."""
    mon.check(len(a.Psi_cores) == len(b.Psi_cores), what + ": number of cores")
    for kind in ("Psi_cores", "Omega_mats"):
        for mu, (p, q) in enumerate(zip(getattr(a, kind), getattr(b, kind))):
            mon.close(p, q, tol * scale + 1e-300, "%s: %s %d" % (what, kind[:-1], mu))
    mon.count("matrices_compared", 2 * len(a.Psi_cores) - 1)


def depends_on(mon, mats, shape, left, what):
    """A left DRM looks only at the modes 0..mu, a right DRM only at the rest."""
    for mu, m in enumerate(mats):
        m = m.reshape((m.shape[0],) + tuple(shape))
        ref = m
        for ax in range(len(shape)):
            if (ax > mu) == left:
                ref = ref.take([0], axis=ax + 1)
        mon.check(bool(np.all(m == ref)), "%s: matrix %d depends on the modes of the other side" % (what, mu))


def a_tensor(rng, names, shp=None, style=None, kinds=gen.ALL_KINDS, rmax=3):
    shp = shp or gen.shape(rng, 2, 6, 5, 700)
    style = style or gen.pick(rng, ["float", "float", "wild", "int", "counts", "scaled", "graded"])
    for _ in range(50):
        kind = gen.pick(rng, kinds)
        t = gen.tensor(rng, kind, shp, style, rmax) if kind != "sum" else gen.sum_for(rng, shp, gen.pick(rng, names), style)
        ok = [n for n in names if gen.supports(t, n)]
        if ok:
            return t, shp, ok
    t = gen.tensor(rng, "sparse", shp, style)
    return t, shp, [n for n in names if gen.supports(t, n)]


# ---------------------------------------------------------------- C04


@family("C04", "contraction", 1200, 20000, need={"matrices_compared": 2.0})
def contraction(mon, rng):
    from tt_sketch.sketch import stream_sketch

    t, shp, ok = a_tensor(rng, NAMES)
    d = len(shp)
    ln, rn = gen.pick(rng, ok), gen.pick(rng, ok)
    l, r, big = gen.two_ranks(rng, d)
    ldrm = make_drm(rng, ln, t.obj.shape, l, False)
    rdrm = make_drm(rng, rn, t.obj.shape, r, True)
    mon.note(kind=t.kind, shape=shp, left_rank=l, right_rank=r, drms=(ln, rn), info=t.info)
    L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
    for mats, rk, what in ((L, l, "left"), (R, r, "right")):
        mon.check([m.shape for m in mats] == [(x, math.prod(shp)) for x in rk],
                  lambda: "%s DRM: shapes %s for ranks %s" % (what, [m.shape for m in mats], rk))
        mon.check(all(np.all(np.isfinite(m)) for m in mats), "%s DRM: non-finite entries" % what)
    depends_on(mon, L, shp, True, "left " + ln)
    depends_on(mon, R, shp, False, "right " + rn)
    with gen.Pure(mon, "stream_sketch", t.obj, ldrm, rdrm):
        st = stream_sketch(t.obj, l, r, left_drm=ldrm, right_drm=rdrm)
    compare(mon, st.Psi_cores, st.Omega_mats, t.X, t.Xabs, L, R, "%s with %s/%s" % (t.kind, ln, rn))
    mon.check(tuple(st.left_rank) == tuple(l) and tuple(st.right_rank) == tuple(r),
              lambda: "ranks %s %s reported, %s %s given" % (st.left_rank, st.right_rank, l, r))
    mon.count("kind_" + t.kind)
    mon.count("left_" + ln)
    mon.count("right_" + rn)
    mon.sig(t.kind, ln, rn, shp, l, r)


@family("C04", "modified", 200, 3500, need={"sketched_again": 1.5})
def modified(mon, rng):
    """Tensors whose arrays were edited after they were sketched, and buffers
    used again for another tensor: always the sketch of the current value."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import stream_sketch

    t, shp, ok = a_tensor(rng, NAMES)
    ln, rn = gen.pick(rng, ok), gen.pick(rng, ok)
    l, r, big = gen.two_ranks(rng, len(shp))
    ldrm = make_drm(rng, ln, t.obj.shape, l, False)
    rdrm = make_drm(rng, rn, t.obj.shape, r, True)
    L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
    obj, log = t.obj, []
    mon.note(kind=t.kind, shape=shp, left_rank=l, right_rank=r, drms=(ln, rn), edits=log)
    for step in range(int(rng.integers(2, 5))):
        X, Xabs = gen.now(obj)
        u = rng.random()
        if u < 0.3:  # the transpose, with the transposed maps
            with gen.Pure(mon, "stream_sketch", obj, ldrm, rdrm):
                st = stream_sketch(obj.T, r[::-1], l[::-1], left_drm=rdrm.T, right_drm=ldrm.T).T
        else:
            with gen.Pure(mon, "stream_sketch", obj, ldrm, rdrm):
                st = stream_sketch(obj, l, r, left_drm=ldrm, right_drm=rdrm)
        compare(mon, st.Psi_cores, st.Omega_mats, X, Xabs, L, R, "%s with %s/%s after editing %s" % (t.kind, ln, rn, log))
        mon.count("sketched_again", step > 0)
        log.append(gen.mutate(rng, obj))
        if rng.random() < 0.25 and t.kind in ("sparse", "dense", "tt"):
            # another tensor of the same arrays
            obj = (tm.SparseTensor(obj.shape, obj.indices, obj.entries) if t.kind == "sparse" else
                   tm.DenseTensor(obj.data) if t.kind == "dense" else tm.TensorTrain(obj.cores))
            log.append("new object")
    mon.sig(t.kind, ln, rn, shp, l, r, tuple(str(x) for x in log))


@family("C04", "formats_agree", 300, 5000)
def formats_agree(mon, rng):
    """One and the same tensor in all five formats, same DRMs."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import stream_sketch

    shp = gen.shape(rng, 2, 5, 5, 300)
    d = len(shp)
    r0 = int(rng.integers(1, 4))
    cp = gen.tensor(rng, "cp", shp, rank=r0)
    X = cp.X
    tt_cores = []
    for i, C in enumerate(cp.obj.cores):
        a, b = (1 if i == 0 else r0), (1 if i == d - 1 else r0)
        core = np.zeros((a, shp[i], b))
        for k in range(r0):
            core[0 if a == 1 else k, :, 0 if b == 1 else k] += C[:, k]
        tt_cores.append(core)
    core = np.zeros((r0,) * d)
    core[tuple(np.arange(r0) for _ in shp)] = 1.0
    inds = oracle.all_indices(shp).astype(gen.index_type(rng, shp))
    perm = rng.permutation(inds.shape[1])
    objs = {
        "cp": cp.obj,
        "tt": tm.TensorTrain(tt_cores),
        "tucker": tm.TuckerTensor([C.T for C in cp.obj.cores], core),
        "dense": tm.DenseTensor(gen.layout(rng, X)),
        "sparse": tm.SparseTensor(shp, inds[:, perm], X.reshape(-1)[perm]),
    }
    name = gen.pick(rng, ["tt", "dense_gauss"])
    objs = {k: o for k, o in objs.items() if name in gen.SUPPORT[k]}
    # a sum of fractions of all the formats is the tensor as well
    w = rng.dirichlet(np.ones(len(objs)))
    objs["sum"] = tm.TensorSum([o * float(c) for o, c in zip(objs.values(), w)])
    l, r, big = gen.two_ranks(rng, d)
    ldrm = make_drm(rng, name, shp, l, False)
    rdrm = make_drm(rng, name, shp, r, True)
    mon.note(shape=shp, cp_rank=r0, left_rank=l, right_rank=r, drm=name, formats=list(objs))
    L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
    for k, o in objs.items():
        st = stream_sketch(o, l, r, left_drm=ldrm, right_drm=rdrm)
        compare(mon, st.Psi_cores, st.Omega_mats, X, cp.Xabs, L, R, "%s with %s" % (k, name))
        mon.sig(k, name, shp, l, r)


@family("C04", "single_entries", 200, 3000)
def single_entries(mon, rng):
    """Large shapes: a few entries, DRM columns sampled entry by entry have to
    agree with those sampled together, and in any order."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import stream_sketch

    d = int(rng.integers(2, 7))
    name = gen.pick(rng, ["tt", "sparse_gauss", "sign"])
    hi = 10**3 if name == "tt" else 10 ** int(rng.integers(2, 10))
    shp = tuple(int(rng.integers(2, hi)) for _ in range(d))
    while math.prod(shp) >= 2**62:
        shp = tuple(max(2, s // 3) for s in shp)
    Ns = [s if name == "tt" else min(s, 50) for s in shp]
    nnz = int(rng.integers(1, 12))
    inds = np.stack([rng.integers(0, s, size=nnz) for s in shp])
    if rng.random() < 0.5:
        inds[:, 0] = [s - 1 for s in shp]
    inds = np.unique(inds, axis=1)
    nnz = inds.shape[1]
    ent = rng.standard_normal(nnz)
    l = tuple(int(rng.integers(1, 6)) for _ in range(d - 1))
    for transpose in (False, True):
        drm = make_drm(rng, name, shp, l, transpose)
        together = list(drm.sketch_sparse(tm.SparseTensor(shp, inds, ent)))
        perm = rng.permutation(nnz)
        other = list(drm.sketch_sparse(tm.SparseTensor(shp, inds[:, perm], ent[perm])))
        for a, b in zip(together, other):
            mon.close(b, np.asarray(a)[:, perm], 1e-13 * (1 + np.max(np.abs(a))), "%s: columns of permuted entries" % name)
        for k in range(nnz):
            one = list(drm.sketch_sparse(tm.SparseTensor(shp, inds[:, k:k + 1], ent[k:k + 1])))
            for a, b in zip(together, one):
                mon.close(np.asarray(b)[:, 0], np.asarray(a)[:, k], 1e-13 * (1 + np.max(np.abs(a))), "%s: column of a single entry" % name)
    mon.note(shape=shp, nnz=nnz, drm=name, rank=l)
    mon.sig(name, shp, nnz)


@family("C04", "many_entries", 24, 400, need={"matrices_compared": 2.0})
def many_entries(mon, rng):
    """Sparse tensors with thousands of entries, and long modes."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import stream_sketch

    d = int(rng.integers(2, 5))
    shp = [int(rng.integers(2, {2: 90, 3: 9, 4: 5}[d])) for _ in range(d)]
    k = int(rng.integers(d))
    longest = 1100
    if rng.random() < 0.25:  # a very long mode
        shp = [int(rng.integers(1, 4)) for _ in shp]
        longest = 12000
    rest = math.prod(shp) // shp[k]
    shp[k] = gen.around_power_of_two(rng, 16 if longest < 2000 else 1500, max(32, min(longest, 40000 // rest)))
    N = math.prod(shp)
    nnz = N if rng.random() < 0.3 else min(N, gen.around_power_of_two(rng, 512, 16384))
    if rng.random() < 0.08:  # and very many
        shp[k] = 1
        shp[k] = gen.around_power_of_two(rng, 33000, 140000) // math.prod(shp) + 1
        N = math.prod(shp)
        nnz = N if rng.random() < 0.5 else int(rng.integers(33000, N + 1)) if N > 33000 else N
    flat = rng.permutation(N)[:nnz]
    if rng.random() < 0.7:  # the corners are entries
        flat = np.unique(np.concatenate([flat, [0, N - 1, N // 2]]))
        rng.shuffle(flat)
    if rng.random() < 0.2:
        flat = np.sort(flat)
    inds = np.stack(np.unravel_index(flat, shp)).astype(gen.index_type(rng, shp))
    ent = rng.standard_normal(len(flat))
    X = np.zeros(N)
    X[flat] = ent
    X = X.reshape(shp)
    l, r, big = gen.two_ranks(rng, d, 1, 5)
    ln, rn = gen.pick(rng, NAMES), gen.pick(rng, NAMES)
    ldrm, rdrm = make_drm(rng, ln, tuple(shp), l, False), make_drm(rng, rn, tuple(shp), r, True)
    mon.note(shape=shp, nnz=len(flat), left_rank=l, right_rank=r, drms=(ln, rn))
    obj = tm.SparseTensor(tuple(shp), inds, ent)
    L, R = oracle.drm_mats(ldrm, tuple(shp)), oracle.drm_mats(rdrm, tuple(shp))
    st = stream_sketch(obj, l, r, left_drm=ldrm, right_drm=rdrm)
    compare(mon, st.Psi_cores, st.Omega_mats, X, np.abs(X), L, R, "%d entries with %s/%s" % (len(flat), ln, rn))
    mon.sig(ln, rn, tuple(shp), len(flat), l, r)


# ---------------------------------------------------------------- C05


def _start(rng, grow=False):
    shp = gen.shape(rng, 2, 5, 4, 300)
    d = len(shp)
    names = ["dense_gauss", "sparse_gauss"] if grow else NAMES
    name = gen.pick(rng, names)
    other = name if rng.random() < 0.7 else gen.pick(rng, [n for n in names])
    l, r, big = gen.two_ranks(rng, d, 1, 4)
    ldrm, rdrm = make_drm(rng, name, shp, l, False), make_drm(rng, other, shp, r, True)
    kinds = [k for k in gen.KINDS if name in gen.SUPPORT[k] and other in gen.SUPPORT[k]]

    def new():
        if rng.random() < 0.15:
            from tt_sketch import tensor as tm

            parts = gen.again(rng, [gen.tensor(rng, gen.pick(rng, kinds), shp, rmax=2) for _ in range(int(rng.integers(1, 4)))])
            return gen.Case(tm.TensorSum([p.obj for p in parts]), sum(p.X for p in parts), sum(p.Xabs for p in parts), "sum")
        return gen.tensor(rng, gen.pick(rng, kinds), shp, rmax=2)

    return shp, d, (name, other), l, r, ldrm, rdrm, new


@family("C05", "history", 500, 9000, need={"updates": 2.0})
def history(mon, rng):
    from tt_sketch.sketch import stream_sketch

    grow = bool(rng.random() < 0.35)
    shp, d, names, l, r, ldrm, rdrm, new = _start(rng, grow)
    L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
    t = new()
    seen = [t]
    st = stream_sketch(t.obj, l, r, left_drm=ldrm, right_drm=rdrm)
    X, Xabs = t.X, t.Xabs
    log = ["sketch " + t.kind]
    tensors = t.obj
    for _ in range(int(rng.integers(2, 9))):
        op = gen.pick(rng, ["add"] * 4 + ["sub"] * 3 + ["scale", "neg", "div", "rmul", "grow" if grow else "add"])
        if op in ("add", "sub"):
            # now and then one which was added before
            t = new() if rng.random() < 0.7 else gen.pick(rng, seen)
            seen.append(t)
            if not grow and rng.random() < 0.25:
                # edited since it was made (the sums keep hold of it when growing)
                log.append("edit %s" % gen.mutate(rng, t.obj))
            if not grow:
                t = gen.Case(t.obj, *gen.now(t.obj), t.kind)
            with gen.Pure(mon, "update of a sketch", st.Psi_cores, st.Omega_mats, t.obj, ldrm, rdrm):
                st2 = st + t.obj if op == "add" else st - t.obj
            X = X + t.X if op == "add" else X - t.X
            Xabs = Xabs + t.Xabs
            tensors = tensors + t.obj if op == "add" else tensors - t.obj
            log.append(op + " " + t.kind)
            st = st2
            mon.count("updates")
        elif op in ("scale", "rmul", "div"):
            c = float(gen.pick(rng, [2.0, -0.5, 3.7, 0.1, -1e3]))
            st = st * c if op == "scale" else c * st if op == "rmul" else st / (1 / c)
            X, Xabs, tensors = X * c, Xabs * abs(c), tensors * c
            log.append("%s %g" % (op, c))
        elif op == "neg":
            st, X, tensors = -st, -X, -tensors
            log.append("neg")
        elif op == "grow":
            l2 = tuple(x + int(rng.integers(1, 3)) for x in st.left_rank)
            r2 = tuple(x + int(rng.integers(1, 3)) for x in st.right_rank)
            if not (all(a > b for a, b in zip(l2, r2)) or all(a < b for a, b in zip(l2, r2))):
                continue
            st = st.increase_rank(tensors, l2, r2)
            ldrm, rdrm = st.left_drm, st.right_drm
            L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
            log.append("grow to %s %s" % (l2, r2))
            mon.count("rank_increases")
        # the sketch is at all times that of the accumulated tensor
        compare(mon, st.Psi_cores, st.Omega_mats, X, Xabs, L, R, "after " + ", ".join(log), 1e-10)
    mon.note(shape=shp, drms=names, left_rank=l, right_rank=r, history=log)
    mon.sig(tuple(log), names, shp)


@family("C05", "cancellation", 120, 2000)
def cancellation(mon, rng):
    """Adding and removing a tensor again leaves the sketch of the rest."""
    from tt_sketch.sketch import stream_sketch

    shp, d, names, l, r, ldrm, rdrm, new = _start(rng)
    a, b = new(), new()
    kw = dict(left_drm=ldrm, right_drm=rdrm)
    base = stream_sketch(a.obj, l, r, **kw)
    st = (base + b.obj) - b.obj
    L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
    compare(mon, st.Psi_cores, st.Omega_mats, a.X, a.Xabs + 2 * b.Xabs, L, R, "add and remove")
    z = base - a.obj
    compare(mon, z.Psi_cores, z.Omega_mats, 0 * a.X, 2 * a.Xabs, L, R, "remove everything")
    mon.note(shape=shp, drms=names, formats=(a.kind, b.kind))
    mon.sig(a.kind, b.kind, names, shp, l, r)


@family("C05", "any_order", 150, 2500)
def any_order(mon, rng):
    """Parts sketched separately (in threads or in any order) and accumulated."""
    from tt_sketch import tensor as tm
    from tt_sketch.sketch import stream_sketch

    shp, d, names, l, r, ldrm, rdrm, new = _start(rng)
    parts = gen.again(rng, [new() for _ in range(int(rng.integers(2, 7)))])
    X, Xabs = sum(p.X for p in parts), sum(p.Xabs for p in parts)
    L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
    order = rng.permutation(len(parts))
    st = stream_sketch(parts[order[0]].obj, l, r, left_drm=ldrm, right_drm=rdrm)
    for i in order[1:]:
        st = st + parts[i].obj
    compare(mon, st.Psi_cores, st.Omega_mats, X, Xabs, L, R, "parts in order %s" % list(order))
    flat = []
    for p in parts:
        flat.extend(p.obj.tensors if p.kind == "sum" else [p.obj])
    st = stream_sketch(tm.TensorSum(flat), l, r, left_drm=ldrm, right_drm=rdrm)
    compare(mon, st.Psi_cores, st.Omega_mats, X, Xabs, L, R, "sum of %d tensors" % len(flat))

    def work(p):
        return stream_sketch(p.obj, l, r, left_drm=ldrm, right_drm=rdrm)

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        sts = list(ex.map(work, parts))
    acc = sts[0].sketch_
    for s in sts[1:]:
        acc = acc + s.sketch_
    compare(mon, acc.Psi_cores, acc.Omega_mats, X, Xabs, L, R, "parts sketched in threads")
    mon.note(shape=shp, drms=names, formats=[p.kind for p in parts])
    mon.sig(tuple(p.kind for p in parts), names, shp)


@family("C05", "split_sparse", 120, 2000)
def split_sparse(mon, rng):
    from tt_sketch.sketch import stream_sketch

    shp = gen.shape(rng, 2, 5, 5, 500)
    t = gen.tensor(rng, "sparse", shp)
    n = int(rng.integers(1, 2 + max(1, t.info["nnz"])))
    sp = t.obj.split(n)
    mon.check(sp.num_summands == n, "number of parts")
    mon.close(sp.to_numpy(), t.X, 0, "split sparse tensor")
    name = gen.pick(rng, NAMES)
    l, r, big = gen.two_ranks(rng, len(shp))
    ldrm, rdrm = make_drm(rng, name, shp, l, False), make_drm(rng, name, shp, r, True)
    L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
    st = stream_sketch(sp, l, r, left_drm=ldrm, right_drm=rdrm)
    compare(mon, st.Psi_cores, st.Omega_mats, t.X, t.Xabs, L, R, "split in %d parts" % n)
    # rank-one streams: one entry after the other
    mon.note(shape=shp, nnz=t.info["nnz"], parts=n, drm=name)
    mon.sig(name, shp, n, t.info["nnz"])


# ---------------------------------------------------------------- C06


def _cond(sketch):
    c = 1.0
    for Om in sketch.Omega_mats:
        s = np.linalg.svd(Om, compute_uv=False)
        c = max(c, s[0] / s[-1] if s[-1] > 0 else np.inf)
    return c


@family("C06", "linear_and_transpose", 700, 12000, need={"ops": 0.9})
def linear_and_transpose(mon, rng):
    from tt_sketch.sketch import stream_sketch

    t, shp, ok = a_tensor(rng, NAMES)
    d = len(shp)
    ln, rn = gen.pick(rng, ok), gen.pick(rng, ok)
    l, r, big = gen.two_ranks(rng, d)
    ldrm, rdrm = make_drm(rng, ln, shp, l, False), make_drm(rng, rn, shp, r, True)
    L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
    st = stream_sketch(t.obj, l, r, left_drm=ldrm, right_drm=rdrm)
    sp, so = oracle.sketch_scale(t.Xabs, L, R)
    scale = max(sp + so)
    op = gen.pick(rng, ["mul", "rmul", "div", "neg", "T", "T", "TT", "container"])
    c = float(gen.pick(rng, [0.0, 1.0, -1.0, 2.0, -0.25, 1e-6, 1e6, float(rng.standard_normal())]))
    if rng.random() < 0.2:
        c = gen.pick(rng, [2, -3, np.float64(1.5), np.float32(0.5), np.int64(4), np.float64(rng.standard_normal()),
                           np.float64(rng.standard_normal() * 10.0 ** rng.uniform(-12, 12)), 10**6 + 1, np.int32(-7),
                           True, np.array(rng.standard_normal()), np.float64(1e-30) / 3])
    elif rng.random() < 0.4:  # close to a special factor
        c = float(gen.pick(rng, [1.0, -1.0, 0.0, 2.0]) + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -2))
    if op == "div" and c == 0:
        c = 2.0
    mon.note(kind=t.kind, shape=shp, left_rank=l, right_rank=r, drms=(ln, rn), op=op, factor=c)
    with gen.Pure(mon, op + " of a sketch", st.Psi_cores, st.Omega_mats, ldrm, rdrm, t.obj):
        if op == "mul":
            res, f = st * c, float(c)
        elif op == "rmul":
            res, f = c * st, float(c)
        elif op == "div":
            res, f = st / c, 1 / float(c)
        elif op == "neg":
            res, f = -st, -1.0
        elif op == "TT":
            res, f = st.T.T, 1.0
        elif op == "container":
            k = st.sketch_
            res, f = (k * float(c) - k / 2 + (-k)), float(c) - 1.5
        else:
            res, f = st.T, None
    mon.count("ops")
    mon.count("op_" + op)
    mon.sig(op, t.kind, ln, rn, shp, l, r)
    if op == "T":
        mon.check(tuple(res.shape) == tuple(shp[::-1]), "shape of the transposed sketch")
        mon.check(tuple(res.left_rank) == tuple(r[::-1]) and tuple(res.right_rank) == tuple(l[::-1]),
                  lambda: "ranks of the transposed sketch: %s %s" % (res.left_rank, res.right_rank))
        # the transposed DRMs sketch the transposed tensor
        st2 = stream_sketch(t.obj.T, r[::-1], l[::-1], left_drm=rdrm.T, right_drm=ldrm.T)
        same_sketch(mon, res, st2, scale, "transposed sketch vs sketch of the transpose")
        st3 = stream_sketch(t.obj.T, res.left_rank, res.right_rank, left_drm=res.left_drm, right_drm=res.right_drm)
        same_sketch(mon, res, st3, scale, "transposed sketch vs sketch with its own DRMs")
        # and can be updated
        t2 = gen.tensor(rng, t.kind if t.kind != "sum" else "sparse", shp, rmax=2)
        up = res + t2.obj.T
        L2, R2 = oracle.drm_mats(res.left_drm, shp[::-1]), oracle.drm_mats(res.right_drm, shp[::-1])
        compare(mon, up.Psi_cores, up.Omega_mats, oracle.T(t.X + t2.X), oracle.T(t.Xabs + t2.Xabs), L2, R2,
                "updated transposed sketch", 1e-10)
    else:
        compare(mon, res.Psi_cores, res.Omega_mats, f * t.X, (abs(f) + (3 if op == "container" else 0)) * t.Xabs, L, R, op)
        if op != "container":
            mon.check(tuple(res.shape) == tuple(shp), "shape")
            mon.check(tuple(res.left_rank) == tuple(l) and tuple(res.right_rank) == tuple(r), "ranks")
    if op == "container":
        return
    # the assembled tensor follows
    if _cond(st) < 1e4:
        Y = st.to_numpy()
        Z = res.to_numpy()
        W = oracle.T(Y) if op == "T" else f * Y
        sc = float(np.max(np.abs(W))) + scale * 1e-3 * abs(f or 1)
        mon.close(Z, W, 1e-6 * sc + 1e-300, "%s: assembled tensor" % op)
        mon.count("assembled")


@family("C06", "right_is_transposed_left", 200, 3000)
def right_is_transposed_left(mon, rng):
    """A DRM and its transpose, on a tensor and its transpose."""
    name = gen.pick(rng, NAMES)
    shp = gen.shape(rng, 2, 6, 5, 500)
    rk = tuple(int(rng.integers(1, 6)) for _ in range(len(shp) - 1))
    transpose = bool(rng.random() < 0.5)
    drm = make_drm(rng, name, shp, rk, transpose)
    if rng.random() < 0.4:  # part of a map
        a = tuple(int(rng.integers(0, r)) for r in rk)
        b = tuple(int(rng.integers(x + 1, r + 1)) for x, r in zip(a, rk))
        drm = drm.slice(a, b)
        rk = (a, b)
    with gen.Pure(mon, "transpose of a DRM", drm):
        dT = drm.T
    A = oracle.drm_mats(drm, shp)
    B = oracle.drm_mats(dT, shp[::-1])
    inds = oracle.all_indices(shp)
    pos = np.ravel_multi_index(inds[::-1], shp[::-1])
    mon.check(len(A) == len(B), "number of matrices")
    for mu in range(len(A)):
        mon.close(np.asarray(B[len(A) - 1 - mu])[:, pos], A[mu], 1e-13 * (1 + np.max(np.abs(A[mu]))), "%s: DRM.T, matrix %d" % (name, mu))
    for X, Y in zip(oracle.drm_mats(dT.T, shp), A):
        mon.close(X, Y, 0, "DRM.T.T")
    mon.note(drm=name, shape=shp, rank=rk, right=transpose)
    mon.sig(name, shp, rk, transpose)


# ---------------------------------------------------------------- C07


def _partition(rng, rank, m, empty):
    cuts = [(0,) * len(rank)]
    for k in range(1, m):
        prev = cuts[-1]
        nxt = []
        for p, r in zip(prev, rank):
            room = r - (m - k) - p
            lo = 0 if empty else 1
            nxt.append(p + int(rng.integers(lo, max(lo, room) + 1)))
        cuts.append(tuple(min(a, r) for a, r in zip(nxt, rank)))
    cuts.append(tuple(rank))
    return cuts


@family("C07", "slices", 400, 7000, need={"slices": 1.0})
def slices(mon, rng):
    name = gen.pick(rng, NAMES)
    shp = gen.shape(rng, 2, 5, 5, 400)
    d = len(shp)
    rk = tuple(int(rng.integers(2, 9)) for _ in range(d - 1))
    transpose = bool(rng.random() < 0.5)
    drm = make_drm(rng, name, shp, rk, transpose)
    full = oracle.drm_mats(drm, shp)
    cuts = _partition(rng, rk, int(rng.integers(1, 3 if min(rk) < 3 else 4)), bool(rng.random() < 0.3))
    mon.note(drm=name, shape=shp, right=transpose, cuts=cuts)
    for a, b in zip(cuts[:-1], cuts[1:]):
        with gen.Pure(mon, "slice", drm):
            s = drm.slice(a, b)
        part = oracle.drm_mats(s, shp)
        mon.check(len(part) == d - 1, "number of matrices")
        for mu in range(d - 1):
            mon.close(part[mu], full[mu][a[mu]:b[mu]], 1e-13 * (1 + np.max(np.abs(full[mu]))),
                      "%s: slice %s to %s, matrix %d" % (name, a, b, mu))
        nat = tuple(s.rank)[::-1] if transpose else tuple(s.rank)
        mon.check(nat == tuple(y - x for x, y in zip(a, b)), lambda: "rank %s of slice %s to %s" % (nat, a, b))
        mon.count("slices")
    mon.sig(name, shp, transpose, tuple(cuts))


@family("C07", "composed", 250, 4000, need={"steps": 1.0})
def composed(mon, rng):
    """Slices (also with one end left out) of transposed maps, transposes of
    slices, slices of maps whose rank was increased."""
    name = gen.pick(rng, NAMES)
    shp = gen.shape(rng, 2, 5, 5, 300)
    d = len(shp)
    rk = tuple(int(rng.integers(2, 8)) for _ in range(d - 1))
    transpose = bool(rng.random() < 0.5)
    drm = make_drm(rng, name, shp, rk, transpose)
    mats = oracle.drm_mats(drm, shp)
    log = []

    def turn():
        nonlocal drm, mats, shp, rk
        inds = oracle.all_indices(shp[::-1])
        pos = np.ravel_multi_index(inds[::-1], shp)
        with gen.Pure(mon, "transpose of a map", drm):
            drm = drm.T
        mats = [m[:, pos] for m in mats[::-1]]
        shp, rk = tuple(shp[::-1]), tuple(rk[::-1])
        log.append("T")

    for _ in range(int(rng.integers(0, 3))):
        turn()
    if name in ("dense_gauss", "sparse_gauss") and rng.random() < 0.5:
        new = tuple(r + int(rng.integers(0, 4)) for r in rk)
        with gen.Pure(mon, "increase of the rank of a map", drm):
            drm = drm.increase_rank(new)
        bigger = oracle.drm_mats(drm, shp)
        for mu in range(d - 1):
            mon.check(bigger[mu].shape[0] == new[mu], "%s after %s: rank after the increase" % (name, log))
            mon.close(bigger[mu][: rk[mu]], mats[mu], 1e-13, "%s after %s: increased rank, matrix %d" % (name, log, mu))
        mats, rk = bigger, new
        log.append("increase")
        if rng.random() < 0.5:
            turn()
    if rng.random() < 0.8:
        a = tuple(int(rng.integers(0, r)) for r in rk)
        b = tuple(int(rng.integers(x + 1, r + 1)) for x, r in zip(a, rk))
        u = rng.random()
        lo, hi = (None, b) if u < 0.15 else (a, None) if u < 0.3 else (a, b)
        a, b = a if lo else (0,) * (d - 1), b if hi else rk
        with gen.Pure(mon, "slice of a map", drm):
            drm = drm.slice(lo, hi)
        mats = [m[x:y] for m, x, y in zip(mats, a, b)]
        rk = tuple(y - x for x, y in zip(a, b))
        log.append("slice")
    for _ in range(int(rng.integers(0, 3))):
        turn()
    mon.note(drm=name, shape=shp, right=transpose, steps=log)
    mon.sig(name, shp, transpose, tuple(log))
    mon.count("steps", len(log))
    mon.check(tuple(drm.shape) == tuple(shp), "%s after %s: shape" % (name, log))
    nat = tuple(drm.rank)[::-1] if drm.transpose else tuple(drm.rank)
    mon.check(nat == rk, lambda: "%s after %s: rank %s instead of %s" % (name, log, nat, rk))
    got = oracle.drm_mats(drm, shp)
    mon.check(len(got) == d - 1, "number of matrices")
    for mu in range(d - 1):
        mon.close(got[mu], mats[mu], 1e-13 * (1 + float(np.max(np.abs(mats[mu]), initial=0.0))), "%s after %s: matrix %d" % (name, log, mu))


@family("C07", "blocked", 400, 7000, need={"blocked": 0.9})
def blocked(mon, rng):
    from tt_sketch.sketch import blocked_stream_sketch

    t, shp, ok = a_tensor(rng, NAMES, gen.shape(rng, 2, 5, 4, 300))
    d = len(shp)
    ln, rn = gen.pick(rng, ok), gen.pick(rng, ok)
    l = tuple(int(rng.integers(3, 8)) for _ in range(d - 1))
    r = tuple(int(rng.integers(3, 8)) for _ in range(d - 1))
    ldrm, rdrm = make_drm(rng, ln, shp, l, False), make_drm(rng, rn, shp, r, True)
    lc = _partition(rng, l, int(rng.integers(1, 4)), True)
    rc = _partition(rng, r, int(rng.integers(1, 4)), True)
    mon.note(kind=t.kind, shape=shp, drms=(ln, rn), left_cuts=lc, right_cuts=rc)
    with gen.Pure(mon, "blocked_stream_sketch", t.obj, ldrm, rdrm, lc, rc):
        sk = blocked_stream_sketch(t.obj, ldrm, rdrm, lc, rc)
    L, R = oracle.drm_mats(ldrm, shp), oracle.drm_mats(rdrm, shp)
    compare(mon, sk.Psi_cores, sk.Omega_mats, t.X, t.Xabs, L, R, "blocked sketch")
    mon.count("blocked")
    mon.count("blocks", (len(lc) - 1) * (len(rc) - 1))
    mon.sig(t.kind, ln, rn, shp, tuple(lc), tuple(rc))


# ---------------------------------------------------------------- C08


@family("C08", "increase_rank", 400, 7000, need={"increases": 0.9})
def increase_rank(mon, rng):
    from tt_sketch.sketch import stream_sketch

    names = ("dense_gauss", "sparse_gauss")
    t, shp, ok = a_tensor(rng, names, gen.shape(rng, 2, 5, 4, 300), kinds=("dense", "sparse", "tt", "sum"))
    d = len(shp)
    ln, rn = gen.pick(rng, ok), gen.pick(rng, ok)
    l, r, big = gen.two_ranks(rng, d, 1, 4)
    types = gen.drm_types()
    if ln == rn and rng.random() < 0.5:
        st = stream_sketch(t.obj, l, r, seed=int(rng.integers(2**31)), left_drm_type=types[ln])
    else:
        st = stream_sketch(t.obj, l, r, left_drm=make_drm(rng, ln, shp, l, False), right_drm=make_drm(rng, rn, shp, r, True))
    l0, r0 = tuple(st.left_rank), tuple(st.right_rank)
    mon.note(kind=t.kind, shape=shp, left_rank=l0, right_rank=r0, drms=(ln, rn))
    steps = []
    for _ in range(int(rng.integers(1, 4))):
        l2 = tuple(x + int(rng.integers(0, 4)) for x in st.left_rank)
        r2 = tuple(x + int(rng.integers(1, 4)) for x in st.right_rank)
        if rng.random() < 0.25:  # one side only
            if rng.random() < 0.5:
                l2 = tuple(st.left_rank)
            else:
                r2 = tuple(st.right_rank)
            la, ra = l2, r2
        elif rng.random() < 0.3:
            l2 = (max(l2),) * (d - 1)
            r2 = (max(r2),) * (d - 1)
            la, ra = l2[0], r2[0]
        else:
            la, ra = l2, r2
        with gen.Pure(mon, "increase_rank", t.obj, st.Psi_cores, st.Omega_mats, st.left_drm, st.right_drm):
            st2 = st.increase_rank(t.obj, la, ra)
        mon.check(tuple(st2.left_rank) == l2 and tuple(st2.right_rank) == r2,
                  lambda: "ranks %s %s, asked %s %s" % (st2.left_rank, st2.right_rank, l2, r2))
        L, R = oracle.drm_mats(st2.left_drm, shp), oracle.drm_mats(st2.right_drm, shp)
        compare(mon, st2.Psi_cores, st2.Omega_mats, t.X, t.Xabs, L, R, "increased rank")
        # the old sketch is kept as the leading block
        for mu, (a, b) in enumerate(zip(st.Psi_cores, st2.Psi_cores)):
            mon.close(b[: a.shape[0], :, : a.shape[2]], a, 0, "leading block of Psi %d" % mu)
        for mu, (a, b) in enumerate(zip(st.Omega_mats, st2.Omega_mats)):
            mon.close(b[: a.shape[0], : a.shape[1]], a, 0, "leading block of Omega %d" % mu)
        # same as sketching from scratch with the larger DRM and the same seed
        fl = types[ln](l2, shape=shp, transpose=False, seed=st.left_drm.seed)
        fr = types[rn](r2, shape=shp, transpose=True, seed=st.right_drm.seed)
        for A, B in zip(L, oracle.drm_mats(fl, shp)):
            mon.close(A, B, 0, "left DRM after the increase vs a fresh one")
        for A, B in zip(R, oracle.drm_mats(fr, shp)):
            mon.close(A, B, 0, "right DRM after the increase vs a fresh one")
        # and the old DRM is the beginning of the new one
        for A, B in zip(L, oracle.drm_mats(st.left_drm, shp)):
            mon.close(A[: B.shape[0]], B, 0, "increased left DRM does not extend the old one")
        for A, B in zip(R, oracle.drm_mats(st.right_drm, shp)):
            mon.close(A[: B.shape[0]], B, 0, "increased right DRM does not extend the old one")
        steps.append((l2, r2))
        mon.count("increases")
        st = st2
    mon.sig(t.kind, ln, rn, shp, l, r, tuple(steps))
    if all(a > b for a, b in zip(l2, r2)) or all(a < b for a, b in zip(l2, r2)):
        t2 = gen.tensor(rng, "sparse", shp)
        up = st + t2.obj
        compare(mon, up.Psi_cores, up.Omega_mats, t.X + t2.X, t.Xabs + t2.Xabs, L, R, "update after the increase")
