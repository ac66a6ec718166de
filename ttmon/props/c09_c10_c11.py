"""Random numbers: seeds, lazy dimension reduction matrices, distributions."""
import hashlib
import json
import math
import os
import subprocess
import sys

import numpy as np

from .. import gen, oracle
from ..core import VERIF, Skip, family

RULE = {
    "C09": "Random seeded calls (every method, DRM, format and random constructor), repeated after unrelated calls "
    "and after changes of the global generator, and in fresh processes with other hash seeds. Distinct by "
    "(call, shape, seed).",
    "C10": "Random shapes up to 2**63 positions, random and adversarially structured position sets. Distinct by "
    "(DRM, side, shape, number of positions).",
    "C11": "Large samples of every DRM at several modes, ranks, seeds and on both sides; exact structure of sign "
    "vectors, 7-sigma bounds on moments and correlations, KS distance to the normal distribution; positions at which "
    "the random bits of a component are all zeros or all ones.",
}
ASSUMPTIONS = [
    "C09: results are compared up to rounding errors, random matrices exactly.",
    "C11: bounds are set so that a correct generator fails with probability below 1e-6 per run.",
]


# ---------------------------------------------------------------- C09

def flat_arrays(x, depth=0):
    """All numbers in a result, in a fixed order."""
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in flat_arrays(v, depth + 1)]
    if isinstance(x, (int, float, np.generic)):
        return [np.asarray(x)]
    mod = type(x).__module__ or ""
    if mod.startswith("tt_sketch") and depth < 6:
        out = []
        for k in sorted(vars(x)):
            if not k.startswith("_") and k not in ("left_drm", "right_drm"):
                out += flat_arrays(vars(x)[k], depth + 1)
        return out
    return []


def seeded_call(rng, seed, kind=None):
    """A thunk which makes a seeded call; (name, thunk, exact)."""
    from tt_sketch import sketch, tensor as tm

    d = int(rng.integers(2, 5))
    shp = gen.shape(rng, d, d, 5, 300, ones=0.05)
    d = len(shp)
    kind = kind or gen.pick(rng, ["drm", "drm", "stream", "stream", "orth", "hmt", "random", "update", "increase"])
    names = list(gen.drm_types())
    if kind == "drm":
        dn = gen.pick(rng, names)
        rank = tuple(int(rng.integers(1, 7)) for _ in range(d - 1))
        transpose = bool(rng.random() < 0.5)
        D = gen.drm_types()[dn]
        kw = {}
        if dn == "sign" and rng.random() < 0.6:
            kw["num_non_zero_per_row"] = tuple(int(rng.integers(1, r + 1)) for r in rank)
        return ("drm-%s-%s" % (dn, transpose), lambda: oracle.drm_mats(D(rank, shp, transpose, seed=seed, **kw), shp), True, shp)
    if kind == "random":
        cls = gen.pick(rng, ["TensorTrain", "CPTensor", "TuckerTensor", "SparseTensor"])
        C = getattr(tm, cls)
        if cls == "SparseTensor":
            n = int(rng.integers(1, math.prod(shp) + 1))
            return ("random-" + cls, lambda: C.random(shp, n, seed=seed), True, shp)
        rank = int(rng.integers(1, 4)) if cls != "TuckerTensor" else tuple(int(rng.integers(1, n + 1)) for n in shp)
        if cls == "TensorTrain" and rng.random() < 0.6:
            kw = gen.pick(rng, [dict(orthog=True), dict(norm_goal="norm-preserve"), dict(trim=True)])
            return ("random-" + cls, lambda: C.random(shp, rank, seed=seed, **kw), True, shp)
        return ("random-" + cls, lambda: C.random(shp, rank, seed=seed), True, shp)
    drm_names = {"default": None}
    drm_names.update(gen.drm_types())
    choice = gen.pick(rng, list(drm_names))
    if kind == "increase":
        choice = gen.pick(rng, ["dense_gauss", "sparse_gauss"])
    fmts = [k for k in gen.KINDS if (choice == "default" and k != "tucker") or choice in gen.SUPPORT[k]]
    fmt = gen.pick(rng, fmts)
    case = gen.tensor(rng, fmt, shp, nnz=math.prod(shp) // 2 + 1 if fmt == "sparse" else None)
    D = drm_names[choice]
    if kind == "hmt":
        rank = int(rng.integers(1, 5))
        kw = {} if D is None else dict(drm_type=D)
        return ("hmt-%s-%s" % (choice, fmt), lambda: sketch.hmt_sketch(case.obj, rank, seed=seed, **kw).to_numpy(), False, shp)
    l, r, _ = gen.two_ranks(rng, d, 1, 4, "right" if kind == "orth" else None)
    kw = {} if D is None else dict(left_drm_type=D, right_drm_type=D)
    if D is not None and rng.random() < 0.3:
        kw.pop(gen.pick(rng, ["left_drm_type", "right_drm_type"]))
    if kind == "orth":
        return ("orth-%s-%s" % (choice, fmt),
                lambda: sketch.orthogonal_sketch(case.obj, l, r, seed=seed, **kw).to_numpy(), False, shp)

    def stream():
        s = sketch.stream_sketch(case.obj, l, r, seed=seed, **kw)
        if kind == "update":
            s = s + case.obj
        elif kind == "increase":
            s = s.increase_rank(case.obj, tuple(x + 2 for x in s.left_rank), tuple(x + 2 for x in s.right_rank))
        return [list(s.Psi_cores), list(s.Omega_mats)]

    return ("%s-%s-%s" % (kind, choice, fmt), stream, False, shp)


def same(mon, a, b, exact, what):
    a, b = flat_arrays(a), flat_arrays(b)
    mon.check(len(a) == len(b) > 0, "%s: %d and %d arrays" % (what, len(a), len(b)))
    for x, y in zip(a, b):
        mon.check(x.shape == y.shape, "%s: shapes %s and %s" % (what, x.shape, y.shape))
        if exact:
            mon.check(bool(np.array_equal(x, y)), "%s: random numbers differ" % what)
        else:
            mon.close(x, y, 1e-7 * (1e-300 + float(np.max(np.abs(x), initial=0.0))), what)
    mon.count("pairs_compared")


def disturb(rng):
    """Unrelated use of the library and of the global generator."""
    from tt_sketch import tensor as tm

    for _ in range(int(rng.integers(1, 4))):
        u = rng.integers(5)
        if u == 0:
            np.random.seed(int(rng.integers(2**31)))
        elif u == 1:
            np.random.normal(size=int(rng.integers(1, 50)))
        elif u == 2:
            tm.TensorTrain.random((3, 4, 2), 2)
        elif u == 3:
            seeded_call(rng, int(rng.integers(2**31)))[1]()
        else:
            seeded_call(rng, None, "stream")[1]()


def random_seed(rng):
    u = rng.random()
    if u < 0.15:
        return 0
    if u < 0.25:
        return int(rng.integers(1, 5))
    if u < 0.4:
        return int(2**32 - 2 - rng.integers(0, 3))
    if u < 0.5:
        return np.int64(rng.integers(0, 2**31))
    return int(rng.integers(0, 2**32 - 1))


@family("C09", "same_seed", 500, 8000, need={"pairs_compared": 0.9, "global_state_watched": 0.9})
def same_seed(mon, rng):
    seed = random_seed(rng)
    sub = int(rng.integers(2**40))
    name, thunk, exact, shp = seeded_call(np.random.default_rng(sub), seed)
    mon.note(call=name, shape=shp, seed=str(seed))
    mon.sig(name, shp, int(seed))
    g1, g2 = (int(x) for x in rng.choice(2**31, size=2, replace=False))
    np.random.seed(g1)
    a = thunk()
    after1 = np.random.random(4)
    np.random.seed(g2)
    same(mon, a, thunk(), exact, name + " with another state of the global generator")
    after2 = np.random.random(4)
    mon.check(not np.array_equal(after1, after2),
              "%s: a seeded call resets the global random number generator" % name)
    mon.count("global_state_watched")
    disturb(rng)
    if rng.random() < 0.5:
        b = thunk()
    else:  # a fresh tensor and fresh objects
        b = seeded_call(np.random.default_rng(sub), seed)[1]()
    same(mon, a, b, exact, name + " repeated with the same seed")


@family("C09", "other_seed", 250, 4000, need={"seeds_compared": 0.5})
def other_seed(mon, rng):
    seed = int(random_seed(rng))
    delta = int(gen.pick(rng, [1, 1, 2, 7, 1000, 2**16, 2**31 - 5]))
    other = (seed + delta) % (2**32 - 1)
    sub = int(rng.integers(2**40))
    kind = gen.pick(rng, ["drm", "drm", "random", "stream"])
    if kind != "random" and rng.random() < 0.3 and 2 * seed % (2**32 - 1):
        other = -seed  # negative seeds
    name, thunk, exact, shp = seeded_call(np.random.default_rng(sub), seed, kind)
    if "sign" in name:
        mon.skip("results may coincide")
    mon.note(call=name, shape=shp, seeds=[seed, other])
    mon.sig(name, shp, seed)
    a = flat_arrays(thunk())
    b = flat_arrays(seeded_call(np.random.default_rng(sub), other, kind)[1]())
    if "Tucker" in name:
        mon.skip("orthogonal factors of size one coincide")
    for x, y in zip(a, b):
        if x.size > 1 and not np.issubdtype(x.dtype, np.integer):
            mon.check(not np.array_equal(x, y), "%s: the same numbers for seeds %d and %d" % (name, seed, other))
            if np.issubdtype(x.dtype, np.floating):
                common = np.intersect1d(x, y)
                common = common[(common != 0) & (abs(common) != 1)]
                mon.check(len(common) <= 0.01 * x.size, "%s: %d of %d numbers are the same for seeds %d and %d" % (
                    name, len(common), x.size, seed, other))
    mon.count("seeds_compared")


@family("C09", "other_seed_lazy", 200, 3000, need={"columns_compared": 20})
def other_seed_lazy(mon, rng):
    """Lazy maps of close or far seeds have no column in common, also not at
    other positions, in other modes, or on the other side."""
    shp = gen.pick(rng, [(40, 3), (5, 4, 6), (300, 300, 2), (7, 7, 7, 7)])
    d = len(shp)
    name = gen.pick(rng, LAZY)
    k = int(rng.integers(20, 40))
    kw = {"num_non_zero_per_row": k} if name == "sign" else {}
    rank = (2 * k if name == "sign" else 4,) * (d - 1)
    D = gen.drm_types()[name]
    seed = int(random_seed(rng))
    others = {(seed + int(s)) % (2**32 - 1) for s in (1, 2, gen.pick(rng, [3, 5, 40, 1000, 2**16, 2**31 - 5]))}
    if rng.random() < 0.4 and 2 * seed % (2**32 - 1):
        others = {s for s in others if (s + seed) % (2**32 - 1)} | {-seed}
    inds = np.stack(np.unravel_index(np.arange(min(60, int(np.prod(shp)))), shp, order=gen.pick(rng, "CF")))
    mon.note(drm=name, shape=shp, seed=seed, others=sorted(others))
    mon.sig("lazy", name, shp, seed)
    seen = {}
    for s in [seed] + sorted(others):
        for transpose in (False, True):
            for mu, m in enumerate(D(rank, shp, transpose, seed=s, **kw).sketch_sparse(sparse(shp, inds))):
                m = np.array(m)
                cols = {c.tobytes() for c in m.T.astype(float)}
                for other, c in seen.items():
                    # the right map may be the left one of the transposed tensor
                    if other[0] != s:
                        n = len(cols & c)
                        mon.check(n == 0, "%s: seeds %d and %d, matrices %d and %d have %d of %d columns in common" % (
                            name, other[0], s, other[2], mu, n, len(cols)))
                seen[(s, transpose, mu)] = cols
                mon.count("columns_compared", len(cols))


@family("C09", "unseeded", 120, 2000, need={"unseeded_compared": 0.3})
def unseeded(mon, rng):
    sub = int(rng.integers(2**40))
    name, thunk, exact, shp = seeded_call(np.random.default_rng(sub), None)
    if any(k in name for k in ("sign", "hmt", "orth", "Tucker")):
        mon.skip("few entries or exact recovery: results may coincide")
    mon.note(call=name, shape=shp)
    mon.sig(name, shp)
    a = flat_arrays(thunk())
    b = flat_arrays(thunk())
    for x, y in zip(a, b):
        if x.size > 1 and not np.issubdtype(x.dtype, np.integer):
            mon.check(not np.array_equal(x, y), "%s: two calls without seed gave the same random numbers" % name)
    mon.count("unseeded_compared")


def digest_calls(sub_seeds, skip):
    out = []
    for i, s in enumerate(sub_seeds):
        if i % 3 == skip:
            disturb(np.random.default_rng(s + 1))
        name, thunk, exact, shp = seeded_call(np.random.default_rng(s), s % (2**32 - 1))
        arrays = flat_arrays(thunk())
        h = hashlib.sha256()
        for a in arrays:
            h.update(repr(a.shape).encode())
            if exact:
                h.update(np.ascontiguousarray(a).tobytes())
        sums = [] if exact else [[float(np.sum(a)), float(np.sum(np.abs(a))),
                                  float(np.sum(a.reshape(-1) * np.cos(np.arange(a.size))))] for a in arrays]
        out.append({"name": name, "hash": h.hexdigest(), "sums": sums})
    return out


CHILD = """
import sys, json, os, multiprocessing
cores = int(sys.argv[3])
os.cpu_count = lambda: cores
multiprocessing.cpu_count = lambda: cores
os.sched_getaffinity = lambda pid: set(range(cores))
os.process_cpu_count = lambda: cores
sys.path.insert(0, %r)
os.environ["TTMON_REPO"] = %r
from ttmon import boot
boot._scratch = %r
boot.boot(sos=json.loads(%r))
from ttmon.props import c09_c10_c11 as m
import numpy as np
with np.errstate(all="ignore"):
    print("DIGEST" + json.dumps(m.digest_calls(json.loads(sys.argv[1]), int(sys.argv[2]))))
"""


@family("C09", "other_process", 8, 60, need={"pairs_compared": 20}, timeout=300)
def other_process(mon, rng):
    """The same calls in a new process with another hash seed and history, on a
    machine that reports another number of cores."""
    from .. import boot

    subs = [int(rng.integers(2**40)) for _ in range(30)]
    mine = digest_calls(subs, 1)
    sos = {k: sys.modules[k].__file__ for k in list(sys.modules)
           if k.startswith("tt_sketch") and (getattr(sys.modules[k], "__file__", None) or "").endswith(".so")}
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(int(rng.integers(1, 2**31)))
    code = CHILD % (VERIF, boot.REPO, boot.scratch(), json.dumps(sos))
    cores = gen.pick(rng, [1, 2, 3, 4, 6, 16, 64])
    p = subprocess.run([sys.executable, "-s", "-c", code, json.dumps(subs), str(int(rng.integers(3))), str(cores)],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lines = [x for x in p.stdout.splitlines() if x.startswith("DIGEST")]
    mon.check(len(lines) == 1, "the calls failed in a new process: %s" % p.stderr[-1500:])
    theirs = json.loads(lines[0][6:])
    mon.note(cores=cores, hash_seed=env["PYTHONHASHSEED"], calls=[m["name"] for m in mine][:8])
    for m, t in zip(mine, theirs):
        mon.sig(m["name"], m["hash"])
        mon.check(m["hash"] == t["hash"], "%s: other random numbers in a new process" % m["name"])
        for x, y in zip(m["sums"], t["sums"]):
            mon.check(all(abs(u - v) <= 1e-6 * (1e-300 + abs(x[1])) for u, v in zip(x, y)),
                      "%s: another result in a new process" % m["name"])
        mon.count("pairs_compared")
    mon.count("processes")


# ---------------------------------------------------------------- C10

def big_shape(rng):
    """Shapes with up to 2**63 positions."""
    d = int(rng.integers(2, 6))
    style = rng.random()
    if rng.random() < 0.3:  # one large mode, the others small
        shp = [int(rng.integers(1, 5)) for _ in range(d)]
        left = 62 - sum(n.bit_length() for n in shp)
        n = 2 ** int(rng.integers(min(28, left), left + 1))
        shp[int(rng.integers(d))] = n - int(rng.integers(2) * rng.integers(0, n // 4))
        return tuple(shp)
    bits = 62 if style < 0.5 else int(rng.integers(6, 62))
    per = max(1, bits // d)
    shp = []
    for _ in range(d):
        b = int(rng.integers(max(1, per // 2), per + 1))
        n = 2**b
        shp.append(n if rng.random() < 0.3 else int(rng.integers(max(2, n // 2), n + 1)))
    if rng.random() < 0.2:
        shp[int(rng.integers(d))] = 1
    return tuple(shp)


def positions(rng, shp, n):
    """Distinct positions, some of them close or far apart by powers of two."""
    N = math.prod(shp)
    base = int(rng.integers(0, N))
    flat = set()
    for _ in range(n):
        u = rng.random()
        if u < 0.4:
            flat.add(int(rng.integers(0, N)))
        elif u < 0.6:
            flat.add((base + int(rng.integers(0, 50))) % N)
        elif u < 0.9:
            flat.add((base + 2 ** int(rng.integers(0, N.bit_length()))) % N)
        else:
            flat.add(int(gen.pick(rng, [0, 1, N - 1, N // 2])) % N)
    flat = np.array(sorted(flat), dtype=object)
    inds = []
    for s in reversed(shp):
        inds.append((flat % s).astype(np.int64))
        flat = flat // s
    inds = np.stack(inds[::-1])
    # positions which differ in one bit of one index
    k = int(np.argmax(shp)) if rng.random() < 0.7 else int(rng.integers(len(shp)))
    b = inds[:, :1].repeat(max(1, int(shp[k] - 1).bit_length()), axis=1)
    b[k] ^= 2 ** np.arange(b.shape[1], dtype=np.int64)
    b = b[:, b[k] < shp[k]]
    b = b[:, rng.permutation(b.shape[1])[: n // 2]]
    inds = np.unique(np.concatenate([inds, b], axis=1), axis=1)
    return inds[:, rng.permutation(inds.shape[1])]


LAZY = ("sparse_gauss", "sign")


M64 = 2**64 - 1
MULT1, MULT2, ADD1 = 0xBF58476D1CE4E5B9, 0x94D049BB133111EB, 0x4BE98134A5976FD3


def mix(v):
    """The hash of the native module, and its inverse.  Only used to find
    positions whose random bits are extreme; with another hash these are just
    random positions."""
    r = (v + ADD1) & M64
    r ^= r >> 30
    r = r * MULT1 & M64
    r ^= r >> 27
    r = r * MULT2 & M64
    return r ^ (r >> 31)


def unmix(r):
    def unshift(v, s):
        r = v
        for _ in range(64 // s + 1):
            r = v ^ (r >> s)
        return r

    r = unshift(r, 31) * pow(MULT2, -1, 2**64) & M64
    r = unshift(r, 27) * pow(MULT1, -1, 2**64) & M64
    return (unshift(r, 30) - ADD1) & M64


EXTREME_SHAPES = [(2**32, 2**32), (2**16,) * 4, (2**40, 2**24), (2**8,) * 8, (2**60, 16), (4, 2**62), (2**63, 2)]


def extreme_positions(rng, seed, rank, n, lo=0, shp=None):
    """Shape and positions at which the random bits of one component of a lazy
    map (of the mode that belongs to the seed) are extreme."""
    shp = shp or EXTREME_SHAPES[int(rng.integers(len(EXTREME_SHAPES)))]
    cols = []
    for _ in range(n):
        u = rng.random()
        j = lo if u < 0.15 else rank - 1 if u < 0.5 else int(rng.integers(lo, rank))
        bits = [0, 1, 2, 2**51, 2**52 - 1, 2**52 - 1, 2**52 - 2, 2**51 - 1, int(rng.integers(2**52))]
        e = [0, 0, 1, 2**9 - 1, int(rng.integers(2**9))][int(rng.integers(5))]
        sign = int(rng.integers(8))
        target = (sign << 61) | (e << 52) | bits[int(rng.integers(len(bits)))]
        x = (unmix(target) - mix(mix(j) ^ seed)) & M64
        col = []
        for s in shp:
            col.append(x % s)
            x //= s
        cols.append(col)
    return shp, np.array(cols, dtype=np.uint64).reshape(n, len(shp)).T


def lazy_drm(rng, shp, name=None, big=False, rank=None):
    name = name or gen.pick(rng, LAZY)
    d = len(shp)
    top = rank
    if name == "sign":
        rank = tuple(int(rng.integers(48, 80)) if big else int(rng.integers(1, 9)) for _ in range(d - 1))
        nnz = tuple(int(rng.integers(24, 40)) if big else int(rng.integers(1, r + 1)) for r in rank)
        if big and rng.random() < 0.7:  # the same in all modes
            rank, nnz = rank[:1] * (d - 1), nnz[:1] * (d - 1)
        kw = dict(num_non_zero_per_row=nnz)
    else:
        rank = tuple(int(rng.integers(1, 6)) for _ in range(d - 1))
        kw = {}
    if top:  # large ranks
        rank = tuple(int(2 ** rng.uniform(0, math.log2(top))) for _ in range(d - 1))
        if name == "sign":
            kw = dict(num_non_zero_per_row=tuple(int(rng.integers(1, min(r, 20) + 1)) for r in rank))
    transpose = bool(rng.random() < 0.5)
    seed = random_seed(rng)
    D = gen.drm_types()[name]
    return name, (lambda **k: D(rank, shp, transpose, seed=seed, **dict(kw, **k))), rank, transpose, seed


def sparse(shp, inds):
    from tt_sketch.tensor import SparseTensor

    return SparseTensor(tuple(shp), inds, np.ones(len(inds[0])))


@family("C10", "entries", 700, 12000, need={"columns_compared": 2.0})
def entries(mon, rng):
    """Entries do not depend on what else is sketched, how, or when."""
    shp = big_shape(rng)
    d = len(shp)
    name, make, rank, transpose, seed = lazy_drm(rng, shp)
    inds = positions(rng, shp, int(rng.integers(2, 60)))
    n = inds.shape[1]
    mon.note(drm=name, shape=shp, positions=n, right=transpose, seed=str(seed))
    mon.sig(name, shp, n, transpose)
    drm = make()
    mats = [np.array(m) for m in drm.sketch_sparse(sparse(shp, inds))]
    mon.check(len(mats) == d - 1, "number of matrices")
    for mu, m in enumerate(mats):
        mon.check(m.shape == (rank[mu], n), "matrix %d has shape %s" % (mu, m.shape))
        mon.check(bool(np.all(np.isfinite(m))), "entries are not finite")
    for _ in range(3):
        sub = rng.permutation(n)[: int(rng.integers(1, n + 1))]
        part = inds[:, sub].copy()
        # other modes than the sketched ones do not matter
        cut = int(rng.integers(0, d - 1))
        free = range(cut + 1) if transpose else range(cut + 1, d)
        for k in free:
            part[k] = rng.integers(0, shp[k], size=len(sub))
        dt = gen.index_type(rng, shp)
        part = gen.layout(rng, part.astype(dt))
        if rng.random() < 0.3:
            part = tuple(part)
        other = drm if rng.random() < 0.5 else make()
        got = [np.array(m) for m in other.sketch_sparse(sparse(shp, part))]
        mus = range(cut, d - 1) if transpose else range(cut + 1)
        for mu in mus:
            mon.check(bool(np.array_equal(got[mu], mats[mu][:, sub])),
                      "entries of matrix %d depend on the other positions" % mu)
            mon.count("columns_compared", len(sub))
    # twice the same position: the same column
    k = int(rng.integers(n))
    twice = np.stack([inds[:, k], inds[:, k]], axis=1)
    for mu, m in enumerate(make().sketch_sparse(sparse(shp, twice))):
        m = np.array(m)
        mon.check(bool(np.array_equal(m[:, 0], m[:, 1]) and np.array_equal(m[:, 0], mats[mu][:, k])),
                  "two columns for one position")


@family("C10", "distinct", 400, 7000, need={"distinct_columns": 2.0})
def distinct(mon, rng):
    """Different positions get different columns."""
    shp = big_shape(rng)
    d = len(shp)
    name, make, rank, transpose, seed = lazy_drm(rng, shp, big=True)
    inds = positions(rng, shp, int(rng.integers(20, 120)))
    # positions that look alike in different modes: zeros, or all indices equal
    like = inds[:, : int(rng.integers(1, inds.shape[1] + 1))].copy()
    for c in range(like.shape[1]):
        k = int(rng.integers(d))
        if rng.random() < 0.3:
            like[:, c] = rng.integers(min(shp))
        elif rng.random() < 0.5:
            like[k:, c] = 0
        else:
            like[:k, c] = 0
    inds = np.unique(np.concatenate([inds, like], axis=1), axis=1)
    mon.note(drm=name, shape=shp, positions=inds.shape[1], right=transpose, seed=str(seed))
    mon.sig("distinct", name, shp, transpose)
    everything, count = [], 0
    mats = [np.array(m) for m in make().sketch_sparse(sparse(shp, inds))]
    for mu, m in enumerate(mats):
        part = inds[mu + 1:] if transpose else inds[: mu + 1]
        np_ = len({tuple(c) for c in part.T.tolist()})
        nc = len({c.tobytes() for c in np.ascontiguousarray(m.T)})
        mon.check(nc == np_, "matrix %d has %d different columns for %d different positions" % (mu, nc, np_))
        mon.count("distinct_columns", nc)
        if name == "sparse_gauss":
            mon.check(len(np.unique(m)) >= 0.999 * np_ * m.shape[0], "entries of different rows coincide")
            everything += list(np.unique(m))
            count += np_ * m.shape[0]
        elif len(set(rank)) == 1:
            everything += [c.tobytes() for c in np.unique(m, axis=1).T]
            count += np_
    if everything:
        # neither do those of different modes
        mon.check(len(set(everything)) >= 0.999 * count, "entries of different modes coincide")
        mon.count("modes_compared", d - 1)


def in_child(f, gigabytes):
    """f() in a process of its own with limited memory: (exit status, result),
    without result if there was not enough memory."""
    import pickle
    import resource

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (int(gigabytes * 2**30),) * 2)
            try:
                out = ("ok", f())
            except MemoryError:
                out = ("memory", None)
            except Exception as e:  # noqa: BLE001
                out = ("error", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as h:
                h.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as h:
            data = h.read()
    finally:
        status = os.waitpid(pid, 0)[1]
    return os.waitstatus_to_exitcode(status), pickle.loads(data) if data else None


@family("C10", "many_entries", 0.25, 3, serial=True, timeout=400)
def many_entries(mon, rng):
    """Matrices with more than 2**31 entries: the columns of a large list of
    positions are those of a short list."""
    free = [int(x.split()[1]) // 2**20 for x in open("/proc/meminfo") if x.startswith("MemAvailable")]
    if free and free[0] < 18:
        raise Skip("not enough memory")
    n = 2**21 + int(rng.integers(1, 3000))
    rank = 1024 + int(rng.integers(1, 12))
    shp = (int(rng.integers(2**11, 2**14)), int(rng.integers(2**11, 2**14)), 3)
    nnz = int(rng.integers(1, 4))
    seed = random_seed(rng)
    D = gen.drm_types()["sign"]
    flat = (np.arange(n, dtype=np.int64) * 1031) % (shp[0] * shp[1])
    inds = np.stack([flat // shp[1], flat % shp[1], flat % 3])
    edge = 2**31 // rank
    probe = np.unique(np.concatenate([np.arange(3), np.arange(edge - 3, edge + 4), rng.integers(0, n, 60), np.arange(edge + 4, n)[::50], [n - 1]]))
    probe = probe[probe < n]

    def big():
        drm = D((2, rank), shp, False, seed=seed, num_non_zero_per_row=(1, nnz))
        m = list(drm.sketch_sparse(sparse(shp, inds)))[1]
        return m.shape, np.array(m[:, probe])

    mon.note(positions=n, rank=rank, shape=shp, nnz=nnz, seed=str(seed))
    code, out = in_child(big, 16)
    if out is None:
        mon.check(code not in (-11, -7, -6, -8, -4), "the process died of signal %d" % -code, key="native-crash")
        raise Skip("ended")
    if out[0] == "memory":
        raise Skip("not enough memory")
    mon.check(out[0] == "ok", lambda: "raised " + out[1])
    shape, got = out[1]
    mon.check(shape == (rank, n), "shape %s" % (shape,))
    want = np.array(list(D((2, rank), shp, False, seed=seed, num_non_zero_per_row=(1, nnz)).sketch_sparse(sparse(shp, inds[:, probe])))[1])
    mon.equal(got, want, "columns of a matrix with more than 2**31 entries")
    mon.check(bool(np.all(np.sum(got != 0, axis=0) == nnz)), "number of non-zeros")
    mon.count("entries", n * rank)
    mon.count("columns_compared", len(probe))


@family("C10", "many_positions", 40, 600, need={"columns_compared": 1000})
def many_positions(mon, rng):
    """Thousands of positions: slices, parts and other orders of the list have
    the same entries, and those of a few positions are the same as alone."""
    shp = big_shape(rng) if rng.random() < 0.6 else gen.shape(rng, 2, 4, 60, 200000)
    d = len(shp)
    name, make, rank, transpose, seed = lazy_drm(rng, shp)
    n = gen.around_power_of_two(rng, 700, 70000)
    inds = np.stack([rng.integers(0, s, size=n) for s in shp])
    drm = make()
    mon.note(drm=name, shape=shp, positions=n, rank=rank, right=transpose, seed=str(seed))
    mon.sig("many", name, shp, n, rank, transpose)
    mats = [np.array(m) for m in drm.sketch_sparse(sparse(shp, inds))]
    a = tuple(int(rng.integers(0, r)) for r in rank)
    b = tuple(int(rng.integers(x + 1, r + 1)) for x, r in zip(a, rank))
    for mu, m in enumerate(drm.slice(a, b).sketch_sparse(sparse(shp, inds))):
        mon.equal(np.array(m), mats[mu][a[mu]:b[mu]], "slice of matrix %d" % mu)
    for k in (1, 17, int(rng.integers(1, n + 1))):
        sub = rng.permutation(n)[:k]
        other = drm.slice(a, b) if rng.random() < 0.5 else drm
        for mu, m in enumerate(other.sketch_sparse(sparse(shp, inds[:, sub].astype(gen.index_type(rng, shp))))):
            want = mats[mu][:, sub]
            mon.equal(np.array(m), want if other is drm else want[a[mu]:b[mu]], "%d of %d columns of matrix %d" % (k, n, mu))
        mon.count("columns_compared", k)


@family("C10", "slices", 300, 5000, need={"slices": 0.9, "large_ranks": 0.1})
def lazy_slices(mon, rng):
    """A slice, or a larger rank, has the entries of the whole matrix, also
    for huge shapes."""
    shp = big_shape(rng)
    d = len(shp)
    name, make, rank, transpose, seed = lazy_drm(rng, shp, rank=gen.pick(rng, [None, None, 1000, 5000]))
    inds = positions(rng, shp, int(rng.integers(1, 30)))
    mon.note(drm=name, shape=shp, right=transpose, rank=rank)
    mon.sig("slice", name, shp, transpose)
    drm = make()
    mats = [np.array(m) for m in drm.sketch_sparse(sparse(shp, inds))]
    a = tuple(int(rng.integers(0, r)) for r in rank)
    b = tuple(int(rng.integers(x + 1, r + 1)) for x, r in zip(a, rank))
    for mu, m in enumerate(drm.slice(a, b).sketch_sparse(sparse(shp, inds))):
        mon.equal(np.array(m), mats[mu][a[mu]:b[mu]], "slice of matrix %d" % mu)
    mon.count("slices")
    if max(rank) > 100:
        mon.count("large_ranks")
    if name == "sparse_gauss":
        new = tuple(r + int(rng.integers(0, 4)) for r in rank)
        for mu, m in enumerate(drm.increase_rank(new).sketch_sparse(sparse(shp, inds))):
            m = np.array(m)
            mon.check(m.shape[0] == new[mu], "rank after the increase")
            mon.equal(m[: rank[mu]], mats[mu], "increase of the rank of matrix %d" % mu)


# ---------------------------------------------------------------- C11

SIG = 7.0


def normal_sample(mon, z, what):
    """iid N(0, 1)?"""
    import scipy.special
    import scipy.stats

    z = np.asarray(z, dtype=float).reshape(-1)
    n = z.size
    mon.check(bool(np.all(np.isfinite(z))), what + ": not finite")
    for name, v, mean, var in (
        ("mean", z, 0.0, 1.0), ("variance", z**2, 1.0, 2.0), ("third moment", z**3, 0.0, 15.0),
        ("fourth moment", z**4, 3.0, 96.0),
    ):
        dev = (float(np.mean(v)) - mean) / math.sqrt(var / n)
        mon.check(abs(dev) <= SIG, lambda: "%s: %s is %.4g instead of %g (%.1f sigma, %d samples)" % (
            what, name, float(np.mean(v)), mean, dev, n))
    D = scipy.stats.kstest(z, scipy.special.ndtr).statistic
    mon.check(D * math.sqrt(n) <= 4.0, lambda: "%s: KS distance %.4g to the normal distribution" % (what, D))
    mon.count("samples", n)


def uncorrelated(mon, a, b, what):
    """Standardized samples with zero means."""
    a, b = np.asarray(a, float).reshape(-1), np.asarray(b, float).reshape(-1)
    c = float(np.mean(a * b)) / max(1e-300, math.sqrt(float(np.mean((a * b) ** 2)) / a.size))
    mon.check(abs(c) <= SIG + 1, lambda: "%s are correlated (%.1f sigma, %d pairs)" % (what, c, a.size))
    mon.count("correlations")


@family("C11", "gaussian", 48, 500, need={"samples": 3e4, "correlations": 3}, timeout=300)
def gaussian(mon, rng):
    name = gen.pick(rng, ["dense_gauss", "sparse_gauss"])
    D = gen.drm_types()[name]
    d = int(rng.integers(2, 5))
    n = {2: 70, 3: 16, 4: 8}[d]
    shp = tuple(int(rng.integers(n, n + n // 2)) for _ in range(d))
    if name == "sparse_gauss" and rng.random() < 0.5:
        shp = tuple(int(rng.integers(1000, 2 ** (60 // d))) for _ in range(d))
        inds = positions(rng, shp, 1500)
    else:
        inds = oracle.all_indices(shp)
        if inds.shape[1] > 6000:
            inds = inds[:, rng.permutation(inds.shape[1])[:6000]]
    r = int(rng.integers(20, 60))
    rank = (r,) * (d - 1)
    seed = random_seed(rng)
    mon.note(drm=name, shape=shp, rank=r, seed=str(seed))
    mon.sig(name, shp, r)
    t = sparse(shp, inds)
    mats = {}
    for tr in (False, True):
        mats[tr] = [np.array(m) for m in D(rank, shp, tr, seed=seed).sketch_sparse(t)]
        for mu, m in enumerate(mats[tr]):
            part = inds[mu + 1:] if tr else inds[: mu + 1]
            _, first = np.unique(part, axis=1, return_index=True)
            mats[tr][mu] = m = m[:, first]  # every position once
            if m.size < 1500:
                continue
            what = "%s %s matrix %d of %s, seed %s" % ("right" if tr else "left", name, mu, shp, seed)
            normal_sample(mon, m, what)
            if m.shape[1] > 2:
                uncorrelated(mon, m[:, 1:], m[:, :-1], what + ": neighbouring positions")
                k = int(rng.integers(1, m.shape[1] - 1))
                uncorrelated(mon, m[:, k:], m[:, :-k], what + ": positions at distance %d" % k)
            uncorrelated(mon, m[1:], m[:-1], what + ": rows")
            g = m @ m.T / m.shape[1] - np.eye(r)
            mon.check(float(np.max(np.abs(g))) <= 9.0 * math.sqrt(2.0 / m.shape[1]), what + ": rows are not independent")
            rows = np.sum(m**2, axis=1)
            mon.check(bool(np.all(np.abs(rows - m.shape[1]) <= 9 * math.sqrt(2 * m.shape[1]) + 60)), what + ": row norms")
            cols = np.sum(m**2, axis=0)
            mon.check(bool(np.all(np.abs(cols - r) <= 9 * math.sqrt(2 * r) + 60)), what + ": column norms")
    other = [np.array(m) for m in D(rank, shp, False, seed=(int(seed) + 1) % (2**32 - 1)).sketch_sparse(t)]
    mine = [np.array(m) for m in D(rank, shp, False, seed=seed).sketch_sparse(t)]
    right = [np.array(m) for m in D(rank, shp, True, seed=(int(seed) + 5) % (2**32 - 1)).sketch_sparse(t)]

    def once(part, *ms):
        _, first = np.unique(part, axis=1, return_index=True)
        return [m[:, first] for m in ms]

    for mu in range(d - 1):
        a, b = once(inds[: mu + 1], mine[mu], other[mu])
        uncorrelated(mon, a, b, "%s matrices of neighbouring seeds" % name)
        if mu:
            a, b = once(inds[:mu], mine[mu - 1], mine[mu])
            uncorrelated(mon, a, b, "%s matrices of modes %d and %d" % (name, mu - 1, mu))
        a, = once(inds[: mu + 1], mine[mu])
        b, = once(inds[mu + 1:], right[mu])
        k = min(a.shape[1], b.shape[1])
        uncorrelated(mon, a[:, :k], b[:, :k], "left and right %s matrices" % name)


@family("C11", "tails", 2.5, 30, need={"samples": 1e6}, timeout=300)
def tails(mon, rng):
    """Millions of numbers: also the rare large ones are as frequent as they
    should be, and there is no largest one."""
    import scipy.special
    import scipy.stats

    name = gen.pick(rng, ["dense_gauss", "sparse_gauss"])
    tr = bool(rng.random() < 0.5)
    r = int(rng.integers(300, 700))
    n = 3_000_000 // r
    shp = (n, 3) if not tr else (3, n)
    if name == "sparse_gauss":
        other = int(rng.integers(2, 2**20))
        shp = (2**40, other) if not tr else (other, 2**40)
    inds = np.zeros((2, n), dtype=np.int64)
    inds[int(tr)] = np.arange(n) if name == "dense_gauss" else np.unique(rng.integers(2**40, size=2 * n))[:n]
    seed = random_seed(rng)
    t = sparse(shp, inds)
    z = np.asarray(list(gen.drm_types()[name]((r,), shp, tr, seed=seed).sketch_sparse(t))[0]).reshape(-1)
    mon.note(drm=name, shape=shp, rank=r, seed=str(seed), transpose=tr, smallest=float(z.min()), largest=float(z.max()))
    what = "%s, seed %s" % (name, seed)
    normal_sample(mon, z, what)
    for side, v in (("above", z), ("below", -z)):
        for k in (1.0, 2.0, 3.0, 3.5, 4.0, 4.25, 4.5):
            p = float(scipy.special.ndtr(-k))
            got, exp = int(np.sum(v > k)), p * len(v)
            pv = 2 * min(scipy.stats.binom.cdf(got, len(v), p), scipy.stats.binom.sf(got - 1, len(v), p))
            mon.check(pv > 1e-10, lambda: "%s: %d of %d numbers %s %.3g, %.0f are expected" % (
                what, got, len(v), side, k if side == "above" else -k, exp))
        top = np.sort(v)[-40:]
        mon.check(bool(np.all(np.diff(top) > 0)), "%s: the most extreme numbers are equal: %r" % (what, top[-3:]))
    mon.sig(name, tr, r)


@family("C11", "extreme_bits", 150, 2500, need={"positions": 5.0})
def extreme_bits(mon, rng):
    """Entries are normal numbers also where the random bits are extreme."""
    from tt_sketch import drm as dm

    seed = int(gen.pick(rng, [0, 1, int(rng.integers(2**32 - 1))]))
    rank = int(gen.pick(rng, [1, 2, 3, int(rng.integers(1, 40))]))
    n = int(rng.integers(1, 60))
    shp = gen.pick(rng, EXTREME_SHAPES)
    mu = len(shp) - 1
    shp, inds = extreme_positions(rng, (mu << 32) + seed, rank, n, shp=shp)
    last = (3,)
    t = sparse(shp + last, np.concatenate([inds, rng.integers(0, 3, size=(1, n)).astype(np.uint64)]))
    tr = bool(rng.random() < 0.5)
    mon.note(shape=shp, rank=rank, seed=seed, transpose=tr)
    mon.sig(shp, rank, n, tr)
    if tr:
        t = t.T
    d = dm.SparseGaussianDRM(rank, t.shape, tr, seed=seed)
    for k, m in enumerate(d.sketch_sparse(t)):
        z = np.array(m)
        mon.check(bool(np.all(np.isfinite(z))), lambda: "entries that are not finite at %s" % (
            inds[:, np.where(~np.all(np.isfinite(z), axis=0))[0][:2]].tolist()))
        mon.check(bool(np.all(np.abs(z) < 9)), "an entry of size %.3g" % float(np.max(np.abs(z), initial=0)))
        mon.count("beyond_six_deviations", int(np.sum(np.abs(z) > 6)))
    mon.count("positions", n)


def tt_drm_cores(rng, rank, shp, transpose, seed):
    """Cores of a TT-DRM, from what it does to unit tensors: contracting with
    all but one mode fixed."""
    D = gen.drm_types()["tt"]
    drm = D(rank, shp, transpose, seed=seed)
    d = len(shp)
    modes = list(range(d))[::-1] if transpose else list(range(d))
    cores = []
    prev = None
    for mu in range(d - 1):
        # enough random positions in the modes before
        r0 = 1 if mu == 0 else prev_rank
        n = shp[modes[mu]]
        m = 3 * r0 if mu else 1
        heads = np.stack([rng.integers(shp[k], size=m) for k in modes[:mu]]) if mu else np.zeros((0, 1), int)
        inds = np.zeros((d, m * n), dtype=np.int64)
        for j, k in enumerate(modes[:mu]):
            inds[k] = np.repeat(heads[j], n)
        inds[modes[mu]] = np.tile(np.arange(n), m)
        mats = [np.asarray(x, dtype=float) for x in drm.sketch_sparse(sparse(shp, inds))]
        if transpose:
            mats = mats[::-1]
        now = mats[mu].reshape(mats[mu].shape[0], m, n)
        if mu == 0:
            cores.append(now[:, 0, :].T)  # n, r
        else:
            W = mats[mu - 1].reshape(r0, m, n)[:, :, 0]  # r0, m
            if np.linalg.cond(W) > 1e4:
                return None
            C = np.linalg.lstsq(W.T, now.transpose(1, 2, 0).reshape(m, -1), rcond=None)[0]
            cores.append(C.reshape(r0, n, -1))
        prev_rank = now.shape[0]
    return cores


def shared_numbers(mon, parts, what, exact):
    """No two parts contain the same numbers, up to a factor: ratios of
    neighbouring entries in any order of the modes are compared."""
    seen = []
    for k, P in enumerate(parts):
        P = np.asarray(P, dtype=float)
        ratios = [np.abs(P.reshape(-1))]
        for order in ("C", "F"):
            v = P.reshape(-1, order=order)
            ratios.append(v[1:] / v[:-1])
        r = np.concatenate(ratios)
        seen.append(r[np.isfinite(r) & (r != 0)])
    for k, a in enumerate(seen):
        for j, b in enumerate(seen[:k]):
            b = np.sort(b)
            if not len(a) or not len(b):
                continue
            i = np.searchsorted(b, a)
            near = np.minimum(np.abs(b[np.minimum(i, len(b) - 1)] - a), np.abs(b[np.maximum(i - 1, 0)] - a))
            same = int(np.sum(near <= (1e-15 if exact else 1e-9) * np.abs(a)))
            mon.check(same <= 2 + (0 if exact else 0.01 * len(a)), lambda: (
                "%s: parts %d and %d (of shapes %s, %s) have %d numbers in common" % (
                    what, j, k, np.shape(parts[j]), np.shape(parts[k]), same)))
            mon.count("parts_compared")


@family("C11", "no_shared_numbers", 150, 3000, need={"parts_compared": 5.0}, timeout=300)
def no_shared_numbers(mon, rng):
    """The random numbers of the parts of one object are different numbers,
    for few and for many modes, of equal or different sizes."""
    from tt_sketch import tensor as tm
    from tt_sketch.tt_gmres import MPO

    what = gen.pick(rng, ["tt", "tt", "cp", "tucker", "mpo", "tt_drm", "tt_drm", "dense_gauss", "sparse_gauss"])
    big = what in ("tt", "cp", "mpo", "tt_drm")
    d = int(rng.integers(2, 24 if big else 7))
    if rng.random() < 0.5:
        shp = (int(rng.integers(2, 6 if big else 4)),) * d
    else:
        shp = tuple(int(rng.integers(1, 6 if big else 4)) for _ in range(d))
    seed = None if rng.random() < 0.2 else random_seed(rng)
    k = int(rng.integers(2, 5))
    mon.note(what=what, shape=shp, seed=str(seed))
    mon.sig(what, shp, k)
    exact = True
    if what == "tt":
        parts = tm.TensorTrain.random(shp, k, seed=seed, norm_goal=gen.pick(rng, ["norm-1", "norm-preserve"])).cores
    elif what == "cp":
        parts = tm.CPTensor.random(shp, k, seed=seed).cores
    elif what == "tucker":
        t = tm.TuckerTensor.random(shp, k, seed=seed)
        # an orthonormal factor determines its random matrix up to a triangular
        # one, the first column up to a factor
        parts = [t.core] + [U[0] for U in t.factors]
    elif what == "mpo":
        # not symmetric: the numbers themselves
        parts = [C for C in MPO.random(k, shp, tuple(n + 1 for n in shp)).cores]
    elif what == "tt_drm":
        s = int(rng.integers(2**31)) if seed is None else seed
        parts = tt_drm_cores(rng, (k,) * (d - 1), shp, bool(rng.random() < 0.5), s)
        exact = False
        if parts is None:
            mon.skip("badly conditioned")
    else:
        D = gen.drm_types()[what]
        r = int(rng.integers(1, 9))
        tr = bool(rng.random() < 0.5)
        drm = D((r,) * (d - 1), shp, tr, seed=seed)
        inds = oracle.all_indices(shp)
        parts = []
        for mu, m in enumerate(oracle.drm_mats(drm, shp)):
            _, first = np.unique(inds[mu + 1:] if tr else inds[: mu + 1], axis=1, return_index=True)
            parts.append(m[:, first])
    shared_numbers(mon, parts, what, exact)


@family("C11", "sketch_independence", 30, 300, need={"correlations": 1}, timeout=300)
def sketch_independence(mon, rng):
    """The left and the right DRM of one (seeded or unseeded) sketch are
    independent, for shapes where they have the same sizes."""
    from tt_sketch import sketch

    name = gen.pick(rng, ["dense_gauss", "sparse_gauss", "tt", "sign"])
    D = gen.drm_types()[name]
    d = 2 if name != "tt" else int(rng.integers(2, 4))
    n = int(rng.integers(20, 40))
    shp = (n,) * d if d == 2 else (n, 2, n)
    lo, hi = int(rng.integers(20, 30)), int(rng.integers(30, 50))
    lo, hi = min(lo, n - 1), max(hi, n + 1)
    case = gen.tensor(rng, "sparse", shp, nnz=50)
    seed = None if rng.random() < 0.2 else random_seed(rng)
    which = gen.pick(rng, ["stream", "orth"])
    f = sketch.stream_sketch if which == "stream" else sketch.orthogonal_sketch
    _, l, r = f(case.obj, (lo,) * (d - 1), (hi,) * (d - 1), seed=seed, left_drm_type=D, right_drm_type=D, return_drm=True)
    mon.note(drm=name, shape=shp, seed=str(seed), method=which)
    mon.sig(name, shp, which, lo, hi)
    L, R = oracle.drm_mats(l, shp), oracle.drm_mats(r, shp)
    a = L[0].reshape(L[0].shape[0], n, -1)[:, :, 0]
    b = R[-1].reshape(R[-1].shape[0], -1, n)[:, 0, :]
    k = min(a.shape[0], b.shape[0])
    a, b = a[:k].astype(float), b[:k].astype(float)
    mon.check(not np.array_equal(a, b), "left and right DRM are the same")
    nz = (a != 0) & (b != 0)
    if np.sum(nz) > 50:
        uncorrelated(mon, a[nz], b[nz], "left and right %s of a sketch" % name)
        mon.check(float(np.mean(np.isclose(np.abs(a), np.abs(b)) & nz)) < 0.95 or name == "sign",
                  "left and right DRM have the same entries")


@family("C11", "sign", 80, 1000, need={"vectors": 1000, "balanced": 0.5}, timeout=300)
def sign(mon, rng):
    D = gen.drm_types()["sign"]
    d = int(rng.integers(2, 5))
    huge = rng.random() < 0.5
    if huge:
        shp = tuple(int(rng.integers(1000, 2 ** (60 // d))) for _ in range(d))
        inds = positions(rng, shp, 4000)
    else:
        n = {2: 80, 3: 18, 4: 9}[d]
        shp = tuple(int(rng.integers(n, n + n // 2)) for _ in range(d))
        inds = oracle.all_indices(shp)
    rank = tuple(int(rng.integers(1, 40)) for _ in range(d - 1))
    if rng.random() < 0.2:
        rank = tuple(int(rng.integers(1, 4)) for _ in range(d - 1))
    u = rng.random()
    if u < 0.15:
        nnz, arg = rank, None
    elif u < 0.3:
        nnz, arg = (1,) * (d - 1), 1
    else:
        nnz = tuple(int(rng.integers(1, r + 1)) for r in rank)
        arg = nnz
    tr = bool(rng.random() < 0.5)
    seed = random_seed(rng)
    mon.note(shape=shp, rank=rank, nnz=nnz, right=tr, seed=str(seed))
    mon.sig(shp, rank, nnz, tr)
    kw = {} if arg is None else dict(num_non_zero_per_row=arg)
    for mu, m in enumerate(D(rank, shp, tr, seed=seed, **kw).sketch_sparse(sparse(shp, inds))):
        m = np.array(m)
        r, k = rank[mu], nnz[mu]
        mon.check(m.shape[0] == r, "rank")
        mon.check(bool(np.all((m == 1) | (m == -1) | (m == 0))), "entries other than 0, 1, -1")
        cnt = np.sum(m != 0, axis=0)
        mon.check(bool(np.all(cnt == k)), lambda: "%d to %d non-zeros per position instead of %d (matrix %d)" % (
            cnt.min(), cnt.max(), k, mu))
        mon.count("vectors", m.shape[1])
        part = inds[mu + 1:] if tr else inds[: mu + 1]
        _, first = np.unique(part, axis=1, return_index=True)
        m = m[:, first].astype(float)
        N = m.shape[1]
        if N < 60:
            continue
        what = "sign matrix %d (rank %d, %d non-zeros, %d positions)" % (mu, r, k, N)
        p = k / r
        occ = np.sum(m != 0, axis=1)
        mon.check(bool(np.all(np.abs(occ - N * p) <= SIG * math.sqrt(N * p * (1 - p)) + 12)), lambda: (
            "%s: rows are used %d to %d times, expected %.0f" % (what, occ.min(), occ.max(), N * p)))
        s = np.sum(m, axis=1)
        mon.check(bool(np.all(np.abs(s) <= SIG * np.sqrt(occ) + 12)), lambda: "%s: signs are biased (%s of %s)" % (
            what, s, occ))
        mon.check(abs(float(np.sum(s))) <= SIG * math.sqrt(N * k), what + ": signs are biased")
        if r > 1:
            # E[rows_i rows_j] = 0, and uniform pairs
            g = m @ m.T
            np.fill_diagonal(g, 0)
            q = k * (k - 1) / (r * (r - 1))
            mon.check(float(np.max(np.abs(g))) <= SIG * math.sqrt(N * q) + 14, lambda: (
                "%s: signs of different rows are correlated (%.0f, expected at most %.0f)" % (
                    what, np.max(np.abs(g)), SIG * math.sqrt(N * q) + 14)))
            o = (m != 0).astype(float)
            j = o @ o.T
            off = ~np.eye(r, dtype=bool)
            mon.check(bool(np.all(np.abs(j[off] - N * q) <= SIG * math.sqrt(N * q * (1 - q)) + 14)),
                      what + ": pairs of rows are not uniform")
        h = np.sum(m[:, 1:] * m[:, :-1], axis=0)
        sd = math.sqrt(max(1.0, float(np.sum(h**2))))
        mon.check(abs(float(np.sum(h))) <= (SIG + 1) * sd, what + ": neighbouring positions are correlated")
        mon.count("balanced")


@family("C11", "isotropic", 24, 200, need={"drms": 500}, timeout=300)
def isotropic(mon, rng):
    """Entries of every DRM have mean zero, variance one per position (k/r for
    sign vectors), and different positions are uncorrelated: over many seeds."""
    name = gen.pick(rng, ["tt", "tt", "tt", "dense_gauss", "sparse_gauss", "sign"])
    D = gen.drm_types()[name]
    shp = gen.shape(rng, 2, 4, 4, 40, ones=0.1)
    d = len(shp)
    rank = tuple(int(rng.integers(1, 5)) for _ in range(d - 1))
    if rng.random() < 0.3:
        rank = tuple(int(rng.integers(5, 48)) if rng.random() < 0.6 else r for r in rank)
    tr = bool(rng.random() < 0.5)
    nnz = tuple(int(rng.integers(1, r + 1)) for r in rank)
    kw = dict(num_non_zero_per_row=nnz) if name == "sign" else {}
    S = 1200
    base = int(rng.integers(0, 2**31))
    mon.note(drm=name, shape=shp, rank=rank, right=tr, seeds=S)
    mon.sig(name, shp, rank, tr)
    acc = [[] for _ in range(d - 1)]
    for s in range(S):
        for mu, m in enumerate(oracle.drm_mats(D(rank, shp, tr, seed=base + 977 * s, **kw), shp)):
            acc[mu].append(m)
    mon.count("drms", S)
    inds = oracle.all_indices(shp)
    for mu in range(d - 1):
        part = inds[mu + 1:] if tr else inds[: mu + 1]
        _, first = np.unique(part, axis=1, return_index=True)
        Z = np.stack(acc[mu])[:, :, first].astype(float)  # seed, row, position
        var = nnz[mu] / rank[mu] if name == "sign" else 1.0
        what = "%s %s matrix %d" % ("right" if tr else "left", name, mu)

        def zscore(v, mean):
            sd = np.sqrt(np.mean((v - mean) ** 2, axis=0) / S)
            return (np.mean(v, axis=0) - mean) / np.maximum(sd, 0.02 / math.sqrt(S))

        z = zscore(Z, 0.0)
        mon.check(float(np.max(np.abs(z))) <= 7.5, lambda: "%s: mean of an entry is not zero (%.1f sigma)" % (what, np.max(np.abs(z))))
        # pooled: energy of each position, and its total
        e = np.mean(Z**2, axis=1)
        z = zscore(e, var)
        mon.check(float(np.max(np.abs(z))) <= 9, lambda: "%s: variance of entries %.3f instead of %.3f" % (
            what, float(np.mean(e)), var))
        G = np.einsum("srp,srq->spq", Z, Z) / Z.shape[1]
        iu = np.triu_indices(G.shape[1], 1)
        if len(iu[0]):
            z = zscore(G[:, iu[0], iu[1]], 0.0)
            mon.check(float(np.max(np.abs(z))) <= 8.5, lambda: "%s: different positions are correlated (%.1f sigma)" % (
                what, np.max(np.abs(z))))
