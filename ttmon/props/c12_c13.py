"""Native code under sanitizers, and threads."""
import fcntl
import gc
import hashlib
import json
import math
import os
import re
import subprocess
import sys
import threading
import time

import numpy as np

from .. import gen, oracle
from ..core import VERIF, Violation, family

RULE = {
    "C12": "Hostile inputs (empty, single, many positions; rank 1 to large; saturated sign vectors; all integer "
    "types and memory layouts; slices; huge shapes; positions whose random bits are all zeros or ones) to the native module built with address and undefined "
    "behaviour sanitizers, and once more with Cython's bounds checks. Distinct by (call, shape, rank).",
    "C13": "Random sizes (below, at and above the number of threads) with uninitialized memory poisoned, tasks "
    "delayed, reordered, and switched every few microseconds; and several threads sketching at once. Distinct by "
    "(shape, threads, schedule).",
}
ASSUMPTIONS = [
    "C12: the sanitizers see the compiled native module and the memory it is given, not the inside of numpy, scipy "
    "or the interpreter. The module releases the interpreter lock nowhere, so a race detector has nothing to see.",
]


# ---------------------------------------------------------------- C12

def native_workload(rng, mon_sig):
    """Calls the native module directly and through the DRMs; checks what can
    be checked locally.  Returns counts."""
    from tt_sketch.drm import fast_lazy_gaussian as flg
    from tt_sketch.tensor import SparseTensor

    from . import c09_c10_c11 as lazy

    u = rng.random()
    shp = lazy.big_shape(rng) if rng.random() < 0.5 else gen.shape(rng, 1, 5, 7, 2000)
    d = len(shp)
    n = int(gen.pick(rng, [0, 0, 1, 2, 3, 7, 64, 255, int(rng.integers(1, 600))]))
    many = rng.random() < 0.15
    if many:
        n = int(gen.pick(rng, [256 * int(rng.integers(1, 33)), gen.around_power_of_two(rng, 256, 40000)]))
    inds = np.stack([rng.integers(0, s, size=n) for s in shp]) if d else np.zeros((0, n), int)
    inds = inds.astype(gen.pick(rng, [np.int64, np.uint64] + ([np.int32, np.uint16] if max(shp) < 2**16 else [])))
    if n:
        inds = gen.layout(rng, inds)
    rank = int(gen.pick(rng, [1, 1, 2, 3, 5, 17, 100, int(rng.integers(1, 300))]))
    if many:
        rank = min(rank, int(rng.integers(1, 20)))
    seed = int(gen.pick(rng, [0, 1, 2**32 - 2, 2**63 - 1, int(rng.integers(0, 2**63))]))
    a = int(rng.integers(0, rank))
    b = int(rng.integers(a, rank + 1))
    counts = {"positions": n}
    if u < 0.7 and rng.random() < 0.3:
        # random bits that are extreme
        rank = min(rank, int(rng.integers(1, 120)))
        a = min(a, rank)
        b = int(rng.integers(a, rank + 1)) if u < 0.35 else rank
        seed %= 2**63
        shp, inds = lazy.extreme_positions(rng, seed, rank, min(n, 64) or 1)
        n, d = inds.shape[1], len(shp)
        counts = {"positions": n, "extreme_positions": n}
    if u < 0.35:
        m = np.asarray(flg.inds_to_normal(inds, shp, a, b, seed))
        mon_sig("normal", n, rank, d)
        assert m.shape == (n, b - a), ("shape", m.shape)
        assert np.all(np.isfinite(m)), "not finite"
        counts["native_calls"] = 1
    elif u < 0.7:
        nnz = int(gen.pick(rng, [1, rank, int(rng.integers(1, rank + 1))]))
        m = np.asarray(flg.inds_to_sparse_sign(inds, shp, rank, a, b, nnz, seed))
        mon_sig("sign", n, rank, nnz, d)
        assert m.shape == (n, b - a), ("shape", m.shape)
        full = np.asarray(flg.inds_to_sparse_sign(inds, shp, rank, 0, rank, nnz, seed))
        assert np.all(np.sum(full != 0, axis=1) == nnz), "number of non-zeros"
        assert np.all(np.isin(full, (-1, 0, 1))), "values"
        assert np.array_equal(full[:, a:b], m), "slice"
        counts["native_calls"] = 2
    elif u < 0.8 and hasattr(flg, "hash_int_c") and hasattr(flg, "_inds_to_rand_double"):
        v = rng.integers(0, 2**63, size=int(gen.pick(rng, [0, 1, 5, 1000])), dtype=np.uint64) * np.uint64(2)
        w = np.array(v)
        flg.hash_int_c(w)
        m = np.asarray(flg._inds_to_rand_double(
            np.ascontiguousarray(inds.astype(np.uint64)), np.array(shp, dtype=np.uint64), a, b, seed % 2**63))
        assert m.shape == (n * (b - a),), "number of random doubles"
        mon_sig("hash", len(v), n, rank)
        counts["native_calls"] = 2
    else:
        if d < 2:
            shp, d = shp + (3,), d + 1
            inds = np.concatenate([inds.astype(np.int64), rng.integers(0, 3, size=(1, n))])
        t = SparseTensor(tuple(shp), inds, rng.standard_normal(n))
        name, make, rk, tr, sd = lazy.lazy_drm(rng, shp)
        drm = make()
        mats = [np.array(m) for m in drm.sketch_sparse(t)]
        lo = tuple(int(rng.integers(0, r)) for r in rk)
        hi = tuple(int(rng.integers(x + 1, r + 1)) for x, r in zip(lo, rk))
        for mu, m in enumerate(drm.slice(lo, hi).sketch_sparse(t)):
            assert np.array_equal(np.array(m), mats[mu][lo[mu]:hi[mu]]), "slice of a DRM"
        mon_sig("drm", name, n, rk, tr)
        counts["native_calls"] = 2 * (d - 1)
    return counts


def child_main(seed, n, sos, repo, scratch):
    os.environ["TTMON_REPO"] = repo
    from .. import boot

    boot.REPO = repo
    boot._scratch = scratch
    boot.boot(sos=sos)
    rng = np.random.default_rng(seed)
    total, sigs = {}, set()
    for i in range(n):
        state = repr(rng.bit_generator.state["state"])
        try:
            with np.errstate(all="ignore"):
                c = native_workload(rng, lambda *k: sigs.add(repr(k)))
        except Exception as e:  # noqa: BLE001
            print("NATIVEFAIL %d %s: %s" % (i, type(e).__name__, e))
            sys.stdout.flush()
            os._exit(7)
        for k, v in c.items():
            total[k] = total.get(k, 0) + v
    total["workloads"] = n
    maps = open("/proc/self/maps").read()
    total["sanitizer_loaded"] = int("libasan" in maps)
    print("NATIVEOK " + json.dumps({"total": total, "sigs": sorted(sigs)}))
    sys.stdout.flush()
    os._exit(0)


CHILD = "import sys, json; sys.path.insert(0, %r); from ttmon.props import c12_c13 as m; a = json.loads(sys.argv[1]); m.child_main(**a)"


def _lib(name):
    out = subprocess.run(["gcc", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True).stdout.strip()
    return os.path.realpath(out) if os.path.sep in out else None


def built(variant):
    """Build once per run, whichever worker is first."""
    from .. import boot

    path = os.path.join(boot.scratch(), "built-%s.json" % variant)
    with open(os.path.join(boot.scratch(), "lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(path):
            return json.load(open(path))
        sos = boot.build_ext(variant)
        with open(path, "w") as f:
            json.dump(sos, f)
        return sos


def run_variant(mon, rng, variant, n):
    from .. import boot

    sos = built(variant)
    seed = int(rng.integers(2**40))
    env = dict(os.environ)
    log = os.path.join(boot.scratch(), "san-%d-%d" % (os.getpid(), seed))
    if variant == "asan":
        libs = [x for x in (_lib("libasan.so"), _lib("libubsan.so")) if x]
        if not libs:
            raise OSError("no sanitizer runtime")
        env["LD_PRELOAD"] = " ".join(libs)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=66:log_path=%s:detect_stack_use_after_return=1:"
                               "allocator_may_return_null=1:strict_string_checks=1" % log)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66:log_path=%s" % log
        env["PYTHONMALLOC"] = "malloc"
    arg = json.dumps(dict(seed=seed, n=n, sos=sos, repo=boot.REPO, scratch=boot.scratch()))
    p = subprocess.run([sys.executable, "-s", "-c", CHILD % VERIF, arg], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    reports = ""
    for f in os.listdir(boot.scratch()):
        if f.startswith(os.path.basename(log)):
            with open(os.path.join(boot.scratch(), f), errors="replace") as h:
                reports += h.read()
    reports += "\n".join(x for x in p.stderr.splitlines() if "Sanitizer" in x or "runtime error" in x)
    mon.note(variant=variant, seed=seed, workloads=n)
    mon.check("Sanitizer" not in reports and "runtime error" not in reports,
              "sanitizer report:\n" + reports[:2500])
    fail = [x for x in p.stdout.splitlines() if x.startswith("NATIVEFAIL")]
    mon.check(not fail, "native workload failed (%s build): %s" % (variant, " ".join(fail)))
    ok = [x for x in p.stdout.splitlines() if x.startswith("NATIVEOK ")]
    mon.check(p.returncode == 0 and len(ok) == 1,
              "process of native workload ended with %s: %s" % (p.returncode, p.stderr[-1500:]))
    res = json.loads(ok[0][9:])
    for s in res["sigs"]:
        mon.sig(variant, s)
    for k, v in res["total"].items():
        if k != "sanitizer_loaded":
            mon.count(k, v)
    if variant == "asan":
        if not res["total"]["sanitizer_loaded"]:
            raise OSError("the sanitizer runtime was not loaded")
        mon.count("sanitized_processes")


@family("C12", "address_and_ub_sanitizer", 8, 80, need={"native_calls": 200, "sanitized_processes": 1.0}, timeout=600)
def sanitized(mon, rng):
    run_variant(mon, rng, "asan", 300 if mon.tier == "quick" else 1500)


@family("C12", "bounds_checks", 8, 80, need={"native_calls": 200}, timeout=600)
def bounds(mon, rng):
    run_variant(mon, rng, "bounds", 400 if mon.tier == "quick" else 3000)


# ---------------------------------------------------------------- C13

real_sleep = time.sleep


class Slow:
    """Waits of limited time end early, as on a machine where the threads are a
    thousand times slower (waits of more than a minute are left alone)."""

    def __enter__(self):
        self.old = (threading.Condition.wait, threading.Thread.join, time.sleep)
        wait, join, sleep = self.old

        def short(t):
            return t if t is None or t > 60 else max(0.0, t / 2000)

        threading.Condition.wait = lambda c, timeout=None: wait(c, short(timeout))
        threading.Thread.join = lambda t, timeout=None: join(t, short(timeout))
        time.sleep = lambda t: sleep(short(t))

    def __exit__(self, *exc):
        threading.Condition.wait, threading.Thread.join, time.sleep = self.old
        return False


class Hostile:
    """Poisoned uninitialized memory, delayed and reordered tasks, and very
    frequent switches between threads."""

    def __init__(self, rng, level):
        self.rng, self.level = rng, level
        self.tasks = 0
        self.poisoned = 0

    def __enter__(self):
        import concurrent.futures as cf

        self.cf = cf
        self.slow = None
        if self.level == "slow":
            self.slow = Slow()
            self.slow.__enter__()
        self.old = (np.empty, np.empty_like, cf.ThreadPoolExecutor.submit, sys.getswitchinterval())
        empty, empty_like, submit, _ = self.old
        outer = self

        def poison(a):
            if a.dtype.kind == "f":
                a.fill(np.nan)
                outer.poisoned += 1
            return a

        def submit2(ex, fn, *args, **kw):
            outer.tasks += 1
            if outer.level == "none":
                return submit(ex, fn, *args, **kw)
            delay = float(outer.rng.choice([0, 0, 1e-4, 1e-3, 4e-3]))
            if outer.level == "reversed":
                delay = 0.004 / outer.tasks
            if outer.level == "slow":
                delay = 0.04 if outer.rng.random() < 0.4 else 0.0

            def late(*a, **k):
                real_sleep(delay)
                r = fn(*a, **k)
                real_sleep(delay / 2)
                return r

            return submit(ex, late, *args, **kw)

        np.empty = lambda *a, **k: poison(empty(*a, **k))
        np.empty_like = lambda *a, **k: poison(empty_like(*a, **k))
        cf.ThreadPoolExecutor.submit = submit2
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *exc):
        np.empty, np.empty_like, self.cf.ThreadPoolExecutor.submit = self.old[:3]
        sys.setswitchinterval(self.old[3])
        if self.slow:
            self.slow.__exit__(*exc)
        return False


def rng_shape(rng):
    u = rng.random()
    if u < 0.1:
        return (int(rng.integers(0, 3)),)
    if u < 0.3:
        return (int(rng.integers(1, 40)),)
    if u < 0.4:
        return (0, 3)
    if u < 0.8:
        return tuple(int(rng.integers(1, 40)) for _ in range(int(rng.integers(1, 4))))
    return (int(rng.integers(1, 300)), int(rng.integers(1, 300)))


@family("C13", "every_entry", 250, 4000, need={"arrays": 0.9, "tasks": 0.5})
def every_entry(mon, rng):
    """Every entry is written, once, and no entry depends on the schedule."""
    from tt_sketch import utils

    shp = rng_shape(rng)
    threads = int(gen.pick(rng, [1, 2, 3, 5, 8, 13, 64]))
    seed = int(rng.integers(2**32))
    level = gen.pick(rng, ["none", "random", "random", "reversed", "slow"])
    default = rng.random() < 0.4
    mon.note(shape=shp, threads="default" if default else threads, schedule=level, seed=seed)
    mon.sig(shp, default or threads, level)

    def make():
        if default:
            return utils.random_normal(shp, seed=seed)
        return utils.MultithreadedRNG(shp, seed=seed, threads=threads).values

    plain = np.array(make())
    with Hostile(rng, level) as h:
        a = make()
        at_return = np.array(a)
        real_sleep(0.003 if level != "slow" else 0.1)
    mon.count("tasks", h.tasks)
    mon.count("poisoned_arrays", h.poisoned)
    mon.check(a.shape == tuple(shp), "shape %s instead of %s" % (a.shape, shp))
    mon.check(bool(np.all(np.isfinite(at_return))), lambda: "%d of %d entries were never written" % (
        int(np.sum(~np.isfinite(at_return))), a.size))
    mon.check(bool(np.array_equal(at_return, a)), "entries changed after the array was returned")
    mon.check(bool(np.array_equal(plain, at_return)), "entries depend on the schedule")
    flat = at_return.reshape(-1)
    mon.check(len(np.unique(flat)) == flat.size, "entries are repeated")
    if flat.size >= 200:
        mon.check(abs(float(np.mean(flat**2)) - 1) <= 8 * math.sqrt(2 / flat.size), "variance is not one")
        mon.check(abs(float(np.mean(flat))) <= 8 / math.sqrt(flat.size), "mean is not zero")
    mon.count("arrays")


@family("C13", "large_arrays", 2, 6, serial=True, need={"arrays": 0.9}, timeout=300)
def large_arrays(mon, rng):
    """Arrays with more entries than single precision or small integers can count."""
    from tt_sketch import utils

    # just above a multiple of the number of threads: rounding down loses the last entries
    n = 2 ** int(rng.integers(24, 26)) + gen.pick(rng, [1, 1, 1 + 8 * int(rng.integers(1, 60)), int(rng.integers(1, 600))])
    shp = gen.pick(rng, [(n,), (n, 1), (1, n)])
    seed = int(rng.integers(2**32))
    mon.note(shape=shp, seed=seed)
    mon.sig(shp)
    with Hostile(rng, "none") as h:
        a = utils.random_normal(shp, seed=seed)
    mon.count("poisoned_arrays", h.poisoned)
    mon.check(a.shape == shp, "shape %s instead of %s" % (a.shape, shp))
    a = a.reshape(-1)
    bad = int(np.sum(~np.isfinite(a)))
    mon.check(bad == 0, lambda: "%d of %d entries were never written" % (bad, n))
    step = -(-n // 8)
    ends = np.concatenate([a[max(0, k * step - 300) : k * step + 300] for k in range(9)])
    mon.check(len(np.unique(ends)) == ends.size, "entries are repeated")
    mon.check(abs(float(np.mean(a**2)) - 1) <= 8 * math.sqrt(2 / n), "variance is not one")
    mon.check(abs(float(np.mean(a))) <= 8 / math.sqrt(n), "mean is not zero")
    mon.check(float(np.abs(a).max()) < 9, "an entry is out of proportion")
    mon.count("arrays")


@family("C13", "no_thread_leak", 4, 20)
def no_thread_leak(mon, rng):
    from tt_sketch import utils

    gc.collect()
    before = threading.active_count()
    for i in range(60):
        utils.random_normal((int(rng.integers(1, 200)),), seed=i)
    gc.collect()
    end = time.time() + 20
    while threading.active_count() > before + 8 and time.time() < end:
        time.sleep(0.02)
    mon.note(before=before, after=threading.active_count())
    mon.check(threading.active_count() <= before + 64, "threads are left behind: %d, before %d" % (
        threading.active_count(), before))
    mon.sig("leak", before)


@family("C13", "forked", 12, 100, need={"forked": 0.9}, timeout=120)
def forked(mon, rng):
    """No thread is left when the arrays are there, so that a process which is
    forked then can make random numbers as well."""
    import signal

    from tt_sketch import tensor as tm
    from tt_sketch import utils

    sizes = [rng_shape(rng) for _ in range(int(rng.integers(1, 8)))]
    seeds = [int(rng.integers(2**32)) for _ in sizes]
    use = gen.pick(rng, ["random_normal", "random_normal", "tensor"])
    mon.note(shapes=sizes, use=use)
    mon.sig(tuple(sizes), use)

    def make():
        if use == "tensor":
            return tm.TensorTrain.random((30, 4, 20), 5, seed=seeds[0]).cores + tm.CPTensor.random((7, 9), 3, seed=seeds[0]).cores
        return [np.array(utils.random_normal(s, seed=x)) for s, x in zip(sizes, seeds)]

    def digest(arrays):
        h = hashlib.sha256()
        for a in arrays:
            h.update(repr(np.shape(a)).encode() + np.ascontiguousarray(a).tobytes())
        return h.digest()

    before = threading.active_count()
    want = digest(make())
    gc.collect()
    end = time.time() + 20
    while threading.active_count() > before and time.time() < end:
        time.sleep(0.01)
        gc.collect()
    mon.check(threading.active_count() <= before, lambda: "%d threads are left behind: %s" % (
        threading.active_count() - before, [t.name for t in threading.enumerate()][:4]))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(40)
            os.write(w, digest(make()))
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as h:
            got = h.read()
    finally:
        status = os.waitpid(pid, 0)[1]
    mon.check(not os.WIFSIGNALED(status), "generating in a forked process did not end within 40 s (status %d)" % status)
    mon.check(got == want, "other numbers in a forked process")
    mon.count("forked")


class Interleave:
    """Gives up the processor at lines of the package: a thread is held up for
    a moment at random lines, and for long at a few of them."""

    def __init__(self, seed):
        import random

        self.rnd = random.Random(seed)
        self.p = self.rnd.choice([0.0, 0.02, 0.1, 0.4])
        self.long = {self.rnd.randrange(1, 4 ** self.rnd.randrange(2, 7)) for _ in range(4)}
        self.lines = self.switches = 0

    def __enter__(self):
        sys.settrace(self.call)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False

    def call(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self.line if "tt_sketch" in f and "ttmon" not in f else None

    def line(self, frame, event, arg):
        self.lines += 1
        if self.lines in self.long:
            self.switches += 1
            real_sleep(0.004)
        elif self.p and self.rnd.random() < self.p:
            self.switches += 1
            real_sleep(0)
        return self.line


def job(sub):
    """A seeded computation; returns arrays."""
    from . import c09_c10_c11 as seeds

    rng = np.random.default_rng(sub)
    name, thunk, exact, shp = seeds.seeded_call(rng, int(sub % (2**32 - 1)))
    return name, exact, thunk


@family("C13", "concurrent_calls", 60, 1000, need={"concurrent_results": 3.0, "forced_switches": 10}, timeout=120)
def concurrent_calls(mon, rng):
    """Seeded calls give the same when several threads make them at once."""
    from . import c09_c10_c11 as seeds

    k = int(rng.integers(3, 7))
    subs = [int(rng.integers(2**40)) for _ in range(k)]
    if rng.random() < 0.3:
        subs = [subs[0]] * k
    want = [(n, e, t()) for n, e, t in map(job, subs)]
    shared = rng.random() < 0.5
    thunks = [job(s) for s in subs]
    got = [[None] * 2 for _ in range(k)]
    errors = []
    barrier = threading.Barrier(k)

    tseed = int(rng.integers(2**40))
    traced = [Interleave(tseed + i) for i in range(k)]

    def run(i):
        try:
            barrier.wait()
            for rep in range(2):
                j = (i + rep) % k if shared else i
                with np.errstate(all="ignore"), traced[i]:
                    got[i][rep] = (j, thunks[j][2]())
        except Exception as e:  # noqa: BLE001
            errors.append((thunks[i][0], e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(i,)) for i in range(k)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    mon.count("forced_switches", sum(t.switches for t in traced))
    mon.note(calls=[w[0] for w in want], shared_objects=shared)
    mon.sig(tuple(w[0] for w in want), shared)
    for name, e in errors:
        raise Violation("%s failed while other threads were sketching: %s: %s" % (name, type(e).__name__, e), "concurrent")
    for i in range(k):
        for rep in range(2):
            j, res = got[i][rep]
            seeds.same(mon, want[j][2], res, want[j][1], want[j][0] + " while other threads were sketching")
            mon.count("concurrent_results")


@family("C13", "shared_objects", 60, 1000, need={"concurrent_results": 3.0, "forced_switches": 5}, timeout=120)
def shared_objects(mon, rng):
    """Threads which read the same tensors and sketches."""
    from tt_sketch import sketch

    shp = gen.shape(rng, 2, 4, 5, 200)
    kind = gen.pick(rng, gen.ALL_KINDS)
    case = gen.tensor(rng, kind, shp)
    D = gen.drm_types()["tt"]
    l, r, _ = gen.two_ranks(rng, len(shp), 1, 4)
    s = sketch.stream_sketch(case.obj, l, r, seed=5, left_drm_type=D, right_drm_type=D)
    X = case.X
    sub = oracle.all_indices(shp)
    ops = [
        ("to_numpy", lambda: case.obj.to_numpy(), X),
        ("norm", lambda: np.array(case.obj.norm()), np.array(oracle.fro(X))),
        ("dot", lambda: np.array(case.obj.dot(case.obj)), np.array(np.sum(X * X))),
        ("transpose", lambda: case.obj.T.to_numpy(), oracle.T(X)),
        ("update", lambda: np.array((s + case.obj).Psi_cores[0]), 2 * np.array(s.Psi_cores[0])),
        ("omega", lambda: np.array((s + case.obj).Omega_mats[-1]), 2 * np.array(s.Omega_mats[-1])),
    ]
    if hasattr(case.obj, "gather"):
        ops.append(("gather", lambda: case.obj.gather(sub), X.reshape(-1)))
    k = 6
    plan = [[ops[int(i)] for i in rng.integers(len(ops), size=3)] for _ in range(k)]
    out, errors = [], []
    barrier = threading.Barrier(k)

    tseed = int(rng.integers(2**40))
    traced = [Interleave(tseed + i) for i in range(k)]

    def run(i):
        try:
            barrier.wait()
            for name, f, want in plan[i]:
                with np.errstate(all="ignore"), traced[i]:
                    out.append((name, np.asarray(f()), want))
        except Exception as e:  # noqa: BLE001
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(i,)) for i in range(k)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    mon.count("forced_switches", sum(t.switches for t in traced))
    mon.note(format=kind, shape=shp)
    mon.sig(kind, shp)
    for e in errors:
        raise Violation("concurrent use of a %s tensor failed: %s: %s" % (kind, type(e).__name__, e), "concurrent")
    n = max(1.0, oracle.fro(case.Xabs))
    for name, g, want in out:
        mon.close(g.reshape(want.shape), want, 1e-9 * n * n * (1 + float(np.max(np.abs(want), initial=0.0))),
                  "concurrent %s of a %s tensor" % (name, kind))
        mon.count("concurrent_results")
