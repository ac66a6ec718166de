"""Experiments of scripts/: they measure what their arguments say."""
import contextlib
import math
import os
import tempfile
import time
import warnings

import numpy as np

from .. import gen, oracle
from ..core import family

RULE = {
    "C30": "Random tensors of every format, ranks, map types, recompression ranks and error functions, run directly or "
    "through an experiment store; random symmetric cookie problems in a .mat file; the experiment of the cookie script and the error "
    "functions of the plotting scripts. Distinct by (method, format, map types, "
    "shape, ranks, recompression rank).",
}
ASSUMPTIONS = [
    "experiments draw their random maps from numpy's global random state (as stated by the scripts' np.random.seed), so "
    "the same state gives the same experiment",
    "matrices of the cookie problem are symmetric (stiffness matrices)",
]


class Recorder:
    """Subclasses of the map types that remember their objects."""

    def __init__(self):
        self.made = []

    def type(self, cls):
        rec = self.made

        class Recording(cls):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                rec.append(self)

        Recording.__name__ = cls.__name__
        return Recording


@family("C30", "experiments", 160, 3000, need={"measured": 0.9, "reruns": 0.9}, timeout=60)
def experiments(mon, rng):
    from scripts import experiment_base as eb
    from tt_sketch import sketch as sk
    from tt_sketch.tt_svd import tt_svd

    method = gen.pick(rng, ["stream", "stream", "orthogonal", "hmt", "tt_svd", "tt_round"])
    shp = gen.shape(rng, max_size=800)
    d = len(shp)
    if method == "tt_round":
        case = gen.tensor(rng, "tt", shp)
    elif method == "tt_svd":
        case = gen.tensor(rng, gen.pick(rng, ["dense", "tt", "sparse", "cp", "sum"]), shp)
    else:
        case = gen.tensor(rng, gen.pick(rng, gen.KINDS + ("sum",)), shp)
    nrm = oracle.fro(case.X)
    if not nrm > 0:
        return
    top = oracle.feasible(shp, (7,) * (d - 1))
    rank = oracle.feasible(shp, tuple(int(rng.integers(1, x + 1)) for x in top))
    more = tuple(k + int(rng.integers(1, 6)) for k in rank)
    recompress = None
    if rng.random() < 0.5 and method in ("stream", "orthogonal", "hmt"):
        recompress = int(rng.integers(1, 5))
        if rng.random() < 0.4:  # per mode
            recompress = tuple(int(rng.integers(1, 5)) for _ in shp[1:])
    names = [n for n in gen.drm_types() if gen.supports(case, n)]
    rec = Recorder()
    kw, types = {}, ()
    if method in ("stream", "orthogonal"):
        types = (gen.pick(rng, names), gen.pick(rng, names))
        l, r = (more, rank) if method == "stream" and rng.random() < 0.5 else (rank, more)
        kw = dict(left_rank=l, right_rank=r, left_drm_type=rec.type(gen.drm_types()[types[0]]),
                  right_drm_type=rec.type(gen.drm_types()[types[1]]))
    elif method == "hmt":
        types = (gen.pick(rng, names),)
        kw = dict(rank=rank, drm_type=rec.type(gen.drm_types()[types[0]]))
    else:
        kw = dict(rank=rank if rng.random() < 0.6 or len(set(rank)) > 1 else rank[0])
    if len(set(rank)) == 1 and rng.random() < 0.3:
        for key in ("rank", "left_rank"):
            if kw.get(key) == rank:
                kw[key] = rank[0]
                if key == "left_rank":
                    l = rank
    if recompress is not None:
        kw["recompression_rank"] = recompress
    if rng.random() < 0.7:
        kw["run"] = int(rng.integers(100))  # arguments that only name the experiment
    func = {"stream": eb.experiment_stream_sketch, "orthogonal": eb.experiment_orthogonal_sketch, "hmt": eb.experiment_hmt_sketch,
            "tt_svd": eb.experiment_tt_svd, "tt_round": eb.experiment_tt_round}[method]
    mon.note(method=method, kind=case.kind, shape=shp, types=types, arguments={k: str(v) for k, v in kw.items()})
    mon.sig(method, case.kind, types, shp, rank, more, recompress)

    got = []
    marker = float(rng.random())
    wait = 0.03 if rng.random() < 0.2 else 0

    def error_func(result, inp):
        got.append((result, inp))
        time.sleep(wait)
        return marker

    seed = int(rng.integers(2**31))
    state = np.random.get_state()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(seed)
            t0 = time.perf_counter()
            with gen.Pure(mon, "experiment", case.obj):
                res = func(case.obj, error_func=error_func, **kw)
            wall = time.perf_counter() - t0
            first = list(rec.made)
            np.random.seed(seed)
            plain = func(case.obj, **kw)
    finally:
        np.random.set_state(state)
    mon.count("measured")
    mon.check(set(res) >= {"error", "time_taken"} and res["error"] == marker, "the error is not that of the error function")
    mon.check(len(got) == 1 and got[0][1] is case.obj, "error function: called once, with the input")
    mon.check(0 < res["time_taken"] <= wall - wait, lambda: "time %.3g s of %.3g s, %.3g s of which are the error function" % (
        res["time_taken"], wall, wait))
    tt = got[0][0]
    R = tt.to_numpy()
    mon.check(tuple(tt.shape) == shp, "shape of the result")

    # what should have been measured, from the random maps that were used
    def before_recompression():
        if method == "stream":
            a, b = first
            return sk.stream_sketch(case.obj, l, r, left_drm=a, right_drm=b).to_tt()
        if method == "orthogonal":
            a, b = first
            return sk.orthogonal_sketch(case.obj, l, r, left_drm=a, right_drm=b)
        if method == "hmt":
            return sk.hmt_sketch(case.obj, rank, drm=first[0])
        if method == "tt_svd":
            return tt_svd(case.obj, rank)
        return case.obj.round(max_rank=rank)

    n_maps = {"stream": 2, "orthogonal": 2, "hmt": 1}.get(method, 0)
    mon.check(len(first) == n_maps, lambda: "%d random maps were made" % len(first))
    if n_maps == 2:
        ranks = {tuple(m.rank) if not m.transpose else tuple(m.rank)[::-1]: bool(m.transpose) for m in first}
        first.sort(key=lambda m: bool(m.transpose))
        mon.check([bool(m.transpose) for m in first] == [False, True], "a left and a right map")
        for m, n, want in zip(first, types, (l, r)):
            mon.check(isinstance(m, gen.drm_types()[n]), "%s: map of type %s instead of %s" % (method, type(m).__mro__[1].__name__, n))
            have = tuple(m.rank)[::-1] if m.transpose else tuple(m.rank)
            mon.check(have == tuple(want), lambda: "%s: maps of rank %s, requested %s" % (method, have, want))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = before_recompression()
    D = ref.to_numpy()
    tol = 1e-8 * (oracle.fro(D) + oracle.fro(case.X))
    if recompress is None:
        mon.check(tuple(tt.rank if method != "stream" else np.minimum(l, r)) == tuple(ref.rank), "rank of the result")
        mon.check(oracle.fro(R - D) <= tol, lambda: "the %s experiment measures another approximation (relative difference %.3g)" % (
            method, oracle.fro(R - D) / oracle.fro(D)))
    else:
        each = recompress if isinstance(recompress, tuple) else (recompress,) * (d - 1)
        mon.check(all(k <= m for k, m in zip(tt.rank, each)), "recompressed to rank %s, requested %s" % (tt.rank, recompress))
        each = oracle.feasible(shp, each)  # smaller ranks that allow the same tensors
        tails = [math.sqrt(float(np.sum(s[m:] ** 2))) for s, m in zip(oracle.unfolding_svals(D), each)]
        err = oracle.fro(R - D)
        mon.check(max(tails) - tol <= err <= math.sqrt(sum(x * x for x in tails)) + tol,
                  lambda: "recompression: error %.3g, expected %.3g to %.3g" % (err, max(tails), math.sqrt(sum(x * x for x in tails))))
        mon.count("recompressed")
    want = oracle.fro(R - case.X) / nrm
    mon.check(abs(plain["error"] - want) <= 1e-6 * (1 + want) if want < 1e12 else True,
              lambda: "%s: error %.6g, actual relative error %.6g" % (method, plain["error"], want))
    mon.count("reruns")


@family("C30", "stored", 40, 600, need={"stored": 2.0}, timeout=120)
def stored(mon, rng):
    """Through the store: the arguments and the results in one row."""
    from scripts import experiment_base as eb

    shp = gen.shape(rng, max_size=300)
    case = gen.tensor(rng, gen.pick(rng, gen.KINDS), shp)
    if not oracle.fro(case.X) > 0:
        return
    names = [n for n in gen.drm_types() if gen.supports(case, n)]
    with tempfile.TemporaryDirectory(prefix="ttmon-c30-") as folder, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exp = eb.Experiment(os.path.join(folder, "x.csv"))
        rows = []
        for run in range(int(rng.integers(2, 5))):
            D = gen.drm_types()[gen.pick(rng, names)]
            k = int(rng.integers(1, 5))
            which = gen.pick(rng, ["stream", "orthogonal", "hmt", "svd"])
            seen = []

            def err(a, b):
                seen.append(float(oracle.fro(a.to_numpy() - b.to_numpy())))
                return seen[-1]

            if which == "hmt":
                f, kw = eb.experiment_hmt_sketch, dict(rank=k, drm_type=D)
            elif which == "svd":
                f, kw = eb.experiment_tt_svd, dict(rank=k)
            else:
                f = eb.experiment_stream_sketch if which == "stream" else eb.experiment_orthogonal_sketch
                kw = dict(left_rank=k, right_rank=k + 2, left_drm_type=D, right_drm_type=D)
            kw.update(run=run, error_func=err)
            exp.do_experiment(case.obj, which, f, **kw)
            mon.check(len(seen) == 1, "the experiment was not run")
            rows.append((which, kw, seen[0]))
        back = eb.Experiment.load(os.path.join(folder, "x.csv")).data
        for data in (exp.data, back):
            mon.check(len(data) == len(rows), "rows")
            for (which, kw, e), (_, row) in zip(rows, data.iterrows()):
                mon.check(row["name"] == which and float(row["error"]) == e and float(row["time_taken"]) > 0, "name or result")
                for a, v in kw.items():
                    v = getattr(v, "__name__", v)
                    mon.check(row[a] == v or float(row[a]) == float(v), "argument %s: %r" % (a, row[a]))
        mon.count("stored", len(rows))
        mon.sig(case.kind, shp, tuple(r[0] for r in rows))


@family("C30", "cookies", 40, 500, need={"applied": 1.0}, timeout=120)
def cookies(mon, rng):
    """The parametrized problem is the one that is described by its file."""
    import scipy.io
    import scipy.sparse

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from scripts import cookie_problem as cp
    from tt_sketch import tensor as tm
    from tt_sketch.tt_gmres import tt_sum_gmres

    count = int(gen.pick(rng, [4, 4, 9]))
    n = int(rng.integers(2, 8))
    m = int(rng.integers(2, 5)) if count == 4 else 2
    if count == 9:
        n = min(n, 4)

    def spd():
        M = rng.standard_normal((n, n))
        M = M @ M.T
        M[np.abs(M) < 0.3] = 0
        return (M + M.T) / 2 + np.diag(np.sum(np.abs(M), axis=1))

    mats = [spd() + np.eye(n)] + [0.1 * spd() for _ in range(count)]
    b = rng.standard_normal(n)
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="ttmon-c30-") as folder:
        os.chdir(folder)
        try:
            for name in (cp.COOKIES_2x2_FILE, cp.COOKIES_3x3_FILE):
                os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
            cell = np.empty((1, count + 1), dtype=object)
            for i, M in enumerate(mats):
                cell[0, i] = scipy.sparse.csc_matrix(M)
            scipy.io.savemat(cp.COOKIES_2x2_FILE if count == 4 else cp.COOKIES_3x3_FILE, {"A": cell, "b": b.reshape(-1, 1)})
            A, B, P = cp.prepare_cookie_problem(m, count)
            try:
                cp.prepare_cookie_problem(m, 5)
                mon.check(False, "a cookie problem with 5 cookies")
            except ValueError:
                pass
        finally:
            os.chdir(here)
    shp = (n,) + (m,) * count
    d = len(shp)
    mon.note(cookies=count, shape=shp)
    mon.sig(count, shp)
    p = np.linspace(0, 10, m)

    def apply(X):
        out = np.tensordot(mats[0], X, axes=(1, 0))
        for i, M in enumerate(mats[1:], 1):
            Y = np.tensordot(M, X, axes=(1, 0))
            out = out + Y * p.reshape((1,) * i + (m,) + (1,) * (d - i - 1))
        return out

    mon.check(tuple(A.in_shape) == shp == tuple(A.out_shape), "shape of the map")
    x = gen.tensor(rng, "tt", shp, "float", rank=oracle.feasible(shp, tuple(int(rng.integers(1, 4)) for _ in shp[1:])))
    with gen.Pure(mon, "cookie map", x.obj):
        Y = A(x.obj)
        PX = P(x.obj)
    want = apply(x.X)
    mon.check(oracle.fro(Y.to_numpy() - want) <= 1e-11 * (oracle.fro(apply(x.Xabs)) + oracle.fro(want)), "map of the cookie problem")
    rhs = np.broadcast_to(b.reshape((n,) + (1,) * count), shp)
    mon.check(oracle.fro(B.to_numpy() - rhs) <= 1e-13 * oracle.fro(rhs), "right-hand side of the cookie problem")
    mean = mats[0] + sum(M * 5.0 for M in mats[1:])
    mon.check(oracle.fro(np.tensordot(mean, PX.to_numpy(), axes=(1, 0)) - x.X) <= 1e-9 * np.linalg.cond(mean) * oracle.fro(x.X),
              "preconditioner of the cookie problem")
    mon.count("applied")
    if count == 4:
        state = np.random.get_state()
        try:
            np.random.seed(int(rng.integers(2**31)))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sol, hist = tt_sum_gmres(A=A, b=B, precond=P, max_rank=n * m * m, maxiter=30, tolerance=1e-9, symmetric=False,
                                         rounding_method="exact")
        finally:
            np.random.set_state(state)
        r = oracle.fro(apply(sol.to_numpy()) - rhs) / oracle.fro(rhs)
        mon.check(r <= 1e-4, "solution of the cookie problem: relative residual %.3g" % r)
        mon.count("solved")


def run_script(name, stubs):
    """Namespace of a script, run in a folder of its own with stand-ins for
    some of the modules it imports."""
    import logging
    import runpy
    import sys

    import scripts

    path = os.path.join(list(scripts.__path__)[0], name)
    here, root = os.getcwd(), logging.getLogger()
    handlers, level = list(root.handlers), root.level
    old = {k: sys.modules.get(k) for k in stubs}
    argv = sys.argv
    with tempfile.TemporaryDirectory(prefix="ttmon-c30-") as folder, open(os.devnull, "w") as null:
        os.makedirs(os.path.join(folder, "results"))
        os.chdir(folder)
        sys.modules.update(stubs)
        try:
            with contextlib.redirect_stderr(null), contextlib.redirect_stdout(null):
                return runpy.run_path(path)
        finally:
            os.chdir(here)
            sys.argv = argv
            for k, m in old.items():
                if m is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = m
            for h in list(root.handlers):
                if h not in handlers:
                    root.removeHandler(h)
                    h.close()
            root.setLevel(level)


@family("C30", "cookie_script", 6, 100, need={"script_experiments": 0.9}, timeout=120)
def cookie_script(mon, rng):
    """The experiment of the cookie script: errors and residuals of the
    solution that its arguments describe."""
    import types

    from tt_sketch import tensor as tm
    from tt_sketch.tt_gmres import MPO, TTLinearMapSum, TTPrecond, round_tt_sum, tt_sum_gmres

    n, m, count = int(rng.integers(2, 6)), int(rng.integers(2, 4)), 2
    shp = (n,) + (m,) * count
    d = len(shp)

    def spd():
        M = rng.standard_normal((n, n))
        return M @ M.T / n

    mats = [spd() + 2 * np.eye(n)] + [0.1 * spd() for _ in range(count)]
    p = np.linspace(0, 10, m)
    maps = []
    for i, M in enumerate(mats):
        cores = [M.T.reshape(1, n, n, 1)] + [(np.diag(p) if k == i else np.eye(m)).reshape(1, m, m, 1) for k in range(1, d)]
        maps.append(MPO(cores))
    A = TTLinearMapSum(maps)
    b = rng.standard_normal(n)
    B = tm.TensorTrain([b.reshape(1, n, 1)] + [np.ones((1, m, 1)) for _ in range(count)])
    mean = mats[0] + sum(M * 5.0 for M in mats[1:])
    P = TTPrecond(mean, shp, mode=0)

    asked, done = [], []

    def prepare(*a, **k):
        asked.append((a, k))
        return A, B, P

    class Store:
        def __init__(self, *a, **k):
            pass

        def do_experiment(self, tensor, name, func, **kw):
            done.append((name, func, kw))

    stubs = {"cookie_problem": types.SimpleNamespace(prepare_cookie_problem=prepare),
             "experiment_base": types.SimpleNamespace(Experiment=Store)}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run_script("do_cookie.py", stubs)
    if not all({"rounding_method", "rounding_method_final", "max_rank", "final_round_ranks"} <= set(kw) for _, _, kw in done) or not done:
        mon.skip("the script does other experiments")
    keys = [(name, tuple(sorted((k, str(v)) for k, v in kw.items()))) for name, _, kw in done]
    mon.check(len(set(keys)) == len(keys), "an experiment is done twice")
    mon.count("experiments_of_the_script", len(keys))
    methods = sorted({(kw["rounding_method"], kw["rounding_method_final"]) for _, _, kw in done})
    first, final = methods[int(rng.integers(len(methods)))]
    func, base = gen.pick(rng, [(f, kw) for _, f, kw in done if (kw["rounding_method"], kw["rounding_method_final"]) == (first, final)])
    ranks = tuple(int(x) for x in rng.integers(1, 8, size=int(rng.integers(1, 5))))
    max_rank = int(rng.integers(2, 20))
    kw = dict(base, max_rank=max_rank, final_round_ranks=ranks)
    mon.note(shape=shp, arguments={k: str(v) for k, v in kw.items()})
    mon.sig(first, final, shp, max_rank, ranks)

    def apply(X):
        return sum(np.tensordot(M, X, axes=(1, 0)) * (p.reshape((1,) * i + (m,) + (1,) * (d - i - 1)) if i else 1.0) for i, M in enumerate(mats))

    seed = int(rng.integers(2**31))
    state = np.random.get_state()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(seed)
            with gen.Pure(mon, "cookie experiment", B):
                t0 = time.perf_counter()
                res = func(None, **kw)
                wall = time.perf_counter() - t0
            np.random.seed(seed)
            sol, hist = tt_sum_gmres(A=A, b=B, precond=P, x0=tm.TensorTrain.zero(shp, 1), max_rank=max_rank, final_round_rank=None,
                                     maxiter=50, tolerance=0, symmetric=True, rounding_method=first, rounding_method_final=None)
            rounded = [round_tt_sum(tm.TensorSum([sol]), k, method=final, eps=None) for k in ranks]
    finally:
        np.random.set_state(state)
    last = hist["residual_norm"][-1]
    mon.check(abs(res["last_residual"] - last) <= 1e-6 * last + 1e-13, lambda: "last residual %.6g, actual %.6g" % (res["last_residual"], last))
    for key in ("true_error", "precond_error", "final_round_time"):
        mon.check(len(res[key]) == len(ranks), "%d numbers %s for %d ranks" % (len(res[key]), key, len(ranks)))
    inv = np.linalg.inv(mean)
    D = B.to_numpy()
    for i, X in enumerate(rounded):
        X = X.to_numpy()
        R = apply(X) - D
        want = oracle.fro(R) / oracle.fro(D)
        mon.check(abs(res["true_error"][i] - want) <= 1e-6 * want + 1e-10, lambda: "rank %d: error %.6g, actual %.6g" % (
            ranks[i], res["true_error"][i], want))
        want = oracle.fro(np.tensordot(inv, R, axes=(1, 0))) / oracle.fro(np.tensordot(inv, D, axes=(1, 0)))
        mon.check(abs(res["precond_error"][i] - want) <= 1e-6 * want + 1e-10, lambda: "rank %d: preconditioned error %.6g, actual %.6g" % (
            ranks[i], res["precond_error"][i], want))
    times = [float(x) for x in res["final_round_time"]]
    mon.check(all(x > 0 for x in times) and sum(times) + res["gmres_time"] <= wall and res["gmres_time"] > 0, "times of the cookie experiment")
    mon.count("script_experiments")


def functions_of(name):
    """The functions of a script, without running the rest of it."""
    import ast

    import scripts

    with open(os.path.join(list(scripts.__path__)[0], name)) as f:
        tree = ast.parse(f.read())
    tree.body = [x for x in tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.ImportFrom, ast.Import))
                 or isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant)]
    keep = []
    for x in tree.body:
        names = [a.name for a in x.names] if isinstance(x, ast.Import) else [x.module] if isinstance(x, ast.ImportFrom) else []
        if any(str(k).split(".")[0] in ("experiment_base", "matplotlib", "tqdm", "cookie_problem") for k in names):
            continue
        keep.append(x)
    tree.body = keep
    out = {}
    exec(compile(tree, name, "exec"), out)
    return out


@family("C30", "error_functions", 40, 600, need={"errors": 0.9})
def error_functions(mon, rng):
    """Error functions of the plotting scripts: relative errors."""
    from tt_sketch.sketch import stream_sketch
    from tt_sketch.tensor import TensorTrain

    script = gen.pick(rng, ["plot_dimension_scaling.py", "plot_dimension_scaling_gaussian.py", "plot_timings.py"])
    f = functions_of(script).get("tt_error_func")
    if f is None:
        mon.skip("no such function")
    shp = gen.shape(rng, 2, 5, 5, 300)
    t = gen.tensor(rng, "tt", shp, "float")
    how = gen.pick(rng, ["other", "near", "same", "sketched", "zero"])
    if how == "zero":
        z = TensorTrain.zero(shp, 1)
        mon.check(f(t.obj, z) == np.inf, "relative error to zero")
    else:
        other = t.obj
        if how == "other":
            other = gen.tensor(rng, "tt", shp, "float").obj
        elif how == "near":
            other = t.obj.add(gen.tensor(rng, "tt", shp, "float").obj * 10.0 ** rng.uniform(-8, 0))
        elif how == "sketched":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                other = stream_sketch(t.obj, 2, 4, seed=int(rng.integers(2**31)))
        if not oracle.fro(t.X) > 0:
            return
        with gen.Pure(mon, "error function", t.obj):
            got = f(other, t.obj)
        X = other.to_numpy()
        want = oracle.fro(X - t.X) / oracle.fro(t.X)
        size = (oracle.fro(X) + oracle.fro(t.Xabs)) / oracle.fro(t.X)
        if how == "sketched":
            size *= 1 + sum(oracle.fro(C) for C in other.C_cores())
        mon.check(abs(got - want) <= 1e-6 * want + 1e-7 * size, lambda: "%s, %s: error %.6g, actual %.6g" % (script, how, got, want))
    mon.note(script=script, shape=shp, how=how)
    mon.sig(script, shp, how)
    mon.count("errors")
