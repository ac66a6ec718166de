"""Case runner: generation seeds, worker pool, verdicts, evidence, replay."""
import argparse
import collections
import faulthandler
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import zlib

from . import pool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

FAMILIES = collections.OrderedDict()  # (prop, name) -> Family


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Family:
    def __init__(self, prop, name, func, quick, thorough, need, serial, final, timeout):
        self.prop, self.name, self.func = prop, name, func
        self.quick, self.thorough = quick, thorough
        self.need = need or {}
        self.serial = serial
        self.final = final
        self.timeout = timeout


def family(prop, name, quick, thorough=None, need=None, serial=False, final=None, timeout=60):
    """Register a workload + monitor.  ``need``: counters which have to reach
    this fraction of the number of cases (else the run is inconclusive)."""

    def deco(f):
        FAMILIES[(prop, name)] = Family(
            prop, name, f, quick, thorough if thorough is not None else quick * 20,
            need, serial, final, timeout,
        )
        return f

    return deco


class Mon:
    """What one case observed."""

    def __init__(self, prop, fam, seed, tier="quick"):
        self.prop, self.fam, self.seed, self.tier = prop, fam, seed, tier
        self.counters = collections.Counter()
        self.sigs = set()
        self.emitted = []
        self.desc = {}

    # --- verdicts
    def check(self, cond, msg, key=None):
        self.counters["checks"] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def close(self, got, want, tol, what, key=None):
        import numpy as np

        got, want = np.asarray(got), np.asarray(want)
        self.check(
            got.shape == want.shape,
            lambda: "%s: shape %s instead of %s" % (what, got.shape, want.shape),
            key,
        )
        if got.size == 0:
            return 0.0
        if got.dtype == object:
            raise Violation("%s: got an array of objects" % what, key)
        diff = np.abs(got - want)
        if np.ndim(tol):  # every entry has its own tolerance
            bad = ~(diff <= tol)
            self.check(
                not np.any(bad),
                lambda: "%s: differs by %.3g, tolerance %.3g, at %s" % (
                    what, diff[bad][0], np.broadcast_to(tol, diff.shape)[bad][0], tuple(int(i) for i in np.argwhere(bad)[0])),
                key,
            )
            return float(np.max(diff))
        err = float(np.max(diff))
        self.check(
            err <= tol,
            lambda: "%s: differs by %.3g, tolerance %.3g" % (what, err, tol),
            key,
        )
        return err

    def equal(self, got, want, what, key=None):
        import numpy as np

        a, b = np.asarray(got), np.asarray(want)
        self.check(
            a.shape == b.shape and bool(np.all(a == b)),
            lambda: "%s: got %s, expected %s" % (what, _short(a), _short(b)),
            key,
        )

    def raises(self, exc, f, what, key=None):
        """``f`` has to raise one of ``exc``."""
        try:
            r = f()
        except exc:
            self.count("rejected")
            self.counters["checks"] += 1
            return
        except Exception as e:  # any other exception: still rejected loudly
            raise Violation(
                "%s: raised %s (%s)" % (what, type(e).__name__, e), key
            )
        raise Violation("%s: accepted, gave %s" % (what, _short(r)), key)

    # --- observation
    def count(self, name, n=1):
        self.counters[name] += n

    def sig(self, *parts):
        self.sigs.add(zlib.crc32(repr(parts).encode()) | (len(parts) << 32))

    def emit(self, value):
        self.emitted.append(value)

    def note(self, **kw):
        self.desc.update(kw)

    def skip(self, reason="precondition"):
        raise Skip(reason)


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def case_seed(verif_seed, prop, fam, i):
    h = hashlib.sha256(("%s|%s|%s|%s" % (verif_seed, prop, fam, i)).encode()).digest()
    return int.from_bytes(h[:6], "big")


HARNESS_SHAPES = (
    TypeError, ValueError, AttributeError, IndexError, KeyError,
    ZeroDivisionError, ArithmeticError, AssertionError, StopIteration,
    RuntimeError, NameError, UnboundLocalError, NotImplementedError,
)


def run_case(key, seed, tier):
    """Returns a plain dict."""
    import numpy as np

    fam = FAMILIES[key]
    mon = Mon(fam.prop, fam.name, seed, tier)
    out = {"key": key, "seed": seed, "status": "ok", "msg": None, "vkey": None}

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(fam.timeout)
    try:
        np.random.seed(seed % 2**32)
        with np.errstate(all="ignore"):
            fam.func(mon, np.random.default_rng(seed))
    except Skip as e:
        out["status"] = "skip"
        out["msg"] = str(e)
    except Violation as e:
        out.update(status="violation", msg=str(e), vkey=e.key)
    except CaseTimeout:
        # A case takes milliseconds: the code under test does not terminate
        out.update(status="violation", vkey="hang", msg="no result after %d s" % fam.timeout)
    except Exception as e:
        from . import boot

        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(
            fr.filename.startswith(boot.REPO + "/") or fr.filename.endswith(".pyx")
            for fr in tb
        )
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if isinstance(e, (MemoryError, OSError)) and not in_repo:
            out.update(status="error", msg=text)
        elif in_repo:
            out.update(
                status="violation",
                msg="unexpected %s on valid input: %s\n%s" % (type(e).__name__, e, text[-1800:]),
                vkey="exception",
            )
        elif isinstance(e, HARNESS_SHAPES):
            # The monitors run silently on the unchanged tree with the very same
            # deterministic cases, so the code returned something of another form
            out.update(
                status="violation",
                msg="result can't be interpreted: %s: %s\n%s" % (type(e).__name__, e, text[-1800:]),
                vkey="malformed",
            )
        else:
            out.update(status="error", msg=text)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out["counters"] = dict(mon.counters)
    out["sigs"] = sorted(mon.sigs)
    out["emitted"] = mon.emitted
    out["desc"] = _jsonable(mon.desc)
    return out


def _jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist()) if x.size <= 20 else "array%s" % (x.shape,)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, float) and x != x:
        return "nan"
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


def _worker(job):
    key, seed, tier = job
    return run_case(key, seed, tier)


def load_findings():
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line[len("finding:"):].split()
            kv = dict(p.split("=", 1) for p in parts[:2])
            out[(kv["property"], kv["key"])] = " ".join(parts[2:])
    return out


def import_prop(prop):
    mods = sorted(
        f[:-3] for f in os.listdir(os.path.join(VERIF, "ttmon", "props"))
        if f.startswith("c") and f.endswith(".py")
    )
    want = [m for m in mods if prop.lower() in m.split("_")]
    if not want:
        raise SystemExit("no module for property " + prop)
    for m in want:
        importlib.import_module("ttmon.props." + m)
    return sys.modules["ttmon.props." + want[0]]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--setup", action="store_true", help="check that the tools are there, and that /repo builds")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("TTMON_JOBS", "8")))
    ap.add_argument("--family")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args(argv)
    faulthandler.enable()
    from . import boot

    try:
        if args.setup:
            for variant in ("plain", "asan", "bounds"):
                boot.build_ext(variant)
            boot.boot()
            print("setup: /repo builds in all variants")
            return 0
        if not args.property:
            ap.error("--property is required")
        return _main(args, boot)
    except boot.BootError as e:
        print("ERROR: could not build or import /repo:\n%s" % e)
        return 2
    finally:
        boot.cleanup()


#: how many times the registered numbers of cases a quick run makes
QUICK_FACTOR = {
    "C05": 8, "C06": 10, "C07": 10, "C08": 10, "C09": 2, "C11": 1.5, "C12": 1.5, "C13": 1, "C14": 24, "C16": 24, "C17": 12,
    "C18": 2, "C19": 20, "C20": 16, "C21": 30, "C22": 6, "C23": 3, "C24": 16, "C25": 10, "C26": 10, "C27": 24, "C28": 5,
    "C29": 2,
}
#: seconds after which no new cases are started (slow machines)
DEADLINE = {"quick": 400, "thorough": 5400}


def _main(args, boot):
    t0 = time.time()
    prop, tier = args.property, args.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        boot.boot()
        mod = import_prop(prop)
    except boot.BootError:
        raise
    except Exception:
        traceback.print_exc()
        raise boot.BootError("import failed")
    t_boot = time.time() - t0

    if args.replay:
        rec = json.load(open(args.replay))
        out = run_case((rec["property"], rec["family"]), rec["case_seed"], rec.get("tier", "quick"))
        print(json.dumps({k: out[k] for k in ("key", "seed", "status", "msg", "desc")}, indent=1))
        if out["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        return 0 if out["status"] in ("ok", "skip") else 2

    fams = [f for (p, _), f in FAMILIES.items() if p == prop]
    if args.family:
        fams = [f for f in fams if f.name == args.family]
    jobs, serial_jobs = [], []
    n_cases = {}
    for fam in fams:
        n = fam.quick * QUICK_FACTOR.get(prop, 4)
        if tier != "quick":
            n = max(fam.thorough, 5 * n)
        n = max(1, int(round(n * args.scale)))
        n_cases[fam.name] = n
        for i in range(n):
            job = ((prop, fam.name), case_seed(args.seed, prop, fam.name, i), tier)
            (serial_jobs if fam.serial else jobs).append(job)
    results = []
    if jobs:
        # interleave families, so that the workers stay busy
        jobs.sort(key=lambda j: zlib.crc32(repr(j).encode()))
        chunk = max(1, min(16, len(jobs) // (args.jobs * 8) or 1))

        def crashed(job, text, is_crash):
            return {"key": job[0], "seed": job[1], "msg": text, "vkey": "crash",
                    "status": "violation" if is_crash else "error",
                    "counters": {}, "sigs": [], "emitted": [], "desc": {}}

        known_keys = load_findings()

        def enough(rs):
            if time.time() - t0 > DEADLINE[tier]:
                return True
            return not args.keep_going and rs[-1]["status"] == "violation" and (
                sum(x["status"] == "violation" and (prop, x["vkey"]) not in known_keys for x in rs) >= 25
                or sum(x["vkey"] == "hang" for x in rs) >= 4)

        results = pool.run(_worker, jobs, args.jobs, chunk, crashed, enough)
    for job in serial_jobs:
        results.append(_worker(job))
    order = {f.name: i for i, f in enumerate(fams)}
    results.sort(key=lambda r: (order[r["key"][1]], r["seed"]))

    by_fam = collections.OrderedDict((f.name, []) for f in fams)
    for r in results:
        by_fam[r["key"][1]].append(r)
    viol = [r for r in results if r["status"] == "violation"]

    # monitors over the whole run (statistics of what the cases emitted)
    if not viol:
        for fam in fams:
            if fam.final is None:
                continue
            mon = Mon(prop, fam.name, 0, tier)
            vals = [v for r in by_fam[fam.name] for v in r["emitted"]]
            try:
                fam.final(mon, vals)
                st = {"status": "ok", "msg": None, "vkey": None}
            except Violation as e:
                st = {"status": "violation", "msg": str(e), "vkey": e.key}
            except Skip:
                st = {"status": "skip", "msg": None, "vkey": None}
            st.update(key=(prop, fam.name), seed=-1, counters=dict(mon.counters),
                      sigs=[], emitted=[], desc=_jsonable(mon.desc))
            by_fam[fam.name].append(st)
            results.append(st)
            if st["status"] == "violation":
                viol.append(st)

    known = load_findings()
    new, found = [], collections.OrderedDict()
    for r in viol:
        if (prop, r["vkey"]) in known:
            found.setdefault(r["vkey"], r)
        else:
            new.append(r)

    # --- evidence
    total = collections.Counter()
    fam_ev = {}
    sigs = set()
    samples = []
    for name, rs in by_fam.items():
        c = collections.Counter()
        for r in rs:
            c.update(r["counters"])
            sigs.update((name, s) for s in r["sigs"])
        st = collections.Counter(r["status"] for r in rs)
        total.update(c)
        fam_ev[name] = {"cases": len(rs), "status": dict(st), "observed": dict(c)}
        for r in rs:
            if r["seed"] == -1 and r["desc"]:
                fam_ev[name]["summary"] = r["desc"]
        for r in rs:
            if r["desc"] and r["status"] == "ok":
                samples.append(dict(family=name, case_seed=r["seed"], **r["desc"]))
                if sum(s["family"] == name for s in samples) >= 2:
                    break
    errors = [r for r in results if r["status"] == "error"]
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": getattr(mod, "RULE", {}).get(prop, "") if isinstance(getattr(mod, "RULE", ""), dict) else getattr(mod, "RULE", ""),
            "samples": samples[:12] or [{"note": "no case completed"}],
            "monitor_checks": total.get("checks", 0),
            "observed": {k: v for k, v in sorted(total.items()) if k != "checks"},
            "families": fam_ev,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if not args.family:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(_jsonable(ev), f, indent=1)
        os.rename(path + ".tmp", path)

    for vkey, r in found.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, vkey)]))
    print(
        "%s %s seed=%d: %d cases, %d monitor checks, %d distinct, %d violations, boot %.1fs, total %.1fs"
        % (prop, tier, args.seed, len(results), total.get("checks", 0), len(sigs), len(new), t_boot, wall)
    )
    if args.family or os.environ.get("TTMON_VERBOSE"):
        print(json.dumps(fam_ev, indent=1))
    if new:
        new.sort(key=lambda r: r["seed"] == -1)
        seen = set()
        for r in new:
            tag = (r["key"][1], (r["msg"] or "")[:60])
            if tag in seen or len(seen) >= 6:
                continue
            seen.add(tag)
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%d.json" % (prop, r["key"][1], r["seed"]))
            with open(rp, "w") as f:
                json.dump({"property": prop, "family": r["key"][1], "case_seed": r["seed"],
                           "tier": tier, "verif_seed": args.seed, "message": r["msg"],
                           "case": r["desc"]}, f, indent=1)
            print("  [%s] %s" % (r["key"][1], r["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        for r in errors[:3]:
            print("ERROR (%s) in family %s, case %d: %s" % (r["status"], r["key"][1], r["seed"], r["msg"]))
        return 2
    if args.scale == 1.0:
        for fam in fams:
            obs = collections.Counter(fam_ev[fam.name]["observed"])
            for cname, frac in fam.need.items():
                n = min(n_cases[fam.name], fam_ev[fam.name]["cases"])
                if obs[cname] < frac * n:
                    print("INCONCLUSIVE: family %s observed %s only %d times in %d cases"
                          % (fam.name, cname, obs[cname], n))
                    return 2
            if not obs["checks"]:
                print("INCONCLUSIVE: the monitor of family %s never checked anything" % fam.name)
                return 2
    return 0
