#!/usr/bin/env python3
"""Confirms planted changes.  usage: plant.py SPEC.py [id ...]

SPEC.py defines BUGS: a list of dicts(id, property, edits=[(file, old, new)],
demo, needs, breaks).  For each: a scratch copy of /repo, the edit, build,
stable tests, demonstration with and without the change, and what the check of
the property says.  Confirmed ones are written to /verif/seeded/<id>/."""
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/plant-copy"


def sh(cmd, cwd=None, env=None, timeout=1800):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
    return p.returncode, p.stdout


def demo_in(tree, folder):
    return sh(["bash", os.path.join(folder, "demo.sh")], cwd=tree, timeout=300)


def tests(tree):
    return sh("/opt/venv/bin/python -s -m pytest -q -x -n 8 -p no:cacheprovider --randomly-seed=1 --randomly-dont-reorganize tests 2>&1 | tail -5",
              cwd=tree, env={"PYTHONPATH": tree, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
                             "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg"})


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        if not only and os.path.exists(os.path.join(VERIF, "seeded", b["id"])):
            continue
        shutil.rmtree("/tmp/plant-copy", ignore_errors=True)
        shutil.copytree("/repo", COPY, symlinks=True)
        out = "/tmp/plant-out/" + b["id"]
        shutil.rmtree("/tmp/plant-out", ignore_errors=True)
        os.makedirs(out)
        ok = True
        native = False
        for f, old, new in b["edits"]:
            p = os.path.join(COPY, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT: %d matches in %s" % (s.count(old), f))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
            native |= f.endswith(".pyx")
        if not ok:
            continue
        diff = sh("git diff", cwd=COPY)[1]
        open(out + "/patch.diff", "w").write(diff)
        # removed lines must be lines of the original repository
        for f, old, new in b["edits"]:
            blame = sh("git blame -s HEAD -- " + f, cwd=COPY)[1].splitlines()
            hunk = [l[1:] for l in sh("git diff -U0 -- " + f, cwd=COPY)[1].splitlines() if l.startswith("-") and not l.startswith("---")]
            for l in hunk:
                hits = [x for x in blame if x.endswith(l) and l.strip()]
                if hits and not any(x.startswith("^") for x in hits):
                    print(b["id"], "NOT ORIGINAL:", l)
                    ok = False
        open(out + "/demo.py", "w").write(b["demo"])
        open(out + "/demo.sh", "w").write(
            '#!/bin/bash\n# exit 0: behaves as stated; nonzero: broken\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -s "$here/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        if native:
            rc, o = sh("/opt/venv/bin/python setup.py build_ext --inplace", cwd=COPY)
            if rc:
                print(b["id"], "BUILD", o[-500:])
                continue
        rc, o = demo_in("/repo", out)
        if rc:
            print(b["id"], "DEMO FAILS ON CLEAN", o[-700:])
            continue
        rc, o = demo_in(COPY, out)
        if rc == 0:
            print(b["id"], "DEMO PASSES ON BROKEN")
            continue
        msg = o.strip().splitlines()[-1:] or [""]
        t = tests(COPY)
        if "failed" in t[1] or "error" in t[1].lower() or "passed" not in t[1]:
            print(b["id"], "TESTS FAIL", t[1][-300:])
            continue
        if not ok:
            continue
        caught = []
        for prop in [b["property"]]:
            rc, o = sh([sys.executable, VERIF + "/check.py", "--property", prop], cwd=VERIF, env={"TTMON_REPO": COPY, "VERIF_SEED": "1", "TTMON_CACHE": "/tmp/ttcache"})
            caught.append("%s:%s %s" % (prop, {0: "MISSED", 1: "caught"}.get(rc, "rc=%d" % rc), " | ".join(l.strip() for l in o.splitlines() if l.startswith("  ["))[:160]))
            if rc == 2:
                print(o[-400:])
        dst = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(b["id"], "KEPT demo:", msg[0][:100], "||", *caught, flush=True)
    shutil.rmtree("/tmp/plant-copy", ignore_errors=True)


if __name__ == "__main__":
    main()
