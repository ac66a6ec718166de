"""Builds the native module of /repo's working tree in a scratch folder, and
imports the package from /repo with it.

Nothing is written in /repo: byte code goes to the scratch folder as well, so
that neither a stale .pyc nor a stale .so of /repo is ever used."""
import hashlib
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("TTMON_REPO", "/repo")
PY = "/opt/venv/bin/python"


class BootError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="ttmon-")
    return _scratch


def cleanup():
    if _scratch is not None and os.path.basename(_scratch).startswith("ttmon-"):
        shutil.rmtree(_scratch, ignore_errors=True)


def _run(cmd, **kw):
    p = subprocess.run(
        cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw
    )
    if p.returncode:
        raise BootError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def pyx_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "tt_sketch")):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for f in sorted(files):
            if f.endswith(".pyx"):
                path = os.path.join(root, f)
                rel = os.path.relpath(path, REPO)
                out.append((rel[:-4].replace(os.sep, "."), path))
    return sorted(out)


def build_ext(variant="plain"):
    """Compile every .pyx of the package; returns {module name: .so path}.

    Variants: ``plain`` (the flags of setup.py), ``asan`` (address and undefined
    behaviour sanitizers), ``bounds`` (Cython's own bounds checks, which the
    module switches off, switched on again)."""
    import numpy

    inc = [
        "-I" + sysconfig.get_paths()["include"],
        "-I" + numpy.get_include(),
    ]
    base = ["x86_64-linux-gnu-gcc", "-shared", "-fPIC", "-w", "-fwrapv", "-g"]
    if shutil.which(base[0]) is None:
        base[0] = "gcc"
    flags = {
        "plain": ["-O2", "-fopenmp", "-DNDEBUG"],
        "bounds": ["-O1", "-fopenmp"],
        "asan": [
            "-O1",
            "-fopenmp",
            "-fno-omit-frame-pointer",
            "-fsanitize=address,undefined",
            "-fno-sanitize-recover=undefined",
            "-fno-sanitize=alignment",
        ],
    }[variant]
    if variant == "asan":
        base.remove("-fwrapv")
    result = {}
    for name, path in pyx_files():
        with open(path) as f:
            src = f.read()
        key = hashlib.sha256((variant + name + src).encode()).hexdigest()[:20]
        cache = os.environ.get("TTMON_CACHE")  # only for development
        outdir = os.path.join(cache or scratch(), "ext-" + variant + "-" + key)
        so = os.path.join(outdir, name.split(".")[-1] + ".so")
        if not os.path.exists(so):
            os.makedirs(outdir, exist_ok=True)
            if variant == "bounds":
                src = re.sub(r"@cython\.boundscheck\(False\)[^\n]*\n", "\n", src)
                src = re.sub(
                    r"(#\s*cython\s*:.*)boundscheck\s*=\s*False", r"\1", src
                )
            here = os.path.dirname(path)
            for f in os.listdir(here):  # headers and .pxd files beside it
                if f.endswith((".pxd", ".pxi", ".h")):
                    shutil.copy(os.path.join(here, f), outdir)
            local = os.path.join(outdir, name.split(".")[-1] + ".pyx")
            with open(local, "w") as f:
                f.write(src)
            c = local[:-4] + ".c"
            cy = [PY, "-m", "cython", "-3", "--module-name", name, local, "-o", c]
            if variant == "bounds":
                cy[3:3] = ["-X", "boundscheck=True"]
            _run(cy, cwd=outdir)
            _run(base + flags + inc + ["-I" + here, c, "-o", so + ".tmp"])
            os.rename(so + ".tmp", so)
        result[name] = so
    if not result:
        raise BootError("no native module found in " + REPO)
    return result


def preload(sos):
    for name, so in sos.items():
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        spec = importlib.util.spec_from_file_location(name, so, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        loader.exec_module(mod)


def boot(variant="plain", sos=None):
    sys.pycache_prefix = os.path.join(scratch(), "pycache")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if sos is None:
        sos = build_ext(variant)
    preload(sos)
    import tt_sketch

    where = os.path.realpath(tt_sketch.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise BootError("tt_sketch imported from " + where)
    return sos
