"""Data sets of scripts/: downloaded completely, read exactly, only once."""
import gzip
import http.server
import io
import os
import pickle
import resource
import shutil
import signal
import socketserver
import struct
import socket
import sys
import tempfile
import threading

import numpy as np

from .. import gen
from ..core import family

RULE = {
    "C31": "Random data files and random sparse tensors in FROSTT text form, offered by a server of the check on the loopback "
    "interface; histories of calls with faults: connections that break off at a random byte, error pages, death of the process "
    "in the middle of a download or at a random line, files that can't grow. Distinct by (history of faults, size).",
}
ASSUMPTIONS = [
    "the server says how long a file is (connections that break off are noticed)",
    "C31: a crash is the death of the process, not of the machine",
]


class Server:
    """One file, and a plan of how the next requests are answered."""

    def __init__(self, name, content):
        self.name, self.content, self.files = name, content, {}
        self.plan, self.served, self.requests = [], 0, 0
        self.pid = None
        self.known = threading.Event()
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_GET(self):
                outer.answer(self)

        class TCP(socketserver.ThreadingMixIn, socketserver.TCPServer):
            daemon_threads = True
            allow_reuse_address = True

            def handle_error(self, *a):
                pass

        self.server = TCP(("127.0.0.1", 0), Handler)
        self.url = "http://127.0.0.1:%d/some/folder/%s" % (self.server.server_address[1], name)
        threading.Thread(target=self.server.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True).start()

    def answer(self, h):
        self.requests += 1
        how, at = self.plan.pop(0) if self.plan else ("ok", 1.0)
        body = self.files.get(h.path.split("/")[-1], self.content)
        if how == "error":
            h.send_error(404 if at < 0.5 else 503)
            return
        h.send_response(200)
        h.send_header("Content-Length", str(len(body)))
        h.end_headers()
        if how == "ok":
            h.wfile.write(body)
            self.served += 1
            return
        h.wfile.write(body[: int(at * len(body))])
        h.wfile.flush()
        if how == "kill":
            self.known.wait(20)
            # what was sent should have arrived
            threading.Event().wait(0.02)
            os.kill(self.pid, signal.SIGKILL)
        elif how == "reset":
            h.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        h.close_connection = True

    def close(self):
        self.server.shutdown()
        self.server.server_close()


def load(name):
    """The functions of a script of which not all imports exist any more."""
    import ast

    import scripts

    folder = list(scripts.__path__)[0]
    with open(os.path.join(folder, name)) as f:
        tree = ast.parse(f.read())
    out = {"__name__": name[:-3]}
    sys.path.insert(0, folder)
    try:
        for x in tree.body:
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                try:
                    exec(compile(ast.Module([x], []), name, "exec"), out)
                except ImportError:
                    pass
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                exec(compile(ast.Module([x], []), name, "exec"), out)
            elif isinstance(x, (ast.Assign, ast.AnnAssign)) and not any(isinstance(y, ast.Call) for y in ast.walk(x)):
                try:  # constants
                    exec(compile(ast.Module([x], []), name, "exec"), out)
                except NameError:
                    pass
    finally:
        sys.path.remove(folder)
    return out


def child(folder, server, f, fsize=None):
    """Runs f in a process of its own, in that folder: status, result."""
    sys.stdout.flush()
    r, w = os.pipe()
    server.known.clear()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.chdir(folder)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            sys.stdout = sys.stderr = io.StringIO()
            os.environ["no_proxy"] = "*"
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            out = f()
            sys.settrace(None)
            with os.fdopen(w, "wb") as p:
                pickle.dump(out, p)
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(w)
    server.pid = pid
    server.known.set()
    with os.fdopen(r, "rb") as p:
        data = p.read()
    _, status = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
    return code, pickle.loads(data) if code == 0 else None


FAULTS = ("short", "reset", "error", "kill")


@family("C31", "downloads", 40, 800, need={"calls": 2, "faults": 0.5, "complete": 0.9}, timeout=120)
def downloads(mon, rng):
    download = load("data_download_util.py")["download_data"]
    size = int(gen.pick(rng, [0, 1, 100, 8192, 8193, 30000, 200000]) * (1 if rng.random() < 0.3 else rng.uniform(0.5, 1.5)))
    content = rng.bytes(size)
    name = gen.pick(rng, ["a.tns.gz", "nips.tns.gz", "data.txt", "x", "set-5-5-5.tns.gz", "b.tar.gz"])
    folder = tempfile.mkdtemp(prefix="ttmon-c31-")
    server = Server(name, content)
    try:
        path = os.path.join(folder, "data", name)
        others = []
        if rng.random() < 0.4:  # the folder is there already, with another file
            os.mkdir(os.path.join(folder, "data"))
            others = [x for x in ("other", name + ".sha", name[:-1] + "_", "old-" + name, name + "0") if rng.random() < 0.5]
            for x in others:
                with open(os.path.join(folder, "data", x), "wb") as f:
                    f.write(b"other")
        done, history = False, []
        before_all = {x: os.path.join(folder, "data", x) for x in others}
        steps = [gen.pick(rng, FAULTS) if rng.random() < 0.6 else "ok" for _ in range(int(rng.integers(1, 5)))] + ["ok", "ok"]
        for how in steps:
            if size == 0 and how in ("short", "reset", "kill"):
                how = "error"  # nothing can break off
            at = float(rng.uniform(0, 0.99))
            server.plan = [(how, at)] * 6
            before = server.requests
            code, _ = child(folder, server, lambda: download(server.url))
            mon.count("calls")
            history.append(how)
            if done:
                mon.check(code == 0, lambda: "a call failed although the data set is there (%s)" % history)
                mon.check(server.requests == before, lambda: "downloaded again (%s)" % history)
            elif how == "ok":
                mon.check(code == 0, lambda: "the download failed (%s): %d" % (history, code))
            else:
                mon.check(code != 0, lambda: "a download that broke off went unnoticed (%s)" % history)
                mon.count("faults")
            if os.path.exists(path):
                with open(path, "rb") as f:
                    got = f.read()
                mon.check(got == content, lambda: "after %s: %d of %d bytes are taken for the data set" % (history, len(got), size))
            mon.check(code != 0 or os.path.isfile(path), lambda: "after %s: no file" % history)
            done = done or code == 0
        mon.check(server.served == 1, lambda: "%d downloads" % server.served)
        for x, there in before_all.items():
            ok = os.path.isfile(there)
            if ok:
                with open(there, "rb") as f:
                    ok = f.read() == b"other"
            mon.check(ok, lambda: "another file (%s) was changed" % x)
        mon.count("complete", int(done))
        mon.note(name=name, size=size, history=history)
        mon.sig(tuple(history), size)
    finally:
        server.close()
        shutil.rmtree(folder, ignore_errors=True)


def number(rng):
    k = rng.random()
    if k < 0.4:
        return str(int(rng.integers(1, 50)))
    if k < 0.6:
        return "%.1f" % rng.uniform(-9, 9)
    return repr(float(rng.standard_normal() * 10.0 ** rng.integers(-20, 20)))


@family("C31", "datasets", 30, 600, need={"read": 1.0, "faults": 0.3}, timeout=120)
def datasets(mon, rng):
    fr = load("frostt.py")
    d = int(rng.integers(2, 6))
    big = gen.pick(rng, [6, 6, 6, 10**6, 10**11, 2**62])
    shp = tuple(int(rng.integers(1, big)) for _ in range(d))
    total = 1
    for n in shp:
        total *= n
    nnz = int(min(total, rng.integers(1, 60)))
    idx = set()
    while len(idx) < nnz:
        idx.add(tuple(int(rng.integers(n)) for n in shp))
    idx = sorted(idx)
    if rng.random() < 0.5:
        idx = [idx[i] for i in rng.permutation(nnz)]
    vals = [number(rng) for _ in idx]
    text = "".join(" ".join(str(i + 1) for i in ind) + " " + v + "\n" for ind, v in zip(idx, vals))
    if rng.random() < 0.2:
        text = text[:-1]  # no newline at the end
    content = gzip.compress(text.encode())
    want = {ind: float(v) for ind, v in zip(idx, vals)}
    name = gen.pick(rng, ["uber.tns.gz", "m-5-5.tns.gz", "x.gz"])
    folder = tempfile.mkdtemp(prefix="ttmon-c31-")
    server = Server(name, content)

    def call():
        t = fr["get_frostt_tensor"](server.url, nnz, shp)
        return type(t).__name__, t.shape, np.asarray(t.indices), np.asarray(t.entries)

    def check(res, history):
        kind, shape, ind, ent = res
        mon.check(kind == "SparseTensor" and tuple(shape) == shp, lambda: "%s: %s of shape %s, expected %s" % (history, kind, shape, shp))
        mon.check(ind.shape == (d, nnz) and ent.shape == (nnz,), lambda: "%s: %s indices, %s entries" % (history, ind.shape, ent.shape))
        got = {tuple(int(i) for i in ind[:, k]): float(ent[k]) for k in range(nnz)}
        mon.check(got == want, lambda: "%s: other entries than those of the file" % history)
        mon.count("read")

    try:
        done, history = False, []
        steps = [gen.pick(rng, ["line", "line", "size", "short", "kill", "ok"]) for _ in range(int(rng.integers(1, 4)))] + ["ok", "ok"]
        for how in steps:
            history.append(how)
            server.plan = [(how if how in FAULTS else "ok", float(rng.uniform(0, 0.99)))]
            before = server.requests
            limit = None
            f = call
            if how == "size":
                limit = int(rng.integers(0, 1500))
            elif how == "line":
                keep = os.path.join(folder, "keep")
                if os.path.isdir(os.path.join(folder, "data")):
                    shutil.copytree(os.path.join(folder, "data"), keep)

                def dry():
                    n = [0]

                    def count(frame, event, arg):
                        n[0] += 1
                        return count

                    sys.settrace(count)
                    call()
                    sys.settrace(None)
                    return n[0]

                code, lines = child(folder, server, dry)
                shutil.rmtree(os.path.join(folder, "data"), ignore_errors=True)
                if os.path.isdir(keep):
                    os.rename(keep, os.path.join(folder, "data"))
                mon.check(code == 0, lambda: "%s: the data set can't be read (%d)" % (history, code))
                server.plan = []
                before = server.requests
                # mostly in the last part: that is where the file is written
                stop = int(lines * (1 - rng.random() ** 2)) if rng.random() < 0.7 else int(rng.integers(1, lines))

                def f():
                    n = [0]

                    def step(frame, event, arg):
                        n[0] += 1
                        if n[0] >= stop:
                            os._exit(9)
                        return step

                    sys.settrace(step)
                    return call()

            code, res = child(folder, server, f, limit)
            if how == "ok":
                mon.check(code == 0, lambda: "%s: the data set can't be read (%d)" % (history, code))
            elif code != 0:
                mon.count("faults")
            if done:
                mon.check(server.requests == before, lambda: "%s: downloaded again" % history)
                mon.check(code == 0 or how in ("line", "size"), lambda: "%s: failed although the data set is there" % history)
            if code == 0:
                check(res, history)
                done = True
        mon.note(shape=shp, nnz=nnz, history=history)
        mon.sig(tuple(history), shp, nnz)
    finally:
        server.close()
        shutil.rmtree(folder, ignore_errors=True)


@family("C31", "several", 12, 250, need={"read": 4.0}, timeout=120)
def several(mon, rng):
    """Data sets of similar names in one folder, read in any order, each with its own entries and shape."""
    fr = load("frostt.py")
    names = gen.pick(rng, [
        ["m_5-5.tns.gz", "m_6-6.tns.gz", "m.tns.gz"],
        ["m.5-5.tns.gz", "m.6-6.tns.gz"],
        ["nips.tns.gz", "nips2.tns.gz", "ni.tns.gz"],
        ["a.tns.gz", "A.tns.gz", "a.gz"],
        ["uber.tns.gz", "lbnl-network.tns.gz", "nips.tns.gz"],
    ])
    folder = tempfile.mkdtemp(prefix="ttmon-c31-")
    server = Server("", b"")
    sets = {}
    try:
        same = tuple(int(rng.integers(1, 6)) for _ in range(3))
        for name in names:
            shp = same if rng.random() < 0.5 else tuple(int(rng.integers(1, 30)) for _ in range(int(rng.integers(2, 5))))
            total = int(np.prod(shp))
            nnz = int(min(total, rng.integers(1, 30)))
            flat = rng.permutation(total)[:nnz]
            if rng.random() < 0.5:  # nothing at the end of the modes
                flat = np.unique(flat // 2)
                nnz = len(flat)
            idx = np.array(np.unravel_index(flat, shp)).reshape(len(shp), nnz)
            vals = [number(rng) for _ in range(nnz)]
            text = "".join(" ".join(str(int(i) + 1) for i in idx[:, k]) + " " + vals[k] + "\n" for k in range(nnz))
            server.files[name] = gzip.compress(text.encode())
            sets[name] = (shp, nnz, idx, [float(v) for v in vals])
        base = server.url.rsplit("/", 1)[0]
        asked, history = {}, []
        for _ in range(int(rng.integers(4, 8))):
            name = gen.pick(rng, names)
            shp, nnz, idx, vals = sets[name]
            history.append(name)
            before = server.requests

            def call():
                t = fr["get_frostt_tensor"](base + "/" + name, nnz, shp)
                return t.shape, np.asarray(t.indices), np.asarray(t.entries)

            code, res = child(folder, server, call)
            mon.check(code == 0, lambda: "%s: the data set can't be read (%d)" % (history, code))
            if code != 0:
                break
            mon.check(server.requests - before == (0 if name in asked else 1), lambda: "%s: %d requests" % (history, server.requests - before))
            asked[name] = 1
            shape, ind, ent = res
            mon.check(tuple(shape) == shp, lambda: "%s: shape %s, expected %s" % (history, shape, shp))
            mon.check(ind.shape == idx.shape and np.array_equal(ind, idx) and np.array_equal(ent, vals)
                      or {tuple(map(int, ind[:, k])): float(ent[k]) for k in range(ind.shape[1])}
                      == {tuple(map(int, idx[:, k])): vals[k] for k in range(nnz)} and len(ent) == nnz,
                      lambda: "%s: other entries than those of the file" % history)
            mon.count("read")
        mon.note(names=names, history=history)
        mon.sig(tuple(history), tuple(x[0] for x in sets.values()))
    finally:
        server.close()
        shutil.rmtree(folder, ignore_errors=True)
