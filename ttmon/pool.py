"""Worker pool which survives (and reports) workers that die of a signal."""
import multiprocessing
import os
from multiprocessing.connection import wait

CRASH = {4: "SIGILL", 6: "SIGABRT", 7: "SIGBUS", 8: "SIGFPE", 11: "SIGSEGV"}


def _loop(conn, func):
    while True:
        try:
            jobs = conn.recv()
        except EOFError:
            os._exit(0)
        if jobs is None:
            os._exit(0)
        for job in jobs:
            conn.send(("start", job))
            conn.send(("done", func(job)))
        conn.send(("idle", None))


def run(func, jobs, n_workers, chunk, on_crash, stop=lambda r: False):
    """Yield-free map: returns the list of results.  ``on_crash(job, text,
    is_crash)`` makes the result of a job whose process died."""
    ctx = multiprocessing.get_context("fork")
    todo = list(jobs)[::-1]
    results = []
    workers = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_loop, args=(b, func), daemon=True)
        p.start()
        b.close()
        workers[a] = {"proc": p, "current": None, "queue": []}
        feed(a)

    def feed(conn):
        w = workers[conn]
        batch = [todo.pop() for _ in range(min(chunk, len(todo)))]
        w["queue"] = list(batch)
        conn.send(batch if batch else None)

    for _ in range(min(n_workers, len(todo))):
        spawn()
    stopped = False
    while workers:
        for conn in wait(list(workers)):
            w = workers[conn]
            try:
                kind, val = conn.recv()
            except (EOFError, ConnectionResetError):
                w["proc"].join()
                code = w["proc"].exitcode
                del workers[conn]
                if w["current"] is not None:
                    sig = -code if code is not None and code < 0 else 0
                    results.append(
                        on_crash(
                            w["current"],
                            "process died: %s" % CRASH.get(sig, "exit code %s" % code),
                            sig in CRASH,
                        )
                    )
                    todo.extend(j for j in w["queue"] if j != w["current"])
                if todo and not stopped:
                    spawn()
                continue
            if kind == "start":
                w["current"] = val
            elif kind == "done":
                results.append(val)
                w["queue"].remove(w["current"])
                w["current"] = None
                if not stopped and stop(results):
                    stopped = True
                    todo.clear()
            elif kind == "idle":
                feed(conn)
    return results
