"""Forked worker pool: one process per unit, JSON results through files."""
import json
import os
import signal
import sys
import time
import traceback


def run_units(jobs, workers, outdir, hard_extra=45):
    """jobs: [(uid, thunk, time limit)].  Yields (uid, result dict)."""
    pending = list(jobs)
    running = {}
    n = 0
    while pending or running:
        while pending and len(running) < workers:
            uid, thunk, limit = pending.pop(0)
            n += 1
            path = os.path.join(outdir, f"u{os.getpid()}_{n}.json")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setsid()
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(int(limit + hard_extra))
                    try:
                        r = thunk()
                    except BaseException as e:  # noqa
                        r = dict(status="error", notes=[f"{type(e).__name__}: {e}",
                                                        traceback.format_exc(limit=-8)])
                    with open(path + ".t", "w") as f:
                        json.dump(r, f)
                    os.rename(path + ".t", path)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    try:
                        from . import mk

                        mk.cleanup()
                    except BaseException:
                        pass
                    os._exit(code)
            running[pid] = (uid, path, time.time() + limit + hard_extra)
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid and pid in running:
            uid, path, _ = running.pop(pid)
            try:
                with open(path) as f:
                    yield uid, json.load(f)
                os.unlink(path)
            except Exception:
                yield uid, dict(status="error", notes=[f"worker died, wait status {st}"])
            continue
        now = time.time()
        for p, (uid, path, dl) in list(running.items()):
            if now > dl + 5:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
        time.sleep(0.01)
