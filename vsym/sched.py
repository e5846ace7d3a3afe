"""Cooperative threads whose interleaving is chosen by the solver.

Real code that uses threading / queue / concurrent.futures runs on real OS
threads, but only one of them runs at a time and every switch is a symbolic
choice.  Switch points are the synchronisation operations and, for the source
files given as `lines`, every executed line (sys.settrace).  A run contains up
to `delays` deviations (pre-emptions, or not taking the first ready thread when
the running one blocks) from the default schedule (delay-bounded scheduling).
"""
import queue as _queue
import sys
import threading as _threading
import types
import concurrent.futures as _cf

import z3

from . import core
from .core import BudgetExceeded, CexFound, HarnessFailure, PathAbort, Unsupported

ENGINE = (PathAbort, CexFound, BudgetExceeded, Unsupported, HarnessFailure, z3.Z3Exception)
_Thread, _Sem, _ident = _threading.Thread, _threading.Semaphore, _threading.get_ident


class Kill(BaseException):
    pass


class T:
    def __init__(self, name):
        self.name, self.sem, self.done, self.pred, self.ident = name, _Sem(0), False, None, None
        self.timed = self.fired = False


class Sched:
    def __init__(self, ctx, lines=(), delays=1):
        self.idle = 0
        self.ctx, self.lines, self.left = ctx, tuple(lines), delays
        self.main = T("main")
        self.main.ident = _ident()
        self.ts = [self.main]
        self.cur = self.main
        self.fatal = None
        self.killing = False
        self.n = 0
        self._undo = []
        self.order = []

    # -------------------------------------------------------------- switching
    def on_main(self):
        return _ident() == self.main.ident

    def _ready(self):
        return [t for t in self.ts if not t.done and (t.pred is None or t.pred())]

    def _pick(self, opts):
        if len(opts) == 1 or self.left <= 0:
            return opts[0]
        self.n += 1
        t = self.ctx.choice(f"sched{self.n}", opts)
        if t is not opts[0]:
            self.left -= 1
        return t

    def _go(self, t):
        me = self.cur
        if t is me:
            return
        self.cur = t
        t.sem.release()
        if not me.done:
            self._sleep(me)

    def _sleep(self, me):
        me.sem.acquire()
        if self.killing and me is not self.main:
            raise Kill()
        if me is self.main and self.fatal is not None:
            e, self.fatal = self.fatal, None
            raise e

    def point(self):
        """a possible pre-emption"""
        if self.killing or self.left <= 0:
            return
        me = self.cur
        rd = [me] + [t for t in self._ready() if t is not me]
        if len(rd) == 1:
            return
        t = self._pick(rd)
        if t is not me:
            self._go(t)

    def _next(self):
        """some thread that can run; when there is none, a timed wait expires"""
        rd = self._ready()
        if not rd:
            rd = [t for t in self.ts if not t.done and t.timed]
            self.idle += 1
            if not rd or self.idle > 40:
                self.ctx.fail("all threads are blocked (deadlock)")
                raise PathAbort()
            t = self._pick(rd)
            t.fired = True
            return t
        return self._pick(rd)

    def wait(self, pred, timed=False):
        """-> False when the wait timed out"""
        if self.killing:
            return True
        if pred():
            self.point()
            if pred():
                return True
        me = self.cur
        me.fired = False
        while True:
            me.pred, me.timed = pred, timed
            t = self._next()
            if t is not me:
                self._go(t)
            me.pred, me.timed = None, False
            if pred():
                return True
            if me.fired:
                return False

    # -------------------------------------------------------------- threads
    def spawn(self, fn, name="t"):
        t = T(f"{name}{len(self.ts)}")
        self.ts.append(t)

        def body():
            t.ident = _ident()
            try:
                self._sleep(t)
                if self.lines:
                    sys.settrace(self._trace)
                if self.ctx.symbolic:
                    from .tensor import SymMode

                    with SymMode():
                        fn()
                else:
                    fn()
            except Kill:
                pass
            except BaseException as e:  # engine exceptions end the path
                if self.fatal is None:
                    self.fatal = e
            finally:
                sys.settrace(None)
                t.done = True
                if not self.killing:
                    if self.fatal is not None:
                        self.cur = self.main
                        self.main.sem.release()
                    else:
                        try:
                            self._leave()
                        except BaseException as e:
                            self.fatal = e
                            self.cur = self.main
                            self.main.sem.release()

        t.os = _Thread(target=body, daemon=True)
        t.os.start()
        return t

    def _leave(self):
        t = self._next()
        self.cur = t
        t.sem.release()

    def _trace(self, frame, ev, arg):
        f = frame.f_code.co_filename
        if not f.endswith(self.lines):
            return None

        def local(frame, ev, arg):
            if ev == "line":
                self.point()
            return local

        return local

    # -------------------------------------------------------------- install
    def patch(self, *modules, extra=()):
        """replace the concurrency primitives used by these modules"""
        s = self

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
                self.f = lambda: target(*args, **(kwargs or {}))
                self.exc = None
                self.daemon, self.name = daemon, name

            def start(self):
                self.t = s.spawn(self.f, "thread")
                s.point()

            def join(self, timeout=None):
                s.wait(lambda: self.t.done)

            def is_alive(self):
                return not self.t.done

        class Event:
            def __init__(self):
                self.v = False

            def is_set(self):
                s.point()
                return self.v

            isSet = is_set

            def set(self):
                s.point()
                self.v = True

            def clear(self):
                self.v = False

            def wait(self, timeout=None):
                s.wait(lambda: self.v, timeout is not None)
                return self.v

        class Lock:
            reentrant = False

            def __init__(self):
                self.owner, self.k = None, 0

            def acquire(self, blocking=True, timeout=-1):
                if self.reentrant and self.owner is s.cur:
                    self.k += 1
                    return True
                if not blocking and self.owner is not None:
                    return False
                s.wait(lambda: self.owner is None)
                self.owner, self.k = s.cur, 1
                return True

            def release(self):
                self.k -= 1
                if self.k == 0:
                    self.owner = None
                s.point()

            def locked(self):
                return self.owner is not None

            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

        class RLock(Lock):
            reentrant = True

        class Queue:
            def __init__(self, maxsize=0):
                self.q, self.maxsize, self.unfinished = [], maxsize, 0

            def put(self, x, block=True, timeout=None):
                s.wait(lambda: self.maxsize <= 0 or len(self.q) < self.maxsize)
                self.q.append(x)
                self.unfinished += 1

            def put_nowait(self, x):
                self.put(x)

            def get(self, block=True, timeout=None):
                if not block:
                    s.point()
                    if not self.q:
                        raise _queue.Empty()
                elif not s.wait(lambda: self.q, timeout is not None):
                    raise _queue.Empty()
                return self.q.pop(0)

            def get_nowait(self):
                return self.get(False)

            def task_done(self):
                self.unfinished -= 1

            def join(self):
                s.wait(lambda: self.unfinished == 0)

            def empty(self):
                s.point()
                return not self.q

            def qsize(self):
                s.point()
                return len(self.q)

        class Future:
            def __init__(self):
                self.fin, self.res, self.exc, self.cbs = False, None, None, []

            def done(self):
                s.point()
                return self.fin

            def result(self, timeout=None):
                s.wait(lambda: self.fin)
                if self.exc is not None:
                    raise self.exc
                return self.res

            def exception(self, timeout=None):
                s.wait(lambda: self.fin)
                return self.exc

            def add_done_callback(self, cb):
                if self.fin:
                    cb(self)
                else:
                    self.cbs.append(cb)

            def cancel(self):
                return False

        class ThreadPoolExecutor:
            def __init__(self, max_workers=None, *a, **kw):
                self.max, self.running, self.futs, self.started = max_workers or 32, 0, [], 0

            def submit(self, fn, *a, **kw):
                fut = Future()
                k = len(self.futs)
                self.futs.append(fut)

                def body():
                    s.wait(lambda: self.started == k and self.running < self.max)
                    self.started += 1
                    self.running += 1
                    try:
                        fut.res = fn(*a, **kw)
                    except ENGINE:
                        raise
                    except Exception as e:
                        fut.exc = e
                    fut.fin = True
                    self.running -= 1
                    s.order.append(fut)
                    for cb in fut.cbs:
                        cb(fut)

                s.spawn(body, "worker")
                s.point()
                return fut

            def map(self, fn, *its):
                fs = [self.submit(fn, *x) for x in zip(*its)]
                return (f.result() for f in fs)

            def shutdown(self, wait=True, cancel_futures=False):
                if wait:
                    s.wait(lambda: all(f.fin for f in self.futs))

            def __enter__(self):
                return self

            def __exit__(self, *a):
                if a and a[0] is not None and issubclass(a[0], (ENGINE, Kill)):
                    return
                self.shutdown()

        def as_completed(fs, timeout=None):
            left = list(fs)
            while left:
                s.wait(lambda: any(f.fin for f in left))
                f = [f for f in s.order if f in left][0]
                left.remove(f)
                yield f

        def cfwait(fs, timeout=None, return_when="ALL_COMPLETED"):
            fs = list(fs)
            if return_when == "FIRST_COMPLETED":
                s.wait(lambda: any(f.fin for f in fs))
            elif return_when == "FIRST_EXCEPTION":
                s.wait(lambda: any(f.fin and f.exc for f in fs) or all(f.fin for f in fs))
            else:
                s.wait(lambda: all(f.fin for f in fs))
            return types.SimpleNamespace(done={f for f in fs if f.fin}, not_done={f for f in fs if not f.fin})

        rep = {id(_threading.Thread): Thread, id(_threading.Event): Event, id(_threading.Lock): Lock, id(_threading.RLock): RLock,
               id(_queue.Queue): Queue, id(_queue.SimpleQueue): Queue, id(_cf.ThreadPoolExecutor): ThreadPoolExecutor, id(_cf.as_completed): as_completed, id(_cf.wait): cfwait}
        cf = _Proxy(_cf, dict(ThreadPoolExecutor=ThreadPoolExecutor, as_completed=as_completed, wait=cfwait, Future=Future))
        import concurrent

        mods = {id(_threading): _Proxy(_threading, dict(Thread=Thread, Event=Event, Lock=Lock, RLock=RLock)),
                id(_queue): _Proxy(_queue, dict(Queue=Queue, SimpleQueue=Queue)), id(_cf): cf, id(concurrent): _Proxy(concurrent, dict(futures=cf))}
        rep.update(mods)
        for m in modules:
            for k, v in list(vars(m).items()):
                if id(v) in rep:
                    self._undo.append((m, k, v))
                    setattr(m, k, rep[id(v)])
            for k, v in extra:
                if hasattr(m, k):
                    self._undo.append((m, k, getattr(m, k)))
                    setattr(m, k, v)
        return self

    def __enter__(self):
        if self.lines:
            sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        self.killing = True
        for t in self.ts[1:]:
            if not t.done:
                t.sem.release()
        for t in self.ts[1:]:
            t.os.join(5)
        for m, k, v in reversed(self._undo):
            setattr(m, k, v)


class _Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__.update(over)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)
