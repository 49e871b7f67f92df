"""Small model of concurrent.futures on top of the modelled threads.

Semantics kept: tasks start in submission order, at most max_workers run at a time, a future completes exactly once,
wait/result time out on the (virtual) clock, shutdown waits for the tasks.  Without a scheduler (enumeration engine)
a submitted task runs inline and the virtual time it used is remembered, so that waiting for it with a shorter
timeout still times out.
"""
import collections
import types

from . import sched

FIRST_COMPLETED, FIRST_EXCEPTION, ALL_COMPLETED = "FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"
TimeoutError = TimeoutError  # noqa


class Error(Exception):
    pass


class CancelledError(Error):
    pass


class InvalidStateError(Error):
    pass


class BrokenExecutor(RuntimeError):
    pass


DoneAndNotDoneFutures = collections.namedtuple("DoneAndNotDoneFutures", "done not_done")


class _FutSet(list):
    """Deterministically ordered stand-in for a set of futures."""

    def add(self, f):
        if f not in self:
            self.append(f)

    def _op(self, o, keep):
        return _FutSet(f for f in self if (f in o) is keep)

    __sub__ = lambda s, o: s._op(o, False)  # noqa
    __and__ = lambda s, o: s._op(o, True)  # noqa
    __or__ = lambda s, o: _FutSet(list(s) + [f for f in o if f not in s])  # noqa

    def __eq__(self, o):
        return len(self) == len(o) and all(f in self for f in o)

    __hash__ = None


def _ctx():
    rt = sched.RT
    return rt if rt is not None and rt.me() is not None else None


def _wait(pred, timeout, futures, what):
    """True when pred() holds within timeout."""
    rt = _ctx()
    if rt is not None:
        rt.point(what)
        if pred():
            return True
        if timeout is not None and timeout <= 0:
            return False
        return rt.block(pred, None if timeout is None else sched.CLOCK.now + int(timeout * 1e9), what)
    if timeout is None:
        return pred()
    late = [f for f in futures if f._inline > timeout * 1e9]
    for f in futures:
        f._inline -= min(f._inline, int(timeout * 1e9))
    return not late and pred()


class Future:
    _n = 0

    def __init__(self):
        self._state = "PENDING"
        self._result = None
        self._exception = None
        self._callbacks = []
        self._inline = 0

    def cancel(self):
        if self._state in ("RUNNING", "FINISHED"):
            return False
        self._state = "CANCELLED"
        self._run_callbacks()
        return True

    def cancelled(self):
        return self._state == "CANCELLED"

    def running(self):
        return self._state == "RUNNING"

    def done(self):
        return self._finished()

    def _finished(self):
        return self._state in ("CANCELLED", "FINISHED")

    def _run_callbacks(self):
        for cb in self._callbacks:
            cb(self)

    def add_done_callback(self, fn):
        if self._finished():
            fn(self)
        else:
            self._callbacks.append(fn)

    def result(self, timeout=None):
        if not _wait(self._finished, timeout, [self], "Future.result"):
            raise TimeoutError()
        if self._state == "CANCELLED":
            raise CancelledError()
        if self._exception is not None:
            raise self._exception
        return self._result

    def exception(self, timeout=None):
        if not _wait(self._finished, timeout, [self], "Future.exception"):
            raise TimeoutError()
        if self._state == "CANCELLED":
            raise CancelledError()
        return self._exception

    def set_running_or_notify_cancel(self):
        if self._state == "CANCELLED":
            return False
        self._state = "RUNNING"
        return True

    def set_result(self, r):
        self._result, self._state = r, "FINISHED"
        self._run_callbacks()

    def set_exception(self, e):
        self._exception, self._state = e, "FINISHED"
        self._run_callbacks()


class Executor:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result(timeout) for f in fs)


class ThreadPoolExecutor(Executor):
    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=()):
        if max_workers is None:
            max_workers = 12
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._max_workers = max_workers
        self._tasks = collections.deque()
        self._active = 0
        self._idle = 0  # finished workers of the process that fork: waiting for work, gone in a child
        self._dead = 0
        self._pid = sched.RT.pid if sched.RT is not None else None
        self._shutdown = False

    def submit(self, fn, /, *args, **kwargs):
        rt = _ctx()
        if self._shutdown or (rt is not None and rt.exiting):
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = Future()
        if rt is None:
            t = sched.CLOCK.now
            self._call(f, fn, args, kwargs)
            f._inline = sched.CLOCK.now - t
            sched.CLOCK.now = t + 1000
            return f
        if rt.pid != self._pid:
            # the threads of a forked pool do not exist in the child, but the pool still counts on them
            self._pid, self._dead, self._idle, self._active = rt.pid, self._idle, 0, self._active
        self._tasks.append((f, fn, args, kwargs))
        if self._idle:
            self._idle -= 1
            self._active += 1
            sched.Thread(target=self._work, name="pool", daemon=True).start()
        elif self._dead:
            self._dead -= 1
        elif self._active < self._max_workers:
            self._active += 1
            sched.Thread(target=self._work, name="pool", daemon=True).start()
        return f

    @staticmethod
    def _call(f, fn, args, kwargs):
        if not f.set_running_or_notify_cancel():
            return
        try:
            r = fn(*args, **kwargs)
        except sched.Killed:
            raise
        except BaseException as e:  # noqa
            f.set_exception(e)
        else:
            f.set_result(r)

    def _work(self):
        while self._tasks:
            self._call(*self._tasks.popleft())
        self._active -= 1
        self._idle += 1

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown = True
        if cancel_futures:
            while self._tasks:
                self._tasks.popleft()[0].cancel()
        rt = _ctx()
        if wait and rt is not None:
            rt.point("Executor.shutdown")
            rt.block(lambda: self._active == 0, None, "Executor.shutdown")


def wait(fs, timeout=None, return_when=ALL_COMPLETED):
    fs = list(fs)

    def pred():
        d = [f for f in fs if f._finished()]
        return len(d) == len(fs) or (d and return_when == FIRST_COMPLETED) or (
            return_when == FIRST_EXCEPTION and any(f._exception is not None for f in d))

    if _ctx() is not None:
        _wait(pred, timeout, fs, "futures.wait")
        done = [f for f in fs if f._finished()]
    else:
        done = [f for f in fs if timeout is None or f._inline <= timeout * 1e9]
        _wait(pred, timeout, fs, "futures.wait")
    return DoneAndNotDoneFutures(_FutSet(done), _FutSet(f for f in fs if f not in done))


def as_completed(fs, timeout=None):
    fs = list(fs)
    rt = _ctx()
    end = None if timeout is None else sched.CLOCK.now + int(timeout * 1e9)
    while fs:
        left = None if end is None else (end - sched.CLOCK.now) / 1e9
        if rt is not None:
            if not _wait(lambda: any(f._finished() for f in fs), left, fs, "as_completed"):
                raise TimeoutError()
        elif timeout is not None and all(f._inline > timeout * 1e9 for f in fs):
            raise TimeoutError()
        f = next(f for f in fs if f._finished() and (rt is not None or timeout is None or f._inline <= timeout * 1e9))
        fs.remove(f)
        yield f


def build():
    base = types.ModuleType("concurrent.futures._base")
    for n in ("FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED", "TimeoutError", "Error", "CancelledError", "InvalidStateError",
              "BrokenExecutor", "DoneAndNotDoneFutures", "Future", "Executor", "wait", "as_completed"):
        setattr(base, n, globals()[n])
    thread = types.ModuleType("concurrent.futures.thread")
    thread.__dict__.update(base.__dict__, __name__="concurrent.futures.thread", ThreadPoolExecutor=ThreadPoolExecutor)
    fut = types.ModuleType("concurrent.futures")
    fut.__dict__.update(base.__dict__, __name__="concurrent.futures", ThreadPoolExecutor=ThreadPoolExecutor, _base=base, thread=thread)
    conc = types.ModuleType("concurrent")
    conc.futures = fut
    return {"concurrent": conc, "concurrent.futures": fut, "concurrent.futures._base": base, "concurrent.futures.thread": thread}
