"""Controlled scheduler: real OS threads, exactly one running at a time.

A *run* executes a harness main function in a managed thread.  Scheduling points are operations of the
modelled synchronisation objects and probed accesses at the sites in ``Sched.sites``.  At each point the
list of options (enabled threads, plus "let the clock reach the earliest deadline") is fixed in a
canonical order and one is taken from the prefix given by the explorer, else option 0.
"""
import _thread
import collections
import itertools
import os as _os
import sys
import time as _time
import types
import weakref

RT = None  # the active run, or None


class Killed(BaseException):
    pass


class Divergence(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, **info):
        super().__init__(msg)
        self.info = info


T0 = 1_700_000_000_000_000_000


class Clock:
    """Virtual time in ns, shared by both engines."""

    def __init__(self):
        self.now = T0
        self.step = 1000
        self.sleeps = []

    def reset(self):
        self.now = T0
        self.sleeps = []

    def read(self):
        self.now += self.step
        return self.now


CLOCK = Clock()


class MThread:
    __slots__ = ("tid", "baton", "state", "pred", "deadline", "timed_out", "what", "frozen", "obj",
                 "creator", "exc", "name", "real_done", "clock", "vc", "hist")

    def __init__(self, tid, creator, obj, name):
        self.tid = tid
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = "ready"  # ready | blocked | done
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.what = ""
        self.frozen = False
        self.obj = obj
        self.creator = creator
        self.exc = None
        self.name = name
        self.clock = 0
        self.vc = {}
        self.hist = [(0, self.vc)]
        self.real_done = _thread.allocate_lock()
        self.real_done.acquire()

    def set_vc(self, vc):
        self.vc = vc
        self.hist.append((self.clock, vc))

    def vc_at(self, clk):
        """Vector clock of this thread just after its access number clk."""
        r = {}
        for c, v in reversed(self.hist):
            if c <= clk:
                r = dict(v)
                break
        r[self.tid] = clk
        return r


MUTATORS = {
    "append", "appendleft", "pop", "popleft", "popitem", "clear", "extend", "extendleft", "insert", "remove",
    "add", "discard", "update", "setdefault", "rotate", "reverse", "sort", "__setitem__", "__delitem__",
    "move_to_end", "difference_update", "intersection_update", "symmetric_difference_update",
}
CONTAINERS = {
    list, dict, set, collections.deque, collections.OrderedDict, collections.defaultdict, collections.Counter,
    weakref.WeakSet, weakref.WeakKeyDictionary, weakref.WeakValueDictionary, bytearray,
}
_SKIP_TYPES = {types.FunctionType, types.MethodType, types.BuiltinFunctionType, str, int, float, bool, tuple, bytes,
               type(None), super, property}


class Run:
    """One execution."""

    def __init__(self, prefix=(), sites=frozenset(), record=True, max_steps=30000, fair_ticks=False, lock_points=False):
        self.lock_points = lock_points  # also a scheduling point just after a lock was taken
        self.fair_ticks = fair_ticks
        self.prefix = prefix
        self.sites = sites
        self.record = record
        self.max_steps = max_steps
        self.threads = []
        self.current = None
        self.by_ident = {}
        self.points = []  # (n_options, costs tuple, chosen)
        self.trace = []  # human-readable log of decisions
        self.step = 0
        self.killed = False
        self.acc = {}  # location -> {(tid, write, locks, site): (first step, last step)}
        self.races = set()
        self.keep = []  # keeps objects alive so that ids stay unique
        self.errors = []
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.ended = False
        self.verdict = None
        self.outcome = None
        self.fork_hooks = []  # (before, after_in_parent, after_in_child)
        self.atexit = []
        self.exiting = False
        self.pid = 1000
        self.forked = False
        self.labels = True
        self.next_lock = itertools.count()
        self.ipoints = 0

    # ---- thread management
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def new_thread(self, fn, obj=None, name=None):
        cur = self.me()
        t = MThread(len(self.threads), cur.tid if cur else None, obj, name or f"t{len(self.threads)}")
        self.threads.append(t)
        if cur is not None:
            v = dict(cur.vc)
            v[cur.tid] = cur.clock
            t.set_vc(v)

        def body():
            self.by_ident[_thread.get_ident()] = t
            t.baton.acquire()
            try:
                if not self.killed:
                    fn()
            except Killed:
                pass
            except BaseException as e:  # noqa
                t.exc = e
                if not self.killed:
                    self.errors.append((t.name, e))
            finally:
                t.state = "done"
                if not self.killed and not self.ended:
                    if t.tid == 0:
                        self.end()
                    else:
                        try:
                            self.switch(t, leaving=True)
                        except Killed:
                            pass
                self.by_ident.pop(_thread.get_ident(), None)
                t.real_done.release()

        _thread.start_new_thread(body, ())
        return t

    def end(self, verdict=None):
        if verdict is not None and self.verdict is None:
            self.verdict = verdict
        if not self.ended:
            self.ended = True
            self.finished.release()

    # ---- scheduling
    def enabled(self, t):
        if t.state == "done" or t.frozen:
            return False
        if t.state == "ready":
            return True
        if t.pred is not None and t.pred():
            return True
        return t.deadline is not None and CLOCK.now >= t.deadline

    def options(self, cur):
        """[(thread or None for tick, cost)] in canonical order."""
        opts = []
        others = [t for t in self.threads if t is not cur and self.enabled(t)]
        cur_ok = cur is not None and self.enabled(cur)
        if cur_ok:
            opts.append((cur, 0))
        for t in others:
            opts.append((t, 1 if cur_ok else 0))
        dl = [t.deadline for t in self.threads if t.state == "blocked" and not t.frozen and t.deadline is not None and t.deadline > CLOCK.now]
        if dl and not (self.fair_ticks and opts):
            opts.append((None, 1 if (cur_ok or others) else 0))
        return opts, (min(dl) if dl else None)

    def choose(self, cur, what):
        while True:
            opts, dl = self.options(cur)
            if not opts:
                return None
            self.step += 1
            if self.step > self.max_steps:
                self.end(("livelock", f"no termination within {self.max_steps} scheduling steps at {what}"))
                raise Killed()
            if len(opts) == 1:
                idx = 0
            else:
                n = len(self.points)
                if n < len(self.prefix):
                    idx = self.prefix[n]
                    if idx >= len(opts):
                        self.end(("divergence", f"choice {idx} of {len(opts)} at point {n} ({what})"))
                        raise Killed()
                else:
                    idx = 0
                self.points.append((len(opts), tuple(c for _, c in opts), idx))
                if idx:
                    self.trace.append(
                        f"#{n} at {cur.name if cur else '-'} [{what}]: "
                        + ("clock advances to next deadline" if opts[idx][0] is None else f"switch to {opts[idx][0].name}")
                    )
            t = opts[idx][0]
            if t is None:
                CLOCK.now = max(CLOCK.now, dl)
                if cur is not None and cur.state == "ready":
                    # the clock advanced while the current thread was runnable: choose again
                    continue
                continue
            return t

    def switch(self, cur, what="", leaving=False):
        """Pick who runs next; block the calling thread until it is chosen again."""
        nxt = self.choose(None if leaving else cur, what)
        if nxt is None:
            self.end(("deadlock", "; ".join(f"{t.name}: blocked at {t.what}" for t in self.threads if t.state == "blocked" and not t.frozen)))
            if leaving:
                return
            nxt = cur  # never happens for a ready thread; wait to be killed
            cur.baton.acquire()
            raise Killed()
        if nxt is cur:
            return
        self.current = nxt
        nxt.baton.release()
        if leaving:
            return
        cur.baton.acquire()
        if self.killed:
            raise Killed()

    def point(self, what):
        cur = self.me()
        if cur is None:
            return
        if self.killed or self.ended:
            raise Killed()
        cur.what = what
        self.switch(cur, what)

    def block(self, pred, deadline, what):
        """Block until pred() or deadline; returns True if pred holds when resumed."""
        cur = self.me()
        if self.killed or self.ended:
            raise Killed()
        cur.state, cur.pred, cur.deadline, cur.what = "blocked", pred, deadline, what
        try:
            self.switch(cur, what)
        finally:
            cur.state, cur.deadline = "ready", None
            p, cur.pred = cur.pred, None
        return p is not None and p()

    # ---- accesses (happens-before as in dynamic partial-order reduction: every pair of dependent
    # operations is ordered in the execution; a pair not ordered through anything else is a race)
    def access(self, loc, write, site, obj, sync=False):
        cur = self.by_ident.get(_thread.get_ident())
        if cur is None:
            return
        if self.killed or self.ended:
            raise Killed()
        if site in self.sites:
            self.point(site)
        if not self.record:
            return
        tid = cur.tid
        cur.clock += 1
        clk = cur.clock
        e = self.acc.get(loc)
        if e is None:
            # [owner, last write clock, last read clock, entries, wvc, rvc]
            self.acc[loc] = [tid, clk if write else 0, 0 if write else clk, {(tid, write, site): clk}, None, None]
            self.keep.append(obj)
            return
        ent = e[3]
        if e[0] == tid:
            ent[(tid, write, site)] = clk
            if write:
                e[1] = clk
            else:
                e[2] = clk
            return
        vc = cur.vc
        if e[0] is not None:
            o = self.threads[e[0]]
            e[4] = o.vc_at(e[1]) if e[1] else {}
            e[5] = o.vc_at(e[2]) if e[2] else {}
            e[0] = None
        new = None
        for (u, w2, s2), c in ent.items():
            if u != tid and (write or w2) and c > vc.get(u, 0):
                if new is None:
                    new = self.races
                new.add(s2)
                new.add(site)
        ent[(tid, write, site)] = clk
        changed = False
        for src in (e[4], e[5]) if write else (e[4],):
            for u, c in src.items():
                if u != tid and c > vc.get(u, 0):
                    if not changed:
                        vc = dict(vc)
                        changed = True
                    vc[u] = c
        if changed:
            cur.set_vc(vc)
        mine = dict(cur.vc)
        mine[tid] = clk
        if write:
            e[4] = mine
        else:
            r = dict(e[5])
            for u, c in mine.items():
                if c > r.get(u, 0):
                    r[u] = c
            e[5] = r

    def sync_acquired(self, obj):
        if not self.record:
            return
        cur = self.me()
        e = self.acc.get(("sync", id(obj)))
        if cur is not None and e is not None and e[0] is None and e[4]:
            self.hb_join(cur, e[4])

    def sync_released(self, obj):
        if not self.record:
            return
        cur = self.me()
        e = self.acc.get(("sync", id(obj)))
        if cur is None or e is None:
            return
        cur.clock += 1
        if e[0] == cur.tid:
            e[1] = cur.clock
        elif e[0] is None:
            v = dict(cur.vc)
            v[cur.tid] = cur.clock
            e[4] = v

    def hb_join(self, cur, src):
        vc = dict(cur.vc)
        for u, c in src.items():
            if u != cur.tid and c > vc.get(u, 0):
                vc[u] = c
        cur.set_vc(vc)

    def conflicts(self):
        return self.races

    # ---- run
    def execute(self, main):
        global RT
        CLOCK.reset()
        CLOCK.step = 1000
        RT = self
        try:
            t = self.new_thread(main, name="main")
            self.current = t
            t.baton.release()
            hung = not self.finished.acquire(True, 60)
            if hung:
                self.verdict = ("hang", "a thread does not terminate (no scheduling point reached for 60 s)")
            self.killed = True
            if not hung:
                for t in list(self.threads):
                    while not t.real_done.acquire(False):
                        try:
                            t.baton.release()
                        except RuntimeError:
                            pass
                        if t.real_done.acquire(True, 0.05):
                            break
        finally:
            RT = None
        return self


# ------------------------------------------------------------------------------------------------
# modelled primitives
def _caller_site(depth=2):
    f = sys._getframe(depth)
    here = __file__
    while f is not None and f.f_code.co_filename == here:
        f = f.f_back
    return (f.f_code.co_filename, f.f_lineno, 0, "sync") if f else ("?", 0, 0, "sync")


def _sync(obj, write, what):
    rt = RT
    if rt is not None and rt.me() is not None:
        if rt.killed or rt.ended:
            raise Killed()
        s = _caller_site(3)
        rt.access(("sync", id(obj)), write, (s[0], s[1], 0, what), obj)
        return rt
    return None


class Lock:
    def __init__(self):
        self._locked = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        rt = _sync(self, True, "acquire")
        if rt is None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                if RT is not None:
                    raise Killed()
                raise RuntimeError("modelled lock would block outside a run")
            self._locked = True
            return True
        if self._locked:
            if not blocking:
                return False
            dl = None if timeout is None or timeout < 0 else CLOCK.now + int(timeout * 1e9)
            if not rt.block(lambda: not self._locked, dl, "lock.acquire"):
                return False
        self._locked = True
        self._owner = rt.me()
        rt.sync_acquired(self)
        if rt.lock_points:
            rt.point("locked")
        return True

    def release(self):
        if not self._locked:
            if RT is not None and (RT.killed or RT.ended):
                return
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._owner = None
        if RT is not None:
            RT.sync_released(self)

    def locked(self):
        _sync(self, False, "locked")
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._owner = None

    # Condition support
    def _is_owned(self):
        rt = RT
        return self._locked and (rt is None or self._owner is None or self._owner is rt.me())

    def _release_save(self):
        self.release()

    def _acquire_restore(self, state):
        self.acquire()


class RLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def _self(self):
        rt = RT
        return (rt.me() if rt is not None else None) or "outside"

    def acquire(self, blocking=True, timeout=-1):
        rt = _sync(self, True, "acquire")
        me = self._self()
        if self._count and self._owner is me:
            self._count += 1
            return True
        if self._count:
            if not blocking:
                return False
            if rt is None:
                if RT is not None:
                    raise Killed()
                raise RuntimeError("modelled rlock would block outside a run")
            dl = None if timeout is None or timeout < 0 else CLOCK.now + int(timeout * 1e9)
            if not rt.block(lambda: self._count == 0, dl, "rlock.acquire"):
                return False
        self._owner, self._count = me, 1
        if rt is not None:
            rt.sync_acquired(self)
            if rt.lock_points:
                rt.point("locked")
        return True

    def release(self):
        if self._owner is not self._self() or not self._count:
            if RT is not None and (RT.killed or RT.ended):
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            if RT is not None:
                RT.sync_released(self)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _is_owned(self):
        return self._owner is self._self()

    def _release_save(self):
        n = self._count
        self._count = 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._count = n


class Condition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else RLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        if not self._lock._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        rt = RT
        if rt is None or rt.me() is None:
            if timeout is not None:
                CLOCK.now += int(timeout * 1e9)
                return False
            raise RuntimeError("modelled condition would block outside a run")
        token = [False]
        self._waiters.append(token)
        saved = self._lock._release_save()
        try:
            dl = None if timeout is None else CLOCK.now + max(0, int(timeout * 1e9))
            ok = rt.block(lambda: token[0], dl, "condition.wait")
        finally:
            if token in self._waiters:
                self._waiters.remove(token)
            if not rt.killed:
                self._lock._acquire_restore(saved)
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else CLOCK.now + int(timeout * 1e9)
        r = predicate()
        while not r:
            if end is not None:
                left = (end - CLOCK.now) / 1e9
                if left <= 0:
                    break
                self.wait(left)
            else:
                self.wait()
            r = predicate()
        return r

    def notify(self, n=1):
        if not self._lock._is_owned():
            raise RuntimeError("cannot notify on un-acquired lock")
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._waiters.clear()


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        _sync(self, False, "is_set")
        return self._flag

    isSet = is_set

    def set(self):
        _sync(self, True, "set")
        self._flag = True

    def clear(self):
        _sync(self, True, "clear")
        self._flag = False

    def wait(self, timeout=None):
        rt = _sync(self, False, "wait")
        if self._flag:
            return True
        if rt is None:
            if timeout is not None:
                CLOCK.now += int(timeout * 1e9)
                return False
            if RT is not None:
                raise Killed()
            raise RuntimeError("modelled event would block outside a run")
        dl = None if timeout is None else CLOCK.now + max(0, int(timeout * 1e9))
        rt.block(lambda: self._flag, dl, "event.wait")
        if self._flag:
            rt.sync_acquired(self)
        return self._flag

    def _at_fork_reinit(self):
        pass


class Semaphore:
    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._cond = Condition(Lock())
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            if not blocking:
                if self._value == 0:
                    return False
            elif not self._cond.wait_for(lambda: self._value > 0, timeout):
                return False
            self._value -= 1
            return True

    __enter__ = acquire

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    def __init__(self, value=1):
        super().__init__(value)
        self._initial = value

    def release(self, n=1):
        with self._cond:
            if self._value + n > self._initial:
                raise ValueError("Semaphore released too many times")
            self._value += n
            self._cond.notify(n)


_names = itertools.count(1)


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = str(name) if name else f"Thread-{next(_names)}"
        self._daemon = bool(daemon)
        self._m = None
        self._dead_after_fork = False
        self._inline = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._m is not None or self._inline:
            raise RuntimeError("threads can only be started once")
        rt = RT
        if rt is None:
            # sequential engine: threads never run on their own; harnesses drive them explicitly
            self._inline = "started"
            STARTED.append(self)
            return
        if rt.killed or rt.ended:
            raise Killed()
        if rt.exiting:
            raise RuntimeError("can't create new thread at interpreter shutdown")
        rt.point(("thread.start",))
        self._m = rt.new_thread(self.run, obj=self, name=self.name)

    def join(self, timeout=None):
        if self._m is None:
            if self._inline:
                return
            raise RuntimeError("cannot join thread before it is started")
        rt = RT
        if rt is None or rt.me() is None:
            return
        m = self._m
        if rt.me() is m:
            raise RuntimeError("cannot join current thread")
        dead = lambda: m.state == "done" or self._dead_after_fork  # noqa
        if not dead():
            dl = None if timeout is None else CLOCK.now + max(0, int(timeout * 1e9))
            rt.block(dead, dl, "thread.join")
        if m.state == "done":
            v = dict(m.vc)
            v[m.tid] = m.clock
            rt.hb_join(rt.me(), v)

    def is_alive(self):
        if self._dead_after_fork:
            return False
        if self._m is None:
            return bool(self._inline)
        if RT is not None and RT.me() is not None:
            RT.point(("is_alive",))
        return self._m.state != "done"

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        self._daemon = bool(v)

    def setDaemon(self, v):
        self._daemon = bool(v)

    def isDaemon(self):
        return self._daemon

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    @property
    def ident(self):
        return None if self._m is None else self._m.tid + 1

    native_id = ident


STARTED = []


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval, self.function, self.args, self.kwargs = interval, function, args or [], kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


class _MainThreadObj:
    name = "MainThread"
    daemon = False
    ident = 1

    def is_alive(self):
        return True

    def join(self, timeout=None):
        raise RuntimeError("cannot join main thread")


_MAIN = _MainThreadObj()


def current_thread():
    rt = RT
    if rt is None or rt.me() is None or rt.me().obj is None:
        return _MAIN
    return rt.me().obj


def main_thread():
    return _MAIN


def get_ident():
    rt = RT
    if rt is None or rt.me() is None:
        return _thread.get_ident()
    return rt.me().tid + 1


def enumerate_():
    rt = RT
    if rt is None:
        return [_MAIN]
    return [_MAIN] + [t.obj for t in rt.threads if t.obj is not None and t.state != "done" and not t.frozen]


# ---- fork
GLOBAL_FORK_HOOKS = []  # registered at import


def fork():
    """Simulated fork seen from the child: every other thread vanishes."""
    rt = RT
    rt.point(("fork",))
    hooks = GLOBAL_FORK_HOOKS + rt.fork_hooks
    for b, _, _ in reversed(hooks):
        if b:
            b()
    me = rt.me()
    for t in rt.threads:
        if t is not me:
            t.frozen = True
            if t.obj is not None:
                t.obj._dead_after_fork = True
    rt.pid += 1
    rt.forked = True
    for _, _, c in hooks:
        if c:
            # CPython prints exceptions of at-fork handlers as unraisable; surfaced to the harness here
            try:
                c()
            except Killed:
                raise
            except BaseException as e:  # noqa
                rt.errors.append(("at-fork handler", e))


def exit_process():
    """What CPython does when the main thread ends: no new threads and no new executor work from here on, threads that are
    not daemons and executor threads are waited for, then the exit handlers run, last registered first.  Returns what they raised."""
    rt = RT
    rt.point(("exit",))
    rt.exiting = True
    me = rt.me()
    for t in list(rt.threads):
        if t is not me and not t.frozen and t.obj is not None and (not t.obj.daemon or t.name == "pool"):
            t.obj.join()
    errors = []
    while rt.atexit:
        f, a, k = rt.atexit.pop()
        try:
            f(*a, **k)
        except Killed:
            raise
        except BaseException as e:  # noqa
            errors.append(e)
    return errors


# ---- probes
def ld(obj, attr, site):
    rt = RT
    if rt is not None:
        cls = type(obj)
        if cls in _SKIP_TYPES:
            return obj
        if cls is types.ModuleType:
            rt.access(("g", obj.__name__, attr), False, site, obj)
            return obj
        d = getattr(obj, "__dict__", None)
        if d is not None and attr not in d and not isinstance(obj, type):
            # resolved on the class
            for k in cls.__mro__:
                if attr in k.__dict__:
                    v = k.__dict__[attr]
                    if not isinstance(v, _DESC):
                        rt.access((id(k), attr), False, site, k)
                    # slots (member descriptors) live in the instance
                    elif isinstance(v, types.MemberDescriptorType):
                        rt.access((id(obj), attr), False, site, obj)
                    return obj
        elif isinstance(obj, type) and attr not in d:
            for k in obj.__mro__:
                if attr in k.__dict__:
                    v = k.__dict__[attr]
                    if not isinstance(v, _DESC):
                        rt.access((id(k), attr), False, site, k)
                    return obj
        rt.access((id(obj), attr), False, site, obj)
    return obj


_DESC = (types.FunctionType, property, classmethod, staticmethod, types.MemberDescriptorType,
         types.GetSetDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType)


def st(obj, attr, site):
    rt = RT
    if rt is not None:
        if type(obj) is types.ModuleType:
            rt.access(("g", obj.__name__, attr), True, site, obj)
        else:
            rt.access((id(obj), attr), True, site, obj)
    return obj


def rd(obj, site):
    rt = RT
    if rt is not None and type(obj) in CONTAINERS:
        rt.access(("c", id(obj)), False, site, obj)
    return obj


def wr(obj, site):
    rt = RT
    if rt is not None and type(obj) in CONTAINERS:
        rt.access(("c", id(obj)), True, site, obj)
    return obj


def cl(obj, meth, site):
    rt = RT
    if rt is not None:
        cls = type(obj)
        if cls in CONTAINERS:
            rt.access(("c", id(obj)), meth in MUTATORS, site, obj)
        elif cls not in _SKIP_TYPES:
            d = getattr(obj, "__dict__", None)
            if d is not None and meth in d and cls is not types.ModuleType and not isinstance(obj, type):
                rt.access((id(obj), meth), False, site, obj)
    return obj


def mcall(site, obj, meth, *args, **kw):
    cl(obj, meth, site)
    return getattr(obj, meth)(*args, **kw)


def it(obj, site):
    rt = RT
    if rt is not None and type(obj) in CONTAINERS:
        return _iter(obj, iter(obj), site)
    return obj


def itv(obj, meth, site):
    rt = RT
    view = getattr(obj, meth)()
    if rt is not None and type(obj) in CONTAINERS:
        return _iter(obj, iter(view), site)
    return view


def _iter(obj, i, site):
    while True:
        rt = RT
        if rt is not None:
            rt.access(("c", id(obj)), False, site, obj)
        try:
            v = next(i)
        except StopIteration:
            return
        yield v


def gld(mod, name, site):
    rt = RT
    if rt is not None:
        rt.access(("g", mod, name), False, site, None)
    return True


def gst(value, mod, name, site):
    rt = RT
    if rt is not None:
        rt.access(("g", mod, name), True, site, None)
    return value


PROBES = {"_mc_ld": ld, "_mc_st": st, "_mc_rd": rd, "_mc_wr": wr, "_mc_cl": cl, "_mc_call": mcall, "_mc_it": it,
          "_mc_itv": itv, "_mc_gld": gld, "_mc_gst": gst}
