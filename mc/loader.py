"""Import hook: modelled nondeterminism for opentelemetry.* and, optionally, access probes."""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os as _os
import random as _random
import sys
import threading as _threading
import time as _time
import types

from . import cfut, rewrite, sched

MODE = None
_EXCLUDE = ("opentelemetry.proto.", "opentelemetry.semconv.")


class _Proxy(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


# ---- threading
class _LockFactory:
    pass


M_threading = types.ModuleType("threading")
M_threading.__dict__.update(
    Lock=sched.Lock, RLock=sched.RLock, Condition=sched.Condition, Event=sched.Event, Semaphore=sched.Semaphore,
    BoundedSemaphore=sched.BoundedSemaphore, Thread=sched.Thread, Timer=sched.Timer, local=_threading.local,
    current_thread=sched.current_thread, currentThread=sched.current_thread, main_thread=sched.main_thread,
    get_ident=sched.get_ident, get_native_id=sched.get_ident, enumerate=sched.enumerate_,
    active_count=lambda: len(sched.enumerate_()), TIMEOUT_MAX=_threading.TIMEOUT_MAX,
    ThreadError=RuntimeError, excepthook=_threading.excepthook, _register_atexit=lambda *a, **k: None,
    _allocate_lock=sched.Lock, _MainThread=_threading._MainThread, Barrier=_threading.Barrier,
)


# ---- time
def _sleep(secs):
    rt = sched.RT
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    sched.CLOCK.sleeps.append(secs)
    if rt is None or rt.me() is None:
        sched.CLOCK.now += int(secs * 1e9)
        return
    rt.block(None, sched.CLOCK.now + int(secs * 1e9), "sleep")


M_time = _Proxy(
    _time,
    time=lambda: sched.CLOCK.read() / 1e9, time_ns=lambda: sched.CLOCK.read(), sleep=_sleep,
    monotonic=lambda: (sched.CLOCK.read() - sched.T0) / 1e9, monotonic_ns=lambda: sched.CLOCK.read() - sched.T0,
    perf_counter=lambda: (sched.CLOCK.read() - sched.T0) / 1e9, perf_counter_ns=lambda: sched.CLOCK.read() - sched.T0,
)


# ---- random
class _Rng:
    """Deterministic random source; harnesses may script it."""

    def __init__(self):
        self.reset()

    def reset(self, seed=0, script=None):
        self.r = _random.Random(seed)
        self.script = list(script) if script is not None else None
        self.calls = []

    def getrandbits(self, n):
        self.calls.append(("getrandbits", n))
        if self.script:
            return self.script.pop(0) & ((1 << n) - 1)
        return self.r.getrandbits(n)

    def randrange(self, a, b=None, step=1):
        self.calls.append(("randrange", a, b))
        if self.script:
            lo, hi = (0, a) if b is None else (a, b)
            return lo + self.script.pop(0) % (hi - lo)
        return self.r.randrange(a, b, step) if b is not None else self.r.randrange(a)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def random(self):
        self.calls.append(("random",))
        if self.script:
            return (self.script.pop(0) % 1000) / 1000
        return self.r.random()

    def choice(self, seq):
        return seq[self.randrange(len(seq))]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randbytes(self, n):
        return self.getrandbits(8 * n).to_bytes(n, "big")


RNG = _Rng()


class _Random(_Rng):
    def __init__(self, *a):
        pass

    def __getattr__(self, n):
        return getattr(RNG, n)

    getrandbits = lambda self, n: RNG.getrandbits(n)  # noqa
    randrange = lambda self, *a: RNG.randrange(*a)  # noqa
    random = lambda self: RNG.random()  # noqa

    def reset(self, *a, **k):
        pass

    def seed(self, *a):
        pass


M_random = _Proxy(
    _random, getrandbits=RNG.getrandbits, randrange=RNG.randrange, randint=RNG.randint, random=RNG.random,
    choice=RNG.choice, uniform=RNG.uniform, randbytes=RNG.randbytes, Random=_Random, SystemRandom=_Random,
    seed=lambda *a: None,
)


# ---- os / atexit
GLOBAL_FORK_HOOKS = sched.GLOBAL_FORK_HOOKS
GLOBAL_ATEXIT = []


def _register_at_fork(*, before=None, after_in_parent=None, after_in_child=None):
    (sched.RT.fork_hooks if sched.RT is not None else GLOBAL_FORK_HOOKS).append((before, after_in_parent, after_in_child))


def _urandom(n):
    return RNG.getrandbits(8 * n).to_bytes(n, "big")


M_os = _Proxy(
    _os, register_at_fork=_register_at_fork,
    getpid=lambda: sched.RT.pid if sched.RT is not None else _os.getpid(), urandom=_urandom,
)


def _areg(f, *a, **k):
    (sched.RT.atexit if sched.RT is not None else GLOBAL_ATEXIT).append((f, a, k))
    return f


def _aunreg(f):
    lst = sched.RT.atexit if sched.RT is not None else GLOBAL_ATEXIT
    lst[:] = [e for e in lst if e[0] != f]


M_atexit = types.ModuleType("atexit")
M_atexit.register = _areg
M_atexit.unregister = _aunreg

_SHIMS = {"threading": M_threading, "time": M_time, "random": M_random, "os": M_os, "atexit": M_atexit}


# ---- stdlib modules re-executed on top of the modelled primitives
def _shadow(name, fname_mod, extra=()):
    spec = importlib.util.find_spec(fname_mod)
    with open(spec.origin) as f:
        src = f.read()
    m = types.ModuleType(name)
    m.__dict__["__builtins__"] = _builtins_for(block=("_queue",))
    m.__file__ = spec.origin
    m.__package__ = name.rpartition(".")[0]
    return m, compile(src, spec.origin, "exec")


def _builtins_for(probes=False, block=()):
    b = dict(builtins.__dict__)
    real = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in block:
                raise ImportError(name)
            if name.startswith("concurrent.") and not fromlist:
                return _SHIMS["concurrent"]
            if name in _SHIMS:
                return _SHIMS[name]
        return real(name, globals, locals, fromlist, level)

    b["__import__"] = imp
    if probes:
        b.update(sched.PROBES)
    return b


def _build_shadows():
    q, code = _shadow("queue", "queue")
    exec(code, q.__dict__)
    _SHIMS["queue"] = q
    _SHIMS.update(cfut.build())


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        src = importlib.util.decode_source(data)
        if MODE == "full":
            return rewrite.rewrite(src, path, self.name)
        return compile(src, path, "exec", dont_inherit=True)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        module.__dict__["__builtins__"] = _builtins_for(probes=MODE == "full")
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if not name.startswith("opentelemetry.") or name.startswith(_EXCLUDE):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or type(spec.loader) is not importlib.machinery.SourceFileLoader:
            return spec
        spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install(mode):
    """mode: 'full' (probes + modelled runtime) or 'shim' (modelled runtime only)."""
    global MODE
    if MODE is not None:
        raise RuntimeError("loader already installed")
    for m in list(sys.modules):
        if m.startswith("opentelemetry."):
            raise RuntimeError("opentelemetry imported too early: " + m)
    MODE = mode
    _build_shadows()
    sys.meta_path.insert(0, _Finder())
