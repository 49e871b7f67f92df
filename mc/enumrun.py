"""Exhaustive execution of enumerated cases on the real code (engine B)."""
import gc
import hashlib
import os
import pickle
import signal
import sys
import time
import traceback

from . import loader, sched

NPROC = int(os.environ.get("MC_PROCS", "8"))
# distinct violations after which a worker gives up; with MC_FAST the first one ends the whole run
FAST = bool(os.environ.get("MC_FAST"))
LIMIT = 1 if FAST else 20
Violation = sched.Violation


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.found = []
        self.outcomes = set()

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode("utf8", "surrogatepass"), digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def fail(self, key, msg):
        self.found.append((key, msg))

    def check(self, cond, key, msg):
        if not cond:
            self.found.append((key, msg() if callable(msg) else msg))
        return cond


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def run_one(mod, case, ctx, timeout=20):
    """Returns list of (key, message)."""
    ctx.found = []
    loader.RNG.reset()
    sched.CLOCK.reset()
    sched.STARTED.clear()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        mod.run_case(case, ctx)
    except CaseTimeout:
        ctx.found.append(("hang", f"no termination within {timeout}s of real time"))
    except Violation as e:
        ctx.found.append((e.info.get("key", "violation"), str(e)))
    except AssertionError as e:
        ctx.found.append(("assert", f"assertion: {e}"))
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-4:])
        last = next((f for f in reversed(tb) if "/repo/" in f.filename), tb[-1])
        ctx.found.append((f"exception:{type(e).__name__}:{last.name}", f"{type(e).__name__}: {e} ({where})"))
    finally:
        signal.alarm(0)
    return ctx.found


def _worker(mod, tier, i, n, deadline, known):
    ctx = Ctx(tier)
    ran = hangs = 0
    capped = False
    viol = {}
    samples = []
    gc.disable()
    for k, case in enumerate(mod.CASES(tier)):
        if k % n != i:
            continue
        if ran % 64 == 0 or hangs:
            if time.time() > deadline:
                capped = True
                break
            if ran % 1024 == 0:
                gc.collect()
        found = run_one(mod, case, ctx)
        ran += 1
        if ran in (1, 7) and len(samples) < 2:
            samples.append(repr(case)[:300])
        hangs += any(key == "hang" for key, _ in found)
        for key, msg in found:
            v = viol.get(key)
            if v is None:
                viol[key] = [k, msg, case, 1]
            else:
                v[3] += 1
        if hangs >= 3 or sum(1 for key in viol if key not in known) >= LIMIT:
            break
    return {"ran": ran, "states": ctx.states, "transitions": ctx.transitions, "viol": viol, "samples": samples,
            "capped": capped, "outcomes": ctx.outcomes}


def run_cases(mod, tier, deadline, known=(), nproc=None):
    n = nproc or NPROC
    kids = []
    sys.stdout.flush()
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                out = _worker(mod, tier, i, n, deadline, known)
                data = pickle.dumps(out) + (b"mc-violation" if out["viol"] else b"")
            except BaseException:
                data = pickle.dumps({"crash": traceback.format_exc()})
                code = 3
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(code)
        os.close(w)
        kids.append((pid, r))
    tot = {"ran": 0, "states": set(), "transitions": 0, "viol": {}, "samples": [], "capped": False, "outcomes": set()}
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in kids:
        sel.register(r, selectors.EVENT_READ)
        bufs[r] = b""
    open_ = len(kids)
    while open_:
        for key, _ in sel.select():
            d = os.read(key.fd, 1 << 20)
            if not d:
                sel.unregister(key.fd)
                os.close(key.fd)
                open_ -= 1
                if FAST and b"mc-violation" in bufs[key.fd][-64:]:
                    for pid, r in kids:
                        try:
                            os.kill(pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
            else:
                bufs[key.fd] += d
    for pid, r in kids:
        _, st = os.waitpid(pid, 0)
        if not bufs[r] or FAST and os.WIFSIGNALED(st):
            if FAST and any(b"mc-violation" in b[-64:] for b in bufs.values()):
                continue
            tot["viol"].setdefault("crash", [0, f"the process running the cases died (status {st})", None, 1])
            continue
        o = pickle.loads(bufs[r])
        if "crash" in o:
            raise RuntimeError(o["crash"])
        tot["ran"] += o["ran"]
        tot["states"] |= o["states"]
        tot["outcomes"] |= o["outcomes"]
        tot["transitions"] += o["transitions"]
        tot["capped"] |= o["capped"]
        tot["samples"] += o["samples"]
        for key, v in o["viol"].items():
            c = tot["viol"].get(key)
            if c is None:
                tot["viol"][key] = v
            else:
                n_ = c[3] + v[3]
                tot["viol"][key] = list(min(c[:3], v[:3], key=lambda x: x[0])) + [n_]
    return tot
