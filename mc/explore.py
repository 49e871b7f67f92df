"""Preemption-bounded exhaustive exploration of schedules (engine A)."""
import gc
import hashlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import pickle
import signal
import time
import traceback

from . import loader, rewrite, sched

NPROC = int(os.environ.get("MC_PROCS", "8"))


def label(site):
    if isinstance(site, int):
        s = rewrite.SITES[site]
        return f"{s[0].replace('/repo/', '')}:{s[1]} {s[3]}"
    if isinstance(site, tuple) and len(site) == 4:
        return f"{str(site[0]).replace('/repo/', '')}:{site[1]} {site[3]}"
    return " ".join(map(str, site)) if isinstance(site, tuple) else str(site)


class Harness:
    """One closed driver.  body() runs inside the scheduler and returns an outcome; check(outcome)
    returns None or a violation message."""

    name = "harness"
    max_steps = 20000
    bound = 2
    thorough_bound = 3
    allow_errors = False
    fair_ticks = False  # time passes only when no thread can run (for promises about delays)

    lock_points = False  # also schedule just after a lock is taken (forks while locks are held)

    def key(self, msg):
        """Identifies what fails, for the known-findings file."""
        return msg.split(":")[0].replace(" ", "-")[:60]

    def body(self):
        raise NotImplementedError

    def check(self, out):
        return None

    def setup(self):
        pass


def spawn(fn, name=None, *args):
    t = sched.Thread(target=fn, args=args, name=name or "w")
    t.start()
    return t


def execute(h, prefix=(), sites=frozenset(), record=True):
    loader.RNG.reset()
    h.setup()
    run = sched.Run(prefix=prefix, sites=sites, record=record, max_steps=h.max_steps, fair_ticks=h.fair_ticks, lock_points=h.lock_points)

    def main():
        run.outcome = h.body()

    run.execute(main)
    msg = None
    if run.verdict is not None:
        kind, text = run.verdict
        msg = f"{kind}: {text}"
        if kind == "divergence":
            raise sched.Divergence(msg)
    elif run.errors and not h.allow_errors:
        n, e = run.errors[0]
        if isinstance(e, sched.Violation):
            msg = str(e)
        else:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-3:])
            msg = f"exception escaped in thread {n}: {type(e).__name__}: {e} ({where})"
    else:
        if h.allow_errors:
            run.outcome = (run.outcome, [(n, type(e).__name__) for n, e in run.errors])
        msg = h.check(run.outcome)
    if len(run.points) < len(prefix):
        raise sched.Divergence(f"run has {len(run.points)} choice points, prefix has {len(prefix)}")
    run.msg = msg
    return run


def summary(h, prefix, sites, record):
    """What exploration needs of one execution."""
    run = execute(h, prefix, sites, record)
    return {"points": [tuple(p[:3]) for p in run.points], "step": run.step, "sig": _sig(run.outcome), "repr": repr(run.outcome)[:300],
            "new": (run.conflicts() - sites) if record else set(), "msg": run.msg, "trace": list(run.trace) if run.msg is not None else ()}


def isolated(h, prefix, sites, record):
    """The same in a process of its own, so that no state of the code outlives an execution."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = summary(h, prefix, sites, record)
            except sched.Divergence as e:
                out = {"diverged": str(e)}
            except BaseException:  # noqa
                out = {"error": traceback.format_exc()}
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = pickle.loads(data) if data else {"error": "an execution's process died"}
    if "diverged" in out:
        raise sched.Divergence(out["diverged"])
    if "error" in out:
        raise RuntimeError(out["error"])
    return out


def children(points, plen, bound):
    """Alternative prefixes branching off this execution at positions >= plen."""
    out = []
    cost = 0
    chosen = [p[2] for p in points]
    for i, (n, costs, idx) in enumerate(points):
        if i >= plen:
            for alt in range(n):
                if alt != idx and cost + costs[alt] <= bound:
                    out.append(tuple(chosen[:i]) + (alt,))
        cost += costs[idx]
    return out


def _sig(o):
    return hashlib.sha1(repr(o).encode()).hexdigest()[:16]


def _task(arg):
    """Explore the subtree below a prefix, up to a budget; return leftovers."""
    h, prefix, sites, bound, record, budget, iso = arg
    stack = [prefix]
    res = {"runs": 0, "nodes": 0, "steps": 0, "outcomes": {}, "left": [], "viol": None, "new": set(), "maxpts": 0}
    gc.disable()
    while stack:
        if res["runs"] >= budget:
            res["left"] = stack
            break
        p = stack.pop()
        try:
            run = (isolated if iso else summary)(h, p, sites, record)
        except sched.Divergence as e:
            res["error"] = f"{h.name}: prefix {p}: {e}"
            break
        pts = run["points"]
        res["runs"] += 1
        res["nodes"] += len(pts) - len(p) + 1
        res["steps"] += run["step"]
        res["maxpts"] = max(res["maxpts"], len(pts))
        res["outcomes"].setdefault(run["sig"], run["repr"])
        res["new"] |= run["new"]
        if run["msg"] is not None:
            res["viol"] = {"msg": run["msg"], "prefix": [q[2] for q in pts], "sites": sorted(map(_enc, sites)), "trace": run["trace"], "plen": len(p)}
            res["viol"]["prefix"] = res["viol"]["prefix"][:max([i + 1 for i, q in enumerate(pts) if q[2]] or [0])]
            break
        if res["new"]:
            break
        stack.extend(children(pts, len(p), bound))
        if res["runs"] % 50 == 0:
            gc.collect()
    return res


def _enc(site):
    if isinstance(site, int):
        s = rewrite.SITES[site]
        return json.dumps(["a", s[0], s[1], s[2], s[3]])
    return json.dumps(["s", *site])


def decode_sites(lst):
    idx = {tuple(s): i for i, s in enumerate(rewrite.SITES) if s}
    out = set()
    for e in lst:
        e = json.loads(e)
        if e[0] == "a":
            i = idx.get(tuple(e[1:]))
            if i is not None:
                out.add(i)
        else:
            out.add(tuple(e[1:]))
    return frozenset(out)


class Pool:
    """Forked workers, each exploring one subtree at a time."""

    def __init__(self, harnesses, n=NPROC):
        self.hs = harnesses
        self.workers = {}
        for _ in range(n):
            parent, child = mp.Pipe()
            pid = os.fork()
            if pid == 0:
                parent.close()
                for c in self.workers:
                    c.close()
                code = 0
                try:
                    while True:
                        task = child.recv()
                        try:
                            r = _task((self.hs[task[0]],) + task[1:])
                        except BaseException:  # noqa
                            r = {"error": traceback.format_exc()}
                        child.send(r)
                except EOFError:
                    pass
                except BaseException:  # noqa
                    code = 3
                os._exit(code)
            child.close()
            self.workers[parent] = pid
        self.idle = list(self.workers)

    def terminate(self):
        for c, pid in self.workers.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass


def explore(hi, bound, pool, deadline, sites=frozenset(), iso=False):
    """Exhaust all schedules of harness number hi with at most `bound` deviations.  Returns a result dict."""
    h = pool.hs[hi]
    tot = {"harness": h.name, "runs": 0, "nodes": 0, "steps": 0, "outcomes": {}, "restarts": 0, "maxpts": 0,
           "bound_completed": -1, "viol": None, "capped": False}
    b = 0
    while b <= bound:
        todo = [()]
        stats = {"runs": 0, "nodes": 0, "steps": 0, "maxpts": 0}
        outcomes, new, viol, capped = {}, set(), None, False
        busy = []
        while todo or busy:
            while todo and pool.idle:
                c = pool.idle.pop()
                budget = 4 if stats["runs"] < 50 else (60 if len(todo) < 200 else 300)
                c.send((hi, todo.pop(), sites, b, True, budget, iso))
                busy.append(c)
            for c in mp.connection.wait(busy):
                try:
                    x = c.recv()
                except EOFError:
                    raise sched.Divergence(f"{h.name}: an exploring process died")
                busy.remove(c)
                pool.idle.append(c)
                if x.get("error"):
                    raise sched.Divergence(x["error"])
                for k in ("runs", "nodes", "steps"):
                    stats[k] += x[k]
                stats["maxpts"] = max(stats["maxpts"], x["maxpts"])
                outcomes.update(x["outcomes"])
                new |= x["new"]
                if x["viol"] and (viol is None or len(x["viol"]["prefix"]) < len(viol["prefix"])):
                    viol = x["viol"]
                todo.extend(x["left"])
            if new or viol:
                todo = []
            elif time.time() > deadline:
                capped = True
                todo = []
        for k in ("runs", "nodes", "steps"):
            tot[k] += stats[k]
        tot["maxpts"] = max(tot["maxpts"], stats["maxpts"])
        tot["sites"] = len(sites)
        tot["outcomes"].update(outcomes)
        if viol:
            tot["viol"] = viol
            return tot
        if capped:
            tot["capped"] = True
            return tot
        if new:
            sites = frozenset(sites | new)
            tot["restarts"] += 1
            continue
        tot["last_level_runs"] = stats["runs"]
        tot["bound_completed"] = b
        b += 1
    return tot


def confirm(h, viol):
    """Replay a violating schedule twice; it must fail the same way."""
    sites = decode_sites(viol["sites"])
    return [isolated(h, tuple(viol["prefix"]), sites, False)["msg"] for _ in range(2)]
