"""C01: context operations against a model: one context (engine B part)."""
import contextvars
import itertools
import logging
import os
import subprocess
import sys
import tempfile

from opentelemetry.context import Context, attach, create_key, detach, get_current, get_value, set_value

KEYS = ["k1", "k2"]


def ops(tier):
    o = [("set", 0, 1), ("set", 0, 2), ("set", 1, 1), ("setcur", 0, 3), ("set0", 1, 4), ("attach", -1), ("attach", 0), ("detach", -1), ("detach", 0), ("detach", -2)]
    return o


SCRIPTS = [
    [("attach", 1), ("detach", -1)],
    [("attach", 1), ("attach", 2), ("detach", -1), ("detach", -1)],
    [("attach", 1), ("attach", 2), ("detach", 0), ("detach", 1)],
    [("setattach", "k1", 5), ("setattach", "k2", 6), ("detach", -1)],
]


def CASES(tier):
    n = 5 if tier == "quick" else 7
    for k in range(1, n + 1):
        for w in itertools.product(range(len(ops(tier))), repeat=k):
            yield ("seq", w)
    for a, b in itertools.product(range(len(SCRIPTS)), repeat=2):
        la, lb = len(SCRIPTS[a]), len(SCRIPTS[b])
        for pos in itertools.combinations(range(la + lb), la):
            for how in ("tasks", "ctx"):
                yield ("tasks", a, b, pos, how)
    yield ("keys",)
    for w in range(4):
        yield ("immutable", w)
    for w in range(3):
        yield ("foreign", w)
    for v in (None, "contextvars_context", "nope", "", "contextvars_context ", "ContextVars_Context"):
        yield ("named", v)
    for v in (None, "contextvars_context", "mine", "broken", "nope"):
        yield ("other", v)


class Model:
    """current value + tokens, following the documented contextvar semantics."""

    def __init__(self, cur):
        self.cur, self.toks = cur, []

    def live(self, i):
        return -len(self.toks) <= i < len(self.toks)


def run_seq(case, ctx):
    O = ops("")
    pool = [(Context(), {})]
    cur = {}
    ambient = dict(get_current())
    ctx.check(ambient == {}, "leak", "a previous case's context is still current")
    toks = []
    for i in case[1]:
        op = O[i]
        ctx.step()
        if op[0] == "set":
            c, m = pool[-1]
            m2 = dict(m)
            m2[KEYS[op[1]]] = op[2]
            pool.append((set_value(KEYS[op[1]], op[2], c), m2))
        elif op[0] == "set0":
            # an empty context given explicitly stays empty, whatever is current
            pool.append((set_value(KEYS[op[1]], op[2], pool[0][0]), {KEYS[op[1]]: op[2]}))
        elif op[0] == "setcur":
            m2 = dict(cur)
            m2[KEYS[op[1]]] = op[2]
            pool.append((set_value(KEYS[op[1]], op[2]), m2))
        elif op[0] == "attach":
            c, m = pool[op[1]]
            toks.append([attach(c), cur, False])
            cur = m
        else:
            live = [t for t in toks if not t[2]] if op[1] != 0 else toks
            if op[1] == 0:
                t = toks[0] if toks else None
            else:
                t = live[op[1]] if len(live) >= -op[1] else None
            if t is None:
                continue
            detach(t[0])
            if not t[2]:
                t[2] = True
                cur = t[1]
        ctx.check(dict(get_current()) == cur and all(get_value(k) == cur.get(k) for k in KEYS), "current",
                  lambda: f"after {[O[j] for j in case[1]]}: current {dict(get_current())}, expected {cur}")
        for c, m in pool:
            ctx.check(dict(c) == m and all(get_value(k, c) == m.get(k) for k in KEYS), "immutable",
                      lambda: f"an earlier context changed: {dict(c)} expected {m}")
        ctx.state(tuple(sorted(cur.items())), len(toks), sum(t[2] for t in toks))


def script(s, pool, log):
    toks = []
    cur = pool[0][1]
    for op in s:
        if op[0] == "attach":
            c, m = pool[op[1]]
            toks.append((attach(c), cur))
            cur = m
        elif op[0] == "setattach":
            m = dict(cur)
            m[op[1]] = op[2]
            toks.append((attach(set_value(op[1], op[2])), cur))
            cur = m
        else:
            t, old = toks.pop(op[1] if op[1] < len(toks) else -1)
            detach(t)
            cur = old
        log(dict(get_current()) == cur)
        yield
        log(dict(get_current()) == cur)


def run_case(case, ctx):
    logging.disable(logging.CRITICAL)
    try:
        if case[0] == "seq":
            contextvars.Context().run(run_seq, case, ctx)
        elif case[0] == "tasks":
            contextvars.Context().run(run_tasks, case, ctx)
        elif case[0] == "other":
            other(case, ctx)
        elif case[0] == "named":
            named(case, ctx)
        elif case[0] == "keys":
            ks = [create_key(n) for n in ("a", "a", "b", "", "a-b") for _ in range(400)]
            ctx.check(len(set(ks)) == len(ks) and all(isinstance(k, str) for k in ks), "key-collision", "create_key returned the same key twice")
            c = Context()
            for i, k in enumerate(ks[:50]):
                c = set_value(k, i, c)
            ctx.check([get_value(k, c) for k in ks[:50]] == list(range(50)), "key-collision", "values of separate keys disturbed each other")
            ctx.step()
        elif case[0] == "immutable":
            src = {"k": 1}
            c = Context(src)
            if case[1] == 0:
                try:
                    c["k"] = 2
                    ctx.fail("mutable", "item assignment succeeded")
                except (ValueError, TypeError):
                    pass
            elif case[1] == 1:
                src["k"] = 9
                src["z"] = 1
            elif case[1] == 2:
                d = set_value("k", 5, c)
                e = set_value("n", None, d)
                ctx.check(dict(d) == {"k": 5} and dict(e) == {"k": 5, "n": None}, "mutable", "set_value wrong")
            else:
                cp = c.copy()
                cp["k"] = 7
            ctx.check(dict(c) == {"k": 1} and get_value("k", c) == 1 and get_value("zz", c) is None, "mutable", f"context became {dict(c)}")
            ctx.step()
        else:
            # a token of another execution unit: never raises, changes nothing here
            tok = contextvars.Context().run(lambda: attach(Context({"o": 1})))

            def body():
                t1 = attach(Context({"k": 1}))
                if case[1] == 0:
                    detach(tok)
                elif case[1] == 1:
                    detach(t1)
                    detach(t1)
                    return dict(get_current()) == {}
                else:
                    detach(None)
                return dict(get_current()) == {"k": 1}

            ctx.check(contextvars.Context().run(body), "mistaken-detach", "a mistaken detach changed the current context")
            ctx.step()
    finally:
        logging.disable(logging.NOTSET)
    ctx.state(case)


PROGRAM = """
import threading
from opentelemetry.context import Context, attach, detach, get_current, get_value, set_value
out = []
t = attach(set_value("k", 1))
out.append(dict(get_current()))
th = threading.Thread(target=lambda: out.append(dict(get_current())))
th.start()
th.join()
u = attach(set_value("n", 2))
out.append(dict(get_current()))
detach(u)
out.append(get_value("n"))
detach(t)
out.append(dict(get_current()))
print(out)
"""


def other(case, ctx):
    """Of several installed implementations the named one is used."""
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(f"{d}/aa_mine-1.0.dist-info")
        with open(f"{d}/aa_mine-1.0.dist-info/METADATA", "w") as f:
            f.write("Metadata-Version: 2.1\nName: aa-mine\nVersion: 1.0\n")
        with open(f"{d}/aa_mine-1.0.dist-info/entry_points.txt", "w") as f:
            f.write("[opentelemetry_context]\nbroken = mc_nowhere:Nothing\nmine = mc_mine:Mine\n")
        with open(f"{d}/mc_mine.py", "w") as f:
            f.write("from opentelemetry.context.contextvars_context import ContextVarsRuntimeContext\n\n\nclass Mine(ContextVarsRuntimeContext):\n    def attach(self, context):\n        print('mine')\n        return super().attach(context)\n")
        env = {k: v for k, v in os.environ.items() if k != "OTEL_PYTHON_CONTEXT"}
        env["PYTHONPATH"] = d + os.pathsep + env.get("PYTHONPATH", "")
        if case[1] is not None:
            env["OTEL_PYTHON_CONTEXT"] = case[1]
        p = subprocess.run([sys.executable, "-c", PROGRAM], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    want = str([{"k": 1}, {}, {"k": 1, "n": 2}, None, {}])
    got = p.stdout.split("\n")
    ctx.check(p.returncode == 0 and [x for x in got if x not in ("", "mine")] == [want] and ("mine" in got) == (case[1] == "mine"), "other",
              lambda: f"with OTEL_PYTHON_CONTEXT={case[1]!r}: {p.stdout.strip()} {p.stderr[-300:]}")
    ctx.step()


def named(case, ctx):
    """Whatever the environment names as the implementation of the current context, there is one that works."""
    env = {k: v for k, v in os.environ.items() if k != "OTEL_PYTHON_CONTEXT"}
    if case[1] is not None:
        env["OTEL_PYTHON_CONTEXT"] = case[1]
    p = subprocess.run([sys.executable, "-c", PROGRAM], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    ctx.check(p.returncode == 0 and p.stdout.strip() == str([{"k": 1}, {}, {"k": 1, "n": 2}, None, {}]), "named",
              lambda: f"with OTEL_PYTHON_CONTEXT={case[1]!r}: {p.stdout.strip()} {p.stderr[-300:]}")
    ctx.step()


def run_tasks(case, ctx):
    _, a, b, pos, how = case
    pool = [(Context(), {}), (Context({"k1": 1}), {"k1": 1}), (Context({"k1": 2, "k2": 2}), {"k1": 2, "k2": 2})]
    base = attach(Context({"base": 0}))
    bad = []

    def log(ok):
        if not ok:
            bad.append(1)

    bm = {"base": 0}
    bpool = [(None, bm)] + pool[1:]
    order = [0 if i in pos else 1 for i in range(len(SCRIPTS[a]) + len(SCRIPTS[b]))]
    if how == "ctx":
        gens = [script(SCRIPTS[x], bpool, log) for x in (a, b)]
        cs = [contextvars.copy_context() for _ in gens]
        for i in order:
            cs[i].run(next, gens[i], None)
            log(dict(get_current()) == bm)
            ctx.step()
        for i in (0, 1):
            cs[i].run(next, gens[i], None)
    else:
        import asyncio

        async def main():
            turn = [asyncio.Event() for _ in range(len(order) + 1)]

            async def task(me, s):
                g = script(s, bpool, log)
                for i, o in enumerate(order):
                    if o == me:
                        await turn[i].wait()
                        next(g)
                        ctx.step()
                        turn[i + 1].set()
                await turn[-1].wait()
                next(g, None)

            turn[0].set()
            await asyncio.gather(task(0, SCRIPTS[a]), task(1, SCRIPTS[b]))
            log(dict(get_current()) == bm)

        loop = asyncio.new_event_loop()
        loop.run_until_complete(main())
        loop.close()
        log(dict(get_current()) == bm)
    detach(base)
    log(dict(get_current()) == {})
    ctx.check(not bad, "task-isolation", lambda: f"scripts {a},{b} interleaved {order} ({how}) saw each other's context")
