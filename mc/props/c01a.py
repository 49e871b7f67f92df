"""C01: context isolation between threads (engine A part)."""
from mc import sched
from mc.explore import Harness, spawn
from opentelemetry.context import Context, attach, detach, get_current, get_value, set_value


def yield_(what):
    sched.RT.point((what,))


class Threads(Harness):
    bound, thorough_bound = 3, 5

    def __init__(self, nest):
        self.nest = nest
        self.name = f"threads-{nest}"

    def body(self):
        bad = []
        shared = Context({"s": 0})

        def work(me):
            cur = dict(get_current())
            if cur != {}:
                bad.append(f"thread {me} starts with {cur}")
            toks, stack = [], [cur]
            for i in range(self.nest):
                c = set_value(f"k{i}", me, shared if i == 0 else None)
                yield_("set")
                toks.append(attach(c))
                stack.append(dict(stack[-1] if i else {"s": 0}, **{f"k{i}": me}))
                yield_("attach")
                if dict(get_current()) != stack[-1] or get_value(f"k{i}") != me:
                    bad.append(f"thread {me} sees {dict(get_current())}, expected {stack[-1]}")
            while toks:
                detach(toks.pop())
                stack.pop()
                yield_("detach")
                if dict(get_current()) != stack[-1]:
                    bad.append(f"thread {me} after detach sees {dict(get_current())}, expected {stack[-1]}")

        t = [spawn(lambda m=m: work(m), f"t{m}") for m in (1, 2)]
        mine = attach(Context({"main": 1}))
        yield_("main")
        if dict(get_current()) != {"main": 1}:
            bad.append("main context disturbed")
        detach(mine)
        for x in t:
            x.join()
        if dict(shared) != {"s": 0} or dict(get_current()) != {}:
            bad.append("shared context changed")
        return bad

    def check(self, out):
        if out:
            return out[0]


def HARNESSES(tier):
    return [Threads(1), Threads(2)]
