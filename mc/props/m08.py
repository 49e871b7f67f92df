"""M08: provider-level flush and shutdown."""
from mc.props._boom import Boom
import itertools
import logging

from mc import sched
from mc.props._metrics import C, OFF, RES, Reader, metrics, provider
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader

logging.disable(logging.CRITICAL)
BEH = ["ok", "raise", "slow", "cbraise"]


class R(Reader):
    def __init__(self, flush, shut, log, n):
        super().__init__(C)
        self.f, self.s, self.log, self.n = flush, shut, log, n

    def act(self, b):
        if b == "slow":
            sched.CLOCK.now += 20 * 10**9
        if b == "raise":
            raise Boom("reader")

    def force_flush(self, timeout_millis=10000):
        self.log.append(("flush", self.n, timeout_millis))
        r = super().force_flush(timeout_millis)
        self.act(self.f)
        return r

    def shutdown(self, timeout_millis=30000, **kw):
        self.log.append(("shut", self.n, timeout_millis))
        self.act(self.s)


OPS = ["flush", "shut", "add", "new"]


def CASES(tier):
    for k in (1, 2, 3):
        for fs in itertools.product(("ok", "raise", "slow"), repeat=k):
            for ss in ([("ok",) * k, ("raise",) + ("ok",) * (k - 1), fs] if tier == "quick" or k == 3 else itertools.product(("ok", "raise", "slow"), repeat=k)):
                for ops in itertools.product(OPS, repeat=3):
                    if "flush" in ops or "shut" in ops:
                        yield ("prov", fs, tuple(ss), ops)


def run_case(case, ctx):
    _, fs, ss, ops = case
    log = []
    readers = [R(f, s, log, i) for i, (f, s) in enumerate(zip(fs, ss))]
    mp = provider(readers)
    m = mp.get_meter("m")
    c = m.create_counter("c")
    c.add(1)
    total, down = 1, False
    for n_op, op in enumerate(ops):
        ctx.step()
        log.clear()
        if op == "flush":
            for r in readers:
                r.got.clear()
            try:
                res = mp.force_flush()
                err = False
            except Exception:
                res, err = None, True
            # a reader that uses up the time budget makes the remaining ones be skipped
            reach = len(fs)
            for i, f in enumerate(fs):
                if f == "slow":
                    reach = i + 1
                    break
            got = [n for _, n, _ in log]
            ctx.check(got == list(range(reach)), "flush-reach", f"flush reached readers {got} of {len(fs)} ({fs})")
            fail = "raise" in fs[:reach] or reach < len(fs)
            ctx.check(err == fail and (err or res is True), "flush-result", f"flush gave {res}, error={err} for {fs}")
            for i in range(reach):
                v = [p.value for md in readers[i].got for _, x in metrics(md) for p in x.data.data_points if x.name == "c"]
                ctx.check(v == [total], "flush-data", f"reader {i} got {v}, recorded {total}")
        elif op == "shut":
            try:
                mp.shutdown()
                err = False
            except Exception:
                err = True
            got = [n for _, n, _ in log]
            if down:
                ctx.check(got == [] and not err, "shutdown-twice", f"second shutdown reached {got}, error={err}")
            else:
                t, reach = 0, []
                for i, s in enumerate(ss):
                    if t >= 30:
                        break
                    reach.append(i)
                    t += 20 if s == "slow" else 0
                ctx.check(got == reach, "shutdown-reach", f"shutdown reached {got}, expected {reach} ({ss})")
                fail = "raise" in ss[:len(reach)] or len(reach) < len(ss)
                ctx.check(err == fail, "shutdown-result", f"shutdown error={err} for {ss}")
            down = True
        elif op == "add":
            c.add(2)
            total += 2
        else:
            n = mp.get_meter("other")
            i = n.create_counter(f"late{n_op}")
            i.add(5)
            n.create_observable_gauge(f"og{n_op}", [lambda o: [Observation(1)]])
            for r in readers:
                r.got.clear()
                r.collect()
                names = {x.name for md in r.got for _, x in metrics(md)}
                ctx.check((f"late{n_op}" in names) == (not down) and (f"og{n_op}" in names) == (not down), "inert", f"shutdown={down}: reported {names}")
    ctx.state(case[1:])
