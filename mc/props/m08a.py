"""M08: the periodic metric reader."""
from mc.props._boom import Boom
import logging

from mc import sched
from mc.explore import Harness, spawn
from mc.loader import M_time
from mc.props._metrics import C, D, OFF, RES, metrics, temp
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult, PeriodicExportingMetricReader

logging.disable(logging.CRITICAL)
INTERVAL = 1000


class E(MetricExporter):
    def __init__(self, rec, temporality, script=(), stall=0):
        super().__init__(preferred_temporality=temp(temporality))
        self.rec, self.script, self.n, self.active, self.stall = rec, script, -1, 0, stall

    def export(self, metrics_data, timeout_millis=10000, **kw):
        self.n += 1
        r = self.rec
        if self.active:
            r.append(("bad", "overlap: export calls overlap"))
        if any(e[0] == "exporter-shutdown" for e in r):
            r.append(("bad", "after: export after the exporter was shut down"))
        self.active += 1
        try:
            v = {m.name: m.data.data_points[0].value for _, m in metrics(metrics_data)}
            sched.RT.point(("export",))
            if self.stall:
                M_time.sleep(self.stall / 1e3)
            r.append(("export", v, sched.CLOCK.now - sched.T0))
            b = self.script[self.n] if self.n < len(self.script) else "ok"
            if b == "raise":
                raise Boom("export")
            return MetricExportResult.FAILURE if b == "fail" else MetricExportResult.SUCCESS
        finally:
            self.active -= 1

    def force_flush(self, timeout_millis=10000):
        self.rec.append(("exporter-flush",))
        return True

    def shutdown(self, timeout_millis=30000, **kw):
        if self.active:
            self.rec.append(("bad", "shutdown: exporter shut down during an export"))
        self.rec.append(("exporter-shutdown",))


class H(Harness):
    fair_ticks = True  # a deadline passes only when every thread waits; racing ticks come from sleeping threads

    def __init__(self, name, plan, temporality=D, script=(), bound=1, pre=(), via="provider", interval=INTERVAL, cb=None, stall=0, tbound=None):
        """plan: per thread operations: number = add, 'flush', 'rflush', 'shut', ('sleep', ms)"""
        self.name, self.plan, self.t, self.script, self.bound, self.pre, self.via = name, plan, temporality, script, bound, pre, via
        self.interval, self.cb, self.stall = interval, cb, stall
        self.thorough_bound = tbound or bound + 1

    def body(self):
        rec, bad = [], []
        ex = E(rec, self.t, self.script, self.stall)
        rd = PeriodicExportingMetricReader(ex, export_interval_millis=self.interval, export_timeout_millis=500)
        mp = MeterProvider([rd], RES, OFF, shutdown_on_exit=False)
        m = mp.get_meter("m")
        c = m.create_counter("c")
        if self.cb:
            m.create_observable_gauge("g", [self.cb])
        done = []  # values whose recording finished
        shut = [False]

        def covered(upto=None):
            tot = 0
            for e in rec[:upto]:
                if e[0] == "export" and "c" in e[1]:
                    tot = tot + e[1]["c"] if self.t is D else e[1]["c"]
            return tot

        def w(ops):
            for op in ops:
                if isinstance(op, int):
                    c.add(op)
                    if not shut[0]:
                        done.append(op)
                elif op in ("flush", "rflush"):
                    need = list(done)
                    if shut[0]:
                        need = []
                    r = mp.force_flush() if op == "flush" else rd.force_flush()
                    cov = covered()
                    missing = [v for v in need if not cov & v]
                    if r and not shut[0]:
                        k = max((i for i, e in enumerate(rec) if e[0] == "exporter-flush"), default=-1)
                        if [v for v in need if not covered(k + 1) & v]:
                            bad.append(f"flush: {need} was exported, but the exporter was not flushed afterwards")
                    if r and missing and not shut[0]:
                        bad.append(f"flush: reported success but {missing} recorded before it is not exported")
                elif op == "shut":
                    need = list(done)
                    first = not shut[0]
                    shut[0] = True
                    lone = sum(p.count("shut") for p in self.plan) <= 1
                    (mp if self.via == "provider" else rd).shutdown()
                    if first and lone:
                        cov = covered()
                        missing = [v for v in need if not cov & v]
                        if missing:
                            bad.append(f"shutdown: {missing} recorded before it is not exported")
                else:
                    M_time.sleep(op[1] / 1e3)

        w(self.pre)
        ts = [spawn(lambda p=p: w(p), f"t{i}") for i, p in enumerate(self.plan)]
        for t in ts:
            t.join()
        if not shut[0]:
            w(["shut"])
        n = len([e for e in rec if e[0] == "export"])
        c.add(1 << 20)
        M_time.sleep(5 * self.interval / 1e3)
        if len([e for e in rec if e[0] == "export"]) != n:
            bad.append("shutdown: exported after shutdown returned")
        k = sum(e[0] == "exporter-shutdown" for e in rec)
        if k != 1:
            bad.append(f"shutdown: exporter shut down {k} times")
        alive = [t.name for t in sched.RT.threads if t.state != "done" and t.tid != 0]
        if alive:
            bad.append(f"shutdown: threads still running: {alive}")
        bad += [e[1] for e in rec if e[0] == "bad"]
        if self.t is D and "fail" not in self.script and "raise" not in self.script:
            s = covered()
            if s != sum(set(done) | {v for p in self.plan for v in p if isinstance(v, int) and s & v} | set(v for v in self.pre if isinstance(v, int))):
                bad.append(f"delivery: exports add up to {s}, recorded {sorted(done)}")
        return tuple(bad), tuple(tuple(sorted(e[1].items())) for e in rec if e[0] == "export")

    def check(self, out):
        if out[0]:
            return out[0][0]


class Ticks(Harness):
    """Exports once per interval and keeps going whatever fails."""
    fair_ticks = True
    bound = 1
    thorough_bound = 2

    def __init__(self, name, script=(), cb=None, n=4, t=C, want=None, calls=None, final=True, two=False):
        self.name, self.script, self.cb, self.n, self.t, self.want, self.calls = name, script, cb, n, t, want or list(range(1, n + 1)), calls or n
        self.final, self.two = final, two or not final or "final" in name

    def body(self):
        rec, bad = [], []
        ex = E(rec, self.t, self.script)
        rd = PeriodicExportingMetricReader(ex, export_interval_millis=INTERVAL, export_timeout_millis=500)
        mp = MeterProvider([rd], RES, OFF, shutdown_on_exit=False)
        m = mp.get_meter("m")
        c = m.create_counter("c")
        calls = [0]
        if self.cb:
            def cb(o):
                calls[0] += 1
                return self.cb(calls[0])
            m.create_observable_counter("g", [cb])
            if self.two:
                m.create_observable_gauge("h", [lambda o: [Observation(1)]])  # the deadline is looked at before each instrument
        c.add(1)
        M_time.sleep((self.n * INTERVAL + INTERVAL / 2) / 1e3)
        times = [e[2] // (INTERVAL * 10**6) for e in rec if e[0] == "export"]
        if times != self.want:
            bad.append(f"interval: exports after {times} intervals, expected {self.want}")
        if self.cb and calls[0] != self.calls:
            bad.append(f"interval: {calls[0]} collections in {self.n} intervals")
        c.add(2)
        mp.shutdown()
        last = [e[1] for e in rec if e[0] == "export"]
        if self.final and (not last or last[-1].get("c") != (3 if self.t is C else 2)):
            bad.append(f"shutdown: final export {last[-1:]}")
        if self.t is D and not set(self.script) & {"raise", "fail"} and sum(e.get("c", 0) for e in last) != 3:
            bad.append(f"delivery: exports add up to {[e.get('c', 0) for e in last]}, recorded 3")
        if sum(e[0] == "exporter-shutdown" for e in rec) != 1 or any(e[0] == "bad" for e in rec):
            bad.append(f"shutdown: {rec}")
        return tuple(bad), tuple(times)

    def check(self, out):
        if out[0]:
            return out[0][0]


class Stuck(Harness):
    """The exporter never comes back: shutdown gives up once its timeout has passed."""
    fair_ticks = True
    bound = 1
    thorough_bound = 2

    def __init__(self, name, timeout, via, ticks=True):
        self.name, self.timeout, self.via, self.ticks = name, timeout, via, ticks

    def body(self):
        release, inside, rec, bad = sched.Event(), sched.Event(), [], []

        class X(E):
            def export(self, metrics_data, timeout_millis=10000, **kw):
                rec.append(("begin",))
                inside.set()
                release.wait()
                return MetricExportResult.SUCCESS

        rd = PeriodicExportingMetricReader(X(rec, D), export_interval_millis=INTERVAL if self.ticks else float("inf"), export_timeout_millis=500)
        mp = MeterProvider([rd], RES, OFF, shutdown_on_exit=False)
        mp.get_meter("m").create_counter("c").add(1)
        fl = None
        if self.ticks:
            M_time.sleep(1.5 * INTERVAL / 1e3)
        else:
            fl = spawn(rd.force_flush, "fl")
        inside.wait()
        t = sched.CLOCK.now
        (mp if self.via == "provider" else rd).shutdown(timeout_millis=self.timeout)
        el = (sched.CLOCK.now - t) / 1e9
        if el > self.timeout / 1e3 + 0.01:
            bad.append(f"timeout: shutdown with a timeout of {self.timeout} ms returned after {el} s")
        n = len([e for e in rec if e[0] == "begin"])
        release.set()
        if fl:
            fl.join()
        M_time.sleep(3)
        if len([e for e in rec if e[0] == "begin"]) != n:
            bad.append("shutdown: exported after shutdown returned")
        return tuple(bad), n

    def check(self, out):
        if out[0]:
            return out[0][0]


def cb_raise(n):
    if n in (1, 3):
        raise Boom("callback")
    return [Observation(n)]


def cb_bad(n):
    return [Observation("text" if n in (1, 3) else n)]


def cb_none(n):
    return [None] if n == 2 else None if n == 3 else [Observation(1)]


def cb_slow(n):
    if n == 2:
        M_time.sleep(0.6)
    return [Observation(n)]


def cb_slow_first(n):
    if n == 1:
        M_time.sleep(0.6)
    return [Observation(n)]


def cb_slow_last(secs):
    def cb(n):
        if n == 5:
            M_time.sleep(secs)
        return [Observation(n)]
    return cb


def HARNESSES(tier):
    tick = ("sleep", INTERVAL)
    hs = [
        H("shutdown", [[1, 2], ["shut"]], pre=(4,), bound=2),
        H("shutdown-tick", [[tick, 1], [tick, "shut"]], pre=(4,), bound=2),
        H("shutdown-reader", [[1], ["shut"], ["shut"]], pre=(4,), via="reader", bound=1),
        H("shutdown-cum", [[1, tick, 2], [tick, "shut"]], temporality=C, pre=(4,), bound=2),
        H("flush", [[1, "flush"], [2, "rflush"]], pre=(4,), bound=1, tbound=2),
        H("flush-tick", [[tick, 1, "flush"], [tick, 2]], pre=(4,), bound=2),
        H("flush-tick-cum", [[tick, 1, "flush"], [tick, 2, "rflush"]], temporality=C, pre=(4,), bound=1, tbound=2),
        H("flush-shutdown", [[1, "flush"], ["shut"]], pre=(4,), bound=2),
        H("flush-shutdown-tick", [[tick, 1, "flush"], [tick, "shut"]], pre=(4,), bound=1),
        H("slow-export", [[tick, 1, "flush"], [("sleep", 1500), 2, "shut"]], bound=1, stall=800),
        H("very-slow-export", [[tick, 1], [("sleep", 1500), 2, "shut"]], bound=1, stall=8000),
        H("failing", [[tick, 1, "flush", 2], [tick, 4]], script=("raise", "fail", "raise"), temporality=C, bound=1, tbound=2),
        Ticks("ticks"),
        Stuck("stuck", 2000, "reader"),
        Stuck("stuck-provider", 700, "provider"),
        Stuck("stuck-no-interval", 2000, "reader", ticks=False),
        Ticks("ticks-delta-fail", script=("raise", "fail", "raise", "ok")),
        Ticks("ticks-callback-raises", cb=cb_raise),
        Ticks("ticks-callback-bad-value", cb=cb_bad, want=[2, 4]),
        Ticks("ticks-callback-bad-result", cb=cb_none),
        Ticks("ticks-callback-slow", cb=cb_slow, want=[1, 2, 3], calls=3),
        Ticks("ticks-callback-slow-delta", cb=cb_slow, t=D, want=[1, 2, 3], calls=3),
        Ticks("ticks-callback-late-first", cb=cb_slow_first, t=D, want=[2, 3], calls=3, two=True),
        Ticks("ticks-callback-late", cb=cb_slow, t=D, want=[1, 3], calls=3, two=True),
        Ticks("ticks-final-callback-slow", cb=cb_slow_last(0.6)),
        Ticks("ticks-final-callback-late", cb=cb_slow_last(2), final=False),
    ]
    return hs
