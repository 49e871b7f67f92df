"""F01: forking while batching processors and periodic readers are active."""
import logging

from mc import sched
from mc.explore import Harness, spawn
from mc.loader import M_time
from mc.props import _batch
from mc.props._metrics import C, D, OFF, RES, metrics
from mc.props.m08a import E
from mc.props import x02 as X02
from opentelemetry.context import Context
from opentelemetry.metrics import Observation
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord
from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import SimpleLogRecordProcessor
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader, PeriodicExportingMetricReader
from opentelemetry.sdk.metrics._internal.exponential_histogram.mapping import exponent_mapping as exponent, logarithm_mapping as logarithm
from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View
from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.sampling import ALWAYS_ON

logging.disable(logging.CRITICAL)
_batch.Spans.load()
_batch.Logs.load()


class Batch(Harness):
    lock_points = True
    bound = 2
    thorough_bound = 3
    fair_ticks = True

    def __init__(self, sig, name, before=(), threads=(), child=(), forks=1, opts=None):
        self.sig, self.before, self.threads, self.childops, self.forks = sig, before, threads, child, forks
        self.name = f"{sig.sig}-{name}"
        self.opts = opts or dict(max_queue_size=4, max_export_batch_size=2, schedule_delay_millis=5000)

    def body(self):
        rec = _batch.Rec()
        bad = []
        proc, emit = self.sig.build(rec, **self.opts)

        def do(ops):
            for op in ops:
                if op == "flush":
                    r = proc.force_flush(30000)
                    rec.add("flushed", r)
                elif op == "shut":
                    proc.shutdown()
                elif op == "wait":
                    M_time.sleep(11)
                else:
                    emit(op)

        do(self.before)
        for i, t in enumerate(self.threads):
            spawn(lambda t=t: do(t), f"p{i}")
        produced = []
        for n in range(self.forks):
            # the child sees nothing of what the parent's threads exported or will export
            sched.fork()
            rec.log, rec.active, rec.bad = [], 0, []
            ops = [f"{o}{n}" if o not in ("flush", "shut", "wait") else o for o in self.childops]
            if n < self.forks - 1:
                ops = [o for o in ops if o != "shut"]
            mine = [o for o in ops if o not in ("flush", "shut", "wait")]
            if any(p == "shut" for t in self.threads for p in t):
                # the parent may have been shut down at the fork: only termination is promised
                do(ops)
                continue
            for o in ops:
                do([o])
                if o in ("flush", "wait"):
                    if o == "flush" and rec.log[-1] != ("flushed", True):
                        bad.append(f"flush: in the child reported {rec.log[-1]}")
                    done = ops[:ops.index(o)]
                    missing = [x for x in done if x in mine and x not in rec.exported()]
                    if missing:
                        bad.append(f"lost: {missing} finished in the child, not exported after {o}")
            exp = rec.exported()
            if "shut" in ops:
                if sorted(exp) != sorted(mine):
                    bad.append(f"delivery: the child produced {mine} and exported {exp}")
                if sum(e[0] == "exporter_shutdown" for e in rec.log) != 1:
                    bad.append("shutdown: exporter not shut down once in the child")
                alive = [t.name for t in sched.RT.threads if t.state != "done" and not t.frozen and t.tid != 0]
                if alive:
                    bad.append(f"shutdown: child threads still running: {alive}")
            elif [x for x in exp if x not in mine] or len(set(exp)) != len(exp):
                bad.append(f"duplicate: the child produced {mine} and exported {exp}")
        return tuple(bad), tuple(map(str, rec.log))

    def check(self, out):
        if out[0]:
            return out[0][0]


class Metric(Harness):
    lock_points = True
    bound = 2
    thorough_bound = 3
    fair_ticks = True

    def __init__(self, name, threads, child, pre=True, t=C, forks=1, bound=2, interval=1000):
        self.interval = interval
        self.name, self.threads, self.childops, self.pre, self.t, self.forks, self.bound = "metric-" + name, threads, child, pre, t, forks, bound

    def body(self):
        rec, bad = [], []
        ex = E(rec, self.t)
        rd = PeriodicExportingMetricReader(ex, export_interval_millis=self.interval, export_timeout_millis=500)
        mp = MeterProvider([rd], RES, OFF, shutdown_on_exit=False)
        m = mp.get_meter("m")
        c = m.create_counter("c")
        m.create_observable_gauge("g", [lambda o: [Observation(1)]])
        if self.pre:
            c.add(1)

        def do(ops):
            for op in ops:
                if op == "flush":
                    rd.force_flush()
                elif op == "shut":
                    mp.shutdown()
                elif op == "wait":
                    M_time.sleep(1.5)
                else:
                    c.add(1 << 9 if op == "add" else op)

        for i, t in enumerate(self.threads):
            spawn(lambda t=t: do(t), f"p{i}")
        val = 1 << 10
        for n in range(self.forks):
            sched.fork()
            rec.clear()
            ex.active = 0
            if any("shut" in t for t in self.threads):
                do(self.childops)
                continue
            seen = 0
            for op in self.childops:
                if op == "add":
                    val <<= 1
                    seen |= val
                    do([val])
                    continue
                if op == "shut" and n < self.forks - 1:
                    continue
                k = sum(e[0] == "export" for e in rec)
                do([op])
                if sum(e[0] == "export" for e in rec) <= k and seen:
                    bad.append(f"collection: nothing exported in the child by {op}")
                cov = 0
                for e in rec:
                    if e[0] == "export" and "c" in e[1]:
                        cov = e[1]["c"] if self.t is C else cov + e[1]["c"]
                if cov & seen != seen:
                    bad.append(f"lost: child recorded {seen}, {op} exported {cov}")
            if n == self.forks - 1:
                if "shut" in self.childops:
                    if sum(e[0] == "exporter-shutdown" for e in rec) != 1:
                        bad.append("shutdown: exporter not shut down once in the child")
                    alive = [t.name for t in sched.RT.threads if t.state != "done" and not t.frozen and t.tid != 0]
                    if alive:
                        bad.append(f"shutdown: child threads still running: {alive}")
            bad += [e[1] for e in rec if e[0] == "bad"]
        return tuple(bad), tuple(e[0] for e in rec)

    def check(self, out):
        if out[0]:
            return out[0][0]


class Gone(Harness):
    """Fork after a reader or processor was shut down or dropped."""
    lock_points = True
    fair_ticks = True
    bound = 1
    thorough_bound = 2

    def __init__(self, what):
        self.what = what
        self.name = "gone-" + what

    def body(self):
        bad = []
        if self.what.startswith("metric"):
            rec = []
            ex = E(rec, C)
            rd = PeriodicExportingMetricReader(ex, export_interval_millis=1000, export_timeout_millis=500)
            mp = MeterProvider([rd], RES, OFF, shutdown_on_exit=False)
            mp.get_meter("m").create_counter("c").add(1)
            mp.shutdown()
            if self.what == "metric-dropped":
                import gc
                del rd, mp, ex
                gc.collect()
            rec.clear()
            sched.fork()
            M_time.sleep(5)
            if rec:
                bad.append(f"shutdown: the child of a shut down process did {rec}")
        else:
            rec = _batch.Rec()
            proc, emit = (_batch.Spans if self.what == "span" else _batch.Logs).build(rec, max_queue_size=4, max_export_batch_size=2, schedule_delay_millis=5000)
            emit("a")
            proc.shutdown()
            rec.log = []
            sched.fork()
            emit("b")
            M_time.sleep(20)
            proc.force_flush(1000)
            if rec.log:
                bad.append(f"shutdown: the child of a shut down process did {rec.log}")
        alive = [t.name for t in sched.RT.threads if t.state != "done" and not t.frozen and t.tid != 0]
        if alive:
            bad.append(f"shutdown: threads running in the child: {alive}")
        return tuple(bad), tuple(map(str, bad))

    def check(self, out):
        if out[0]:
            return out[0][0]


class Pool(Harness):
    """Processors driven concurrently by a thread pool, which does not survive the fork."""
    lock_points = True
    fair_ticks = True
    bound = 1
    thorough_bound = 2

    def __init__(self, sig, name, before, threads, child, n=1):
        self.sig, self.before, self.threads, self.childops, self.n = sig, before, threads, child, n
        self.name = f"pool-{sig}-{name}"

    def body(self):
        recs, bad = [X02.Rec() for _ in range(self.n)], []
        if self.sig == "span":
            p = TracerProvider(sampler=ALWAYS_ON, resource=RES, active_span_processor=ConcurrentMultiSpanProcessor(2), shutdown_on_exit=False)
            for r in recs:
                p.add_span_processor(SimpleSpanProcessor(X02.exporter("span", r)))
            tr = p.get_tracer("t")
            emit = lambda name: tr.start_span(name, Context()).end()  # noqa
        else:
            p = LoggerProvider(resource=RES, multi_log_record_processor=ConcurrentMultiLogRecordProcessor(2), shutdown_on_exit=False)
            for r in recs:
                p.add_log_record_processor(SimpleLogRecordProcessor(X02.exporter("log", r)))
            lg = p.get_logger("l")
            emit = lambda name: lg.emit(LogRecord(timestamp=1, body=name, resource=RES, trace_id=0, span_id=0))  # noqa

        def do(ops):
            for o in ops:
                if o == "flush":
                    if not p.force_flush(1000):
                        bad.append("flush: reported failure")
                elif o == "shut":
                    p.shutdown()
                else:
                    emit(o)

        do(self.before)
        for t in self.threads:
            spawn(lambda t=t: do(t), "p")
        sched.fork()
        for r in recs:
            r.items, r.shut, r.late = [], 0, 0
        do(self.childops)
        mine = [o for o in self.childops if o not in ("flush", "shut")]
        for r in recs:
            if r.items != mine:
                bad.append(f"delivery: the child produced {mine} and exported {r.items}")
            if r.shut != self.childops.count("shut"):
                bad.append(f"shutdown: exporter shut down {r.shut} times in the child")
        return tuple(bad), ()

    def check(self, out):
        if out[0]:
            return out[0][0]


class Handler(Harness):
    """Standard logging through the bridge, also for loggers not used before, in the child of a logging process."""
    lock_points = True
    fair_ticks = True
    bound = 2

    def __init__(self, child):
        self.childops = child
        self.name = "logging-" + "-".join(child)

    def body(self):
        rec, bad = X02.Rec(), []
        p = LoggerProvider(resource=RES, shutdown_on_exit=False)
        p.add_log_record_processor(SimpleLogRecordProcessor(X02.exporter("log", rec)))
        h = LoggingHandler(logger_provider=p)

        def log(o):
            h.emit(logging.LogRecord(o, logging.ERROR, "f.py", 1, o, (), None))

        spawn(lambda: [log("a"), log("b")], "p")
        sched.fork()
        rec.items = []
        for o in self.childops:
            if o == "add":
                p.add_log_record_processor(SimpleLogRecordProcessor(X02.exporter("log", X02.Rec())))
            else:
                log(o)
        mine = [o for o in self.childops if o != "add"]
        if rec.items != mine:
            bad.append(f"delivery: the child logged {mine} and exported {rec.items}")
        p.shutdown()
        return tuple(bad), ()

    def check(self, out):
        if out[0]:
            return out[0][0]


class Create(Harness):
    """Meters, instruments and exponential histograms first used by a thread of the parent, or by the child."""
    lock_points = True
    fair_ticks = True
    bound = 2

    def __init__(self, name, parent, child):
        self.name, self.parent, self.childops = "create-" + name, parent, child

    def body(self):
        bad = []
        rd = InMemoryMetricReader()
        mp = MeterProvider([rd], RES, OFF, shutdown_on_exit=False, views=[View(instrument_name="e?", aggregation=ExponentialBucketHistogramAggregation(max_size=2))])
        m = mp.get_meter("m")
        ex = {k: m.create_histogram("e" + k) for k in "pc"}
        exponent.ExponentMapping._mappings.clear()
        logarithm.LogarithmMapping._mappings.clear()

        def do(ops, seen):
            for op in ops:
                k, x = op[0], op[1:]
                if k == "m":
                    mp.get_meter(x).create_counter("n").add(1)
                    seen.add((x, "n"))
                elif k == "c":
                    m.create_counter(x).add(1)
                    seen.add(("m", x))
                elif k == "o":
                    m.create_observable_gauge(x, [lambda _: [Observation(1)]])
                    seen.add(("m", x))
                else:
                    ex[x[0]].record(float(x[1:]))
                    seen.add(("m", "e" + x[0]))

        spawn(lambda: do(self.parent, set()), "p")
        sched.fork()
        seen = set()
        do(self.childops, seen)
        md = rd.get_metrics_data()
        got = {(sm.scope.name, mt.name) for rm in md.resource_metrics for sm in rm.scope_metrics for mt in sm.metrics}
        if not seen <= got:
            bad.append(f"lost: the child used {sorted(seen)} and exported {sorted(got)}")
        mp.shutdown()
        return tuple(bad), ()

    def check(self, out):
        if out[0]:
            return out[0][0]


def HARNESSES(tier):
    hs = [Create("meter", ["mx"], ["mx", "my"]), Create("counter", ["ca"], ["ca", "cb"]), Create("gauge", ["oa"], ["ob"]),
          Create("exponential", ["ep1", "ep1.5"], ["ec1", "ec1.5", "ec4", "ec1e9"])]
    hs += [Handler(["a"]), Handler(["c", "b"])]
    for s in ("span", "log"):
        hs += [Pool(s, "idle", ["a"], [], ["c", "d", "flush", "shut"]), Pool(s, "unused", [], [], ["c", "flush", "shut"]),
               Pool(s, "busy", [], [["a"]], ["c", "d", "shut"]), Pool(s, "two", ["a"], [["b"]], ["c", "flush", "shut"], 2)]
        hs[-1].bound = 0
        hs[-1].thorough_bound = 1
    one = dict(max_queue_size=4, max_export_batch_size=1, schedule_delay_millis=5000)
    for s in (_batch.Spans, _batch.Logs):
        hs += [
            Batch(s, "queued", before=["p0"], child=["c", "x", "flush", "shut"]),
            Batch(s, "producer", threads=[["p0", "p1", "p2"]], child=["c", "wait", "shut"]),
            Batch(s, "flushing", before=["p0"], threads=[["p1", "flush"]], child=["c", "flush", "shut"]),
            Batch(s, "exporting", threads=[["p0", "p1"]], child=["c", "shut"], opts=one),
            Batch(s, "shutting", before=["p0"], threads=[["shut"]], child=["c", "flush", "shut"]),
            Batch(s, "twice", threads=[["p0", "p1"]], child=["c", "x", "y", "flush", "shut"], forks=2),
        ]
        hs[-1].bound = 1
        hs[-1].thorough_bound = 2
    w = "wait"
    hs += [
        Metric("recording", [[2, 4]], ["add", "wait", "shut"]),
        Metric("first-use", [[2]], ["add", "flush", "shut"], pre=False),
        Metric("collecting", [["flush"]], ["add", "flush", "wait", "shut"]),
        Metric("collecting-delta", [[2, "flush"]], ["add", "flush", "shut"], t=D, bound=1),
        Metric("ticking", [[w, 2], [w, 4]], ["add", "wait", "add", "shut"], bound=1),
        Metric("shutting", [["shut"]], ["add", "flush", "shut"]),
        Metric("twice", [[2, "flush"]], ["add", "wait", "add", "shut"], forks=2, bound=1),
        Metric("manual", [["flush"]], ["add", "flush", "add", "shut"], interval=float("inf")),
        Metric("manual-shutting", [["shut"]], ["add", "flush", "shut"], interval=float("inf")),
        Gone("metric"), Gone("metric-dropped"), Gone("span"), Gone("log"),
    ]
    return hs
