"""T03: registration races and concurrent fan-out."""
from mc.props._boom import Boom
import logging

from mc import sched
from mc.explore import Harness, spawn
from opentelemetry.context import Context
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, SpanLimits, SpanProcessor, SynchronousMultiSpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.sampling import ALWAYS_ON

logging.disable(logging.CRITICAL)
RES = Resource({})
LIM = SpanLimits()


class P(SpanProcessor):
    def __init__(self, i, log, flush=True, slow=0):
        self.i, self.log, self.ok, self.slow = i, log, flush, slow

    def on_start(self, span, parent_context=None):
        self.log.append(("start", self.i, span.name))
        self.contexts = getattr(self, "contexts", []) + [parent_context]

    def on_end(self, span):
        self.log.append(("end", self.i, span.name))

    def shutdown(self):
        self.log.append(("shutdown", self.i, None))

    def force_flush(self, timeout_millis=30000):
        self.log.append(("flush", self.i, None))
        if self.slow:
            from mc import loader
            loader.M_time.sleep(self.slow / 1000)
        self.log.append(("flushed", self.i, None))
        return self.ok


def provider(multi):
    return TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False, active_span_processor=multi, span_limits=LIM)


class Register(Harness):
    def __init__(self, kind, adders):
        self.kind, self.adders = kind, adders
        self.name = f"register-{kind}-{adders}"
        if kind == "conc":
            self.bound, self.thorough_bound = 0, 1

    def body(self):
        log, bad = [], []
        multi = SynchronousMultiSpanProcessor() if self.kind == "sync" else ConcurrentMultiSpanProcessor(2)
        tp = provider(multi)
        tp.add_span_processor(P(0, log))
        tr = tp.get_tracer("t")
        added = {}

        def add(i):
            tp.add_span_processor(P(i, log))
            added[i] = len(log)

        def spans():
            for n in ("a", "b")[:1 if self.kind == "conc" else 2]:
                here = set(added) | {0}
                log.append(("begin", tuple(sorted(here)), n))
                s = tr.start_span(n, Context())
                log.append(("ending", tuple(sorted(set(added) | {0})), n))
                s.end()

        ts = [spawn(lambda i=i: add(i), f"add{i}") for i in range(1, self.adders + 1)] + [spawn(spans, "spans")]
        for t in ts:
            t.join()
        s = tr.start_span("last", Context())
        s.end()
        for i in range(self.adders + 1):
            for what in ("start", "end"):
                n = sum(1 for e in log if e == (what, i, "last"))
                if n != 1:
                    bad.append(f"lost-processor: processor {i} saw {n} {what}s of a span created after its registration")
        for e in log:
            if e[0] in ("begin", "ending"):
                what = "start" if e[0] == "begin" else "end"
                for i in e[1]:
                    n = sum(1 for x in log if x == (what, i, e[2]))
                    if n != 1:
                        bad.append(f"notification: processor {i} saw {n} {what}s of span {e[2]}")
        for i in range(self.adders + 1):
            for n in ("a", "b", "last"):
                for what in ("start", "end"):
                    if sum(1 for x in log if x == (what, i, n)) > 1:
                        bad.append(f"duplicate: processor {i} saw {what} of {n} twice")
        return tuple(bad)

    def check(self, out):
        if out:
            return out[0]


class Conc(Harness):
    bound, thorough_bound = 0, 1

    def __init__(self, oks, slow, timeout, name):
        self.oks, self.slow, self.timeout = oks, slow, timeout
        self.name = f"concurrent-{name}"
        self.fair_ticks = True
        if name == "fail2":
            self.bound = 1

    def body(self):
        log, bad = [], []
        tp = provider(ConcurrentMultiSpanProcessor(2))
        procs = [P(i, log, ok, sl) for i, (ok, sl) in enumerate(zip(self.oks, self.slow))]
        for pr in procs:
            tp.add_span_processor(pr)
        tr = tp.get_tracer("t")
        ctx = Context({"k": 1})
        s = tr.start_span("x", ctx)
        if any(len(pr.contexts) != 1 or pr.contexts[0] is not ctx for pr in procs):
            bad.append("parent-context: a processor was not given the parent context")
        for i in range(len(self.oks)):
            if log.count(("start", i, "x")) != 1:
                bad.append(f"start: processor {i} saw {log.count(('start', i, 'x'))} starts when start_span returned")
        s.end()
        for i in range(len(self.oks)):
            if log.count(("end", i, "x")) != 1:
                bad.append(f"end: processor {i} saw {log.count(('end', i, 'x'))} ends when end returned")
        r = tp.force_flush(self.timeout)
        snap = list(log)
        for i in range(len(self.oks)):
            if not any(self.slow) and snap.count(("flush", i, None)) != 1:
                bad.append(f"flush-reach: processor {i} saw {snap.count(('flush', i, None))} flushes")
        if r:
            if not all(self.oks) or any(("flushed", i, None) not in snap for i in range(len(self.oks))):
                bad.append("flush-true: success although a processor did not flush")
        elif all(self.oks) and sum(self.slow) < self.timeout:
            bad.append("flush-false: failure although all processors flushed in time")
        tp.shutdown()
        for i in range(len(self.oks)):
            if log.count(("shutdown", i, None)) != 1:
                bad.append(f"shutdown: processor {i} saw {log.count(('shutdown', i, None))} shutdowns")
        return tuple(bad), bool(r)

    def check(self, out):
        if out[0]:
            return out[0][0]


class Simple(Harness):
    """Several threads end spans through one simple processor next to another processor."""
    name = "simple"

    def __init__(self, script):
        self.script = script
        self.name = "simple-" + "-".join(script)

    def body(self):
        log, bad = [], []
        me = self

        class E(SpanExporter):
            n = 0

            def export(self, spans):
                log.append(("export", [s.name for s in spans]))
                b = me.script[E.n % len(me.script)]
                E.n += 1
                if b == "raise":
                    raise Boom("x")
                return SpanExportResult.SUCCESS

            def force_flush(self, timeout_millis=30000):
                if "raise" in me.script:
                    raise Boom("y")
                return True

        tp = provider(None)
        tp.add_span_processor(SimpleSpanProcessor(E()))
        tp.add_span_processor(P(1, log))
        tr = tp.get_tracer("t")

        def work(n):
            s = tr.start_span(n, Context())
            s.end()
            if log.count(("export", [n])) != 1:
                bad.append(f"sync: span {n} exported {log.count(('export', [n]))} times when end returned")

        ts = [spawn(lambda n=n: work(n), n) for n in ("a", "b")]
        for t in ts:
            t.join()
        for n in ("a", "b"):
            if log.count(("end", 1, n)) != 1:
                bad.append(f"other: processor missed the end of {n}")
        return tuple(bad)

    def check(self, out):
        if out:
            return out[0]


def HARNESSES(tier):
    return [Register("sync", 1), Register("sync", 2), Register("conc", 1), Simple(("ok",)), Simple(("raise", "ok")),
            Conc((True, True), (0, 0), 1000, "ok"), Conc((True, False), (0, 0), 1000, "fail"), Conc((False, True), (0, 0), 1000, "fail2"),
            Conc((True, True), (0, 5000), 1000, "slow")]
