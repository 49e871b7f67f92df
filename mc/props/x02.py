"""X02: what was recorded before the process exits normally is exported."""
import gc
import itertools
import logging

from mc import sched
from mc.props._boom import Boom
from mc.props.x01 import scheduled, sched_sleep
from opentelemetry.context import Context
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler
from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor, SynchronousMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor
from opentelemetry.sdk.metrics import AlwaysOffExemplarFilter, MeterProvider
from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult, PeriodicExportingMetricReader
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, SynchronousMultiSpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from mc.loader import M_atexit as atexit

RES = Resource({})
SETUPS = [("span", "sync", ("b",)), ("span", "sync", ("s", "b")), ("span", "conc", ("b",)), ("span", "conc", ("b", "b")), ("span", "conc", ("s", "b", "b")),
          ("log", "sync", ("b",)), ("log", "sync", ("s", "b")), ("log", "conc", ("b",)), ("log", "conc", ("b", "b")), ("log", "conc", ("s", "b", "b")),
          ("metric", "", ("p",)), ("metric", "", ("p", "p")), ("metric", "", ("inf",))]
OPS = ["rec", "rec2", "flush", "idle", "shut"]


def CASES(tier):
    n = 3 if tier == "quick" else 5
    for k, setup in enumerate(SETUPS):
        for r in range(n + 1):
            for w in itertools.product(OPS, repeat=r):
                if w.count("shut") > 1:
                    continue
                for on in (True, False):
                    for late in ("", "before", "after", "drop") if r < 3 else ("after",):
                        yield ("exit", k, w, on, late)
    for a, b in itertools.product(range(len(SETUPS)), repeat=2):
        for w in itertools.product(OPS[:2] + OPS[4:], repeat=2):
            for fail in ("", "raise", "fail"):
                yield ("pair", (a, b), w, fail)


class Rec:
    def __init__(self, fail=""):
        self.items, self.shut, self.late, self.fail = [], 0, 0, fail

    def go(self, items, good, bad):
        self.late += self.shut > 0
        self.items += items
        if self.fail == "raise":
            raise Boom("export")
        return bad if self.fail else good

    def stop(self):
        self.shut += 1


def exporter(sig, rec):
    if sig == "span":
        class E(SpanExporter):
            def export(self, spans):
                return rec.go([s.name for s in spans], SpanExportResult.SUCCESS, SpanExportResult.FAILURE)

            def shutdown(self):
                rec.stop()
    elif sig == "log":
        class E(LogExporter):
            def export(self, batch):
                return rec.go([d.log_record.body for d in batch], LogExportResult.SUCCESS, LogExportResult.FAILURE)

            def shutdown(self):
                rec.stop()
    else:
        class E(MetricExporter):
            def export(self, metrics_data, timeout_millis=10000, **kw):
                v = [p.value for rm in metrics_data.resource_metrics for s in rm.scope_metrics for m in s.metrics for p in m.data.data_points]
                return rec.go(v, MetricExportResult.SUCCESS, MetricExportResult.FAILURE)

            def force_flush(self, timeout_millis=10000):
                return True

            def shutdown(self, timeout_millis=30000, **kw):
                rec.stop()
    return E()


class World:
    """One provider with its processors or readers."""

    def __init__(self, setup, on, tag="", fail=""):
        self.sig, multi, procs = setup
        self.recs = [Rec(fail) for _ in procs]
        self.n, self.total, self.before, self.shut, self.tag = 0, 0, [], False, tag
        kw = dict(shutdown_on_exit=on)
        exps = [exporter(self.sig, r) for r in self.recs]
        if self.sig == "span":
            self.p = TracerProvider(sampler=ALWAYS_ON, resource=RES, active_span_processor=ConcurrentMultiSpanProcessor(2) if multi == "conc" else SynchronousMultiSpanProcessor(), **kw)
            for e, k in zip(exps, procs):
                self.p.add_span_processor(SimpleSpanProcessor(e) if k == "s" else BatchSpanProcessor(e, schedule_delay_millis=1000, max_export_batch_size=2))
            tr = self.p.get_tracer("t")
            self.rec1 = lambda name: tr.start_span(name, Context()).end()
        elif self.sig == "log":
            self.p = LoggerProvider(resource=RES, multi_log_record_processor=ConcurrentMultiLogRecordProcessor(2) if multi == "conc" else SynchronousMultiLogRecordProcessor(), **kw)
            for e, k in zip(exps, procs):
                self.p.add_log_record_processor(SimpleLogRecordProcessor(e) if k == "s" else BatchLogRecordProcessor(e, schedule_delay_millis=1000, max_export_batch_size=2))
            h = LoggingHandler(logger_provider=self.p)
            self.h = h
            self.rec1 = lambda name: h.emit(logging.LogRecord("x", logging.ERROR, "f.py", 1, name, (), None))
        else:
            self.p = MeterProvider([PeriodicExportingMetricReader(e, export_interval_millis=float("inf") if k == "inf" else 1000) for e, k in zip(exps, procs)], RES,
                                   AlwaysOffExemplarFilter(), **kw)
            c = self.p.get_meter("m").create_counter("c")
            self.rec1 = lambda name: c.add(1)

    def record(self):
        self.n += 1
        name = f"{self.tag}{self.n}"
        self.rec1(name)
        if not self.shut:
            self.before.append(name)

    def do(self, o):
        if o == "rec":
            self.record()
        elif o == "rec2":
            self.record(), self.record()
        elif o == "flush":
            self.p.force_flush()
        elif o == "idle":
            sched_sleep(2.5)
        else:
            self.p.shutdown()
            self.shut = True

    def check(self, ctx, on, what):
        for i, r in enumerate(self.recs):
            if on or self.shut:
                if self.sig == "metric":
                    ok = (r.items[-1] if r.items else 0) == len(self.before)
                    ctx.check(ok, "exit-export", lambda: f"{what}: reader {i} last exported {r.items[-1:]}, recorded {len(self.before)}")
                else:
                    miss = [x for x in self.before if r.items.count(x) != 1]
                    ctx.check(not miss, "exit-export", lambda: f"{what}: exporter {i} received {r.items}, recorded {self.before}")
                ctx.check(r.shut == 1, "exit-shutdown", lambda: f"{what}: exporter {i} was shut down {r.shut} times")
            else:
                ctx.check(r.shut == 0, "exit-optout", lambda: f"{what}: exporter {i} shut down although exit handling is off")


def run_case(case, ctx):
    logging.disable(logging.NOTSET)
    logging.raiseExceptions = False
    logging.getLogger("opentelemetry").setLevel(logging.CRITICAL + 1)
    scheduled(lambda: body(case, ctx))


def body(case, ctx):
    ctx.step()
    if case[0] == "exit":
        _, k, w, on, late = case
        if late == "before":  # registered before the provider: runs after its shutdown
            atexit.register(lambda: W.rec1("too-late"))
        W = World(SETUPS[k], on)
        if late == "after":
            atexit.register(lambda: W.record())
        for o in w:
            ctx.step()
            W.do(o)
        what = f"{SETUPS[k]} shutdown_on_exit={on}: {w} then exit ({late})"
        if late == "drop":  # the application keeps no reference to its provider
            W.p = W.rec1 = W.h = None
            gc.collect()
        errors = sched.exit_process()
        if on and late != "before" or W.shut:
            ctx.check(not errors, "exit-raises", lambda: f"{what}: {errors!r}")
        if W.sig == "log" and on and late != "drop":
            try:
                W.h.flush()  # what logging does with its handlers, last of all
            except Exception as e:  # noqa
                ctx.check(False, "exit-raises", lambda: f"{what}: flushing the logging handler raised {e!r}")
        W.check(ctx, on, what)
    else:
        _, (a, b), w, fail = case
        A, B = World(SETUPS[a], True, "a", fail), World(SETUPS[b], True, "b")
        for o, X in zip(w + ("rec", "rec2"), (A, B, A, B)):
            X.do(o)
        what = f"{SETUPS[a]} ({fail}) and {SETUPS[b]}: {w} then exit"
        errors = sched.exit_process()
        ctx.check(not errors, "exit-raises", lambda: f"{what}: {errors!r}")
        A.check(ctx, True, what)
        B.check(ctx, True, what)
    ctx.state(case)
