"""X01: exporting suppresses instrumentation and leaves the application's context alone."""
import itertools
import logging
import math

from mc import sched
from mc.props._boom import Boom
from opentelemetry import trace
from opentelemetry.context import _SUPPRESS_INSTRUMENTATION_KEY as KEY
from opentelemetry.context import Context, attach, detach, get_current, get_value, set_value
from opentelemetry.sdk._logs import LoggerProvider, LogRecord
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor
from opentelemetry.sdk.metrics import AlwaysOffExemplarFilter, MeterProvider
from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult, PeriodicExportingMetricReader
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.sampling import ALWAYS_ON

logging.disable(logging.CRITICAL)
RES = Resource({})
PIPES = ["ss", "bs", "sl", "bl", "pm", "pi"]  # simple / batch spans, simple / batch logs, periodic metrics (pi: only when asked)
SCRIPTS = ["ok", "fail", "raise", "leak"]
OPS = ["span", "scope", "inner", "log", "add", "flush", "idle", "unsampled"]


def CASES(tier):
    n = 3 if tier == "quick" else 4
    for pipes in [(p,) for p in PIPES] + [("ss", "bs"), ("ss", "ss"), ("sl", "bl"), ("ss", "sl", "pm"), ("bs", "bl", "pm")]:
        for s in itertools.product(SCRIPTS, repeat=min(len(pipes), 2)):
            for amb in ((), (("a", 1),), (("a", 1), (KEY, False)), ((KEY, True),)):
                ops = [o for o in OPS if (o not in ("span", "scope", "inner", "unsampled") or any(p in ("ss", "bs") for p in pipes))
                       and (o != "log" or any(p in ("sl", "bl") for p in pipes)) and (o != "add" or "pm" in pipes or "pi" in pipes)]
                for w in itertools.product(ops, repeat=n if len(pipes) < 3 else n - 1):
                    yield (pipes, s, amb, w)


class X:
    """One modelled exporter for all signals."""

    def __init__(self, seen, kind, script):
        self.seen, self.kind, self.script, self.n = seen, kind, script, 0

    def go(self, good, bad):
        self.seen.append((self.kind, get_value(KEY), get_value("a")))
        self.n += 1
        if self.script == "leak":
            attach(Context({"leaked": self.n}))
        if self.script == "raise":
            raise Boom("exporter failed")
        return bad if self.script == "fail" else good


def span_exporter(x):
    class E(SpanExporter):
        def export(self, spans):
            return x.go(SpanExportResult.SUCCESS, SpanExportResult.FAILURE)
    return E()


def log_exporter(x):
    class E(LogExporter):
        def export(self, batch):
            return x.go(LogExportResult.SUCCESS, LogExportResult.FAILURE)

        def shutdown(self):
            pass
    return E()


def metric_exporter(x):
    class E(MetricExporter):
        def export(self, metrics_data, timeout_millis=10000, **kw):
            return x.go(MetricExportResult.SUCCESS, MetricExportResult.FAILURE)

        def force_flush(self, timeout_millis=10000):
            return True

        def shutdown(self, timeout_millis=30000, **kw):
            pass
    return E()


class Watch(SpanProcessor):
    """Processors next to the exporting one run in the application's context."""

    def __init__(self, out):
        self.out = out

    def on_start(self, span, parent_context=None):
        self.out.append(("start", get_value(KEY), get_value("a"), get_value("leaked")))

    def on_end(self, span):
        self.out.append(("end", get_value(KEY), get_value("a"), get_value("leaked")))


def scheduled(fn):
    box = []

    def main():
        try:
            box.append((True, fn()))
        except sched.Killed:
            raise
        except BaseException as e:  # noqa
            box.append((False, e))
    r = sched.Run(record=False, max_steps=200000).execute(main)
    if r.verdict or not box:
        raise sched.Violation(f"{r.verdict}", key="stuck")
    if not box[0][0]:
        raise box[0][1]
    return box[0][1]


def run_case(case, ctx):
    scheduled(lambda: body(case, ctx))


def body(case, ctx):
    pipes, scripts, amb, w = case
    ctx.step()
    seen, watch = [], []
    tok = attach(Context(dict(amb)))
    base = get_current()
    tp = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False)
    lp = LoggerProvider(resource=RES, shutdown_on_exit=False)
    readers, c = [], None
    for i, p in enumerate(pipes):
        x = X(seen, p, scripts[i % len(scripts)])
        if p == "ss":
            tp.add_span_processor(SimpleSpanProcessor(span_exporter(x)))
        elif p == "bs":
            tp.add_span_processor(BatchSpanProcessor(span_exporter(x), schedule_delay_millis=1000, max_export_batch_size=2))
        elif p == "sl":
            lp.add_log_record_processor(SimpleLogRecordProcessor(log_exporter(x)))
        elif p == "bl":
            lp.add_log_record_processor(BatchLogRecordProcessor(log_exporter(x), schedule_delay_millis=1000, max_export_batch_size=2))
        else:
            readers.append(PeriodicExportingMetricReader(metric_exporter(x), export_interval_millis=1000 if p == "pm" else math.inf))
    tp.add_span_processor(Watch(watch))
    mp = MeterProvider(readers, RES, AlwaysOffExemplarFilter(), shutdown_on_exit=False)
    c = mp.get_meter("m").create_counter("c")
    tr, lg = tp.get_tracer("t"), lp.get_logger("l")

    def op(o):
        if o == "span":
            tr.start_span("s").end()
        elif o == "scope":
            with tr.start_as_current_span("s"):
                pass
        elif o == "inner":
            with tr.start_as_current_span("s") as s:
                cur = get_current()
                tr.start_span("i").end()
                ctx.check(get_current() is cur and trace.get_current_span() is s, "scope", lambda: f"{case}: ending a child span changed the current context to {get_current()}")
        elif o == "unsampled":
            tr.start_span("u", trace.set_span_in_context(trace.INVALID_SPAN)).end()
        elif o == "log":
            lg.emit(LogRecord(timestamp=1, body="b", resource=RES, trace_id=0, span_id=0))
        elif o == "add":
            c.add(1)
        elif o == "idle":
            sched_sleep(1.5)
        elif o == "flush":
            tp.force_flush(), lp.force_flush(), mp.force_flush()
        else:
            tp.shutdown(), lp.shutdown(), mp.shutdown()

    end = ("shutdown",) if w[0] != "idle" else ("shutdown", "span", "log", "flush", "shutdown")
    for k, o in enumerate(w + end):
        n0 = len(seen)
        ctx.step()
        op(o)
        ctx.check(get_current() is base or get_current() == base, "application-context",
                  lambda: f"{case}: after {(w + end)[:k]} {o} the current context is {get_current()}, expected {base}")
        if k < len(w) and (o in ("span", "scope", "unsampled") and "ss" in pipes or o == "log" and "sl" in pipes):
            ctx.check(len(seen) > n0, "not-exported", lambda: f"{case}: {o} was not exported synchronously")
        for kind, sup, a in seen[n0:]:
            if kind[0] == "s":  # synchronous export sees the application's values
                ctx.check(a == dict(amb).get("a"), "export-context", lambda: f"{case}: exporting synchronously sees a={a}")
    for kind, sup, a in seen:
        ctx.check(sup is True, "suppression", lambda: f"{case}: {kind} exported with instrumentation suppression {sup!r}")
    want = dict(amb).get(KEY)
    for e in watch:
        ctx.check(e[1:] == (want, dict(amb).get("a"), None), "other-processor", lambda: f"{case}: processor saw {e}, expected {want} {dict(amb).get('a')}")
    detach(tok)
    ctx.state(case[0], case[1], case[2], tuple(seen))


def sched_sleep(s):
    from mc.loader import M_time
    M_time.sleep(s)
