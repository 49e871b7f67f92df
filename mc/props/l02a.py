"""L02: log processors registered, loggers made and records logged by several threads (engine A part)."""
import logging

from mc import sched
from mc.explore import Harness, spawn
from mc.props._boom import Boom
from opentelemetry import context as octx
from opentelemetry import trace
from opentelemetry._events import Event
from opentelemetry.context import Context
from opentelemetry.sdk._events import EventLoggerProvider
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord, LogRecordProcessor
from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor, SynchronousMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import LogExporter, LogExportResult, SimpleLogRecordProcessor
from opentelemetry.sdk.resources import Resource

logging.getLogger("opentelemetry").setLevel(100)
RES = Resource({"service.name": "svc"})


class P(LogRecordProcessor):
    def __init__(self, i, log, ok=True, slow=0):
        self.i, self.log, self.ok, self.slow = i, log, ok, slow

    def emit(self, log_data):
        self.log.append(("emit", self.i, log_data.log_record.body, log_data))

    def shutdown(self):
        self.log.append(("shutdown", self.i, None))

    def force_flush(self, timeout_millis=30000):
        self.log.append(("flush", self.i, None))
        if self.slow:
            from mc import loader
            loader.M_time.sleep(self.slow / 1000)
        self.log.append(("flushed", self.i, None))
        return self.ok


class X(LogExporter):
    def __init__(self, i, log, script):
        self.i, self.log, self.script, self.n = i, log, script, 0

    def export(self, batch):
        for d in batch:
            self.log.append(("emit", self.i, d.log_record.body, d))
        b = self.script[self.n % len(self.script)]
        self.n += 1
        if b == "raise":
            raise Boom("exporter failed")
        return LogExportResult.SUCCESS

    def shutdown(self):
        self.log.append(("shutdown", self.i, None))


def provider(kind):
    multi = SynchronousMultiLogRecordProcessor() if kind == "sync" else ConcurrentMultiLogRecordProcessor(2)
    return LoggerProvider(resource=RES, shutdown_on_exit=False, multi_log_record_processor=multi)


def seen(log, what, i, body):
    return sum(1 for e in log if e[:3] == (what, i, body))


class Register(Harness):
    def __init__(self, kind, adders):
        self.kind, self.adders = kind, adders
        self.name = f"register-{kind}-{adders}"
        if kind == "conc":
            self.bound, self.thorough_bound = 0, 1

    def body(self):
        log, bad = [], []
        lp = provider(self.kind)
        lp.add_log_record_processor(P(0, log))
        logger = lp.get_logger("l")
        added = {0}

        def add(i):
            lp.add_log_record_processor(P(i, log))
            added.add(i)

        def emit():
            for b in ("a", "b")[:1 if self.kind == "conc" else 2]:
                here = set(added)
                logger.emit(LogRecord(body=b, resource=RES))
                for i in here:
                    if seen(log, "emit", i, b) != 1:
                        bad.append(f"lost-record: processor {i} saw record {b} {seen(log, 'emit', i, b)} times")

        ts = [spawn(lambda i=i: add(i), f"add{i}") for i in range(1, self.adders + 1)] + [spawn(emit, "emit")]
        for t in ts:
            t.join()
        logger.emit(LogRecord(body="last", resource=RES))
        lp.force_flush()
        lp.shutdown()
        for i in range(self.adders + 1):
            if seen(log, "emit", i, "last") != 1:
                bad.append(f"lost-processor: processor {i} saw {seen(log, 'emit', i, 'last')} records emitted after its registration")
            if seen(log, "flush", i, None) != 1 or seen(log, "shutdown", i, None) != 1:
                bad.append(f"reach: processor {i} saw {seen(log, 'flush', i, None)} flushes and {seen(log, 'shutdown', i, None)} shutdowns")
            for b in ("a", "b"):
                if seen(log, "emit", i, b) > 1:
                    bad.append(f"duplicate: processor {i} saw {b} twice")
        return tuple(bad)

    def check(self, out):
        if out:
            return out[0]


class Threads(Harness):
    """Threads log through one handler and the event API, each with its own current span."""
    bound, thorough_bound = 3, 4

    def __init__(self, kind, how, script=("ok",)):
        self.kind, self.how, self.script = kind, how, script
        self.name = f"threads-{kind}-{how}-{'-'.join(script)}"
        if kind == "conc":
            self.bound, self.thorough_bound = 0, 1

    def body(self):
        log, bad = [], []
        lp = provider(self.kind)
        lp.add_log_record_processor(SimpleLogRecordProcessor(X(0, log, self.script)))
        lp.add_log_record_processor(P(1, log))
        handler = LoggingHandler(logger_provider=lp)
        handler.lock = sched.RLock() if self.how != "direct" else None
        events = EventLoggerProvider(lp)

        def work(n, bodies):
            sc = trace.SpanContext(100 + n, 200 + n, False, trace.TraceFlags(n % 2))
            tok = octx.attach(trace.set_span_in_context(trace.NonRecordingSpan(sc), Context()))
            for j, b in enumerate(bodies):
                # the second record of each thread has a logger both share
                name = "shared" if j else f"own{n}"
                if self.how == "event":
                    events.get_event_logger(name).emit(Event(b, trace_id=sc.trace_id, span_id=sc.span_id, trace_flags=sc.trace_flags, body=b, timestamp=7))
                else:
                    rec = logging.LogRecord(name, logging.WARNING, f"/p{n}", 10 + n, "%s", (b,), None, f"f{n}")
                    rec.who = n
                    handler.handle(rec)
                for i in (0, 1):
                    if seen(log, "emit", i, b) != 1:
                        bad.append(f"sync: record {b} reached processor {i} {seen(log, 'emit', i, b)} times when logging returned")
            if trace.get_current_span().get_span_context() != sc or octx.get_value(octx._SUPPRESS_INSTRUMENTATION_KEY):
                bad.append(f"context: thread {n} is left with the context {dict(octx.get_current())}")
            octx.detach(tok)

        words = {1: ("a", "b"), 2: ("c", "d")} if self.kind == "sync" else {1: ("a",), 2: ("c",)}
        ts = [spawn(lambda n=n, w=w: work(n, w), f"t{n}") for n, w in words.items()]
        for t in ts:
            t.join()
        for i in (0, 1):
            for n, w in words.items():
                mine = [e[3] for e in log if e[0] == "emit" and e[1] == i and e[2] in w]
                if tuple(d.log_record.body for d in mine) != w:
                    bad.append(f"order: processor {i} saw {[d.log_record.body for d in mine]} of thread {n}")
                for j, d in enumerate(mine):
                    r, s = d.log_record, d.instrumentation_scope
                    if (r.trace_id, r.span_id, int(r.trace_flags)) != (100 + n, 200 + n, n % 2):
                        bad.append(f"trace: record {r.body} of thread {n} carries {r.trace_id, r.span_id, r.trace_flags}")
                    if s.name != ("shared" if j else f"own{n}"):
                        bad.append(f"scope: record {r.body} of thread {n} has the scope {s.name}")
                    if self.how == "event":
                        if r.attributes.get("event.name") != r.body or r.timestamp != 7:
                            bad.append(f"event: {r.body} has {dict(r.attributes)} at {r.timestamp}")
                    elif (r.attributes.get("who"), r.attributes.get("code.filepath"), r.attributes.get("code.lineno"), r.attributes.get("code.function")) != (n, f"/p{n}", 10 + n, f"f{n}"):
                        bad.append(f"attributes: record {r.body} of thread {n} has {dict(r.attributes)}")
                    if r.resource != RES:
                        bad.append(f"resource: {r.resource}")
        return tuple(bad)

    def check(self, out):
        if out:
            return out[0]


class Conc(Harness):
    """The concurrent composition: emit, flush and shutdown reach everybody before returning."""
    bound, thorough_bound = 0, 1
    fair_ticks = True

    def __init__(self, oks, slow, name):
        self.oks, self.slow = oks, slow
        self.name = f"concurrent-{name}"

    def body(self):
        log, bad = [], []
        lp = provider("conc")
        for i, (ok, sl) in enumerate(zip(self.oks, self.slow)):
            lp.add_log_record_processor(P(i, log, ok, sl))
        lp.get_logger("l").emit(LogRecord(body="x", resource=RES))
        for i in range(len(self.oks)):
            if seen(log, "emit", i, "x") != 1:
                bad.append(f"emit: processor {i} saw {seen(log, 'emit', i, 'x')} records when emit returned")
        r = lp.force_flush(1000)
        snap = list(log)
        if r:
            if not all(self.oks) or any(not seen(snap, "flushed", i, None) for i in range(len(self.oks))):
                bad.append("flush-true: success although a processor did not flush")
        elif all(self.oks) and sum(self.slow) < 1000:
            bad.append("flush-false: failure although all processors flushed in time")
        lp.shutdown()
        for i in range(len(self.oks)):
            if seen(log, "shutdown", i, None) != 1:
                bad.append(f"shutdown: processor {i} saw {seen(log, 'shutdown', i, None)} shutdowns")
        return tuple(bad), bool(r)

    def check(self, out):
        if out[0]:
            return out[0][0]


def HARNESSES(tier):
    return [Register("sync", 1), Register("sync", 2), Register("conc", 1),
            Threads("sync", "handler"), Threads("sync", "direct"), Threads("sync", "direct", ("raise", "ok")), Threads("sync", "event"), Threads("conc", "direct"),
            Conc((True, True), (0, 0), "ok"), Conc((True, False), (0, 0), "fail"), Conc((False, True), (0, 0), "fail2"), Conc((True, True), (0, 5000), "slow")]
