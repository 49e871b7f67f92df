"""G02: no recording call raises into the application, and the next valid call works."""
from mc.props._boom import Boom
import itertools
import logging
import os
import sys
import warnings

from mc.props._metrics import C, Reader, metrics
from opentelemetry import baggage, context as octx, metrics as api_metrics, trace
from opentelemetry._events import Event
from opentelemetry._logs import SeverityNumber
from opentelemetry.metrics import Observation
from opentelemetry.propagate import extract, inject
from opentelemetry.sdk._events import EventLoggerProvider
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord
from opentelemetry.sdk._logs.export import LogExporter, LogExportResult, SimpleLogRecordProcessor
from opentelemetry.sdk.metrics import Counter, Histogram, MeterProvider, UpDownCounter
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, View
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanLimits, SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ALWAYS_ON
from opentelemetry.trace import Link, SpanContext, Status, StatusCode

logging.disable(logging.NOTSET)  # the logging bridge is under test
logging.getLogger("opentelemetry").setLevel(100)
logging.getLogger("opentelemetry").propagate = False
logging.raiseExceptions = False
warnings.simplefilter("ignore")
RES = Resource({"service.name": "svc"})
OBJ = object()
SC = SpanContext(2**100 + 1, 2**40 + 1, True, trace.TraceFlags(1))


class Mad:
    def __str__(self):
        raise RuntimeError("str")

    __repr__ = __str__


class Odd(Exception):
    pass


VALS = {"none": None, "obj": OBJ, "mad": Mad(), "dict": {"a": 1}, "set": {1}, "mixed": [1, "a"], "nested": [[1]], "objs": [OBJ], "badbytes": b"\xff", "nan": float("nan"),
        "huge": 10**30, "nones": [None], "surrogate": "\ud800", "func": len, "complex": 1j, "empty": [], "badbytes-seq": [b"\xff", b"a"]}
KEYS = {"none": None, "empty": "", "int": 5, "bytes": b"k", "tuple": (1,), "mad": Mad(), "bool": True}
NAMES = {"none": None, "empty": "", "int": 5, "bytes": b"x", "mad": Mad(), "long": "x" * 5000, "obj": OBJ}
STAMPS = {"zero": 0, "neg": -1, "float": 1.5, "huge": 10**30, "none": None, "past": 1}


def _span_calls():
    c = {}
    for n, v in NAMES.items():
        c["update_name-" + n] = lambda s, tr, v=v: s.update_name(v)
        c["event-name-" + n] = lambda s, tr, v=v: s.add_event(v)
        c["start-name-" + n] = lambda s, tr, v=v: tr.start_span(v, octx.Context()).end()
        c["tracer-name-" + n] = lambda s, tr, v=v: PROV[0].get_tracer(v).start_span("junk").end() if PROV else None
    for n, v in VALS.items():
        c["attr-val-" + n] = lambda s, tr, v=v: s.set_attribute("k", v)
        c["attrs-val-" + n] = lambda s, tr, v=v: s.set_attributes({"k": v, "fine": 1})
        c["event-val-" + n] = lambda s, tr, v=v: s.add_event("e", {"k": v})
        c["link-val-" + n] = lambda s, tr, v=v: s.add_link(SC, {"k": v})
        c["exc-val-" + n] = lambda s, tr, v=v: s.record_exception(Odd("x"), {"k": v})
        c["start-val-" + n] = lambda s, tr, v=v: tr.start_span("junk", octx.Context(), attributes={"k": v}, links=[Link(SC, {"k": v})]).end()
    for n, v in KEYS.items():
        c["attr-key-" + n] = lambda s, tr, v=v: s.set_attribute(v, 1)
        c["attrs-key-" + n] = lambda s, tr, v=v: s.set_attributes({v: 1, "fine": 1})
        c["event-key-" + n] = lambda s, tr, v=v: s.add_event("e", {v: 1})
        c["link-key-" + n] = lambda s, tr, v=v: s.add_link(SC, {v: 1})
        c["start-key-" + n] = lambda s, tr, v=v: tr.start_span("junk", octx.Context(), attributes={v: 1}, links=[Link(SC, {v: 1})]).end()
    for n, v in STAMPS.items():
        c["end-" + n] = lambda s, tr, v=v: s.end(v)
        c["event-stamp-" + n] = lambda s, tr, v=v: s.add_event("e", None, v)
        c["exc-stamp-" + n] = lambda s, tr, v=v: s.record_exception(Odd("x"), None, v)
        c["start-stamp-" + n] = lambda s, tr, v=v: tr.start_span("junk", octx.Context(), start_time=v).end()
    for n, a in (("none", None), ("empty", {})):
        c["event-attrs-" + n] = lambda s, tr, a=a: s.add_event("e", a)
        c["link-attrs-" + n] = lambda s, tr, a=a: s.add_link(SC, a)
        c["exc-attrs-" + n] = lambda s, tr, a=a: s.record_exception(Odd("x"), a)
        c["start-attrs-" + n] = lambda s, tr, a=a: tr.start_span("junk", octx.Context(), attributes=a, links=()).end()
    c["link-invalid"] = lambda s, tr: s.add_link(trace.INVALID_SPAN_CONTEXT)
    c["start-links-invalid"] = lambda s, tr: tr.start_span("junk", octx.Context(), links=[Link(trace.INVALID_SPAN_CONTEXT), Link(trace.INVALID_SPAN_CONTEXT, {"a": 1})]).end()
    c["exc-noargs"] = lambda s, tr: s.record_exception(Odd())
    c["exc-raised"] = lambda s, tr: s.record_exception(_raised())
    c["exc-base"] = lambda s, tr: s.record_exception(KeyboardInterrupt())
    c["status-ok"] = lambda s, tr: s.set_status(Status(StatusCode.OK, "dropped"))
    c["status-unset"] = lambda s, tr: s.set_status(StatusCode.UNSET)
    c["status-desc"] = lambda s, tr: s.set_status(Status(StatusCode.ERROR, 5))
    c["status-code-desc"] = lambda s, tr: s.set_status(StatusCode.ERROR, "d")
    c["status-both"] = lambda s, tr: s.set_status(Status(StatusCode.ERROR, "a"), "b")
    c["status-odd"] = lambda s, tr: s.set_status("junk")
    c["end-twice"] = lambda s, tr: (s.end(), s.end())
    c["use-ended"] = lambda s, tr: _use(s)
    c["invalid-parent"] = lambda s, tr: tr.start_span("junk", trace.set_span_in_context(trace.INVALID_SPAN)).end()
    c["kind-none"] = lambda s, tr: tr.start_span("junk", octx.Context(), kind=None).end()
    c["exit-raise"] = lambda s, tr: _exit(s)
    return c


def _raised():
    try:
        raise Odd("r")
    except Odd as e:
        return e


def _use(s):
    with trace.use_span(s, end_on_exit=True):
        with trace.use_span(s, end_on_exit=True):
            trace.get_current_span().set_attribute("k", OBJ)


def _exit(s):
    try:
        with trace.use_span(s, end_on_exit=True):
            raise Odd("inside")
    except Odd:
        pass


def _metric_calls():
    c = {}
    for k in ("counter", "up_down_counter", "histogram", "gauge"):
        for n, v in VALS.items():
            c[f"{k}-val-{n}"] = lambda h, k=k, v=v: put(h[k], k, 1, {"k": v})
        for n, v in KEYS.items():
            c[f"{k}-key-{n}"] = lambda h, k=k, v=v: put(h[k], k, 1, {v: 1})
        for n, v in (("neg", -1), ("nan", float("nan")), ("inf", float("inf")), ("ninf", float("-inf")), ("bool", True), ("zero", 0), ("huge", 10**30)):
            c[f"{k}-amount-{n}"] = lambda h, k=k, v=v: put(h[k], k, v, {"junk": 1})
        c[f"{k}-context"] = lambda h, k=k: put(h[k], k, 1, {"junk": 1}, octx.Context())
        c[f"{k}-mixed-keys"] = lambda h, k=k: put(h[k], k, 1, {"junk": 1, 5: 2, None: 3})
        c[f"{k}-attrs-none"] = lambda h, k=k: put(h[k], k, 1, None)
    for n, v in NAMES.items():
        c["meter-" + n] = lambda h, v=v: h["provider"].get_meter(v)
    for n, f in CALLBACKS.items():
        c["callback-" + n] = lambda h, f=f, n=n: h["meter"].create_observable_gauge("junk_" + n.replace("-", "_"), [f])
    c["collect"] = lambda h: h["reader"].collect()
    c["flush"] = lambda h: h["provider"].force_flush()
    c["dup"] = lambda h: h["meter"].create_counter("ok_counter").add(0, {"junk": 1})
    return c


def _gen_once():
    yield
    yield [Observation(1)]


def _raise(o):
    raise Odd("callback")


def _partial(o):
    yield Observation(1, {"p": 1})
    raise Odd("callback")


CALLBACKS = {"raise": _raise, "none": lambda o: None, "junk": lambda o: [5, "x"], "partial": _partial, "empty": lambda o: [], "badattrs": lambda o: [Observation(1, {"k": OBJ, 5: 1})],
             "wrong-signature": lambda: [], "int": lambda o: 5, "none-attrs": lambda o: [Observation(1, None)]}


def put(i, k, v, a=None, *r):
    {"counter": "add", "up_down_counter": "add", "histogram": "record", "gauge": "set"}[k]
    getattr(i, {"counter": "add", "up_down_counter": "add", "histogram": "record", "gauge": "set"}[k])(v, a, *r)


def _log_calls():
    c = {}
    for n, v in VALS.items():
        c["extra-" + n] = lambda h, v=v: h["std"].warning("junk", extra={"k": v})
        c["msg-" + n] = lambda h, v=v: h["std"].warning(v)
        c["arg-" + n] = lambda h, v=v: h["std"].warning("%s", v)
        c["rec-val-" + n] = lambda h, v=v: h["log"].emit(LogRecord(observed_timestamp=1, attributes={"k": v}, resource=RES))
        c["rec-body-" + n] = lambda h, v=v: h["log"].emit(LogRecord(observed_timestamp=1, body=v, resource=RES))
        c["event-val-" + n] = lambda h, v=v: h["event"].emit(Event("junk", attributes={"k": v}, body=v))
    for n, v in KEYS.items():
        c["rec-key-" + n] = lambda h, v=v: h["log"].emit(LogRecord(observed_timestamp=1, attributes={v: 1}, resource=RES))
        c["event-key-" + n] = lambda h, v=v: h["event"].emit(Event("junk", attributes={v: 1}))
    for n, v in NAMES.items():
        c["logger-" + n] = lambda h, v=v: h["provider"].get_logger(v).emit(LogRecord(observed_timestamp=1, body="junk", resource=RES))
        c["event-name-" + n] = lambda h, v=v: h["event"].emit(Event(v))
        c["elogger-" + n] = lambda h, v=v: h["eprovider"].get_event_logger(v).emit(Event("junk"))
    for n, v in STAMPS.items():
        c["rec-stamp-" + n] = lambda h, v=v: h["log"].emit(LogRecord(timestamp=v, observed_timestamp=v, resource=RES))
        c["event-stamp-" + n] = lambda h, v=v: h["event"].emit(Event("junk", timestamp=v))
    c["fmt-type"] = lambda h: h["std"].warning("%d", "x")
    c["fmt-few"] = lambda h: h["std"].warning("%s %s", "x")
    c["fmt-many"] = lambda h: h["std"].warning("junk", "x")
    c["fmt-key"] = lambda h: h["std"].warning("%(a)s", {"b": 1})
    c["fmt-odd"] = lambda h: h["std"].warning("%y", 1)
    c["exc-outside"] = lambda h: h["std"].exception("junk")
    c["exc-args"] = lambda h: h["std"].warning("junk", exc_info=Odd(OBJ))
    c["exc-madarg"] = lambda h: h["std"].warning("junk", exc_info=Odd(Mad()))
    c["level-odd"] = lambda h: h["std"].log(7, "junk")
    c["level-high"] = lambda h: h["std"].log(10**6, "junk")
    c["stack"] = lambda h: h["std"].warning("junk", stack_info=True)
    c["severity"] = lambda h: h["log"].emit(LogRecord(observed_timestamp=1, severity_number=SeverityNumber.UNSPECIFIED, severity_text="", resource=RES))
    c["flush"] = lambda h: h["provider"].force_flush()
    c["handler-flush"] = lambda h: [x.flush() for x in h["std"].handlers]
    return c


def _prop_calls():
    c = {}
    H = {"empty": "", "junk": "00-zz", "long": "x" * 9000, "uni": "é", "list": ["a", "b"], "commas": ",,,=,;", "pct": "%zz=%zz", "none": [], "surrogate": "\ud800"}
    for f in ("traceparent", "tracestate", "baggage", "Traceparent"):
        for n, v in H.items():
            c[f"extract-{f}-{n}"] = lambda v=v, f=f: octx.detach(octx.attach(extract({f: v})))
            c[f"extract-ok+{f}-{n}"] = lambda v=v, f=f: inject({}, extract({"traceparent": "00-" + "1" * 32 + "-" + "2" * 16 + "-01", f: v}))
    for n, v in VALS.items():
        if n != "mad":
            c["baggage-val-" + n] = lambda v=v: inject({}, baggage.set_baggage("k", v))
        c["ctx-val-" + n] = lambda v=v: octx.detach(octx.attach(octx.set_value("k", v)))
    for n, v in (("empty", ""), ("uni", "é"), ("space", " "), ("eq", "a=b"), ("comma", ",")):
        c["baggage-key-" + n] = lambda v=v: inject({}, baggage.set_baggage(v, "v"))
    c["remove"] = lambda: baggage.remove_baggage("absent")
    c["clear"] = lambda: inject({}, baggage.clear())
    c["get"] = lambda: baggage.get_baggage("absent")
    c["detach-twice"] = lambda: (lambda t: (octx.detach(t), octx.detach(t)))(octx.attach(octx.Context()))
    c["detach-other-order"] = lambda: (lambda a, b: (octx.detach(a), octx.detach(b)))(octx.attach(octx.Context({"x": 1})), octx.attach(octx.Context({"y": 1})))
    c["inject-invalid-span"] = lambda: inject({}, trace.set_span_in_context(trace.INVALID_SPAN))
    c["extract-none"] = lambda: extract({})
    return c


SPAN, METRIC, LOG, PROP = _span_calls(), _metric_calls(), _log_calls(), _prop_calls()
PROV = []
SSTATES = ["live", "ended", "dropped", "shutdown", "noop", "disabled", "limits0", "xfail"]
VIEWS = {"view": [View(instrument_name="*", attribute_keys={"a", "k"})]}
for _n, _a in (("expo", ExponentialBucketHistogramAggregation()), ("hist", ExplicitBucketHistogramAggregation((0, 5)))):
    VIEWS[_n] = [View(instrument_name="ok_*", instrument_type=t, aggregation=_a) for t in (Counter, UpDownCounter, Histogram)] + [View(instrument_name="ok_gauge", aggregation=_a)]
MSTATES = ["live", "shutdown", "noop", "disabled", "view", "expo", "hist"]
LSTATES = ["live", "shutdown", "noop", "disabled", "xfail"]


def CASES(tier):
    for s in SSTATES:
        for a in SPAN:
            yield ("span", s, (a,))
    pairs = list(itertools.product(SPAN, repeat=2))
    for s in SSTATES if tier != "quick" else ("live", "ended"):
        for p in pairs:
            yield ("span", s, p)
    for s in MSTATES:
        for a in METRIC:
            yield ("metric", s, (a,))
        for p in itertools.product(METRIC, repeat=2):
            if tier != "quick" or s == "live":
                yield ("metric", s, p)
    for s in LSTATES:
        for a in LOG:
            yield ("log", s, (a,))
        for p in itertools.product(LOG, repeat=2):
            if tier != "quick" or s == "live":
                yield ("log", s, p)
    for a in PROP:
        yield ("prop", (a,))
    for p in itertools.product(PROP, repeat=2):
        yield ("prop", p)
    for sig in ("span", "metric", "log"):
        for w in itertools.product(("use", "shutdown", "flush"), repeat=5):
            yield ("life", sig, w)


class SX(SpanExporter):
    def __init__(self, fail=False):
        self.got, self.fail = [], fail

    def export(self, spans):
        self.got += spans
        if self.fail:
            raise Boom("exporter failed")
        return SpanExportResult.SUCCESS


class LX(LogExporter):
    def __init__(self, fail=False):
        self.got, self.fail = [], fail

    def export(self, batch):
        self.got += batch
        if self.fail:
            raise Boom("exporter failed")
        return LogExportResult.SUCCESS

    def shutdown(self):
        pass


class env:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        if self.on:
            os.environ["OTEL_SDK_DISABLED"] = "true"

    def __exit__(self, *a):
        os.environ.pop("OTEL_SDK_DISABLED", None)


def guard(ctx, f, what):
    try:
        f()
        return True
    except Exception as e:  # noqa
        import traceback
        t = traceback.extract_tb(e.__traceback__)[-1]
        ctx.check(False, f"raised:{type(e).__name__}:{t.name}", f"{what} raised {type(e).__name__}: {_s(e)} at {t.filename.split('/')[-1]}:{t.lineno}")


def _s(e):
    try:
        return str(e)[:100]
    except Exception:  # noqa
        return "?"


def run_case(case, ctx):
    tok = octx.attach(octx.Context())
    del PROV[:]
    try:
        CASE[case[0]](case, ctx)
    finally:
        octx.attach(octx.Context())
        octx.detach(tok)


def c_span(case, ctx):
    _, st, calls = case
    x = SX(st == "xfail")
    with env(st == "disabled"):
        tp = TracerProvider(resource=RES, sampler=ALWAYS_OFF if st == "dropped" else ALWAYS_ON, shutdown_on_exit=False,
                            span_limits=SpanLimits(max_attributes=0, max_events=0, max_links=0, max_attribute_length=0) if st == "limits0" else None)
    tp.add_span_processor(SimpleSpanProcessor(x))
    if st == "noop":
        tp = trace.NoOpTracerProvider()
    PROV.append(tp)
    tr = tp.get_tracer("t")
    s = tr.start_span("s", octx.Context())
    if st == "ended":
        s.end()
    if st == "shutdown":
        tp.shutdown()
    before = octx.get_current()
    for c in calls:
        ctx.step()
        guard(ctx, lambda: SPAN[c](s, tr), f"{st}: {calls}: {c}")
    guard(ctx, s.end, f"{st}: {calls}: end")
    ctx.check(octx.get_current() == before, "context", f"{st}: {calls}: the current context changed")
    # valid use afterwards
    n0 = len(x.got)

    def valid():
        with tr.start_as_current_span("fine", octx.Context(), attributes={"a": 1}) as v:
            v.set_attribute("b", "x")
            v.add_event("e", {"c": 1})
            v.add_link(SC, {"d": 1})
            v.set_status(StatusCode.ERROR, "why")
            return v
    guard(ctx, valid, f"{st}: {calls}: valid span")
    new = x.got[n0:]
    if st in ("live", "ended", "xfail"):
        ok = len(new) == 1 and (new[0].name, dict(new[0].attributes), [(e.name, dict(e.attributes)) for e in new[0].events], [(l.context, dict(l.attributes)) for l in new[0].links],
                                new[0].status.status_code, new[0].status.description) == ("fine", {"a": 1, "b": "x"}, [("e", {"c": 1})], [(SC, {"d": 1})], StatusCode.ERROR, "why")
        ctx.check(ok, "next-valid", lambda: f"{st}: {calls}: the next valid span was exported as {[z.to_json() for z in new]}")
    elif st == "limits0":
        ctx.check(len(new) == 1 and new[0].name == "fine" and not new[0].attributes and not new[0].events and not new[0].links, "next-valid", lambda: f"{st}: {calls}")
    elif st != "shutdown":
        ctx.check(not new, "exported", lambda: f"{st}: {calls}: a span was exported")
    if st in ("live", "xfail"):
        own = [z for z in x.got[:n0] if z.context == s.get_span_context()]
        ctx.check(len(own) == 1, "own-span", lambda: f"{st}: {calls}: the span was exported {len(own)} times")
        for z in own:
            if any("fine" in (z.attributes or {}) for _ in (0,)):
                pass
            if any(c.startswith("attrs-") for c in calls) and not any(c.startswith(("end", "use-", "exit-")) for c in calls):
                ctx.check(z.attributes.get("fine") == 1, "other-attribute", lambda: f"{calls}: a valid attribute given along was lost: {dict(z.attributes)}")
    ctx.state(case[:2], calls, len(x.got))


def c_metric(case, ctx):
    _, st, calls = case
    rd = Reader(C)
    with env(st == "disabled"):
        mp = MeterProvider([rd], RES, shutdown_on_exit=False, views=VIEWS.get(st, []))
    p = api_metrics.NoOpMeterProvider() if st == "noop" else mp
    m = p.get_meter("m")
    h = {k: getattr(m, "create_" + k)("ok_" + k) for k in ("counter", "up_down_counter", "histogram", "gauge")}
    seen = []
    m.create_observable_counter("ok_obs", [lambda o: seen.append(1) or [Observation(7, {"a": 1})]])
    h.update(meter=m, provider=mp, reader=rd)
    if st == "shutdown":
        mp.shutdown()
    for c in calls:
        ctx.step()
        guard(ctx, lambda: METRIC[c](h), f"{st}: {calls}: {c}")
    for k in ("counter", "up_down_counter", "histogram", "gauge"):
        guard(ctx, lambda: put(h[k], k, 3, {"a": 1}), f"{st}: {calls}: valid {k}")
    guard(ctx, rd.collect, f"{st}: {calls}: collect")
    if st in ("live", "view", "expo", "hist"):
        got = {}
        for s, x in metrics(rd.got[-1] if rd.got else None):
            for pt in x.data.data_points:
                if s == "m" and dict(pt.attributes or {}) == {"a": 1}:
                    got[x.name] = pt.value if hasattr(pt, "value") else pt.sum
        for k, v in (("ok_counter", 3), ("ok_up_down_counter", 3), ("ok_histogram", 3), ("ok_gauge", 3), ("ok_obs", 7)):
            ctx.check(got.get(k) == v, "next-valid", lambda: f"{st}: {calls}: {k} reports {got.get(k)} for the next valid measurement")
    ctx.state(case[:2], calls)


def c_log(case, ctx):
    _, st, calls = case
    x = LX(st == "xfail")
    with env(st == "disabled"):
        lp = LoggerProvider(resource=RES, shutdown_on_exit=False)
    lp.add_log_record_processor(SimpleLogRecordProcessor(x))
    if st == "noop":
        from opentelemetry._logs import NoOpLoggerProvider
        lp = NoOpLoggerProvider()
        lp.force_flush = lambda: True
    elp = EventLoggerProvider(lp)
    std = logging.Logger("app", 1)
    std.addHandler(LoggingHandler(logger_provider=lp))
    h = {"provider": lp, "eprovider": elp, "std": std, "log": lp.get_logger("l"), "event": elp.get_event_logger("e")}
    if st == "shutdown":
        lp.shutdown()
    for c in calls:
        ctx.step()
        guard(ctx, lambda: LOG[c](h), f"{st}: {calls}: {c}")
    n0 = len(x.got)

    def valid():
        std.warning("fine %s", "m", extra={"a": 1})
        h["log"].emit(LogRecord(observed_timestamp=1, body="fine2", attributes={"a": 1}, resource=RES))
        h["event"].emit(Event("fine3", attributes={"a": 1}))
    guard(ctx, valid, f"{st}: {calls}: valid records")
    new = [d.log_record for d in x.got[n0:]]
    if st in ("live", "xfail"):
        ok = len(new) == 3 and new[0].body == "fine m" and new[1].body == "fine2" and new[2].attributes["event.name"] == "fine3" and all(r.attributes["a"] == 1 for r in new)
        ctx.check(ok, "next-valid", lambda: f"{st}: {calls}: the next valid records arrived as {[(r.body, dict(r.attributes)) for r in new]}")
    else:
        ctx.check(not new, "exported", f"{st}: {calls}: a record was exported")
    ctx.state(case[:2], calls, len(x.got))


def c_prop(case, ctx):
    calls = case[1]
    for c in calls:
        ctx.step()
        guard(ctx, PROP[c], f"{calls}: {c}")
    carrier = {}

    def valid():
        base = octx.Context()
        c = baggage.set_baggage("k", "v", trace.set_span_in_context(trace.NonRecordingSpan(SC), base))
        inject(carrier, c)
        back = extract(carrier, octx.Context())
        ctx.check(trace.get_current_span(back).get_span_context() == SC and baggage.get_all(back) == {"k": "v"}, "next-valid", lambda: f"{calls}: {carrier} extracted as {back}")
        t = octx.attach(c)
        ctx.check(baggage.get_baggage("k") == "v", "next-valid", "attach")
        octx.detach(t)
    guard(ctx, valid, f"{calls}: valid propagation")
    ctx.state(calls)


def c_life(case, ctx):
    _, sig, w = case
    down = False
    if sig == "span":
        x = SX()
        p = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False)
        p.add_span_processor(SimpleSpanProcessor(x))
        h = p.get_tracer("t")
        use = lambda: h.start_span("s", octx.Context()).end()  # noqa
    elif sig == "log":
        x = LX()
        p = LoggerProvider(resource=RES, shutdown_on_exit=False)
        p.add_log_record_processor(SimpleLogRecordProcessor(x))
        h = p.get_logger("l")
        use = lambda: h.emit(LogRecord(observed_timestamp=1, resource=RES))  # noqa
    else:
        x = Reader(C)
        p = MeterProvider([x], RES, shutdown_on_exit=False)
        h = p.get_meter("m").create_counter("c")
        use = lambda: h.add(1)  # noqa
    n = 0
    for op in w:
        ctx.step()
        if op == "use":
            guard(ctx, use, f"{case}: use")
            n += not down
        elif op == "shutdown":
            guard(ctx, p.shutdown, f"{case}: shutdown")
            down = True
        else:
            guard(ctx, p.force_flush, f"{case}: flush")
        if sig == "log" or not down and sig == "span":
            ctx.check(len(x.got) == n, "life", lambda: f"{case}: {len(x.got)} exported of {n}")
    ctx.state(sig, w)


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}
