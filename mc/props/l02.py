"""L02: log records keep what the application said: logging bridge, log API, event API, limits and processor fan-out."""
from mc.props._boom import Boom
import itertools
import json
import logging
import sys
import warnings

from mc import sched
from opentelemetry import context as octx
from opentelemetry import trace
from opentelemetry._events import Event
from opentelemetry._logs import SeverityNumber, std_to_otel
from opentelemetry.sdk._events import EventLoggerProvider
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogLimits, LogRecord, LogRecordProcessor
from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import LogExporter, LogExportResult, SimpleLogRecordProcessor
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ALWAYS_ON

logging.getLogger("opentelemetry").setLevel(100)
logging.getLogger("opentelemetry").propagate = False
warnings.simplefilter("ignore")
RES = Resource({"service.name": "svc", "k": (1, 2)}, "schema")
ON = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False).get_tracer("t")
OFF = TracerProvider(resource=RES, sampler=ALWAYS_OFF, shutdown_on_exit=False).get_tracer("t")


class P(LogRecordProcessor):
    def __init__(self, i=0, log=None, flush=True, cost=0):
        self.i, self.log, self.fl, self.cost = i, [] if log is None else log, flush, cost

    def emit(self, log_data):
        self.log.append(("emit", self.i, log_data))

    def shutdown(self):
        self.log.append(("shutdown", self.i))

    def force_flush(self, timeout_millis=30000):
        self.log.append(("flush", self.i, timeout_millis))
        sched.CLOCK.now += self.cost * 10**6
        return self.fl


class X(LogExporter):
    def __init__(self, i, log, script):
        self.i, self.log, self.script, self.n = i, log, script, 0

    def export(self, batch):
        for d in batch:
            self.log.append(("emit", self.i, d))
        b = self.script[self.n % len(self.script)]
        self.n += 1
        if b == "raise":
            raise Boom("exporter failed")
        return LogExportResult.SUCCESS if b == "ok" else LogExportResult.FAILURE

    def shutdown(self):
        self.log.append(("shutdown", self.i))


def severity(n):
    if n < 10:
        return 0
    if n >= 60:
        return 24
    return 4 * (n // 10) + 1 + min(n % 10, 3)


LEVELS = list(range(-1, 72)) + [99, 100, 1000]
class Text:
    """A message that is not a string."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


MSGS = [("m", ()), ("", ()), ("100% x", ()), ("%s", ("a",)), ("%s and %d", ("a", 5)), ("%(a)s-%(b)s", ({"a": 1, "b": "z"},)), ("%s", (None,)),
        ("%r", (("t", 1),)), (5, ()), (None, ()), (0, ()), ({"k": [1]}, ()), (("t", 1), ()), (["x"], ()), (True, ()), (1.5, ()), ("é\n", ()), ("%%", ()), ("%%%s", (1,)),
        ("%s", ((),)), (Text("obj %s"), ("a",)), (Text("obj"), ()), (Text("%d-%d"), (1, 2)), (Text("n %(a)s"), ({"a": 1},))]
VALS = ["v", "", 5, 0, True, 1.5, [1, 2], ("a", None), [], None, {"k": 1}, [1, "a"], object(), b"by"]
KEYS = ["k", "my.key", "user", "code", "level", "Name", "body", "severity", "span_id", "otelTraceID", "msgs", "exception", "event.name"]
SPANS = ["none", "on", "off", "remote-on", "remote-off", "invalid", "nested", "ended", "after"]


class Odd(Exception):
    def __str__(self):
        return "odd"


def _boom(e, depth=0):
    if depth:
        return _boom(e, depth - 1)
    raise e


class Falsy(Exception):
    def __bool__(self):
        return False


def _chain():
    try:
        _boom(ValueError("inner"))
    except ValueError as e:
        raise KeyError("outer") from e


EXCS = ["none", "value", "noargs", "key", "deep", "chained", "two-args", "odd", "nonstr", "no-tb", "outside", "tuple", "false", "zero", "empty", "no-value", "falsy"]
GOOD = (str, bool, int, float)


def keep(v):
    """The recorded form of an attribute value, or KeyError (independent statement of A01)."""
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, GOOD):
        return v
    if isinstance(v, (list, tuple)) and len({type(e) for e in v if e is not None}) <= 1 and all(e is None or type(e) in GOOD for e in v):
        return tuple(v)
    raise KeyError


OPS = ["add-ok", "add-no", "add-x", "log", "emit", "event", "flush", "handlerflush"]


def CASES(tier):
    for lv in LEVELS:
        for hl in (0, 10, 30, 60):
            yield ("level", lv, hl)
        yield ("std", lv)
    for m in range(len(MSGS)):
        for fmt in (None, "%(levelname)s|%(name)s|%(message)s", "%(message)s"):
            for api in ("handle", "logger"):
                yield ("msg", m, fmt, api)
    for i, j in itertools.product(range(len(VALS)), repeat=2):
        for k in ((0, 1), (2, 3), (8, 9)):
            yield ("extra", ((k[0], i), (k[1], j)))
    for k in range(len(KEYS)):
        for i in range(len(VALS)):
            yield ("extra", ((k, i),))
    for e in EXCS:
        for m in (0, 3):
            for ex in ((), ((0, 0),)):
                yield ("exc", e, m, ex)
    for s in SPANS:
        for how in ("log", "event", "event-own", "handler2"):
            yield ("span", s, how)
    for s1, s2, s3 in itertools.product(SPANS, repeat=3):
        yield ("spans", (s1, s2, s3))
    n = 5 if tier == "quick" else 6
    for conc in (False, True):
        for w in itertools.product(range(len(OPS)), repeat=n):
            yield ("seq", conc, w)
    for conc in (False, True):
        for k in range(0, 4):
            for fl in itertools.product((True, False), repeat=k):
                for cost in itertools.product((0, 5, 20), repeat=k):
                    for t in (0, 1, 10, 30000):
                        yield ("flush", conc, fl, cost, t)
    for ma in (-1, 0, 1, 2, 3):
        for ml in (-1, 0, 1, 2):
            for ks in itertools.product(("a", "b", "c"), repeat=4 if tier == "quick" else 5):
                yield ("limits", ma, ml, ks)
    for a in (None, -1, 0, 2, -2):
        for b in (None, -1, 0, 2, -2):
            for ea in (None, "", " ", "0", "3", " 3 ", "-1", "x"):
                for eb in (None, "", " ", "0", "3", " 3 ", "-1", "x"):
                    yield ("env", a, b, ea, eb)
    for nm in ("e", "", "é"):
        for ts in (None, 1, 10**18):
            for sev in (None, SeverityNumber.UNSPECIFIED, SeverityNumber.WARN2, SeverityNumber.FATAL4):
                for body in (None, "b", {"k": 1}, 0):
                    for at in (None, {}, {"a": 1}, {"event.name": "other", "b": (1,)}):
                        yield ("event", nm, ts, sev, body, at)
    for name, ver, sch, at in itertools.product(("n", "", "é"), (None, "", "1"), (None, "s"), (None, {}, {"a": 1}, {"a": [1, 2]})):
        for dis in (None, "true", " TRUE ", "false", "x"):
            yield ("scope", name, ver, sch, at, dis)
    for ts, ots, tid, sid, fl, sev, body in itertools.product((None, 0, 10**18), (None, 10**18 + 1), (None, 0, 2**127 + 1), (None, 2**63 + 1), (None, 0, 1),
                                                              (None, SeverityNumber.INFO), (None, "b", 5, {"a": [1, None, {"b": "c"}]}, [1, "x"], True, "é")):
        yield ("record", ts, ots, tid, sid, fl, sev, body)


def setup(handler_level=0, fmt=None, name="app"):
    p = P()
    lp = LoggerProvider(resource=RES, shutdown_on_exit=False)
    lp.add_log_record_processor(p)
    h = LoggingHandler(level=handler_level, logger_provider=lp)
    if fmt:
        h.setFormatter(logging.Formatter(fmt))
    lg = logging.Logger(name, 1)
    lg.addHandler(h)
    return p, lp, h, lg


def enter(state):
    """Make the given span state current; returns (token, span context expected)."""
    if state == "none":
        sp = None
    elif state == "on":
        sp = ON.start_span("s", octx.Context())
    elif state == "off":
        sp = OFF.start_span("s", octx.Context())
    elif state in ("remote-on", "remote-off"):
        sp = trace.NonRecordingSpan(trace.SpanContext(2**127 + 5, 2**63 + 6, True, trace.TraceFlags(1 if state == "remote-on" else 0)))
    elif state == "invalid":
        sp = trace.INVALID_SPAN
    elif state == "nested":
        a = ON.start_span("a", octx.Context())
        sp = ON.start_span("b", trace.set_span_in_context(a, octx.Context()))
    elif state == "ended":
        sp = ON.start_span("s", octx.Context())
        sp.end()
    else:  # current scope left again
        with trace.use_span(ON.start_span("s", octx.Context()), end_on_exit=True):
            pass
        sp = None
    c = octx.Context() if sp is None else trace.set_span_in_context(sp, octx.Context())
    return octx.attach(c), (trace.INVALID_SPAN_CONTEXT if sp is None else sp.get_span_context())


def same_ctx(ctx, rec, sc, what):
    got = (rec.trace_id or 0, rec.span_id or 0, int(rec.trace_flags or 0))
    ctx.check(got == (sc.trace_id, sc.span_id, int(sc.trace_flags)), "trace-context", lambda: f"{what}: record has {got}, current span {sc}")


def one(ctx, p, what):
    ds = [e[2] for e in p.log if e[0] == "emit"]
    ctx.check(len(ds) == 1, "once", lambda: f"{what}: processor saw {len(ds)} records")
    return ds[0] if ds else None


def base(extra=()):
    return {k: keep(v) for k, v in extra if _ok(v)}


def _ok(v):
    try:
        keep(v)
        return True
    except KeyError:
        return False


def typed(v):
    if isinstance(v, (list, tuple)):
        return tuple(typed(e) for e in v)
    return (type(v).__name__, v)


def attrs_are(ctx, rec, want, where, what, more=()):
    got = {k: typed(v) for k, v in rec.attributes.items() if k not in more}
    w = {k: typed(v) for k, v in {**want, **where}.items()}
    ctx.check(got == w, "attributes", lambda: f"{what}: attributes {got}, expected {w}")
    ctx.check(rec.dropped_attributes == 0, "dropped", lambda: f"{what}: {rec.dropped_attributes} dropped attributes reported")


def place(r):
    return {"code.filepath": r.pathname, "code.function": r.funcName, "code.lineno": r.lineno}


def mk(level, msg, args, exc=None, extra=()):
    r = logging.LogRecord("app", level, "/p/f.py", 17, msg, args, exc, func="fn")
    for k, v in extra:
        setattr(r, k, v)
    return r


def run_case(case, ctx):
    ctx.step()
    token = octx.attach(octx.Context())
    try:
        CASE[case[0]](case, ctx)
    finally:
        octx.detach(token)


def c_level(case, ctx):
    _, lv, hl = case
    p, lp, h, lg = setup(hl)
    r = mk(lv, "m", ())
    lg.handle(r)
    if lv < hl:
        ctx.check(not p.log, "level", f"{case}: record below the handler level was delivered")
        return
    d = one(ctx, p, case)
    rec = d.log_record
    ctx.check(rec.severity_number is not None and rec.severity_number.value == severity(lv), "severity", lambda: f"level {lv}: {rec.severity_number}")
    want = "WARN" if logging.getLevelName(lv) == "WARNING" else logging.getLevelName(lv)
    ctx.check(rec.severity_text == want, "severity-text", lambda: f"level {lv}: {rec.severity_text}")
    ctx.state(lv, rec.severity_number)


def c_std(case, ctx):
    got = std_to_otel(case[1])
    ctx.check(got.value == severity(case[1]), "severity", lambda: f"std_to_otel({case[1]}) = {got}")
    ctx.state("std", got)


def c_msg(case, ctx):
    _, m, fmt, api = case
    msg, args = MSGS[m]
    p, lp, h, lg = setup(0, fmt)
    if api == "handle":
        r = mk(30, msg, args)
        lg.handle(r)
    else:
        seen = []
        lg.addFilter(lambda rec: seen.append(rec) or True)
        lg.warning(msg, *args)
        r = seen[0]
    d = one(ctx, p, case)
    rec = d.log_record
    a = args[0] if len(args) == 1 and isinstance(args[0], dict) and args[0] else args
    text = (msg if isinstance(msg, str) else str(msg)) % a if args else str(msg)
    want = text if args or isinstance(msg, str) else msg
    if fmt:
        want = text if fmt == "%(message)s" else f"WARNING|app|{text}"
    ctx.check(type(rec.body) is type(want) and rec.body == want, "body", lambda: f"{case}: body {rec.body!r}, expected {want!r}")
    attrs_are(ctx, rec, {}, place(r), case)
    ctx.check(abs(rec.timestamp - r.created * 1e9) <= 1000, "timestamp", lambda: f"timestamp {rec.timestamp}, created {r.created}")
    ctx.check(rec.resource is RES or rec.resource == RES, "resource", lambda: f"resource {rec.resource.attributes}")
    ctx.check(rec.observed_timestamp == sched.CLOCK.now or 0 < rec.observed_timestamp <= sched.CLOCK.now, "observed", lambda: f"observed {rec.observed_timestamp}")
    ctx.check(d.instrumentation_scope.name == "app", "scope", lambda: f"scope {d.instrumentation_scope}")
    ctx.state(m, fmt)


def c_extra(case, ctx):
    extra = [(KEYS[k], VALS[v]) for k, v in case[1]]
    p, lp, h, lg = setup()
    seen = []
    lg.addFilter(lambda rec: seen.append(rec) or True)
    lg.warning("m", extra=dict(extra))
    rec = one(ctx, p, case).log_record
    attrs_are(ctx, rec, base(extra), place(seen[0]), extra)
    ctx.check(seen[0].funcName == "c_extra" and rec.attributes["code.function"] == "c_extra", "location", "wrong source location")
    ctx.state(case[1])


def c_exc(case, ctx):
    _, kind, m, ex = case
    extra = [(KEYS[k], VALS[v]) for k, v in ex]
    msg, args = MSGS[m]
    p, lp, h, lg = setup()
    e = {"value": ValueError("m1"), "noargs": ValueError(), "key": KeyError("kk"), "deep": RuntimeError("deep"), "two-args": OSError(2, "two"),
         "odd": Odd("inner-arg"), "nonstr": ValueError({"x": 1}), "no-tb": ValueError("never raised"), "tuple": ValueError("tup"), "false": ValueError("f"),
         "zero": ValueError(0), "empty": ValueError(""), "falsy": Falsy("empty")}.get(kind)
    kw = {"extra": dict(extra)}
    if kind == "none":
        lg.error(msg, *args, **kw)
        want = None
    elif kind == "outside":
        lg.error(msg, *args, exc_info=True, **kw)
        want = None
    elif kind == "no-value":
        lg.error(msg, *args, exc_info=(ValueError, None, None), **kw)
        want = ValueError()
    elif kind == "no-tb":
        lg.error(msg, *args, exc_info=e, **kw)
        want = e
    elif kind == "false":
        try:
            _boom(e)
        except Exception:
            lg.error(msg, *args, exc_info=False, **kw)
        want = None
    else:
        try:
            _chain() if kind == "chained" else _boom(e, 2 if kind == "deep" else 0)
        except Exception as x:
            want = x
            if kind == "tuple":
                lg.error(msg, *args, exc_info=(type(x), x, x.__traceback__), **kw)
            elif kind == "value":
                lg.error(msg, *args, exc_info=x, **kw)
            else:
                lg.exception(msg, *args, **kw)
    rec = one(ctx, p, case).log_record
    a = dict(rec.attributes)
    exc = {k: a.pop(k) for k in list(a) if k.startswith("exception.")}
    for k in ("code.filepath", "code.function", "code.lineno"):
        ctx.check(k in a, "location", lambda: f"{case}: no {k}")
        a.pop(k, None)
    ctx.check(a == base(extra), "attributes", lambda: f"{case}: attributes {a}")
    ctx.check(rec.body == (msg % args if args else msg), "body", lambda: f"{case}: body {rec.body!r}")
    if want is None:
        ctx.check(not exc, "exception", lambda: f"{case}: exception attributes {exc} without an exception")
    else:
        ctx.check(exc.get("exception.type") == type(want).__name__, "exception", lambda: f"{case}: type {exc}")
        if want.args:
            ctx.check("exception.message" in exc, "exception", lambda: f"{case}: no message in {exc}")
            ctx.check(str(want.args[0]) in exc.get("exception.message", "\0") or exc.get("exception.message") == str(want), "exception", lambda: f"{case}: message {exc}")
        st = exc.get("exception.stacktrace", "")
        if kind in ("no-tb", "no-value"):
            ctx.check("Traceback" not in st, "exception", lambda: f"{case}: {exc}")
        else:
            ctx.check("Traceback" in st and type(want).__name__ in st and str(want) in st and ("_boom" in st), "exception", lambda: f"{case}: stack trace {st!r}")
            ctx.check(kind != "chained" or "inner" in st, "exception", lambda: f"{case}: chained cause missing in {st!r}")
    ctx.state(case)


def emit_one(how, p, lp, lg):
    if how == "log":
        lg.warning("m")
    elif how == "event":
        EventLoggerProvider(lp).get_event_logger("e").emit(Event("ev"))
    else:
        lp.get_logger("x").emit(LogRecord(observed_timestamp=1, trace_id=1, span_id=2, trace_flags=trace.TraceFlags(1), resource=RES))


def c_span(case, ctx):
    _, st, how = case
    p, lp, h, lg = setup()
    tok, sc = enter(st)
    try:
        if how == "handler2":
            q = P()
            lp2 = LoggerProvider(resource=RES, shutdown_on_exit=False)
            lp2.add_log_record_processor(q)
            lg.addHandler(LoggingHandler(logger_provider=lp2))
            lg.warning("m")
            same_ctx(ctx, one(ctx, q, case).log_record, sc, case)
        elif how == "event-own":
            EventLoggerProvider(lp).get_event_logger("e").emit(Event("ev", trace_id=77, span_id=78, trace_flags=trace.TraceFlags(1)))
        else:
            emit_one(how, p, lp, lg)
    finally:
        octx.detach(tok)
    if how == "event-own":
        sc = trace.SpanContext(77, 78, False, trace.TraceFlags(1))
    same_ctx(ctx, one(ctx, p, case).log_record, sc, case)
    ctx.state(case)


def c_spans(case, ctx):
    p, lp, h, lg = setup()
    want, toks = [], []
    for s in case[1]:
        t, sc = enter(s)
        toks.append((t, sc))
        lg.warning("m")
        want.append(sc)
    for t, _ in reversed(toks):
        lg.warning("m")
        want.append(toks[-1][1])
        toks.pop()
        octx.detach(t)
    lg.warning("m")
    want.append(trace.INVALID_SPAN_CONTEXT)
    recs = [e[2].log_record for e in p.log]
    ctx.check(len(recs) == len(want), "once", lambda: f"{len(recs)} records for {len(want)}")
    for r, sc in zip(recs, want):
        same_ctx(ctx, r, sc, case)
    ctx.state(case)


def c_seq(case, ctx):
    _, conc, w = case
    log, want, n = [], [], 0
    multi = ConcurrentMultiLogRecordProcessor(2) if conc else None
    lp = LoggerProvider(resource=RES, shutdown_on_exit=False, multi_log_record_processor=multi)
    elp = EventLoggerProvider(lp)
    h = LoggingHandler(logger_provider=lp)
    lg = logging.Logger("app", 1)
    lg.addHandler(h)
    el, al = elp.get_event_logger("el", "1"), lp.get_logger("al", "2")
    specs = []
    for i in w:
        op = OPS[i]
        ctx.step()
        if op.startswith("add"):
            j = len(specs)
            specs.append(op[4:])
            lp.add_log_record_processor(SimpleLogRecordProcessor(X(j, log, ("raise", "no", "ok"))) if op == "add-x" else P(j, log, op == "add-ok"))
            continue
        if op in ("log", "emit", "event"):
            n += 1
            if op == "log":
                lg.warning("m%d", n)
                scope = ("app", None)
            elif op == "emit":
                al.emit(LogRecord(observed_timestamp=1, body=f"m{n}", resource=RES))
                scope = ("al", "2")
            else:
                el.emit(Event("ev", body=f"m{n}"))
                scope = ("el", "1")
            want += [("emit", j, f"m{n}", scope[0]) for j in range(len(specs))]
            continue
        ok = "no" not in specs
        n0 = len(log)
        if op == "flush":
            got = elp.force_flush() if n % 2 else lp.force_flush()
            ctx.check(bool(got) == ok, "flush", lambda: f"{case}: flush over {specs} reported {got}")
        else:
            h.flush()
        fl = sorted(e[1] for e in log[n0:])
        exp = [j for j, s in enumerate(specs) if s != "x"]
        ctx.check(len(fl) == len(set(fl)) and set(fl) <= set(exp), "flush", lambda: f"{case}: flushed {fl}")
        if ok:
            ctx.check(fl == exp, "flush", lambda: f"{case}: flushed {fl} of {exp}")
        del log[n0:]
    lp.shutdown() if sum(w) % 2 else elp.shutdown()
    want += [("shutdown", j) for j in range(len(specs))]
    got = [(e[0], e[1], e[2].log_record.body, e[2].instrumentation_scope.name) if e[0] == "emit" else e for e in log]
    if conc:
        for j in range(len(specs)):
            a, b = [e for e in got if e[1] == j], [e for e in want if e[1] == j]
            ctx.check(a == b, "fan-out", lambda: f"{[OPS[i] for i in w]} concurrent: processor {j} saw {a}, expected {b}")
    else:
        ctx.check(got == want, "fan-out", lambda: f"{[OPS[i] for i in w]}: saw {got}, expected {want}")
    ctx.state(conc, tuple(got))


def c_flush(case, ctx):
    _, conc, fl, cost, t = case
    log = []
    lp = LoggerProvider(resource=RES, shutdown_on_exit=False, multi_log_record_processor=ConcurrentMultiLogRecordProcessor(3) if conc else None)
    for j, (f, c) in enumerate(zip(fl, cost)):
        lp.add_log_record_processor(P(j, log, f, c))
    got = lp.force_flush(t)
    flushed = [e for e in log if e[0] == "flush"]
    if got:
        ctx.check(all(fl) and sorted(e[1] for e in flushed) == list(range(len(fl))), "flush-true", lambda: f"{case}: success although {flushed}")
        ctx.check(conc or sum(cost[:-1]) <= t, "flush-deadline", lambda: f"{case}: success after the deadline")
    elif all(fl) and not conc:
        ctx.check(t == 0 or sum(cost[:-1]) >= t - 1, "flush-false", lambda: f"{case}: failure although every processor flushed in time")
    elif all(fl):
        ctx.check(t == 0 or max(cost, default=0) >= t - 1, "flush-false", lambda: f"{case}: failure although every processor flushed in time")
    for e in flushed:
        ctx.check(0 <= e[2] <= t, "flush-budget", lambda: f"{case}: processor {e[1]} was given {e[2]} ms of {t}")
    ctx.state(case[:4], t, got)


def c_limits(case, ctx):
    _, ma, ml, ks = case
    vals = ["aaa", 5, ("bbbb", "c"), "d", b"eeee"]
    src = {}
    for k, v in zip(ks, vals):
        src.pop(k, None)
        src[k] = v
    lim = LogLimits(ma, ml)
    rec = LogRecord(observed_timestamp=1, resource=RES, attributes=src, limits=lim)

    def cut(v):
        v = keep(v)
        if ml < 0:
            return v
        return v[:ml] if isinstance(v, str) else tuple(e[:ml] for e in v) if isinstance(v, tuple) else v

    items = [(k, cut(v)) for k, v in src.items()]
    kept = items if ma < 0 else items[max(0, len(items) - ma):]
    ctx.check(dict(rec.attributes.items() if rec.attributes else {}) == dict(kept), "limits", lambda: f"{case}: kept {dict(rec.attributes)}, expected {kept}")
    ctx.check(rec.dropped_attributes == len(items) - len(kept), "dropped", lambda: f"{case}: dropped {rec.dropped_attributes}, expected {len(items) - len(kept)}")
    ctx.state(ma, ml, tuple(kept))


def c_env(case, ctx):
    _, a, b, ea, eb = case
    from unittest import mock
    env = {k: v for k, v in (("OTEL_ATTRIBUTE_COUNT_LIMIT", ea), ("OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", eb)) if v is not None}

    def one_(v, e, unset, absent):
        if v == -1:
            return unset
        if v is None:
            if e is None:
                return absent
            e = e.strip()
            if not e:
                return absent
            if not e.isdigit():
                return "error"
            return int(e)
        return "error" if v < 0 else v

    import os
    old = dict(os.environ)
    want = (one_(a, ea, 128, 128), one_(b, eb, None, None))
    for k in ("OTEL_ATTRIBUTE_COUNT_LIMIT", "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT"):
        os.environ.pop(k, None)
    os.environ.update(env)
    try:
        try:
            lim = LogLimits(a, b)
            got = (lim.max_attributes, lim.max_attribute_length)
        except ValueError:
            got = "error"
    finally:
        os.environ.clear()
        os.environ.update(old)
    if "error" in want:
        ctx.check(got == "error", "limit-env", lambda: f"{case}: {got} although an argument or setting is invalid")
    else:
        if a == -1:  # explicitly unset: the default or none at all
            ctx.check(got != "error" and got[0] in (None, 128) and got[1] == want[1], "limit-env", lambda: f"{case}: {got}, expected {want}")
        else:
            ctx.check(got == want, "limit-env", lambda: f"{case}: {got}, expected {want}")
    ctx.state(case[1:], got)


def c_event(case, ctx):
    _, nm, ts, sev, body, at = case
    p, lp, h, lg = setup()
    before = dict(at) if at is not None else None
    EventLoggerProvider(lp).get_event_logger("el", "v", "sch", {"q": 1}).emit(Event(nm, timestamp=ts, body=body, severity_number=sev, attributes=at))
    d = one(ctx, p, case)
    rec = d.log_record
    sc = d.instrumentation_scope
    ctx.check((sc.name, sc.version, sc.schema_url, dict(sc.attributes)) == ("el", "v", "sch", {"q": 1}), "scope", lambda: f"{sc}")
    ctx.check(dict(rec.attributes) == {**(at or {}), "event.name": nm}, "event-attributes", lambda: f"{case}: {dict(rec.attributes)}")
    ctx.check(at == before, "caller", f"{case}: the caller's attributes were changed")
    ctx.check(rec.body == body and type(rec.body) is type(body), "body", lambda: f"{case}: {rec.body!r}")
    ctx.check(rec.severity_number is (sev or SeverityNumber.INFO), "severity", lambda: f"{case}: {rec.severity_number}")
    ctx.check(rec.timestamp == ts if ts else 0 < rec.timestamp <= sched.CLOCK.now, "timestamp", lambda: f"{case}: {rec.timestamp}")
    ctx.check(rec.resource == RES, "resource", lambda: f"{rec.resource.attributes}")
    ctx.state(case)


def c_scope(case, ctx):
    import os
    _, name, ver, sch, at, dis = case
    os.environ.pop("OTEL_SDK_DISABLED", None)
    if dis is not None:
        os.environ["OTEL_SDK_DISABLED"] = dis
    try:
        p, lp, h, lg = setup()
        a = lp.get_logger(name, ver, sch, at)
        b = lp.get_logger(name + "2", ver, sch, at)
        c = lp.get_logger(name, ver, sch, {"other": 1})
        v = lp.get_logger(name, (ver or "") + "9", sch, at)
        u = lp.get_logger(name, ver, (sch or "") + "z", at)
        n = lp.get_logger(name, ver, sch)
        vu = lp.get_logger(name, sch, ver)
    finally:
        os.environ.pop("OTEL_SDK_DISABLED", None)
    lg.warning("m")
    for x in (a, b, c, a, v, u, n, vu):
        x.emit(LogRecord(observed_timestamp=1, body="m", resource=RES))
    got = [(s.name, s.version, s.schema_url, dict(s.attributes or {})) for s in (e[2].instrumentation_scope for e in p.log)]
    if dis is not None and dis.strip().lower() == "true":
        want = []
    else:
        at_ = {k: tuple(v) if isinstance(v, list) else v for k, v in (at or {}).items()}
        s = (name, ver, sch or "", at_)
        want = [s, (name + "2",) + s[1:], (name, ver, sch or "", {"other": 1}), s, (name, (ver or "") + "9", sch or "", at_), (name, ver, (sch or "") + "z", at_),
                (name, ver, sch or "", {}), (name, sch, ver or "", {})]
        ctx.check(got and got[0][0] == "app", "scope", lambda: f"{case}: {got}")
        got = got[1:]
    ctx.check(got == want, "scope", lambda: f"{case}: scopes {got}, expected {want}")
    ctx.state(case[1:], dis)


def c_record(case, ctx):
    _, ts, ots, tid, sid, fl, sev, body = case
    p, lp, h, lg = setup()
    fl_ = None if fl is None else trace.TraceFlags(fl)
    rec = LogRecord(timestamp=ts, observed_timestamp=ots, trace_id=tid, span_id=sid, trace_flags=fl_, severity_text="T", severity_number=sev, body=body,
                    resource=RES, attributes={"a": 1, "b": ("x",)})
    lp.get_logger("l").emit(rec)
    r = one(ctx, p, case).log_record
    got = (r.timestamp, r.trace_id, r.span_id, r.trace_flags, r.severity_text, r.severity_number, r.body, dict(r.attributes))
    ctx.check(got == (ts, tid, sid, fl_, "T", sev, body, {"a": 1, "b": ("x",)}), "record", lambda: f"{case}: {got}")
    ctx.check(r.observed_timestamp == ots if ots else 0 < r.observed_timestamp <= sched.CLOCK.now, "observed", lambda: f"{case}: {r.observed_timestamp}")
    j = json.loads(r.to_json())
    iso = lambda n: None if n is None else n  # noqa
    ctx.check(j["body"] == body and j["severity_text"] == "T" and j["severity_number"] == (sev.value if sev else None) and j["attributes"] == {"a": 1, "b": ["x"]}
              and j["dropped_attributes"] == 0 and j["trace_id"] == ("" if tid is None else f"0x{tid:032x}") and j["span_id"] == ("" if sid is None else f"0x{sid:016x}")
              and j["trace_flags"] == fl and (ts is None) == (j["timestamp"] is None) and j["resource"]["attributes"] == {"service.name": "svc", "k": [1, 2]},
              "to-json", lambda: f"{case}: {j}")
    ctx.state(case[1:])


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}
