"""T10: what a span records of how it was started, in every way of starting it."""
import asyncio
import contextvars
import itertools
import logging

from mc import sched
from opentelemetry import trace
from opentelemetry.context import Context, set_value
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.trace import Link, NonRecordingSpan, SpanContext, SpanKind, StatusCode, TraceFlags, TraceState

RES = [Resource({"service.name": "one"}, "http://schema"), Resource({})]
FORMS = ["span", "with", "function", "coroutine"]
KINDS = list(SpanKind)
ATTRS = [None, {}, {"k": "v", "l": [1, 2]}]
GOOD, BAD = SpanContext(7, 8, True, TraceFlags(1)), SpanContext(0, 8, True)
STATED = SpanContext(0, 0, True, TraceFlags(0), TraceState([("a", "1")]))
# (context, attributes, is it kept)
LINKS = [(GOOD, None, True), (GOOD, {"a": 1}, True), (BAD, None, False), (BAD, {"a": 1}, True), (STATED, None, True), (BAD, {}, False), (None, {"a": 1}, False)]
TIMES = [None, 0, 5]
PARENT = NonRecordingSpan(SpanContext(11, 12, True, TraceFlags(1)))
SCOPES = [("lib",), ("lib", "1.0"), ("lib", None, "http://s"), ("lib", "1.0", "http://s", {"a": 1}), ("lib", "", "", {}), ("other", "1.0", "http://s", {"a": 2})]


def CASES(tier):
    pairs = list(itertools.product(range(len(LINKS)), repeat=2))
    links = [None, ()] + [(i,) for i in range(len(LINKS))] + (pairs if tier == "thorough" else pairs[::3])
    for form, kind, a, ln, st, c in itertools.product(FORMS, range(len(KINDS) + 1), range(len(ATTRS)), links, range(len(TIMES)), range(3)):
        yield ("args", form, kind, a, ln, st, c)
    for form, rec, stat, end, exc, via in itertools.product(FORMS, (None, True, False), (None, True, False), (None, True, False), ("none", "value", "base"), (0, 1)):
        yield ("flags", form, rec, stat, end, exc, via)
    for s, r, order in itertools.product(itertools.product(range(len(SCOPES)), repeat=2), range(2), range(2)):
        yield ("scope", s, r, order)
    for a, b in itertools.product(TIMES + [9], repeat=2):
        for ev in TIMES + [7]:
            yield ("times", a, b, ev)


STEP = 10**6  # the virtual clock moves a little by itself


class Log(SpanProcessor):
    def __init__(self):
        self.started, self.ended = [], []

    def on_start(self, span, parent_context=None):
        self.started.append((view(span), span.start_time))

    def on_end(self, span):
        self.ended.append(span)


def world(r=0):
    tp = TracerProvider(resource=RES[r], sampler=ALWAYS_ON, shutdown_on_exit=False)
    log = Log()
    tp.add_span_processor(log)
    return tp, log


def tick():
    sched.CLOCK.now += STEP
    return sched.CLOCK.now


def view(s):
    p = s.parent
    return (s.name, s.kind, dict(s.attributes), [(k.context, dict(k.attributes or {})) for k in s.links], p.span_id if p else None)


def run(tr, form, kw, body):
    """Starts a span in the given form, runs the body within, and returns what came out of it."""
    name = kw.pop("name")
    end = kw.pop("end_on_exit", None)
    if form == "span":
        s = tr.start_span(name, **kw)
        try:
            with trace.use_span(s, **{k: v for k, v in kw.items() if k in ("record_exception", "set_status_on_exception")}, end_on_exit=True if end is None else end):
                body()
        except BaseException as e:  # noqa
            return e
        return None
    if end is not None:
        kw["end_on_exit"] = end
    try:
        if form == "with":
            with tr.start_as_current_span(name, **kw):
                body()
        elif form == "function":
            @tr.start_as_current_span(name, **kw)
            def f():
                body()
            f()
        else:
            @tr.start_as_current_span(name, **kw)
            async def g():
                await asyncio.sleep(0)
                body()
            loop = asyncio.new_event_loop()
            try:
                loop.run_until_complete(g())
            finally:
                loop.close()
    except BaseException as e:  # noqa
        return e
    return None


def c_args(ctx, form, kind, a, ln, st, c):
    tp, log = world()
    tr = tp.get_tracer("lib")
    kw = {"name": "n"}
    if kind < len(KINDS):
        kw["kind"] = KINDS[kind]
    if ATTRS[a] is not None:
        kw["attributes"] = {k: list(v) if isinstance(v, list) else v for k, v in ATTRS[a].items()}
    kept = []
    if ln is not None:
        kw["links"] = [Link(LINKS[i][0], LINKS[i][1]) for i in ln]
        kept = [(LINKS[i][0], LINKS[i][1] or {}) for i in ln if LINKS[i][2]]
    if TIMES[st] is not None:
        kw["start_time"] = TIMES[st]
    if c == 1:
        kw["context"] = trace.set_span_in_context(PARENT, Context())
    elif c == 2:
        kw["context"] = set_value("x", 1, Context())
    attrs = {k: tuple(v) if isinstance(v, list) else v for k, v in (ATTRS[a] or {}).items()}
    want = ("n", KINDS[kind] if kind < len(KINDS) else SpanKind.INTERNAL, attrs, kept, 12 if c == 1 else None)
    lo = tick()
    seen = []
    e = run(tr, form, dict(kw), lambda: (seen.append(trace.get_current_span()), tick()))
    hi = tick()
    what = f"{form} started with {kw}"
    if not ctx.check(e is None and len(log.started) == 1 and len(log.ended) == 1 and len(seen) == 1, "once", lambda: f"{what}: {e!r}, {len(log.started)} started, {len(log.ended)} ended"):
        return
    s = log.ended[0]
    ctx.check(log.started[0][0] == want, "at-start", lambda: f"{what}: started as {log.started[0][0]}, expected {want}")
    ctx.check(view(s) == want, "recorded", lambda: f"{what}: recorded {view(s)}, expected {want}")
    ctx.check(seen[0].get_span_context() == s.context, "current", lambda: f"{what}: the current span within is {seen[0]}")
    ctx.check(s.start_time == TIMES[st] if TIMES[st] is not None else lo <= s.start_time < lo + STEP, "start-time", lambda: f"{what}: started at {s.start_time}, now {lo}")
    ctx.check(lo + STEP <= s.end_time <= hi, "end-time", lambda: f"{what}: ended at {s.end_time}, between {lo} and {hi}")
    ctx.check(s.resource == RES[0] and s.resource.schema_url == RES[0].schema_url, "resource", lambda: f"{what}: resource {s.resource}")
    ctx.state(form, want)


def c_flags(ctx, form, rec, stat, end, exc, via):
    """The flags given when starting say what an exception does, also to the span that leaves its own scope by `with span`."""
    tp, log = world()
    tr = tp.get_tracer("lib")
    kw = {"name": "n"}
    if rec is not None:
        kw["record_exception"] = rec
    if stat is not None:
        kw["set_status_on_exception"] = stat
    if end is not None:
        kw["end_on_exit"] = end
    err = {"none": None, "value": ValueError("boom"), "base": KeyboardInterrupt("stop")}[exc]
    spans = []

    def body():
        spans.append(trace.get_current_span())
        if err:
            raise err

    what = f"{form} with {kw} left by {err!r}"
    if via and form == "span":
        k = dict(kw)
        k.pop("end_on_exit", None)
        out = None
        try:
            with tr.start_span(**k) as s:
                spans.append(s)
                if err:
                    raise err
        except BaseException as x:  # noqa
            out = x
        ended = True
        counts = err is not None  # a span's own scope records every exception
    else:
        out = run(tr, form, dict(kw), body)
        ended = end is not False
        counts = exc == "value"
    ctx.check(out is err, "raised", lambda: f"{what}: {out!r} came out")
    s = spans[0]
    ctx.check(s.is_recording() == (not ended) and len(log.ended) == int(ended), "ended", lambda: f"{what}: recording {s.is_recording()}, ended {len(log.ended)} times")
    ev = [(e.name, e.attributes.get("exception.message")) for e in s.events]
    ctx.check(ev == ([("exception", str(err))] if counts and rec is not False else []), "exception", lambda: f"{what}: events {ev}")
    st = s.status.status_code
    ctx.check(st is (StatusCode.ERROR if counts and stat is not False else StatusCode.UNSET), "status", lambda: f"{what}: status {st}")
    if st is StatusCode.ERROR:
        ctx.check(s.status.description == f"{type(err).__name__}: {err}", "description", lambda: f"{what}: {s.status.description}")
    ctx.state(form, rec, stat, end, exc)


def c_scope(ctx, ss, r, order):
    """Spans carry the scope of the tracer that started them and the resource of its provider."""
    tp, log = world(r)
    other, olog = world(1 - r)
    trs = [tp.get_tracer(*SCOPES[i]) for i in ss]
    if order:
        trs = [trs[0], trs[1], trs[0]]
        ss = (ss[0], ss[1], ss[0])
    other.get_tracer(*SCOPES[ss[0]]).start_span("x").end()
    spans = [t.start_span(f"s{i}", Context()) for i, t in enumerate(trs)]
    for s in reversed(spans):
        s.end()
    ctx.check(len(olog.ended) == 1, "provider", lambda: "spans reached another provider")
    for i, s in enumerate(reversed(log.ended)):
        w = (SCOPES[ss[i]] + (None, None, None))[:4]
        g = s.instrumentation_scope
        ctx.check(s.name == f"s{i}" and (g.name, g.version or "", g.schema_url or "", dict(g.attributes or {})) == (w[0], w[1] or "", w[2] or "", w[3] or {}), "scope", lambda: f"{s.name} of the tracer {w}: scope {g!r}")
        ctx.check(s.resource == RES[r], "resource", lambda: f"resource {s.resource.attributes}")
    ctx.check(olog.ended[0].resource == RES[1 - r], "resource", lambda: "resource of the other provider")
    ctx.state(ss, r, order)


def c_times(ctx, a, b, ev):
    """Explicit times are kept, zero included; others are the present."""
    tp, log = world()
    t0 = tick()
    s = tp.get_tracer("lib").start_span("n", Context(), start_time=a)
    t1 = tick()
    s.add_event("e", {"a": 1}, ev)
    s.record_exception(ValueError("x"), timestamp=ev)
    t2 = tick()
    s.end(b)
    tick()
    x = log.ended[0]
    for got, given, lo, hi, what in ((x.start_time, a, t0, t1, "start"), (x.events[0].timestamp, ev, t1, t2, "event"), (x.events[1].timestamp, ev, t1, t2, "exception"), (x.end_time, b, t2, t2 + STEP, "end")):
        ctx.check(got == given if given is not None else lo <= got < hi, "times", lambda: f"{what} time given as {given}: {got}, now {lo}")
    ctx.check(log.started[0][1] == x.start_time, "times", lambda: "the start time changed")
    ctx.state(a, b, ev)


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    ctx.step()
    logging.disable(logging.CRITICAL)
    sched.CLOCK.now = sched.T0
    try:
        contextvars.Context().run(CASE[case[0]], ctx, *case[1:])
    finally:
        logging.disable(logging.NOTSET)
