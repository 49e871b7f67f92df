"""T09: span contexts as values, non-recording spans, and the span held by a context."""
import contextvars
import copy
import itertools
import logging
import pickle

from opentelemetry import trace
from opentelemetry.context import Context, attach, detach, set_value
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.trace import INVALID_SPAN, INVALID_SPAN_CONTEXT, Link, NonRecordingSpan, SpanContext, Status, StatusCode, TraceFlags, TraceState

TID = [0, 1, 2**64, 2**127 + 5, 2**128 - 1, 2**128, -1]
SID = [0, 1, 2**63 + 7, 2**64 - 1, 2**64, -1]
FLAGS = [None, "absent", 0, 1, 2, 3, 254, 255]
STATES = [None, "absent", (), (("a", "1"),), (("b", "2"), ("a", "1"))]
FIELDS = ["trace_id", "span_id", "is_remote", "trace_flags", "trace_state", "is_valid", "other"]
NVAL = 9


def CASES(tier):
    for t, s, r, f, st in itertools.product(range(len(TID)), range(len(SID)), (0, 1), range(len(FLAGS)), range(len(STATES))):
        yield ("value", t, s, r, f, st)
    n = 3 if tier == "quick" else 4
    for w in itertools.product(range(len(FIELDS) * 2), repeat=2):
        yield ("assign", w)
    for a, b in itertools.product(range(NVAL), repeat=2):
        yield ("equal", a, b)
    for k in range(n + 1):
        for w in itertools.product(range(len(CALLS)), repeat=k):
            yield ("nonrec", w)
    for k in range(1, n + 2):
        for w in itertools.product(range(len(SETS)), repeat=k):
            yield ("held", w)
    for i in list(range(0, 130)):
        yield ("format", i)


def make(t, s, r, f, st):
    kw = {}
    if f != "absent":
        kw["trace_flags"] = None if f is None else TraceFlags(f)
    if st != "absent":
        kw["trace_state"] = None if st is None else TraceState(st)
    return SpanContext(t, s, r, **kw)


def fields(c):
    return (c.trace_id, c.span_id, c.is_remote, int(c.trace_flags), c.trace_flags.sampled, tuple(c.trace_state.items()), c.is_valid)


def c_value(ctx, t, s, r, f, st):
    t, s, r, f, st = TID[t], SID[s], bool(r), FLAGS[f], STATES[st]
    c = make(t, s, r, f, st)
    flags = f if isinstance(f, int) else 0
    want = (t, s, r, flags, bool(flags & 1), st if isinstance(st, tuple) else (), 0 < t < 2**128 and 0 < s < 2**64)
    ctx.check(fields(c) == want, "fields", lambda: f"{(t, s, r, f, st)} gives {fields(c)}")
    for how, d in (("copied", copy.copy(c)), ("copied deeply", copy.deepcopy(c)), ("pickled", pickle.loads(pickle.dumps(c))), ("made again", make(t, s, r, f, st))):
        ctx.check(type(d) is SpanContext and fields(d) == want, "copy", lambda: f"{(t, s, r, f, st)} {how} is {fields(d)}")
        ctx.check(d == c and not d != c, "copy-equal", lambda: f"{(t, s, r, f, st)} {how} differs from itself")
    text = repr(c)
    if t >= 0 and s >= 0:
        ctx.check(f"{t:032x}" in text and f"{s:016x}" in text, "repr", lambda: f"{text} does not show the ids {t:x} and {s:x}")
    ctx.state(want)


def c_assign(ctx, w):
    c = make(5, 6, True, 1, (("a", "1"),))
    before = fields(c)
    for i in w:
        name = FIELDS[i // 2]
        try:
            if i % 2:
                delattr(c, name)
            else:
                setattr(c, name, 9)
        except (AttributeError, TypeError):
            pass
        ctx.check(fields(c) == before, "immutable", lambda: f"{'deleting' if i % 2 else 'setting'} {name} changed the context to {fields(c)}")
        ctx.check(not hasattr(c, "other"), "immutable", "a new attribute was added to a span context")
    for i in range(6):
        try:
            c[i] = 1
            ctx.fail("immutable", "item assignment succeeded")
        except TypeError:
            pass
    ctx.state(w)


def vals(i):
    return [(1, 2, False, 0, ()), (1, 2, True, 0, ()), (1, 2, False, 1, ()), (1, 2, False, 0, (("a", "1"),)), (1, 2, False, 0, (("a", "2"),)), (1, 3, False, 0, ()), (3, 2, False, 0, ()),
            (0, 2, False, 0, ()), (0, 0, False, 0, ())][i]


def c_equal(ctx, a, b):
    x, y = make(*vals(a)), make(*vals(b))
    ctx.check((x == y) == (a == b) and (x != y) == (a != b), "equal", lambda: f"{x} and {y} compare {'equal' if x == y else 'different'}")
    if b == NVAL - 1:
        ctx.check((x == INVALID_SPAN_CONTEXT) == (a == b), "equal", lambda: f"{x} and the invalid context")
    ctx.state(a, b)


ERR = ValueError("x")
CALLS = [lambda s: s.set_attribute("k", 1), lambda s: s.set_attributes({"k": 1, "": object()}), lambda s: s.add_event("e", {"a": 1}, 5), lambda s: s.add_link(make(8, 9, True, 1, ()), {"a": 1}),
         lambda s: s.update_name("n"), lambda s: s.set_status(StatusCode.ERROR, "d"), lambda s: s.set_status(Status(StatusCode.OK)), lambda s: s.record_exception(ERR), lambda s: s.end(), lambda s: s.end(3)]


def c_nonrec(ctx, w):
    for v in ((1, 2, True, 1, (("a", "1"),)), (0, 0, False, 0, ())):
        sc = make(*v)
        before = fields(sc)
        sp = NonRecordingSpan(sc)
        for i in w:
            r = CALLS[i](sp)
            ctx.step()
            ctx.check(r is None and not sp.is_recording() and sp.get_span_context() is sc and fields(sc) == before, "inert", lambda: f"after calls {w} a non-recording span has {sp.get_span_context()}")
        try:
            with sp as t:
                ctx.check(t is sp, "scope", "entering gives another span")
                raise ERR
        except ValueError as e:
            ctx.check(e is ERR, "scope", "another exception came out")
        else:
            ctx.fail("scope", "the exception was swallowed")
        with trace.use_span(sp, end_on_exit=True):
            ctx.check(trace.get_current_span() is sp, "current", "a non-recording span does not become current")
    ctx.check(not INVALID_SPAN.is_recording() and INVALID_SPAN.get_span_context() == INVALID_SPAN_CONTEXT and not INVALID_SPAN_CONTEXT.is_valid, "invalid", lambda: f"{INVALID_SPAN}")
    ctx.state(w)


TP = TracerProvider(resource=Resource({}), sampler=ALWAYS_ON, shutdown_on_exit=False)
SETS = ["non", "sdk", "invalid", "none", "junk", "value", "attach", "detach", "cur"]


def c_held(ctx, w):
    """get_current_span of a context, given or current, is the span last set in it or in the one it was derived from."""
    c, held, toks, cur = Context(), None, [], None
    for i in w:
        op = SETS[i]
        ctx.step()
        if op in ("non", "sdk", "invalid", "none", "junk", "cur"):
            s = {"non": lambda: NonRecordingSpan(make(4, 5, True, 1, ())), "sdk": lambda: TP.get_tracer("t").start_span("s", Context()), "invalid": lambda: INVALID_SPAN, "none": lambda: None,
                 "junk": lambda: "span", "cur": lambda: NonRecordingSpan(make(6, 7, False, 0, ()))}[op]()
            old = c
            n = trace.set_span_in_context(s, c) if op != "cur" else trace.set_span_in_context(s)
            ctx.check(trace.get_current_span(old) is (held or INVALID_SPAN), "derived", lambda: f"{[SETS[j] for j in w]}: setting a span changed the context it was set in")
            c, held = n, s if isinstance(s, trace.Span) else None
        elif op == "value":
            c = set_value("x", 1, c)
        elif op == "attach":
            toks.append((attach(c), cur))
            cur = held
        elif toks:
            t, cur = toks.pop()
            detach(t)
        for got, want, what in ((trace.get_current_span(c), held, "the context's"), (trace.get_current_span(), cur, "the current")):
            ctx.check(got is (want or INVALID_SPAN), "held", lambda: f"{[SETS[j] for j in w]}: {what} span is {got}, expected {want}")
    ctx.state(w)


def c_format(ctx, i):
    for v in {0, 1 << i, (1 << i) - 1, (1 << i) + 5, 0xABCDEF << i} - {None}:
        if v < 2**128:
            s = trace.format_trace_id(v)
            ctx.check(len(s) == 32 and not set(s) - set("0123456789abcdef") and int(s, 16) == v, "format", lambda: f"trace id {v} formatted as {s}")
        if v < 2**64:
            s = trace.format_span_id(v)
            ctx.check(len(s) == 16 and not set(s) - set("0123456789abcdef") and int(s, 16) == v, "format", lambda: f"span id {v} formatted as {s}")
    ctx.state(i)


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    ctx.step()
    logging.disable(logging.CRITICAL)
    try:
        contextvars.Context().run(CASE[case[0]], ctx, *case[1:])
    finally:
        logging.disable(logging.NOTSET)
