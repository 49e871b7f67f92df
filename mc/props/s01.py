"""S01: the OpenTracing shim, every short program over spans, scopes, references and carriers."""
import contextvars
import itertools
import logging

import opentracing
from opentracing import Format, UnsupportedFormatException

from mc import sched
from opentelemetry import baggage, context as octx, propagate, trace
from opentelemetry.baggage.propagation import W3CBaggagePropagator
from opentelemetry.propagators.b3 import B3MultiFormat
from opentelemetry.propagators.composite import CompositePropagator
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON, Decision, Sampler, SamplingResult
from opentelemetry.shim.opentracing_shim import ScopeShim, SpanContextShim, SpanShim, create_tracer
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

logging.disable(logging.CRITICAL)

START = ["plain", "ignore", "child", "childctx", "ref", "follow", "tworef", "remote", "refremote"]
OPS = (["A:" + s for s in START] + ["A:keep"] + ["S:" + s for s in START] + ["act", "actend", "native", "close", "raise", "tag", "log", "name", "finish", "bag"])
MORE = ["error", "with", "noref", "invalid", "nativeend"]


class Rec(SpanProcessor):
    def __init__(self):
        self.got = []

    def on_end(self, span):
        self.got.append(span)


class NameSampler(Sampler):
    """Spans named u* are not sampled."""

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        return SamplingResult(Decision.DROP if name.startswith("u") else Decision.RECORD_AND_SAMPLE, attributes)

    def get_description(self):
        return "names"


REMOTE = trace.SpanContext(0xABC, 0xDEF, True, trace.TraceFlags(1), trace.TraceState([("k", "v")]))


def CASES(tier):
    n = 3 if tier == "quick" else 4
    for r in range(1, n + 1):
        for w in itertools.product(range(len(OPS)), repeat=r):
            yield ("run", w, 0)
    small = [OPS.index(x) for x in ("A:plain", "A:ignore", "S:ref", "S:plain", "act", "native", "close", "tag", "bag")]
    for w in itertools.product(small, repeat=5 if tier == "quick" else 6):
        yield ("run", w, 0)
    for w in itertools.product([OPS.index(x) for x in ("A:plain", "S:plain", "S:child", "act", "native", "close", "raise")], repeat=4):
        yield ("run", w, 1)
    yield ("more",)
    for how, outer, end, exc, reads in itertools.product(("active", "manager"), ("none", "shim", "native", "both"), (False, True), (None, "value", "base"), (0, 1, 2)):
        yield ("foreign", how, outer, end, exc, reads)
    refs = ["childA", "followA", "childB", "followB", "none", "invalid", "remote"]
    for how in ("active", "start"):
        for k in range(4):
            for rs in itertools.product(refs, repeat=k):
                for ignore in (False, True):
                    for active in ("none", "shim", "native", "both"):
                        yield ("refs", how, rs, ignore, active)
    for how, c, ignore, active in itertools.product(("active", "start"), ("span", "ctx", "remote", "invalid"), (False, True), ("none", "shim", "native", "both")):
        yield ("childof", how, c, ignore, active)
    for p, fmt, src, bag, cur, header in itertools.product(range(4), ("text", "http"), ("span", "ctx", "remote", "unsampled", "none"), range(4), ("none", "shim", "native", "bag"), (0, 1)):
        yield ("carry", p, fmt, src, bag, cur, header)
    for p, cur in itertools.product(range(4), ("none", "shim", "native", "bag")):
        for car in ({}, {"traceparent": "garbage"}, {"x": "y"}, {"baggage": "a=1"}):
            yield ("empty", p, cur, car)
    for fmt in (Format.BINARY, "other", None, 5):
        yield ("format", fmt)
    for st, fin, lg in itertools.product([None, 0, 1.5, 1700000000.25, 1700000000.123456, 10**9], repeat=3):
        yield ("times", st, fin, lg)
    vals = [1, 1.5, True, "s", "", ["a", "b"], None, {"d": 1}, object]
    for v, when in itertools.product(vals, ("tag", "start", "log")):
        yield ("value", when, v if not isinstance(v, type) else "OBJ")
    kvs = [None, {}, {"event": "e"}, {"event": "e", "k": 1}, {"k": 1}, {"event": "error", "message": "m"}, {"Event": "x"}, {"event": "", "k": "v"}]
    for i, j in itertools.product(range(len(kvs)), repeat=2):
        yield ("logs", kvs[i], kvs[j])
    for end, exc, where in itertools.product((True, False), ("none", "value", "base", "exit"), ("scope", "span", "activated", "closed")):
        yield ("errors", end, exc, where)


class M:
    """A span of the model."""

    def __init__(self, name, parent, links, shim=None, real=None):
        self.name, self.parent, self.links, self.shim, self.real = name, parent, links, shim, real
        self.attrs, self.events, self.status, self.ended = {}, [], "UNSET", False
        self.bag = {}


class World:
    def __init__(self, ctx, sampler=ALWAYS_ON):
        octx.attach(octx.Context())
        self.ctx = ctx
        self.rec = Rec()
        self.tp = TracerProvider(sampler=sampler, shutdown_on_exit=False, resource=Resource({}))
        self.tp.add_span_processor(self.rec)
        self.shim = create_tracer(self.tp)
        self.otel = self.tp.get_tracer("native")
        self.spans = []  # M, in order of creation
        self.stack = []  # (how, M, scope or context manager, end on close)
        self.order = []
        self.n = 0
        self.log = []

    # ---- helpers
    def name(self, pre):
        self.n += 1
        return f"{pre}{self.n}"

    def cur(self):
        return self.stack[-1][1] if self.stack else None

    def sc(self, m):
        return m.real.get_span_context()

    def last(self, k=1):
        """The k-th last span made through the shim."""
        l = [m for m in self.spans if m.shim is not None]
        return l[-k] if len(l) >= k else None

    def start(self, how, active, keep=False, name=None):
        """Start a span through the shim; how names what is given."""
        kw, links, given = {}, [], None
        a, b = self.last(1), self.last(2)
        bags = []
        if how in ("child", "childctx") and a is not None:
            kw["child_of"] = a.shim if how == "child" else a.shim.context
            given = self.sc(a)
            bags = [a.bag]
        elif how in ("ref", "follow") and a is not None:
            f = opentracing.child_of if how == "ref" else opentracing.follows_from
            kw["references"] = [f(a.shim.context)]
            links = [self.sc(a)]
            bags = [a.bag]
        elif how == "tworef" and b is not None:
            kw["references"] = [opentracing.child_of(b.shim.context), opentracing.follows_from(a.shim.context)]
            links = [self.sc(b), self.sc(a)]
            bags = [b.bag, a.bag]
        elif how == "remote":
            kw["child_of"] = SpanContextShim(REMOTE)
            given = REMOTE
        elif how == "refremote":
            kw["references"] = [opentracing.follows_from(SpanContextShim(REMOTE))]
            links = [REMOTE]
        elif how == "noref":
            kw["references"] = [opentracing.child_of(None)]
        elif how == "invalid":
            kw["references"] = [opentracing.child_of(SpanContextShim(trace.INVALID_SPAN_CONTEXT))]
        elif how == "ignore":
            kw["ignore_active_span"] = True
        parent = given
        if parent is None and links:
            parent = links[0]
        if parent is None and "child_of" not in kw and how != "ignore" and self.cur() is not None:
            parent = self.sc(self.cur())
            bags = [self.cur().bag]
        name = name or self.name("s")
        if active:
            scope = self.shim.start_active_span(name, finish_on_close=not keep, **kw)
            s = scope.span
        else:
            s = self.shim.start_span(name, **kw)
        m = M(name, parent, links, s, s.unwrap())
        for x in bags:
            m.bag.update(x)
        self.spans.append(m)
        if active:
            self.stack.append(("shim", m, scope, not keep))
        return m

    def end(self, m):
        if not m.ended:
            m.ended = True
            self.order.append(m)

    def close(self, exc=None):
        how, m, h, end = self.stack.pop()
        if how == "shim":
            if exc is None:
                h.close()
            else:
                r = h.__exit__(type(exc), exc, None)
                self.ctx.check(not r, "swallowed", lambda: f"{self.log}: leaving a scope swallowed {exc!r}")
        else:
            try:
                r = h.__exit__(type(exc) if exc else None, exc, None)
            except ValueError:
                pass
        if exc is not None and not m.ended:
            m.events.append("exception")
            m.status = "ERROR"
        if end:
            self.end(m)

    def step(self, op):
        self.log.append(op)
        if op[:2] in ("A:", "S:"):
            how = op[2:]
            self.start("plain" if how == "keep" else how, op[0] == "A", keep=how == "keep")
        elif op in ("act", "actend"):
            m = self.last()
            if m is None:
                return
            scope = self.shim.scope_manager.activate(m.shim, op == "actend")
            self.ctx.check(scope.span.unwrap() is m.real, "activate", lambda: f"{self.log}: activated another span")
            self.stack.append(("shim", m, scope, op == "actend"))
        elif op in ("native", "nativeend"):
            name = self.name("n")
            cm = self.otel.start_as_current_span(name, end_on_exit=True)
            parent = self.sc(self.cur()) if self.cur() else None
            real = cm.__enter__()
            m = M(name, parent, [], None, real)
            self.spans.append(m)
            self.stack.append(("native", m, cm, True))
        elif op in ("close", "raise"):
            if self.stack:
                self.close(ValueError("x") if op == "raise" else None)
        else:
            s = self.shim.active_span
            m = self.cur()
            if op == "finish":
                m = self.last()
                s = m.shim if m else None
            if m is None:
                self.ctx.check(s is None, "active", lambda: f"{self.log}: {s} is active")
                return
            k = self.name("k")
            if op == "tag":
                s.set_tag(k, self.n)
                if not m.ended:
                    m.attrs[k] = self.n
            elif op == "log":
                s.log_kv({"event": k, "v": self.n})
                if not m.ended:
                    m.events.append(k)
            elif op == "name":
                s.set_operation_name(k)
                if not m.ended:
                    m.name = k
            elif op == "bag":
                s.set_baggage_item(k, str(self.n))
                m.bag[k] = str(self.n)
            elif op == "finish":
                s.finish()
                self.end(m)
        self.look()

    def look(self):
        c = self.cur()
        sp, sc = self.shim.active_span, self.shim.scope_manager.active
        if c is None:
            self.ctx.check(sp is None and sc is None, "active", lambda: f"{self.log}: {sp} is active, expected nothing")
            self.ctx.check(not trace.get_current_span().get_span_context().is_valid, "current", lambda: f"{self.log}: a span is current")
            return
        if not self.ctx.check(sp is not None, "active", lambda: f"{self.log}: nothing active, expected {c.name}"):
            return
        self.ctx.check(sp.unwrap() is c.real and sp.context.unwrap() == self.sc(c), "active", lambda: f"{self.log}: {getattr(sp.unwrap(), 'name', sp.unwrap())} is active, expected {c.name}")
        self.ctx.check(trace.get_current_span() is c.real, "current", lambda: f"{self.log}: {trace.get_current_span()} is current, expected {c.name}")
        if self.stack[-1][0] == "shim":
            self.ctx.check(sc is self.stack[-1][2], "scope", lambda: f"{self.log}: the active scope is not the one activated last")
        # native spans do not have a place for items set through the shim
        if c.shim is not None:
            for k, v in c.bag.items():
                self.ctx.check(sp.get_baggage_item(k) == v, "baggage", lambda: f"{self.log}: baggage item {k} of {c.name} is {sp.get_baggage_item(k)!r}, expected {v!r}")
            have = dict(baggage.get_all(sp.context.baggage))
            self.ctx.check(have == c.bag, "baggage", lambda: f"{self.log}: baggage of {c.name} is {have}, expected {c.bag}")

    def finish(self):
        while self.stack:
            self.step("close")
        for m in self.spans:
            if not m.ended:
                m.shim.finish()
                self.end(m)
        want = [m for m in self.order if m.real.get_span_context().trace_flags.sampled]
        got = self.rec.got
        self.ctx.check([s.context for s in got] == [self.sc(m) for m in want], "exported", lambda: f"{self.log}: exported {[s.name for s in got]}, expected {[m.name for m in want]}")
        for s, m in zip(got, want):
            v = (s.name, s.parent, [l.context for l in s.links], dict(s.attributes), [e.name for e in s.events], s.status.status_code.name)
            w = (m.name, m.parent, m.links, m.attrs, m.events, m.status)
            self.ctx.check(v == w, "span", lambda: f"{self.log}: span {v}, expected {w}")
            if m.parent is None:
                self.ctx.check(all(s.context.trace_id != o.context.trace_id for o in got if o is not s and o.parent is None), "trace", lambda: f"{self.log}: two roots in one trace")
            else:
                self.ctx.check(s.context.trace_id == m.parent.trace_id, "trace", lambda: f"{self.log}: {s.name} is in another trace than its parent")
        self.ctx.state(tuple((m.name, m.parent is not None, len(m.links), m.status) for m in want))


def c_run(ctx, w, drop):
    wd = World(ctx, NameSampler() if drop else ALWAYS_ON)
    if drop:
        wd.name = lambda pre, n=[0]: (n.__setitem__(0, n[0] + 1), setattr(wd, "n", n[0]), f"{'u' if n[0] % 2 == 0 else pre}{n[0]}")[2]
    for o in w:
        wd.step(OPS[o])
        ctx.step()
    wd.finish()


def c_more(ctx):
    for w in itertools.product(["A:noref", "S:noref", "A:invalid", "S:invalid", "A:plain", "native", "close"], repeat=3):
        wd = World(ctx)
        for o in w:
            wd.step(o)
            ctx.step()
        wd.finish()


def surround(wd, active):
    if active in ("shim", "both"):
        wd.step("A:plain")
    if active in ("native", "both"):
        wd.step("native")


def c_foreign(ctx, how, outer, end, exc, reads):
    """Scopes of spans that were made without the shim."""
    wd = World(ctx)
    surround(wd, outer)
    what = f"{how} within {outer}, finishing: {end}, {exc} raised, active read {reads} times"
    before, was = trace.get_current_span(), octx.get_current()
    span = wd.otel.start_span("f")
    bag = octx.attach(octx.set_value("app", "value"))
    e = {"value": ValueError("boom"), "base": KeyboardInterrupt("stop"), None: None}[exc]
    cm = trace.use_span(span, end_on_exit=end)
    if how == "active":
        cm.__enter__()
        sc = wd.shim.scope_manager.active
    else:
        sc = ScopeShim.from_context_manager(wd.shim.scope_manager, cm)
    for _ in range(reads):
        again = wd.shim.scope_manager.active
        ctx.check(again.span.unwrap() is span and wd.shim.active_span.unwrap() is span, "active", lambda: f"{what}: the active scope is not the span's")
    ctx.check(sc.span.unwrap() is span and sc.span.context.unwrap() == span.get_span_context(), "wraps", lambda: f"{what}: the scope is of another span")
    ctx.check(trace.get_current_span() is span and octx.get_value("app") == "value", "active", lambda: f"{what}: the span is not the current one within its scope")
    inner = wd.shim.start_span("inner")
    ctx.check(inner.unwrap().parent == span.get_span_context(), "parent", lambda: f"{what}: a span started within has parent {inner.unwrap().parent}")
    inner.finish()
    caught = None
    try:
        with sc:
            if e:
                raise e
    except BaseException as x:  # noqa
        caught = x
    ctx.check(caught is e, "propagate", lambda: f"{what}: {caught!r} came out")
    if how == "active":  # as documented: closing such a scope always ends the span
        ctx.check(trace.get_current_span() is span, "restore", lambda: f"{what}: closing the scope that was read deactivated the span")
        cm.__exit__(None, None, None)
    finished = [s.name for s in wd.rec.got].count("f")
    ctx.check(finished == int(end or how == "active"), "finished", lambda: f"{what}: finished {finished} times")
    ctx.check(trace.get_current_span() is before and octx.get_value("app") == "value", "restore", lambda: f"{what}: the span active before is not restored")
    octx.detach(bag)
    ctx.check(octx.get_current() == was, "restore", lambda: f"{what}: context {octx.get_current()} instead of {was}")
    sc.span.finish()
    ctx.check([s.name for s in wd.rec.got].count("f") == 1, "once", lambda: f"{what}: exported {[s.name for s in wd.rec.got]}")
    ctx.step(3)
    ctx.state(how, outer, end, exc)


def judge(wd, ctx, what, m):
    s = m.real
    ctx.check(s.parent == m.parent, "parent", lambda: f"{what}: parent {s.parent}, expected {m.parent}")
    ctx.check([l.context for l in s.links] == m.links, "links", lambda: f"{what}: links {[l.context for l in s.links]}, expected {m.links}")
    if m.parent is not None:
        ctx.check(s.context.trace_id == m.parent.trace_id, "trace", lambda: f"{what}: not in the trace of its parent")
        ctx.check(s.context.trace_state == m.parent.trace_state, "state", lambda: f"{what}: trace state {s.context.trace_state}")
    wd.look()


def c_refs(ctx, how, rs, ignore, active):
    wd = World(ctx)
    a, b = wd.start("plain", False), wd.start("plain", False)
    for m in (a, b):
        m.shim.set_baggage_item("of-" + m.name, m.name)
        m.bag["of-" + m.name] = m.name
    surround(wd, active)
    refs, links, bag = [], [], {}
    for r in rs:
        f = opentracing.child_of if r.startswith("child") else opentracing.follows_from
        if r == "none":
            refs.append(f(None))
        elif r == "invalid":
            refs.append(f(SpanContextShim(trace.INVALID_SPAN_CONTEXT)))
        elif r == "remote":
            refs.append(f(SpanContextShim(REMOTE)))
            links.append(REMOTE)
        else:
            m = a if r.endswith("A") else b
            refs.append(f(m.shim.context))
            links.append(wd.sc(m))
            bag.update(m.bag)
    parent = links[0] if links else wd.sc(wd.cur()) if wd.cur() and not ignore else None
    kw = dict(references=refs or None, ignore_active_span=ignore)
    if how == "active":
        scope = wd.shim.start_active_span("x", **kw)
        s = scope.span
    else:
        s = wd.shim.start_span("x", **kw)
    m = M("x", parent, links, s, s.unwrap())
    m.bag = bag
    have = dict(baggage.get_all(s.context.baggage))
    ctx.check(have == bag, "baggage", lambda: f"span with references {rs} carries the baggage {have}, expected {bag}")
    if how == "active":
        wd.stack.append(("shim", m, scope, True))
    judge(wd, ctx, f"{how} span with references {rs}, ignoring the active span: {ignore}, active: {active}", m)
    ctx.step(3)


def c_childof(ctx, how, c, ignore, active):
    wd = World(ctx)
    a = wd.start("plain", False)
    surround(wd, active)
    given = {"span": a.shim, "ctx": a.shim.context, "remote": SpanContextShim(REMOTE), "invalid": SpanContextShim(trace.INVALID_SPAN_CONTEXT)}[c]
    parent = {"span": wd.sc(a), "ctx": wd.sc(a), "remote": REMOTE, "invalid": None}[c]
    if how == "active":
        scope = wd.shim.start_active_span("x", child_of=given, ignore_active_span=ignore)
        s = scope.span
    else:
        s = wd.shim.start_span("x", child_of=given, ignore_active_span=ignore)
    m = M("x", parent, [], s, s.unwrap())
    if how == "active":
        wd.stack.append(("shim", m, scope, True))
    judge(wd, ctx, f"{how} span, child of {c}, ignoring the active span: {ignore}, active: {active}", m)
    ctx.step(2)


# ------------------------------------------------------------------ carriers
PROPS = [[TraceContextTextMapPropagator(), W3CBaggagePropagator()], [W3CBaggagePropagator(), TraceContextTextMapPropagator()], [TraceContextTextMapPropagator()], [B3MultiFormat(), W3CBaggagePropagator()]]
BAGS = [{}, {"a": "1"}, {"a": "1", "b": "x y"}, {"k": "\u00e9"}]


def current(wd, cur):
    if cur == "bag":
        octx.attach(baggage.set_baggage("ambient", "z"))
    else:
        surround(wd, cur)


class Propagators:
    def __init__(self, p):
        self.p = p

    def __enter__(self):
        self.saved = propagate.get_global_textmap()
        propagate.set_global_textmap(CompositePropagator(PROPS[self.p]))

    def __exit__(self, *a):
        propagate.set_global_textmap(self.saved)


def c_carry(ctx, p, fmt, src, bag, cur, header):
    wd = World(ctx, NameSampler())
    m = wd.start("plain", False, name="u" if src == "unsampled" else None)
    if src == "remote":
        given = SpanContextShim(REMOTE)
    elif src == "none":
        given = None
    else:
        given = m.shim if src == "span" else m.shim.context
    if src in ("span", "ctx", "unsampled"):
        for k, v in BAGS[bag].items():
            m.shim.set_baggage_item(k, v)
        want_bag = BAGS[bag]
    else:
        want_bag = {}
    current(wd, cur)
    fmt = Format.TEXT_MAP if fmt == "text" else Format.HTTP_HEADERS
    carrier = {"other": "kept"} if header else {}
    with Propagators(p):
        wd.shim.inject(given, fmt, carrier)
        wd2 = carrier if fmt == Format.TEXT_MAP else dict(carrier)
        got = wd.shim.extract(fmt, wd2)
    what = f"propagators {p}, {src} with baggage {want_bag}, active: {cur}"
    ctx.step(2)
    ctx.check(not header or carrier.get("other") == "kept", "carrier", lambda: f"{what}: the carrier lost an entry")
    g = got.unwrap()
    if src == "none":
        ctx.check(not g.is_valid, "nothing", lambda: f"{what}: extracted {g}")
        return
    w = REMOTE if src == "remote" else wd.sc(m)
    ctx.check((g.trace_id, g.span_id, bool(g.trace_flags.sampled), g.is_remote) == (w.trace_id, w.span_id, bool(w.trace_flags.sampled), True), "context", lambda: f"{what}: {w} became {g}")
    if p < 3:
        ctx.check(g.trace_state == w.trace_state, "state", lambda: f"{what}: trace state {w.trace_state} became {g.trace_state}")
    items = dict(baggage.get_all(got.baggage))
    items.pop("ambient", None)
    want_items = {} if p == 2 else want_bag
    ctx.check(items == want_items, "baggage", lambda: f"{what}: baggage became {items}")
    # a span continuing the trace here
    c = wd.shim.start_span("child", child_of=got)
    ctx.check(c.unwrap().parent == g, "continue", lambda: f"{what}: the child's parent is {c.unwrap().parent}")
    for k, v in want_items.items():
        ctx.check(c.get_baggage_item(k) == v, "continue-baggage", lambda: f"{what}: the child's baggage item {k} is {c.get_baggage_item(k)!r}")
    wd.look()


def c_empty(ctx, p, cur, car):
    wd = World(ctx)
    current(wd, cur)
    with Propagators(p):
        before = dict(car)
        got = wd.shim.extract(Format.TEXT_MAP, car)
    ctx.check(got is None or not got.unwrap().is_valid, "nothing", lambda: f"propagators {p}, active: {cur}: extracted {got.unwrap()} from {car}")
    items = dict(baggage.get_all(got.baggage)) if got is not None else {}
    want = {"a": "1"} if "baggage" in car and p != 2 else {}
    ctx.check(items == want, "nothing-baggage", lambda: f"propagators {p}, active: {cur}: extracted baggage {items} from {car}")
    ctx.check(car == before, "carrier", lambda: "extraction changed the carrier")
    wd.look()
    ctx.step()


def c_format(ctx, fmt):
    wd = World(ctx)
    m = wd.start("plain", False)
    for f in (lambda: wd.shim.inject(m.shim.context, fmt, bytearray()), lambda: wd.shim.extract(fmt, bytearray()), lambda: wd.shim.inject(m.shim.context, fmt, {}), lambda: wd.shim.extract(fmt, {})):
        try:
            f()
            ok = False
        except UnsupportedFormatException:
            ok = True
        ctx.check(ok, "format", lambda: f"format {fmt!r} accepted")
        ctx.step()


# ------------------------------------------------------------------ details
def c_times(ctx, st, fin, lg):
    wd = World(ctx)
    for how in ("start", "active"):
        if how == "start":
            s = wd.shim.start_span("x", start_time=st)
        else:
            scope = wd.shim.start_active_span("x", start_time=st, finish_on_close=False)
            s = scope.span
        s.log_kv({"event": "e"}, timestamp=lg)
        s.finish(fin)
        if how == "active":
            scope.close()
        g = wd.rec.got.pop()
        ctx.check(not wd.rec.got, "once", "finished twice")
        for v, w, n in ((g.start_time, st, "start"), (g.end_time, fin, "finish"), (g.events[0].timestamp, lg, "log")):
            if w is None:
                ctx.check(sched.T0 <= v <= sched.CLOCK.now, "now", lambda: f"{n} time {v} is not the present")
            else:
                ctx.check(isinstance(v, int) and abs(v - w * 1e9) < 1000, "time", lambda: f"{how}: {n} time {w} s became {v} ns")
        ctx.step(3)


def c_value(ctx, when, v):
    if v == "OBJ":
        v = object()
    wd = World(ctx)
    kw = {"k": v, "good": 1}
    s = wd.shim.start_span("x", tags=kw if when == "start" else None)
    if when == "tag":
        s.set_tag("k", v)
        s.set_tag("good", 1)
    elif when == "log":
        s.log_kv(kw)
    s.finish()
    g = wd.rec.got[0]
    got = dict(g.events[0].attributes if when == "log" else g.attributes)
    ok = isinstance(v, (bool, int, float, str, list))
    ctx.check(got == ({"k": tuple(v) if isinstance(v, list) else v, "good": 1} if ok else {"good": 1}), "value", lambda: f"{when} {v!r}: {got}")
    ctx.step()


def c_logs(ctx, a, b):
    wd = World(ctx)
    s = wd.shim.start_span("x")
    ctx.check(s.log_kv(a) is s, "fluent", "log_kv does not return the span")
    s.log_kv(b)
    s.finish()
    want = [((kv or {}).get("event", "log"), dict(kv or {})) for kv in (a, b)]
    got = [(e.name, dict(e.attributes)) for e in wd.rec.got[0].events]
    ctx.check(got == want, "logs", lambda: f"logging {a} and {b}: {got}")
    ctx.step(2)


def c_errors(ctx, end, exc, where):
    wd = World(ctx)
    outer = wd.start("plain", True)
    e = {"none": None, "value": ValueError("boom"), "base": KeyboardInterrupt("stop"), "exit": GeneratorExit()}[exc]
    caught = None
    try:
        if where == "scope":
            with wd.shim.start_active_span("x", finish_on_close=end) as sc:
                s = sc.span
                if e:
                    raise e
        elif where == "activated":
            s = wd.shim.start_span("x")
            with wd.shim.scope_manager.activate(s, end):
                if e:
                    raise e
        elif where == "closed":
            sc = wd.shim.start_active_span("x", finish_on_close=end)
            s = sc.span
            try:
                if e:
                    raise e
            finally:
                sc.close()
        else:
            s = wd.shim.start_span("x")
            with s:
                if e:
                    raise e
    except BaseException as x:  # noqa
        caught = x
    what = f"{exc} raised within {where}, finishing: {end}"
    ctx.check(caught is e, "propagate", lambda: f"{what}: {caught!r} came out")
    wd.look()
    finished = end or where == "span"
    ctx.check(len(wd.rec.got) == int(finished), "finished", lambda: f"{what}: finished {len(wd.rec.got)} times")
    s.finish()
    ctx.check(len(wd.rec.got) == 1, "once", lambda: f"{what}: exported {len(wd.rec.got)} times")
    g = wd.rec.got[0]
    if where in ("scope", "activated"):
        ev = [x.name for x in g.events]
        ctx.check(ev == (["exception"] if exc == "value" else []), "exception", lambda: f"{what}: events {ev}")
        ctx.check(g.status.status_code.name == ("ERROR" if exc == "value" else "UNSET"), "status", lambda: f"{what}: status {g.status.status_code}")
        if exc == "value":
            ctx.check(g.events[0].attributes["exception.message"] == "boom" and "boom" in (g.status.description or ""), "exception", lambda: f"{what}: {g.events[0].attributes} {g.status.description}")
    elif where == "span" and e is not None:
        ctx.check(g.attributes.get("error") is True and [x.name for x in g.events] == ["error"], "error", lambda: f"{what}: {g.attributes} {[x.name for x in g.events]}")
    ctx.check(outer.real.status.status_code.name == "UNSET" and not outer.real.events, "outer", lambda: f"{what}: recorded on the surrounding span")
    ctx.step(3)


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    sched.CLOCK.now = sched.T0
    # a context of its own: what a case leaves open does not reach the next one
    contextvars.Context().run(CASE[case[0]], ctx, *case[1:])
