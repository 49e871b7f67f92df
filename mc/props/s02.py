"""S02: the OpenCensus shim and exporter: every short program over spans, and a lattice of spans and batches."""
import contextvars
import datetime
import itertools
import logging
import os
import time
import types

import grpc
from opencensus.trace import execution_context, time_event, tracestate
from opencensus.trace.span_context import SpanContext as OcContext
from opencensus.trace.samplers import AlwaysOffSampler
from opencensus.trace.status import Status as OcStatus
from opencensus.trace.trace_options import TraceOptions
from opencensus.trace.tracer import Tracer as OcTracer
from opencensus.proto.agent.trace.v1 import trace_service_pb2
from opencensus.proto.trace.v1 import trace_pb2

from mc import sched
from opentelemetry import baggage, context as octx, trace
from opentelemetry.exporter.opencensus.trace_exporter import OpenCensusSpanExporter, translate_to_collector
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import Event, ReadableSpan, SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import SpanExportResult
from opentelemetry.shim.opencensus import install_shim, uninstall_shim
from opentelemetry.trace import Link, SpanKind, Status, StatusCode

logging.disable(logging.CRITICAL)

TID, SID = "%032x" % 0xABC, "%016x" % 0xDEF
# what the OpenCensus tracers are given: (sampled, from a header, trace state)
REMOTES = {"r": (True, True, [("a", "1"), ("b", "2")]), "u": (False, True, None), "l": (True, False, None)}
# opening: A/B without a given context, R/U/L with one, M native, W child made through the span
OPEN = ["A", "B", "R", "U", "L", "native", "span", "with"]
REST = ["end", "exit", "raise", "attr", "cur", "note", "msg", "ok", "err", "finish"]
OPS = OPEN + REST


def CASES(tier):
    n = 4 if tier == "quick" else 5
    for r in range(1, n + 1):
        for w in itertools.product(range(len(OPS)), repeat=r):
            if w[0] < len(OPEN):  # nothing else does anything without a span
                yield ("run", w)
    small = [OPS.index(x) for x in ("A", "R", "native", "end", "exit", "attr")]
    for w in itertools.product(small, repeat=6 if tier == "quick" else 7):
        yield ("run", w)
    stamps = [0, 1, 999_999, 1_500_000, 1_672_531_200_000_000, 1_711_846_800_000_000, 1_711_848_600_000_001, 1_729_990_800_123_456, 1_729_994_400_000_000, 4_102_444_800_999_999]
    for tz, us in itertools.product(("UTC", "Asia/Kolkata", "America/New_York", "EST5EDT4,M3.2.0,M11.1.0", "XXX-5:30"), stamps):
        yield ("stamp", tz, us)
    for t, unc, com, ident in itertools.product((None, 0, 1, 2), (None, 0, 7, "20"), (None, 0, 5, "10"), (0, 12, "x")):
        yield ("message", t, unc, com, ident)
    for v, how in itertools.product([1, 0, -1, 1.5, True, False, "s", "", "\u00e9"], ("attr", "cur", "note")):
        yield ("value", how, v)
    for code in range(17):
        for msg in (None, "", "m"):
            yield ("status", code, msg)
    for s, h, ts, tst in itertools.product(("0", "1", "2", "3", "254", "255"), (True, False), range(4), (0, 1)):
        yield ("given", s, h, ts, tst)
    for w in itertools.product(("install1", "install2", "uninstall", "new", "use"), repeat=5):
        yield ("install", w)
    for n in (1, 2, 127, 128, 129, 300):
        yield ("many", n)
    for w in itertools.product(range(3), repeat=4):
        yield ("threads", w)
    # the exporter
    times = [0, 1, 999_999_999, 1_000_000_000, 1_700_000_000_123_456_789]
    ids = [1, (1 << 64) - 1, 0x0102030405060708]
    for st, en in itertools.product(times + [None], repeat=2):
        yield ("x", dict(start=st, end=en))
    for t, s, p in itertools.product([1, (1 << 128) - 1, 0x0102030405060708090A0B0C0D0E0F10], ids, [None] + ids):
        yield ("x", dict(tid=t, sid=s, parent=p))
    for k, code, d, par in itertools.product(range(5), range(3), (None, "", "why"), (None, 5)):
        yield ("x", dict(kind=k, code=code, desc=d, parent=par))
    for a in itertools.product(range(10), repeat=2):
        yield ("x", dict(attrs=a))
    for st in range(4):
        for par in (None, 5):
            yield ("x", dict(state=st, parent=par))
    for ev in itertools.chain.from_iterable(itertools.product(range(5), repeat=r) for r in range(4)):
        yield ("x", dict(events=ev))
    for ln in itertools.chain.from_iterable(itertools.product(range(6), repeat=r) for r in range(4)):
        for par in (None, 5):
            yield ("x", dict(links=ln, parent=par))
    for name in ("n", "", "\u00e9\U0001f600", "x" * 300):
        yield ("x", dict(name=name))
    for size in range(4):
        for outcome in ("ok", "empty", "call", "first", "late", "unread"):
            for svc in itertools.product((None, "a", "b"), repeat=min(size, 2)):
                for before in (False, True):
                    for host in (None, "h"):
                        yield ("send", size, outcome, svc, before, host)


class Rec(SpanProcessor):
    def __init__(self):
        self.got = []

    def on_end(self, span):
        self.got.append(span)


class M:
    def __init__(self, name, parent, real, shim):
        self.name, self.parent, self.real, self.shim = name, parent, real, shim
        self.attrs, self.events, self.status, self.ended = {}, [], ("UNSET", None), False


def given(sampled, header, state):
    return OcContext(trace_id=TID, span_id=SID, trace_options=TraceOptions("1" if sampled else "0"), from_header=header, tracestate=tracestate.Tracestate(state) if state else None)


class World:
    def __init__(self, ctx):
        octx.attach(octx.Context())
        execution_context.clear()
        uninstall_shim()
        self.ctx = ctx
        self.rec = Rec()
        self.tp = TracerProvider(shutdown_on_exit=False, resource=Resource({}))
        self.tp.add_span_processor(self.rec)
        install_shim(self.tp)
        self.otel = self.tp.get_tracer("native")
        self.oc = {}
        self.spans, self.stack, self.order = [], [], []
        self.log, self.n = [], 0

    def tracer(self, which):
        if which not in self.oc:
            r = REMOTES.get(which.lower())
            # OpenCensus samplers may mark the given context as sampled: not this one
            self.oc[which] = OcTracer(span_context=given(*r) if r else None, sampler=AlwaysOffSampler())
        return self.oc[which]

    def sc(self, m):
        return m.real.get_span_context()

    def cur(self):
        return self.stack[-1][1] if self.stack else None

    def curoc(self):
        """The innermost span made through the shim."""
        l = [m for how, m, h in self.stack if how != "native"]
        return l[-1] if l else None

    def end(self, m):
        if not m.ended:
            m.ended = True
            self.order.append(m)

    def new(self, parent, real, shim, name, how, h):
        m = M(name, parent, real, shim)
        self.spans.append(m)
        self.stack.append((how, m, h))

    def step(self, op):
        self.log.append(op)
        self.n += 1
        name = f"s{self.n}"
        cur = self.cur()
        parent = self.sc(cur) if cur else None
        if op in ("A", "B", "R", "U", "L", "span", "with"):
            which = op if len(op) == 1 else "A"
            if cur is None and which in "RUL":
                r = REMOTES[which.lower()]
                parent = trace.SpanContext(int(TID, 16), int(SID, 16), r[1], trace.TraceFlags(int(r[0])), trace.TraceState(r[2] or []))
            t = self.tracer(which)
            if op == "span" and cur is not None and cur is self.curoc():
                s = cur.shim.span(name)
            elif op == "with":
                s = t.span(name)
                self.ctx.check(s.__enter__() is s, "enter", lambda: f"{self.log}: entering a span gives another one")
            else:
                s = t.start_span(name)
            real = trace.get_current_span()
            self.new(parent, real, s, name, "shim", t)
        elif op == "native":
            cm = self.otel.start_as_current_span(name)
            self.new(parent, cm.__enter__(), None, name, "native", cm)
        elif op in ("end", "exit", "raise"):
            if cur is None:
                return
            how, m, h = self.stack.pop()
            exc = ValueError("boom") if op == "raise" else None
            if exc and not m.ended:
                m.events.append(("exception", None))
                if m.status[0] != "OK":
                    m.status = ("ERROR", "ValueError: boom")
            if how == "native":
                try:
                    h.__exit__(type(exc) if exc else None, exc, None)
                except ValueError:
                    pass
            elif op == "end":
                h.end_span()
            else:
                self.ctx.check(not m.shim.__exit__(type(exc) if exc else None, exc, None), "swallowed", lambda: f"{self.log}: the exception was swallowed")
            self.end(m)
        else:
            m = self.curoc()
            if m is None:
                return
            s = m.shim
            if op == "attr":
                s.add_attribute(name, self.n)
            elif op == "cur":
                self.tracer("B").add_attribute_to_current_span(name, self.n)
            elif op == "note":
                s.add_annotation(name, k=self.n)
            elif op == "msg":
                s.add_message_event(time_event.MessageEvent(datetime.datetime(2023, 1, 1), name, time_event.Type.SENT, 2, 1))
            elif op in ("ok", "err"):
                s.set_status(OcStatus(0 if op == "ok" else 13, "d"))
            elif op == "finish":
                s.finish()
            if not m.ended:
                if op in ("attr", "cur"):
                    m.attrs[name] = self.n
                elif op == "note":
                    m.events.append((name, {"k": self.n}))
                elif op == "msg":
                    m.events.append((name, {"message.event.type": "SENT", "message.event.size.uncompressed": 2, "message.event.size.compressed": 1}))
                elif op == "ok":
                    m.status = ("OK", None)
                elif op == "err" and m.status[0] != "OK":
                    m.status = ("ERROR", "d")
                elif op == "finish":
                    self.end(m)
        self.look()

    def look(self):
        c, o = self.cur(), self.curoc()
        real = trace.get_current_span()
        self.ctx.check(real is c.real if c else not real.get_span_context().is_valid, "current", lambda: f"{self.log}: {getattr(real, 'name', real)} is current, expected {c and c.name}")
        for t in [self.tracer("A")] + list(self.oc.values()):
            s = t.current_span()
            self.ctx.check(s is (o.shim if o else None), "oc-current", lambda: f"{self.log}: the tracer's current span is {s}, expected {o and o.name}")
        # kept by the shim's own operations only
        s = execution_context.get_current_span()
        self.ctx.check(s is (o.shim if o else None), "oc-context", lambda: f"{self.log}: OpenCensus has {s} as its current span, expected {o and o.name}")
        if o:
            self.ctx.check(o.shim.span_id == self.sc(o).span_id and o.shim.name == o.name, "oc-span", lambda: f"{self.log}: the shim span shows {o.shim.span_id} {o.shim.name}")

    def finish(self):
        while self.stack:
            self.step("exit")
        want = [m for m in self.order if self.sc(m).trace_flags.sampled]
        got = self.rec.got
        self.ctx.check([s.context for s in got] == [self.sc(m) for m in want], "exported", lambda: f"{self.log}: exported {[s.name for s in got]}, expected {[m.name for m in want]}")
        for m in self.spans:
            c = self.sc(m)
            if m.parent is None:
                self.ctx.check(c.trace_flags.sampled and all(self.sc(x).trace_id != c.trace_id for x in self.spans if x is not m and x.parent is None), "root", lambda: f"{self.log}: {m.name} is no root of its own")
            else:
                self.ctx.check(c.trace_id == m.parent.trace_id and c.trace_state == m.parent.trace_state and c.trace_flags == m.parent.trace_flags, "trace", lambda: f"{self.log}: {m.name} is {c}, child of {m.parent}")
        for s, m in zip(got, want):
            v = (s.name, s.parent, s.kind, dict(s.attributes), [(e.name, dict(e.attributes) if e.name != "exception" else None) for e in s.events], (s.status.status_code.name, s.status.description))
            w = (m.name, m.parent, SpanKind.INTERNAL, m.attrs, m.events, m.status)
            self.ctx.check(v == w, "span", lambda: f"{self.log}: span {v}, expected {w}")
            if m.parent is not None:
                self.ctx.check(s.parent.is_remote == m.parent.is_remote, "remote", lambda: f"{self.log}: parent remote: {s.parent.is_remote}")
        uninstall_shim()
        self.ctx.state(tuple((m.name, m.parent is not None, m.status) for m in want))


def c_run(ctx, w):
    wd = World(ctx)
    for o in w:
        wd.step(OPS[o])
        ctx.step()
    wd.finish()


def one(ctx, f, **kw):
    """The span exported after f ran on a shim span."""
    wd = World(ctx)
    t = OcTracer(**kw)
    with t.span("x") as s:
        f(s, t)
    uninstall_shim()
    ctx.step()
    if not ctx.check(len(wd.rec.got) == 1, "once", lambda: f"exported {len(wd.rec.got)} times"):
        return None
    return wd.rec.got[0]


def c_stamp(ctx, tz, us):
    old = os.environ.get("TZ")
    os.environ["TZ"] = tz
    time.tzset()
    try:
        when = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=us)
        g = one(ctx, lambda s, t: s.add_message_event(time_event.MessageEvent(when, 1)))
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()
    got = g.events[0].timestamp
    ctx.check(abs(got - us * 1000) < 1000, "stamp", lambda: f"in {tz}: a message at {when} UTC became {got} ns, expected {us * 1000}")


def c_message(ctx, t, unc, com, ident):
    e = time_event.MessageEvent(datetime.datetime(2023, 1, 1), ident, t, unc, com)
    g = one(ctx, lambda s, tr: s.add_message_event(e))
    want = {"message.event.type": {None: "TYPE_UNSPECIFIED", 0: "TYPE_UNSPECIFIED", 1: "SENT", 2: "RECEIVED"}[t]}
    if e.uncompressed_size_bytes is not None:
        want["message.event.size.uncompressed"] = e.uncompressed_size_bytes
    if e.compressed_size_bytes is not None:
        want["message.event.size.compressed"] = e.compressed_size_bytes
    got = [(x.name, dict(x.attributes)) for x in g.events]
    ctx.check(got == [(str(ident), want)], "message", lambda: f"message {ident} {t} {unc} {com}: {got}")


def c_value(ctx, how, v):
    if how == "attr":
        g = one(ctx, lambda s, t: s.add_attribute("k", v))
    elif how == "cur":
        g = one(ctx, lambda s, t: t.add_attribute_to_current_span("k", v))
    else:
        g = one(ctx, lambda s, t: s.add_annotation("d", k=v))
    got = g.events[0].attributes if how == "note" else g.attributes
    ctx.check(list(got.items()) == [("k", v)] and type(got["k"]) is type(v), "value", lambda: f"{how} {v!r} became {dict(got)}")
    if how == "note":
        ctx.check(g.events[0].name == "d", "value", lambda: f"annotation named {g.events[0].name}")


def c_status(ctx, code, msg):
    g = one(ctx, lambda s, t: s.set_status(OcStatus(code, msg)))
    got = (g.status.status_code, g.status.description if code else g.status.description or None)
    ctx.check(got == ((StatusCode.OK, None) if code == 0 else (StatusCode.ERROR, msg)), "status", lambda: f"status {code} {msg!r} became {got}")


def c_given(ctx, s, h, ts, tst):
    states = [None, [("a", "1")], [("a", "1"), ("b", "2"), ("c", "3")], []]
    given_state = tracestate.Tracestate(states[ts]) if states[ts] is not None else None
    if tst and ts == 0:
        given_state = {"not": "a trace state"}
    oc = OcContext(trace_id=TID, span_id=SID, trace_options=TraceOptions(s), from_header=h, tracestate=given_state)
    sampled = bool(int(s) & 1)
    wd = World(ctx)
    t = OcTracer(span_context=oc)
    with t.span("x"):
        c = trace.get_current_span().get_span_context()
    uninstall_shim()
    # OpenCensus tracers mark the context as sampled when their own sampler wants it
    sampled = oc.trace_options.get_enabled()
    ctx.check((c.trace_id, bool(c.trace_flags.sampled), list(c.trace_state.items())) == (int(TID, 16), sampled, states[ts] or []), "given", lambda: f"{oc}: {c}")
    ctx.check(len(wd.rec.got) == sampled, "given", lambda: f"{oc}: exported {len(wd.rec.got)}")
    if sampled:
        p = wd.rec.got[0].parent
        ctx.check(p is not None and (p.trace_id, p.span_id, p.is_remote) == (int(TID, 16), int(SID, 16), h), "given", lambda: f"{oc}: parent {p}")
    ctx.step()


def c_install(ctx, w):
    """Installing and uninstalling decide, at each use, where the spans of every tracer go."""
    octx.attach(octx.Context())
    execution_context.clear()
    uninstall_shim()
    recs = [Rec(), Rec()]
    tps = [TracerProvider(shutdown_on_exit=False, resource=Resource({})) for _ in recs]
    for tp, r in zip(tps, recs):
        tp.add_span_processor(r)
    where, tracers, want = None, [OcTracer()], [0, 0]
    for op in w:
        if op.startswith("install"):
            where = int(op[-1]) - 1
            install_shim(tps[where])
        elif op == "uninstall":
            where = None
            uninstall_shim()
        elif op == "new":
            try:
                tracers.append(OcTracer())
            finally:
                pass
        else:
            for t in tracers:
                if where is None and "tracer" not in t.__dict__:
                    continue  # made while the shim was installed
                with t.span("x"):
                    pass
                if where is not None:
                    want[where] += 1
        ctx.step()
        got = [len(r.got) for r in recs]
        ctx.check(got == want, "install", lambda: f"{w}: exported {got}, expected {want}")
    uninstall_shim()


def c_many(ctx, n):
    """As many tracers as there are requests, all alive at once."""
    wd = World(ctx)
    ts = []
    for i in range(n):
        ts.append(OcTracer(span_context=OcContext(trace_id="%032x" % (i + 1), span_id="%016x" % (i + 1), trace_options=TraceOptions("1"))))
        ts[-1].tracer  # noqa: B018
    for t in ts + ts[::-1]:
        with t.span("outer"):
            with t.span("inner"):
                pass
    uninstall_shim()
    want = [(i + 1, i + 1) for i in list(range(n)) + list(range(n))[::-1]]
    outer = [s for s in wd.rec.got if s.name == "outer"]
    got = [(s.context.trace_id, s.parent.span_id) for s in outer]
    ctx.check(got == want, "many", lambda: f"{n} tracers: wrong parents")
    inner = [s for s in wd.rec.got if s.name == "inner"]
    ctx.check([s.parent.span_id for s in inner] == [s.context.span_id for s in outer], "many", lambda: f"{n} tracers: wrong nesting")
    ctx.step(n)


def c_threads(ctx, w):
    """Contexts of execution do not see each other's spans."""
    wd = World(ctx)
    t = OcTracer()
    flows = [contextvars.copy_context() for _ in range(3)]
    open_, want = [[] for _ in flows], []
    for i in w:
        def f():
            s = t.start_span(f"f{i}")
            return s, trace.get_current_span()
        s, real = flows[i].run(f)
        open_[i].append((s, real))
        ctx.step()
        for j, fl in enumerate(flows):
            r = fl.run(trace.get_current_span)
            ctx.check(r is open_[j][-1][1] if open_[j] else not r.get_span_context().is_valid, "flows", lambda: f"{w}: flow {j} sees {r}")
    for j, fl in enumerate(flows):
        while open_[j]:
            s, real = open_[j].pop()
            fl.run(t.end_span)
            want.append((real.get_span_context(), open_[j][-1][1].get_span_context() if open_[j] else None))
    uninstall_shim()
    got = [(s.context, s.parent) for s in wd.rec.got]
    ctx.check(got == want, "flows", lambda: f"{w}: exported {got}, expected {want}")


# ------------------------------------------------------------------ exporter
ATTRS = [("b", True), ("c", False), ("i", 5), ("j", -(1 << 63)), ("f", 1.5), ("s", "v"), ("e", ""), ("q", ("a", "b")), ("n", (1, 2)), ("u", "\u00e9")]
STATES = [[], [("a", "1")], [("b", "2"), ("a", "1")], None]
EVENTS = [("e0", None, 0), ("e1", {}, 1), ("e2", {"k": 1, "l": "x"}, 1_700_000_000_123_456_789), ("", {"b": True, "t": (1,)}, 10**9 - 1), ("e4", {"f": 2.5}, 10**9)]
LINKS = [(1, 2, None), (7, 5, {}), (3, 5, {"k": 1}), (7, 6, {"b": True, "s": "x"}), ((1 << 128) - 1, (1 << 64) - 1, {"f": 1.5}), (7, 5, {"x": "y"})]
T7 = 7


def mk(d, resource=None):
    tid = d.get("tid", T7)
    st = STATES[d.get("state", 0)]
    sc = trace.SpanContext(tid, d.get("sid", 9), False, trace.TraceFlags(1), trace.TraceState(st) if st is not None else None)
    par = d.get("parent")
    return ReadableSpan(
        name=d.get("name", "n"), context=sc, parent=trace.SpanContext(tid, par, False) if par is not None else None,
        resource=resource or Resource({"service.name": "svc"}),
        attributes=dict(ATTRS[i] for i in d["attrs"]) if "attrs" in d else None,
        events=[Event(n, attributes=a, timestamp=t) for n, a, t in (EVENTS[i] for i in d.get("events", ()))],
        links=[Link(trace.SpanContext(t, s, True), a) for t, s, a in (LINKS[i] for i in d.get("links", ()))],
        kind=list(SpanKind)[d.get("kind", 0)], status=Status(list(StatusCode)[d.get("code", 0)], d.get("desc") if d.get("code") == 2 else None),
        start_time=d.get("start", 10), end_time=d.get("end", 20))


def attr_values(m):
    out = {}
    for k, v in m.attribute_map.items():
        w = v.WhichOneof("value")
        out[k] = (w, getattr(v, w).value if w == "string_value" else getattr(v, w))
    return out


def want_values(a):
    def one(v):
        if isinstance(v, bool):
            return "bool_value", v
        if isinstance(v, int):
            return "int_value", v
        if isinstance(v, float):
            return "double_value", v
        return "string_value", v if isinstance(v, str) else str(v)
    return {k: one(v) for k, v in (a or {}).items()}


def ns(t):
    return t.seconds * 10**9 + t.nanos


def compare(ctx, d, s):
    """The message s says what the span built from d says."""
    def chk(name, got, want):
        ctx.check(got == want, name, lambda: f"{d}: {name} {got!r}, expected {want!r}")
    tid, par = d.get("tid", T7), d.get("parent")
    chk("ids", (s.trace_id, s.span_id), (tid.to_bytes(16, "big"), d.get("sid", 9).to_bytes(8, "big")))
    chk("parent", int.from_bytes(s.parent_span_id, "big"), par or 0)
    chk("name", s.name.value, d.get("name", "n"))
    chk("kind", s.kind, {"SERVER": trace_pb2.Span.SERVER, "CLIENT": trace_pb2.Span.CLIENT}.get(list(SpanKind)[d.get("kind", 0)].name, 0))
    chk("start", ns(s.start_time), d.get("start", 10) or 0)
    chk("end", ns(s.end_time), d.get("end", 20) or 0)
    chk("status", (s.status.code, s.status.message), (d.get("code", 0), (d.get("desc") or "") if d.get("code") == 2 else ""))
    chk("state", [(e.key, e.value) for e in s.tracestate.entries], STATES[d.get("state", 0)] or [])
    chk("attributes", attr_values(s.attributes), want_values(dict(ATTRS[i] for i in d.get("attrs", ()))))
    chk("events", [(e.annotation.description.value, attr_values(e.annotation.attributes), ns(e.time)) for e in s.time_events.time_event], [(n, want_values(a), t) for n, a, t in (EVENTS[i] for i in d.get("events", ()))])
    chk("links", [(int.from_bytes(x.trace_id, "big"), int.from_bytes(x.span_id, "big"), x.type, attr_values(x.attributes)) for x in s.links.link],
        [(t, p, trace_pb2.Span.Link.PARENT_LINKED_SPAN if par is not None and (t, p) == (tid, par) else 0, want_values(a)) for t, p, a in (LINKS[i] for i in d.get("links", ()))])


def c_x(ctx, d):
    out = translate_to_collector([mk(d)])
    if ctx.check(len(out) == 1, "count", lambda: f"{d}: {len(out)} messages"):
        s = trace_pb2.Span.FromString(out[0].SerializeToString())
        compare(ctx, d, s)
        ctx.state(s.SerializeToString())
    ctx.step()


class Refused(grpc.RpcError):
    pass


def c_send(ctx, size, outcome, svc, before, host):
    seen, read = [], []

    class Client:
        def Export(self, requests):
            if outcome == "call" and armed:
                raise Refused()
            got = [trace_service_pb2.ExportTraceServiceRequest.FromString(r.SerializeToString()) for r in requests]
            seen.extend(got)

            def answers():
                if not armed:
                    return
                if outcome == "first":
                    raise Refused()
                for i in range(0 if outcome == "empty" else 2):
                    if outcome == "late" and i == 1:
                        raise Refused()
                    read.append(i)
                    yield trace_service_pb2.ExportTraceServiceResponse()
                if outcome == "unread":
                    raise Refused()
            return answers()

    e = OpenCensusSpanExporter(client=Client(), host_name=host)
    armed = False
    if before:
        ctx.check(e.export([mk({}, Resource({"service.name": "earlier"}))]) is SpanExportResult.SUCCESS, "before", lambda: "an export failed")
        seen.clear()
    armed = True
    ds = [dict(sid=i + 1, attrs=(i,)) for i in range(size)]
    # one provider's spans are all of one resource
    res = Resource({"service.name": svc[0]} if svc and svc[0] else {})
    r = e.export([mk(d, res) for d in ds])
    fails = outcome in ("call", "first", "late", "unread")
    ctx.check(r is (SpanExportResult.FAILURE if fails else SpanExportResult.SUCCESS), "result", lambda: f"{outcome}: {r}")
    if outcome != "call":
        got = [s for q in seen for s in q.spans]
        if ctx.check(len(got) == size, "all", lambda: f"{size} spans, {len(got)} sent"):
            for d, s in zip(ds, got):
                compare(ctx, d, s)
        if size:
            n = seen[0].node
            if svc and svc[0]:
                ctx.check(n.service_info.name == svc[0], "service", lambda: f"service {n.service_info.name}, expected {svc[0]}")
            ctx.check(n.identifier.host_name == (host or n.identifier.host_name) and n.identifier.pid == os.getpid(), "node", lambda: f"node {n}")
    # and the exporter goes on
    armed = False
    seen.clear()
    ctx.check(e.export([mk(dict(sid=77))]) is SpanExportResult.SUCCESS and [s.span_id[-1] for q in seen for s in q.spans] == [77], "after", lambda: f"after {outcome}: {len(seen)}")
    ctx.step(2)


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_") and isinstance(v, types.FunctionType)}


def run_case(case, ctx):
    sched.CLOCK.now = sched.T0
    contextvars.Context().run(CASE[case[0]], ctx, *case[1:])
