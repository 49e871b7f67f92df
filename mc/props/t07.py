"""T07: identity, parentage and sampling decisions of new spans."""
import contextvars
import itertools
import logging

from mc import loader
from opentelemetry import trace
from opentelemetry.context import Context, attach, set_value
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.id_generator import IdGenerator, RandomIdGenerator
from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult
from opentelemetry.trace import Link, NonRecordingSpan, SpanContext, SpanKind, TraceFlags, TraceState

logging.disable(logging.CRITICAL)
RES = Resource({"service.name": "svc"})
TS = TraceState([("p", "1")])
PARENTS = [None, "invalid", "half", (0, 0), (0, 1), (1, 0), (1, 1), "rec", "dropped"]
STYLES = ["explicit", "current", "both", "explicit-empty"]
ATTRS = [None, {}, {"k": "v", "n": 1}]
SATTRS = [None, {"s": 1}, {"k": "sampled"}]
STATES = [None, TraceState([("s", "2")])]


class Smp(Sampler):
    def __init__(self):
        self.calls, self.res = [], None

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        cur = trace.get_current_span(parent_context)
        self.calls.append((cur.get_span_context(), trace_id, name, kind, attributes, links, parent_context))
        d, a, t = self.res
        return SamplingResult(d, a, t)

    def get_description(self):
        return "x"


class Proc(SpanProcessor):
    def __init__(self):
        self.log = []

    def on_start(self, span, parent_context=None):
        self.log.append(("start", span, parent_context))

    def on_end(self, span):
        self.log.append(("end", span))


def mk(idg=None):
    s, p = Smp(), Proc()
    tp = TracerProvider(resource=RES, sampler=s, shutdown_on_exit=False, id_generator=idg)
    tp.add_span_processor(p)
    return tp.get_tracer("lib", "1", "url", {"a": 1}), s, p


def CASES(tier):
    for p, style, other in itertools.product(range(len(PARENTS)), STYLES, (3, 6) if tier == "quick" else range(len(PARENTS))):
        for d in range(3):
            for a, sa, st in itertools.product(range(3), range(3), range(2)):
                yield ("one", p, style, other, d, a, sa, st)
    for ds in itertools.product(range(3), repeat=3 if tier == "quick" else 5):
        for how in itertools.product((0, 1), repeat=len(ds)):
            yield ("chain", ds, how)
    for script in itertools.product([0, 1, 2**64 - 1, 2**64, 2**127, 2**128 - 1], repeat=4):
        yield ("rng", script)
    yield ("unique",)


def parent(p):
    if p is None:
        return None, None
    if p == "invalid":
        sp = NonRecordingSpan(SpanContext(0, 0, True, TraceFlags(1), TS))
    elif p == "half":
        sp = NonRecordingSpan(SpanContext(5, 0, True, TraceFlags(1), TS))
    elif isinstance(p, tuple):
        sp = NonRecordingSpan(SpanContext(0xABC, 0xDEF, bool(p[0]), TraceFlags(p[1]), TS))
    else:
        tr, s, _ = mk()
        s.res = (Decision.RECORD_AND_SAMPLE if p == "rec" else Decision.DROP, None, TS)
        sp = tr.start_span("parent", Context())
    sc = sp.get_span_context()
    return sp, (sc if sc.is_valid else None)


def run_case(case, ctx):
    contextvars.Context().run(_run, case, ctx)


def _run(case, ctx):
    ctx.step()
    kind = case[0]
    if kind == "one":
        _, p, style, other, d, a, sa, st = case
        tr, smp, proc = mk()
        dec = list(Decision)[d]
        sattrs = dict(SATTRS[sa]) if SATTRS[sa] else SATTRS[sa]
        smp.res = (dec, sattrs, STATES[st])
        psp, psc = parent(PARENTS[p])
        osp, osc = parent(PARENTS[other])
        base = set_value("marker", 1, Context())
        pc = trace.set_span_in_context(psp, base) if psp else base
        oc = trace.set_span_in_context(osp, base) if osp else base
        if style == "explicit":
            given, eff = pc, psc
        elif style == "current":
            attach(pc)
            given, eff = None, psc
        elif style == "both":
            attach(oc)
            given, eff = pc, psc
        else:
            attach(oc)
            given, eff = Context(), None
        attrs = dict(ATTRS[a]) if ATTRS[a] is not None else None
        links = [Link(SpanContext(1, 2, True), {"l": 1})]
        span = tr.start_span("name", given, SpanKind.CLIENT, attrs, links, start_time=123)
        sc = span.get_span_context()
        ctx.check(len(smp.calls) == 1, "sampler-once", f"sampler asked {len(smp.calls)} times")
        c = smp.calls[0]
        ctx.check((c[0] if c[0].is_valid else None) == eff, "sampler-context", lambda: f"{case}: sampler saw parent {c[0]}, expected {eff}")
        ctx.check(c[1:4] == (sc.trace_id, "name", SpanKind.CLIENT) and (c[4] or {}) == (ATTRS[a] or {}) and list(c[5]) == links, "sampler-args", lambda: f"{c}")
        if eff is not None:
            ctx.check(sc.trace_id == eff.trace_id, "trace-id", lambda: f"{case}: trace id {sc.trace_id:x} not the parent's {eff.trace_id:x}")
        else:
            ctx.check(sc.trace_id not in (5, 0xABC, 0) and (osc is None or sc.trace_id != osc.trace_id), "trace-id", "new root reuses a trace id")
        ctx.check(sc.is_valid and not sc.is_remote and sc.span_id not in (eff.span_id if eff else 0, 0xDEF), "span-id", lambda: f"{sc}")
        ctx.check(sc.trace_flags.sampled == (dec is Decision.RECORD_AND_SAMPLE), "sampled-flag", lambda: f"{case}: {sc.trace_flags} for {dec}")
        ctx.check((sc.trace_state or TraceState()) == (STATES[st] or TraceState()), "trace-state", lambda: f"{case}: {sc.trace_state}")
        ctx.check(span.is_recording() == (dec is not Decision.DROP), "recording", lambda: f"{case}: recording {span.is_recording()}")
        if attrs is not None:
            attrs["later"] = 1
        if sattrs is not None:
            sattrs["later"] = 1
        if dec is Decision.DROP:
            ctx.check(proc.log == [], "processors", "processors saw a dropped span")
            span.end()
            ctx.check(proc.log == [], "processors", "processors saw a dropped span end")
        else:
            ctx.check(len(proc.log) == 1 and proc.log[0][1] is span and proc.log[0][2] is given, "processors", lambda: f"{proc.log}")
            span.end(456)
            ro = proc.log[1][1]
            ctx.check(len(proc.log) == 2 and ro.context == sc, "processors", "end not delivered")
            ctx.check(ro.parent == eff, "parent", lambda: f"{case}: parent {ro.parent}, expected {eff}")
            ctx.check(dict(ro.attributes) == (SATTRS[sa] or {}), "attributes", lambda: f"{case}: starts with {dict(ro.attributes)}, sampler chose {SATTRS[sa]}")
            ctx.check((ro.name, ro.kind, ro.start_time, ro.end_time) == ("name", SpanKind.CLIENT, 123, 456), "fields", lambda: f"{ro.to_json()}")
            ctx.check([k.context for k in ro.links] == [links[0].context] and dict(ro.links[0].attributes) == {"l": 1}, "links", "links")
            ctx.check(ro.resource is RES or ro.resource == RES, "resource", "resource")
            i = ro.instrumentation_scope
            ctx.check((i.name, i.version, i.schema_url, dict(i.attributes)) == ("lib", "1", "url", {"a": 1}), "scope", lambda: f"{i}")
        ctx.state(case)
    elif kind == "chain":
        tr, smp, proc = mk()
        prev, ids, want_start = None, set(), 0
        cur = Context()
        for i, (d, how) in enumerate(zip(case[1], case[2])):
            smp.res = (list(Decision)[d], None, None)
            if how:
                attach(cur)
                s = tr.start_span(f"n{i}")
            else:
                s = tr.start_span(f"n{i}", cur)
            sc = s.get_span_context()
            if prev:
                ctx.check(sc.trace_id == prev.trace_id, "trace-id", lambda: f"{case}: chain leaves its trace")
                if s.is_recording():
                    ctx.check(s.parent == prev, "parent", lambda: f"{case}: parent {s.parent} expected {prev}")
            ctx.check(sc.span_id not in ids, "span-id", "span id reused")
            ids.add(sc.span_id)
            prev = sc
            cur = trace.set_span_in_context(s, cur)
            want_start += d != 0
            ctx.step()
        ctx.check(len(proc.log) == want_start, "processors", "starts delivered")
        ctx.state(case)
    elif kind == "rng":
        for which, bits in (("generate_trace_id", 128), ("generate_span_id", 64)):
            loader.RNG.reset(script=list(case[1]))
            v = getattr(RandomIdGenerator(), which)()
            ctx.check(isinstance(v, int) and 0 < v < 1 << bits, "id-range", lambda: f"{which} gave {v} from {case[1]}")
        loader.RNG.reset(script=list(case[1]))
        tr, smp, _ = mk(RandomIdGenerator())
        smp.res = (Decision.RECORD_AND_SAMPLE, None, None)
        sc = tr.start_span("x", Context()).get_span_context()
        ctx.check(sc.is_valid and sc.trace_id < 1 << 128 and sc.span_id < 1 << 64, "id-range", lambda: f"{sc}")
        ctx.state(sc.trace_id, sc.span_id)
    else:
        g = RandomIdGenerator()
        n = 2000
        t = {g.generate_trace_id() for _ in range(n)}
        s = {g.generate_span_id() for _ in range(n)}
        ctx.check(len(t) == n and len(s) == n, "unique", "ids repeat")
        ctx.check(max(t) >> 120 and max(s) >> 56 and any(x >> 64 & 0xFFFFFFFFFFFFFFFF for x in t), "width", "ids do not use their width")

        class G(IdGenerator):
            n = 0

            def generate_trace_id(self):
                return 77

            def generate_span_id(self):
                G.n += 1
                return G.n
        tr, smp, _ = mk(G())
        smp.res = (Decision.RECORD_AND_SAMPLE, None, None)
        a = tr.start_span("a", Context())
        b = tr.start_span("b", trace.set_span_in_context(a, Context()))
        ctx.check((a.context.trace_id, a.context.span_id, b.context.trace_id, b.context.span_id) == (77, 1, 77, 2), "generator", "custom id generator not used")
        ctx.state(case)
