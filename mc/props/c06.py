"""C06: composite propagation and global selection."""
import importlib
import itertools
import os
import sys

from opentelemetry import propagate, trace
from opentelemetry.context import Context, get_value, set_value
from opentelemetry.propagators.composite import CompositePropagator
from opentelemetry.propagators.textmap import DefaultGetter, DefaultSetter, TextMapPropagator

NAMES = ["tracecontext", "baggage", "b3", "b3multi", "jaeger"]
BAD = ["nope", "TraceContext", "trace context"]
FIELDS = {"tracecontext": {"traceparent", "tracestate"}, "baggage": {"baggage"}, "b3": {"b3"},
          "b3multi": {"x-b3-traceid", "x-b3-spanid", "x-b3-sampled"}, "jaeger": {"uber-trace-id"}}


class Prop(TextMapPropagator):
    """Appends to a trail in the context, writes own and shared carrier keys."""

    def __init__(self, i, fields, calls, wipe=False):
        self.i, self._f, self.calls, self.wipe = i, set(fields), calls, wipe

    def extract(self, carrier, context=None, getter=None):
        self.calls.append(("extract", self.i, carrier, context, getter))
        context = Context() if context is None or self.wipe else context
        if self.wipe == "empty":
            return Context()
        c = set_value("trail", (get_value("trail", context) or ()) + (self.i,), context)
        self.out = set_value("winner", self.i, c)
        return self.out

    def inject(self, carrier, context=None, setter=None):
        self.calls.append(("inject", self.i, carrier, context, setter))
        for f in self._f:
            setter.set(carrier, f, f"{self.i}")

    @property
    def fields(self):
        return self._f


KINDS = [({"a"}, False), ({"b"}, False), ({"a", "b"}, False), (set(), False), ({"c"}, True), ({"d"}, "empty")]


def CASES(tier):
    m = 3 if tier == "quick" else 5
    for n in range(0, m + 1):
        for w in itertools.product(range(len(KINDS)), repeat=n):
            for withctx in (0, 1):
                yield ("comp", w, withctx)
    for n in range(1, 4):
        for w in itertools.product(NAMES + BAD[:1], repeat=n):
            for sep in (",", " , ") if n < 3 else (",",):
                yield ("env", sep.join(w), w)
    for b in BAD:
        yield ("env", b, (b,))
        yield ("env", "tracecontext," + b, ("tracecontext", b))
    yield ("env", None, ("tracecontext", "baggage"))
    for w in [(n,) for n in NAMES] + list(itertools.permutations(NAMES[:3], 2)):
        for present in range(4):
            for cur in range(3):
                yield ("current", w, present, cur)
    for w in itertools.product(range(3), repeat=3):
        yield ("global", w)


def current(ctx, names, present, cur):
    """The convenience functions without a context do what the global propagator does without one, whatever is current."""
    from importlib.metadata import entry_points

    from opentelemetry import baggage
    from opentelemetry.context import attach, detach
    ps = [next(iter(entry_points(group="opentelemetry_propagator", name=n))).load()() for n in names]
    p = ps[0] if len(ps) == 1 else CompositePropagator(ps)
    carrier = {}
    if present & 1:
        carrier.update({"traceparent": f"00-{1:032x}-{1:016x}-01", "uber-trace-id": f"{4:032x}:{4:016x}:0:1", "b3": f"{2:032x}-{2:016x}-1"})
    if present & 2:
        carrier["baggage"] = "p=q"
        carrier["uberctx-p"] = "q"
    sc = trace.SpanContext(0x11, 0x22, False, trace.TraceFlags(1), trace.TraceState([("a", "1")]))
    c = Context()
    if cur:
        c = baggage.set_baggage("k", "v", set_value("x", 1, c))
    if cur == 2:
        c = trace.set_span_in_context(trace.NonRecordingSpan(sc), c)

    def view(c):
        return get_value("x", c), dict(baggage.get_all(c)), trace.get_current_span(c).get_span_context()

    orig, token = propagate.get_global_textmap(), attach(c)
    try:
        propagate.set_global_textmap(p)
        for ctxt in (None, c, Context()):
            for kw in ({}, {"context": ctxt}):
                want = view(p.extract(carrier, **kw))
                got = view(propagate.extract(carrier, **kw))
                ctx.check(got == want, "current-extract", lambda: f"{names} extracting {carrier} with {view(c)} current: {got} instead of {want}")
                a, b = {}, {}
                p.inject(a, **kw)
                propagate.inject(b, **kw)
                ctx.check(a == b, "current-inject", lambda: f"{names} injecting with {view(c)} current: {b} instead of {a}")
    finally:
        detach(token)
        propagate.set_global_textmap(orig)


def run_case(case, ctx):
    ctx.step()
    ctx.state(case)
    if case[0] == "comp":
        _, w, withctx = case
        calls = []
        ps = [Prop(i, KINDS[k][0], calls, KINDS[k][1]) for i, k in enumerate(w)]
        for arg in (ps, tuple(ps)):
            del calls[:]
            C = CompositePropagator(arg)
            ctx.check(set(C.fields) == set().union(*[KINDS[k][0] for k in w]) if w else set(C.fields) == set(), "fields", lambda: f"{C.fields}")
            base = set_value("x", 1, Context()) if withctx else None
            carrier, g, s = {"keep": "1"}, DefaultGetter(), DefaultSetter()
            out = C.extract(carrier, base, getter=g)
            trail, seen, prev = (), [], base
            for i, k in enumerate(w):
                trail = () if KINDS[k][1] == "empty" else (i,) if KINDS[k][1] else trail + (i,)
            ctx.check([c[1] for c in calls] == list(range(len(w))) and all(c[0] == "extract" and c[2] is carrier and c[4] is g for c in calls),
                      "extract-order", lambda: f"calls {calls}")
            for i, c in enumerate(calls):
                if i == 0:
                    ctx.check(c[3] is base, "extract-chain", "first member did not get the given context")
                else:
                    p = KINDS[w[i - 1]][1]
                    ctx.check(c[3] is not None and (dict(c[3]) == {} if p == "empty" else get_value("winner", c[3]) == i - 1), "extract-chain", "a member did not get its predecessor's context")
            if w:
                ctx.check((get_value("trail", out) or ()) == trail, "extract-result", lambda: f"trail {get_value('trail', out)} expected {trail}")
            elif withctx:
                ctx.check(out == base, "extract-result", "empty composition changed the context")
            del calls[:]
            icx = set_value("y", 2, Context()) if withctx else None
            C.inject(carrier, icx, setter=s)
            ctx.check([c[1] for c in calls] == list(range(len(w))) and all(c[0] == "inject" and c[2] is carrier and c[3] is icx and c[4] is s for c in calls),
                      "inject-order", lambda: f"calls {calls}")
            want = {"keep": "1"}
            for i, k in enumerate(w):
                want.update({f: str(i) for f in KINDS[k][0]})
            ctx.check(carrier == want, "inject-result", lambda: f"{carrier} expected {want}")
    elif case[0] == "current":
        current(ctx, *case[1:])
    elif case[0] == "env":
        _, val, names = case
        saved = {k: sys.modules.pop(k) for k in ("opentelemetry.propagate",)}
        import logging
        logging.disable(logging.CRITICAL)
        os.environ.pop("OTEL_PROPAGATORS", None)
        if val is not None:
            os.environ["OTEL_PROPAGATORS"] = val
        try:
            try:
                mod = importlib.import_module("opentelemetry.propagate")
            except Exception as e:  # noqa
                ctx.check(any(n not in NAMES for n in names), "env-raises", lambda: f"{val!r}: {type(e).__name__}: {e}")
                return
            ctx.check(all(n in NAMES for n in names), "env-unknown-accepted", f"{val!r} accepted")
            g = mod.get_global_textmap()
            want = set().union(*[FIELDS.get(n, set()) for n in names])
            ctx.check(set(g.fields) == want, "env-fields", lambda: f"{val!r}: fields {g.fields}, expected {want}")
            # order: what is injected first, and the last trace format wins on extraction
            order = []

            class S(DefaultSetter):
                def set(self, carrier, key, value):
                    order.append(key)

            from opentelemetry import baggage
            sc = trace.SpanContext(0x11, 0x22, False, trace.TraceFlags(1), trace.TraceState([("a", "1")]))
            c = baggage.set_baggage("k", "v", trace.set_span_in_context(trace.NonRecordingSpan(sc), Context()))
            mod.inject({}, c, setter=S())
            got = [n for k in order for n in NAMES if k in FIELDS[n]]
            got = [n for n, _ in itertools.groupby(got)]
            ctx.check(got == [n for n, _ in itertools.groupby(names)], "env-order", lambda: f"{val!r}: injected in order {order}")
            t = {"tracecontext": 1, "b3": 2, "b3multi": 3, "jaeger": 4}
            carrier = {"traceparent": f"00-{1:032x}-{1:016x}-01", "uber-trace-id": f"{4:032x}:{4:016x}:0:1", "baggage": "p=q"}
            if "b3" in names:
                carrier["b3"] = f"{2:032x}-{2:016x}-1"
            else:
                carrier.update({"x-b3-traceid": f"{3:032x}", "x-b3-spanid": f"{3:016x}", "x-b3-sampled": "1"})
            out = mod.extract(carrier)
            last = [n for n in names if n in t]
            tid = trace.get_current_span(out).get_span_context().trace_id
            exp = t[last[-1]] if last else 0
            if exp == 3 and "b3" in names:
                exp = 2
            ctx.check(tid == exp, "env-extract", lambda: f"{val!r}: extracted {tid}, expected {exp}")
            ctx.check((baggage.get_baggage("p", out) == "q") == ("baggage" in names), "env-extract", "baggage")
        finally:
            os.environ.pop("OTEL_PROPAGATORS", None)
            logging.disable(logging.NOTSET)
            sys.modules.update(saved)
            import opentelemetry
            opentelemetry.propagate = saved["opentelemetry.propagate"]
    else:
        calls = []
        ps = [Prop(i, {f"f{i}"}, calls) for i in range(3)]
        orig = propagate.get_global_textmap()
        try:
            for i in case[1]:
                propagate.set_global_textmap(ps[i])
                ctx.check(propagate.get_global_textmap() is ps[i], "global", "not the last one set")
                d, g, s = {}, DefaultGetter(), DefaultSetter()
                c0 = set_value("x", 1, Context())
                propagate.inject(d, c0, setter=s)
                out = propagate.extract(d, c0, getter=g)
                ctx.check(d == {f"f{i}": str(i)} and get_value("winner", out) == i and get_value("x", out) == 1, "global", lambda: f"{d}")
                ctx.check(calls[-2][:4] == ("inject", i, d, c0) and calls[-2][4] is s and calls[-1][4] is g and calls[-1][3] is c0, "global-args", "arguments not passed on")
        finally:
            propagate.set_global_textmap(orig)
