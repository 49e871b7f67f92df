"""T05: span limits."""
import itertools
import logging
import os

from opentelemetry import trace
from opentelemetry.context import Context
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanLimits, SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.sdk.util import BoundedList
from opentelemetry.trace import Link, SpanContext, TraceFlags

logging.disable(logging.CRITICAL)
RES = Resource({})
U = SpanLimits.UNSET


def sc(i):
    return SpanContext(100 + i, 200 + i, True, TraceFlags(1))


class Last(SpanProcessor):
    def on_end(self, span):
        self.span = span


OPS = [("attr", "a", "v1"), ("attr", "b", "long-value"), ("attr", "c", ["abcdef", "x", None]), ("attrs", {"a": "w2", "d": 7}),
       ("event", "e1", {"x": "abcdef", "y": 1, "z": [1, 2]}), ("event", "e2", None), ("link", 1, {"p": "pqrst", "q": 2}), ("link", 2, None),
       ("attr", "", "bad"), ("attr", "a", object())]
STARTS = [({}, ()), ({"s1": "startval", "s2": 2, "a": 0}, ((7, {"l1": "x", "l2": "yyyyyy", "l3": 3}), (8, None), (9, {"m": 1})))]


def cut(v, n):
    if n is None:
        return v
    if isinstance(v, str):
        return v[:n]
    if isinstance(v, (list, tuple)):
        return tuple(cut(x, n) for x in v)
    return v


def put(m, k, v, mx, ln):
    """returns number dropped; m: ordered dict"""
    if not k or (not isinstance(v, (str, int, float, bool, list, tuple))):
        return 0
    if mx == 0:
        return 1
    v = cut(tuple(v) if isinstance(v, list) else v, ln)
    d = 0
    if k in m:
        del m[k]
    elif mx is not None and len(m) == mx:
        del m[next(iter(m))]
        d = 1
    m[k] = v
    return d


def bounded(attrs, mx, ln):
    m, d = {}, 0
    for k, v in (attrs or {}).items():
        d += put(m, k, v, mx, ln)
    return m, d


def push(lst, x, mx):
    if mx is not None and len(lst) == mx:
        if mx:
            lst.pop(0)
            lst.append(x)
        return 1
    lst.append(x)
    return 0


CONFIGS = [dict(max_span_attributes=a, max_events=e, max_links=l, max_event_attributes=ea, max_link_attributes=la, max_attribute_length=ln,
                max_span_attribute_length=sl)
           for a, e, l, ea, la, ln, sl in [
               (None, None, None, None, None, None, None), (0, 0, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 1, 1), (2, 2, 2, 2, 2, 3, 4), (3, 1, 2, 0, 1, 4, None),
               (U, U, U, U, U, U, U), (2, 0, 1, 2, 0, 0, 5), (1, 3, 3, 3, 3, 2, 0), (U, 1, U, 1, U, 2, U), (2, U, 1, U, 2, U, 3)]]
ENV = ["OTEL_ATTRIBUTE_COUNT_LIMIT", "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT", "OTEL_LINK_ATTRIBUTE_COUNT_LIMIT",
       "OTEL_SPAN_EVENT_COUNT_LIMIT", "OTEL_SPAN_LINK_COUNT_LIMIT", "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", "OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT"]


def CASES(tier):
    n = 4 if tier == "quick" else 5
    for c in range(len(CONFIGS)):
        for s in range(len(STARTS)):
            for w in itertools.product(range(len(OPS)), repeat=n if s == 0 and c > 0 else n - 1):
                yield ("ops", c, s, w)
    vals = [None, "", "0", "2", " 3 ", "x", "-1"]
    for which in range(4):  # count limits: general var, specific var, general arg, specific arg
        for g, s in itertools.product(vals, repeat=2):
            for ga in (None, U, 4):
                for sa in (None, U, 5):
                    yield ("cfg", which, g, s, ga, sa)
    for which in (4, 5):
        for s in vals:
            for sa in (None, U, 5, -5):
                yield ("cfg", which, None, s, None, sa)
    for a in (-2, -3):
        for f in ("max_attributes", "max_events", "max_links", "max_span_attributes", "max_event_attributes", "max_link_attributes",
                  "max_attribute_length", "max_span_attribute_length"):
            yield ("neg", f, a)
    yield ("share",)
    for a in range(len(CONFIGS)):
        for b in range(len(CONFIGS)):
            yield ("relink", a, b)
    n = 4 if tier == "quick" else 6
    for mx in (None, 0, 1, 2, 3, 5):
        for first in (None, 0, 1, 3, 7):
            for k in range(n + 1):
                for w in itertools.product(range(5), repeat=k):
                    yield ("list", mx, first, w)
    top = 20 if tier == "quick" else 64
    for mx in range(1, top):
        for n in (mx - 1, mx, mx + 1, 2 * mx, 3 * mx + 1):
            for again in (0, 1, mx // 2, mx):  # re-setting every so many keys
                yield ("long", mx, n, again)


def build(limits):
    last = Last()
    tp = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False, span_limits=limits)
    tp.add_span_processor(last)
    return tp.get_tracer("t"), last


def eff(c):
    f = lambda v, d: None if v == U else (d if v is None else v)  # noqa
    ln = f(c["max_attribute_length"], None)
    return {"a": f(c["max_span_attributes"], 128), "e": f(c["max_events"], 128), "l": f(c["max_links"], 128), "ea": f(c["max_event_attributes"], 128),
            "la": f(c["max_link_attributes"], 128), "ln": ln, "sl": f(c["max_span_attribute_length"], ln)}


CACHE = {}


def run_case(case, ctx):
    ctx.step()
    if case[0] == "ops":
        _, ci, si, w = case
        if ci not in CACHE:
            CACHE[ci] = build(SpanLimits(**CONFIGS[ci])) + (eff(CONFIGS[ci]),)
        tr, last, L = CACHE[ci]
        sa, sl = STARTS[si]
        span = tr.start_span("s", Context(), attributes=dict(sa), links=[Link(sc(i), a) for i, a in sl])
        attrs, da = bounded(sa, L["a"], L["sl"])
        links, dl, events, de = [], 0, [], 0
        for i, a in sl:
            dl += push(links, (100 + i,) + bounded(a, L["la"], L["ln"]), L["l"])

        def compare(sp, when):
            ctx.check(dict(sp.attributes) == attrs and list(sp.attributes) == list(attrs), "attributes", lambda: f"{when} {CONFIGS[ci]} {w}: {dict(sp.attributes)} expected {attrs}")
            ge = [(e.name, dict(e.attributes), e.dropped_attributes) for e in sp.events]
            ctx.check(ge == events, "events", lambda: f"{when} {CONFIGS[ci]} {w}: events {ge} expected {events}")
            gl = [(k.context.trace_id, dict(k.attributes), k.dropped_attributes) for k in sp.links]
            ctx.check(gl == links, "links", lambda: f"{when} {CONFIGS[ci]} {w}: links {gl} expected {links}")
            ctx.check((sp.dropped_attributes, sp.dropped_events, sp.dropped_links) == (da, de, dl), "dropped",
                      lambda: f"{when} {CONFIGS[ci]} {w}: dropped {(sp.dropped_attributes, sp.dropped_events, sp.dropped_links)} expected {(da, de, dl)}")

        unspec = L["a"] == 0
        for i in w:
            op = OPS[i]
            ctx.step()
            if op[0] == "attr":
                span.set_attribute(op[1], op[2])
                da += put(attrs, op[1], op[2], L["a"], L["sl"])
            elif op[0] == "attrs":
                span.set_attributes(op[1])
                for k, v in op[1].items():
                    da += put(attrs, k, v, L["a"], L["sl"])
            elif op[0] == "event":
                span.add_event(op[1], op[2])
                de += push(events, (op[1],) + bounded(op[2], L["ea"], L["ln"]), L["e"])
            else:
                span.add_link(sc(op[1]), op[2])
                dl += push(links, (100 + op[1],) + bounded(op[2], L["la"], L["ln"]), L["l"])
        if unspec and (8 in w or 9 in w):
            da = span.dropped_attributes
        compare(span, "live")
        span.end()
        compare(last.span, "exported")
        ctx.state(ci, tuple(attrs.items()), da, len(events), de, len(links), dl)
    elif case[0] == "cfg":
        _, which, g, s, ga, sa = case
        for e in ENV:
            os.environ.pop(e, None)
        spec_env, gen_env, spec_arg, gen_arg = [
            ("OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "OTEL_ATTRIBUTE_COUNT_LIMIT", "max_span_attributes", "max_attributes"),
            ("OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT", "OTEL_ATTRIBUTE_COUNT_LIMIT", "max_event_attributes", "max_attributes"),
            ("OTEL_LINK_ATTRIBUTE_COUNT_LIMIT", "OTEL_ATTRIBUTE_COUNT_LIMIT", "max_link_attributes", "max_attributes"),
            ("OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT", "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", "max_span_attribute_length", "max_attribute_length"),
            ("OTEL_SPAN_EVENT_COUNT_LIMIT", None, "max_events", None), ("OTEL_SPAN_LINK_COUNT_LIMIT", None, "max_links", None)][which]
        if g is not None:
            os.environ[gen_env] = g
        if s is not None:
            os.environ[spec_env] = s

        def level(arg, env, default):
            if arg == U:
                return None
            if arg is not None:
                if arg < 0:
                    raise ValueError
                return arg
            if env is None:
                return default
            if env.strip() == "":
                return None
            v = int(env)
            if v < 0:
                raise ValueError
            return v

        default = 128 if which != 3 else None
        try:
            gv = level(ga, g, default) if gen_arg else None
            # a general limit that is explicitly unset leaves the specific default (128) for counts
            gen = (gv if gv is not None else default) if gen_arg else 128
            want = level(sa, s, gen)
            bad = False
        except ValueError:
            bad = True
        kw = {}
        if gen_arg:
            kw[gen_arg] = ga
        kw[spec_arg] = sa
        try:
            try:
                lim = SpanLimits(**kw)
            except ValueError:
                ctx.check(bad, "limit-rejected", lambda: f"{case}: valid configuration rejected")
                return
            ctx.check(not bad, "limit-accepted", lambda: f"{case}: invalid limit accepted")
            ctx.check(getattr(lim, spec_arg) == want, "limit-source", lambda: f"{case}: effective {getattr(lim, spec_arg)}, expected {want}")
            ctx.state(which, want)
            # and it is what spans obey
            tr, last = build(lim)
            span = tr.start_span("s", Context())
            n = 6
            if which == 0:
                for i in range(n):
                    span.set_attribute(f"k{i}", i)
            elif which == 1:
                span.add_event("e", {f"k{i}": i for i in range(n)})
            elif which == 2:
                span.add_link(sc(1), {f"k{i}": i for i in range(n)})
            elif which == 3:
                span.set_attribute("k", "x" * n)
            elif which == 4:
                for i in range(n):
                    span.add_event(f"e{i}")
            else:
                for i in range(n):
                    span.add_link(sc(i))
            span.end()
            sp = last.span
            got = [lambda: len(sp.attributes), lambda: len(sp.events[0].attributes), lambda: len(sp.links[0].attributes), lambda: len(sp.attributes["k"]),
                   lambda: len(sp.events), lambda: len(sp.links)][which]()
            ctx.check(got == (n if want is None else min(n, want)), "limit-applied", lambda: f"{case}: kept {got}, limit {want}")
        finally:
            for e in ENV:
                os.environ.pop(e, None)
    elif case[0] == "neg":
        try:
            SpanLimits(**{case[1]: case[2]})
            ctx.fail("negative", f"{case} accepted")
        except ValueError:
            pass
        ctx.state(case)
    elif case[0] == "relink":
        # links and attributes taken from a span with other limits obey the limits of the span they are given to
        _, a, b = case
        tr, last = build(SpanLimits(**CONFIGS[a]))
        L = eff(CONFIGS[b])
        given = {"p": "pqrst", "q": 2, "r": "u" * 9, "s": ("abcdef", "x")}
        src = tr.start_span("s", Context(), links=[Link(sc(1), given)])
        src.add_event("e", given)
        src.end()
        src = last.span
        tr, last = build(SpanLimits(**CONFIGS[b]))
        sp = tr.start_span("s", Context(), links=src.links)
        links, events, attrs, dl, de = [], [], {}, 0, 0
        for k in src.links:
            dl += push(links, (k.context.trace_id,) + bounded(k.attributes, L["la"], L["ln"]), L["l"])
        for k in src.links:
            sp.add_link(k.context, k.attributes)
            dl += push(links, (k.context.trace_id,) + bounded(k.attributes, L["la"], L["ln"]), L["l"])
        for e in src.events:
            sp.add_event(e.name, e.attributes)
            de += push(events, (e.name,) + bounded(e.attributes, L["ea"], L["ln"]), L["e"])
        sp.end()
        sp = last.span
        gl = [(k.context.trace_id, dict(k.attributes), k.dropped_attributes) for k in sp.links]
        ctx.check(gl == links and sp.dropped_links == dl, "relink", lambda: f"{CONFIGS[a]} -> {CONFIGS[b]}: links {gl} expected {links}")
        ge = [(e.name, dict(e.attributes), e.dropped_attributes) for e in sp.events]
        ctx.check(ge == events and sp.dropped_events == de, "relink", lambda: f"{CONFIGS[a]} -> {CONFIGS[b]}: events {ge} expected {events}")
        ctx.state(case)
    elif case[0] == "list":
        # the bounded list by itself: append (0) and extend by 0-3 (1-4) after being made from a sequence of `first`
        _, mx, first, w = case
        n = first or 0
        bl = BoundedList(mx) if first is None else BoundedList.from_seq(mx, iter(range(n)))
        seen = [bl]
        for op in w:
            if op == 0:
                bl.append(n)
                n += 1
            else:
                bl.extend(tuple(range(n, n + op - 1)))
                n += op - 1
        keep = n if mx is None else min(n, mx)
        want = list(range(n - keep, n))
        ctx.check(list(bl) == want and len(bl) == keep and [bl[i] for i in range(keep)] == want and bl.dropped == n - keep, "list",
                  lambda: f"limit {mx}, {first} at first, then {w}: {list(bl)} with {bl.dropped} dropped, expected {want} with {n - keep}")
        ctx.state(mx, keep, n - keep)
    elif case[0] == "long":
        _, mx, n, again = case
        tr, last = build(SpanLimits(max_span_attributes=mx, max_events=mx, max_links=mx))
        attrs, events, links, da, de, dl = {}, [], [], 0, 0, 0
        sp = tr.start_span("s", Context())
        for i in range(n):
            sp.set_attribute(f"k{i}", i)
            da += put(attrs, f"k{i}", i, mx, None)
            if again and i % again == 0:
                k = list(attrs)[len(attrs) // 2]
                sp.set_attribute(k, -i)
                da += put(attrs, k, -i, mx, None)
            sp.add_event(f"e{i}")
            de += push(events, f"e{i}", mx)
            sp.add_link(sc(i))
            dl += push(links, 100 + i, mx)
        sp.end()
        sp = last.span
        ctx.check(list(sp.attributes.items()) == list(attrs.items()) and sp.dropped_attributes == da, "long-attributes", lambda: f"{case}: {dict(sp.attributes)} expected {attrs}")
        ctx.check([e.name for e in sp.events] == events and sp.dropped_events == de, "long-events", lambda: f"{case}: {[e.name for e in sp.events]}")
        ctx.check([k.context.trace_id for k in sp.links] == links and sp.dropped_links == dl, "long-links", lambda: f"{case}")
        ctx.state(case)
    else:
        # a link object shared by two spans keeps its own account in each of them
        tr, last = build(SpanLimits(max_link_attributes=1, max_attribute_length=2))
        attrs = {"a": "long", "b": "longer"}
        ln = Link(sc(1), attrs)
        out = []
        for i in range(3):
            tr.start_span("s", Context(), links=[ln]).end()
            out.append(last.span)
        for sp in out:
            k = sp.links[0]
            ctx.check((dict(k.attributes), k.dropped_attributes) == ({"b": "lo"}, 1), "shared-link", lambda: f"{dict(k.attributes)} dropped {k.dropped_attributes}")
        ctx.state(case)
