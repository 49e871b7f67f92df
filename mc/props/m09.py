"""M09: exemplars."""
import itertools
from functools import partial

from mc import loader
from mc.props._metrics import C, D, Reader, akey, metrics, now, provider
from opentelemetry import context as otcontext
from opentelemetry import trace
from opentelemetry.context import Context
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import (
    AlignedHistogramBucketExemplarReservoir, AlwaysOffExemplarFilter, AlwaysOnExemplarFilter, SimpleFixedSizeExemplarReservoir, TraceBasedExemplarFilter)
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, View
from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags


def span(i, sampled):
    return NonRecordingSpan(SpanContext(1000 + i, 10 + i, False, TraceFlags(1 if sampled else 0)))


# (value, attributes, how the context is given, span)
MEAS = [
    (1, {"k": "a", "f": 1}, "current", (1, True)), (2, {"k": "a", "f": 2}, "none", None), (3, {"k": "a", "f": 0, "e": ""}, "explicit", (3, True)),
    (6, {"f": 3, "k": "b"}, "current", (4, False)), (6.5, {"k": "a", "f": 1}, "empty", None), (0, {"k": "a", "g": [1]}, "explicit", (5, False)),
    (9, None, "current", (6, True)),
]
FILTERS = [AlwaysOnExemplarFilter(), TraceBasedExemplarFilter(), AlwaysOffExemplarFilter()]
BOUNDS = (1, 5)
AGGS = ["sum", "hist", "exp", "gauge"]


def CASES(tier):
    q = tier == "quick"
    n = 3 if q else 4
    for agg in AGGS:
        for f in range(3):
            for size in (None, 1, 2, 3) if agg != "hist" else (None,):
                for t in (D, C):
                    for w in itertools.product(range(len(MEAS) + 1), repeat=n):
                        # random replacement choices: every value the last draws can take
                        k = sum(1 for i in w if i < len(MEAS))
                        draws = [(0,) * k] if agg == "hist" or size is None or f == 2 or k < 2 else itertools.product(*[range(j + 1) for j in range(k)])
                        for d in draws:
                            yield ("seq", agg, f, size, t, w, d)
    for size in (1, 2, 3):
        for k in range(1, 6 if q else 7):
            for d in itertools.product(*[range(j + 1) for j in range(k)]):
                yield ("long", size, d)
    for f in range(3):
        for sampled in (None, True, False):
            yield ("observable", f, sampled)


def record(inst, agg, m, cur):
    v, a, how, sp = m
    a = None if a is None else dict(a)
    do = {"sum": lambda **k: inst.add(v, a, **k), "hist": lambda **k: inst.record(v, a, **k), "exp": lambda **k: inst.record(v, a, **k),
          "gauge": lambda **k: inst.set(v, a, **k)}[agg]
    lo = now()
    if how == "current":
        with trace.use_span(span(*sp)):
            do()
    elif how == "explicit":
        with trace.use_span(span(77, True)):
            do(context=trace.set_span_in_context(span(*sp), Context()))
    elif how == "empty":
        with trace.use_span(span(78, True)):
            do(context=Context())
    else:
        do()
    return lo, now()


def build(agg, f, size, t):
    r = [Reader(t), Reader(D)]
    kw = {}
    if size is not None:
        kw["exemplar_reservoir_factory"] = lambda cls: lambda **k: SimpleFixedSizeExemplarReservoir(**{**k, "size": size}) if True else None
    if agg == "hist":
        kw["aggregation"] = ExplicitBucketHistogramAggregation(boundaries=BOUNDS)
        kw["exemplar_reservoir_factory"] = lambda cls: AlignedHistogramBucketExemplarReservoir
    elif agg == "exp":
        kw["aggregation"] = ExponentialBucketHistogramAggregation()
    m = provider(r, (View(instrument_name="x", attribute_keys={"k"}, **kw),), exemplar_filter=FILTERS[f]).get_meter("m")
    return r, {"sum": m.create_counter, "hist": m.create_histogram, "exp": m.create_histogram, "gauge": m.create_gauge}[agg]("x")


def bucket(v):
    return sum(1 for b in BOUNDS if v > b)


def eligible(f, m):
    return f == 0 or (f == 1 and m[3] is not None and m[3][1])


def key_of(m):
    return akey({k: v for k, v in (m[1] or {}).items() if k == "k"})


def verify(ctx, what, p, window, f, agg, size, delta):
    """window: [(measurement, lo, hi)] of this series that the point may show exemplars of; fresh ones come last."""
    ex = p.exemplars
    cap = len(BOUNDS) + 1 if agg == "hist" else size or (20 if agg == "exp" else 1)
    ctx.check(len(ex) <= cap, "size", lambda: f"{what}: {len(ex)} exemplars, reservoir size {cap}")
    used = set()
    for e in ex:
        hit = None
        for i, (m, lo, hi) in enumerate(window):
            if i in used or e.value != m[0] or not (lo <= e.time_unix_nano <= hi):
                continue
            hit = (i, m)
            break
        if not ctx.check(hit is not None, "genuine", lambda: f"{what}: exemplar {e} is no measurement of the interval {window}"):
            continue
        used.add(hit[0])
        m = hit[1]
        tid, sid = (1000 + m[3][0], 10 + m[3][0]) if m[3] else (None, None)
        ctx.check((e.trace_id, e.span_id) == (tid, sid), "trace-context", lambda: f"{what}: exemplar {e} of measurement {m}: trace context should be {(tid, sid)}")
        want = {k: tuple(v) if isinstance(v, list) else v for k, v in (m[1] or {}).items() if k != "k"}
        ctx.check(dict(e.filtered_attributes or {}) == want, "filtered", lambda: f"{what}: filtered attributes {e.filtered_attributes}, expected {want}")
        ctx.check(eligible(f, m), "eligible", lambda: f"{what}: measurement {m} is not eligible for exemplars")
    if agg == "hist":
        b = [bucket(e.value) for e in ex]
        ctx.check(len(set(b)) == len(b), "one-per-bucket", lambda: f"{what}: exemplars {[e.value for e in ex]}")
    return used


def run_case(case, ctx):
    ctx.step()
    if case[0] == "observable":
        return observable(case, ctx)
    if case[0] == "long":
        _, size, d = case
        agg, f, t = "sum", 0, D
        w = [i % 3 for i in range(len(d))] + [7] + [1, 7]
    else:
        _, agg, f, size, t, w, d = case
        w = list(w) + [len(MEAS)]
    readers, inst = build(agg, f, size, t)
    loader.RNG.reset(script=[x for x in d for _ in readers] if agg != "hist" and size is not None else [0] * 40)
    all_, fresh = {}, {}
    for i in w:
        ctx.step()
        if i < len(MEAS):
            m = MEAS[i]
            lo, hi = record(inst, agg, m, None)
            all_.setdefault(key_of(m), []).append((m, lo, hi))
            fresh.setdefault(key_of(m), []).append((m, lo, hi))
            continue
        for r, tt in ((0, t), (1, D)):
            ms = metrics(readers[r].scrape())
            for p in ms[0][1].data.data_points if ms else ():
                k = akey(p.attributes)
                win = (fresh if tt is D or agg == "gauge" else all_).get(k, [])
                what = f"{agg} filter {f} size {size} {tt!r} {[MEAS[j] if j < len(MEAS) else 'collect' for j in w]} draws {d}"
                used = verify(ctx, what, p, win, f, agg, size, tt is D)
                can = [m for m, _, _ in fresh.get(k, []) if eligible(f, m) and not (agg == "exp" and m[0] == 0)]
                if tt is D:
                    if agg == "hist":
                        ctx.check({bucket(e.value) for e in p.exemplars} == {bucket(m[0]) for m in can}, "bucket-exemplar",
                                  lambda: f"{what}: exemplars {p.exemplars}, eligible measurements {can}")
                    else:
                        ctx.check(bool(p.exemplars) or not can, "missing", lambda: f"{what}: no exemplar although {can} are eligible")
                ctx.state(agg, f, size, len(used), tuple(sorted(e.value for e in p.exemplars)))
        fresh = {}


def observable(case, ctx):
    _, f, sampled = case
    r = Reader(D)
    c = trace.set_span_in_context(span(9, sampled), Context()) if sampled is not None else None
    m = provider([r], exemplar_filter=FILTERS[f]).get_meter("m")
    m.create_observable_gauge("x", [lambda o: [Observation(4, {"a": 1}, c)]])
    p = metrics(r.scrape())[0][1].data.data_points[0]
    want = [(4, 1009 if c else None)] if f == 0 or (f == 1 and sampled) else []
    ctx.check([(e.value, e.trace_id) for e in p.exemplars] == want, "observable", lambda: f"filter {f} sampled {sampled}: {p.exemplars}")
