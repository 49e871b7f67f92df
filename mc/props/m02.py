"""M02: explicit-bucket histograms."""
import itertools

from mc.props._metrics import C, D, Reader, akey, by_name, metrics, now, provider
from opentelemetry.sdk.metrics import Counter, Histogram
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, View

BOUNDS = [(), (0,), (1, 2), (-1, 0, 2.5), (5, 10)]
DEFAULT = (0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0)
OPS = [("rec", 0, "A"), ("rec", 1, "A"), ("rec", 1.5, "A"), ("rec", 2, "B"), ("rec", 1e6, "A"), ("rec", -1, "A"), ("collect", 0), ("collect", 1)]
ATTRS = {"A": {"a": 1}, "B": {"b": [1, 2]}}
SRC = [None, (1.0, 2.0), (7,), ()]


def CASES(tier):
    n = 4 if tier == "quick" else 5
    for b in range(len(BOUNDS)):
        for w in itertools.product(range(len(OPS)), repeat=n):
            yield ("hist", b, True, w)
    for w in itertools.product(range(len(OPS)), repeat=n + 1):
        yield ("hist", 2, True, w)
    for w in itertools.product(range(len(OPS)), repeat=n - 1):
        yield ("hist", 2, False, w)
    for b in range(len(BOUNDS)):
        for v in (0, -0.0, 5e-324, 0.5, 1, 1.0000000000000002, 0.9999999999999999, 2, 2.5, 3, 4.999999999999999, 5, 5.000000000000001, 10, 11, 1e308):
            yield ("value", b, v)
    for i in range(-1, len(DEFAULT) + 1):
        yield ("default", i)
    # where boundaries come from: view for instrument h0?, view for all?, advice of each of three instruments, creation and use order
    for vi, va in itertools.product((None, 0, 1), (None, 0, 1)):
        for adv in itertools.product(range(len(SRC)), repeat=3):
            for order in itertools.permutations(range(3)):
                yield ("source", vi, va, adv, order)
    for kind in ("histogram", "counter", "updown", "gauge"):
        for b in (None, (1, 2)):
            yield ("kinds", kind, b)


def bucket(bounds, v):
    n = 0
    for b in bounds:
        if v > b:
            n += 1
    return n


def expect(bounds, vals, minmax=True):
    c = [0] * (len(bounds) + 1)
    for v in vals:
        c[bucket(bounds, v)] += 1
    return (len(vals), sum(vals), tuple(c), tuple(bounds)) + ((min(vals), max(vals)) if minmax else ())


def shape(p, minmax=True):
    return (p.count, p.sum, tuple(p.bucket_counts), tuple(p.explicit_bounds)) + ((p.min, p.max) if minmax else ())


def run_case(case, ctx):
    ctx.step()
    if case[0] == "hist":
        hist(case, ctx)
    elif case[0] in ("value", "default"):
        if case[0] == "default":
            b = DEFAULT
            edge = b[case[1]] if 0 <= case[1] < len(b) else (20000 if case[1] >= 0 else 0)
            vals = [v for v in (edge, edge * (1 - 1e-15), edge * (1 + 1e-15), edge + 1) if v >= 0]
            views = ()
        else:
            b = BOUNDS[case[1]]
            vals = [case[2]]
            views = (View(instrument_name="h", aggregation=ExplicitBucketHistogramAggregation(boundaries=b)),)
        for t in (D, C):
            for v in vals:
                r = Reader(t)
                provider([r], views).get_meter("m").create_histogram("h").record(v)
                p = metrics(r.scrape())[0][1].data.data_points[0]
                ctx.check(shape(p) == expect(b, [v]), "bucket", lambda: f"{v!r} in {b}: {shape(p)}")
                ctx.state(case[0], b, bucket(b, v))
    elif case[0] == "source":
        source(case, ctx)
    else:
        kinds(case, ctx)


def hist(case, ctx):
    _, b, mm, w = case
    bounds = BOUNDS[b]
    readers = [Reader(D), Reader(C)]
    v = View(instrument_name="h", aggregation=ExplicitBucketHistogramAggregation(boundaries=bounds, record_min_max=mm))
    h = provider(readers, (v,)).get_meter("m").create_histogram("h", "ms", "desc")
    since = [{}, {}]
    start = {}
    prev_t = {}
    for i in list(w) + [6, 7, 6]:
        op = OPS[i]
        ctx.step()
        if op[0] == "rec":
            h.record(op[1], ATTRS[op[2]])
            if op[1] >= 0:
                for s in since:
                    s.setdefault(op[2], []).append(op[1])
            continue
        r = op[1]
        ms = metrics(readers[r].scrape())
        exp = {k: expect(bounds, vals, mm) for k, vals in since[r].items() if vals}
        ctx.check(len(ms) == (1 if exp else 0), "stream", lambda: f"{w}: {len(ms)} metrics, expected series {list(exp)}")
        got = {}
        for _, m in ms:
            ctx.check((m.name, m.unit, m.description, m.data.aggregation_temporality) == ("h", "ms", "desc", (D, C)[r]), "identity", lambda: f"{w}: {m}")
            for p in m.data.data_points:
                k = "A" if dict(p.attributes) == {"a": 1} else "B"
                ctx.check(k == "A" or dict(p.attributes) == {"b": (1, 2)}, "attributes", lambda: f"{w}: {p.attributes}")
                ctx.check(k not in got, "dup", lambda: f"{w}: two points for {k}")
                got[k] = shape(p, mm)
                ctx.check(p.count == sum(p.bucket_counts) and p.start_time_unix_nano <= p.time_unix_nano, "consistent", lambda: f"{w}: {p}")
                if r == 1:
                    ctx.check(start.setdefault(k, p.start_time_unix_nano) == p.start_time_unix_nano, "start", lambda: f"{w}: cumulative start moved")
                elif k in prev_t and prev_t[k] is not None:
                    ctx.check(p.start_time_unix_nano == prev_t[k], "abut", lambda: f"{w}: delta start {p.start_time_unix_nano}, previous end {prev_t[k]}")
        ctx.check(got == exp, "points", lambda: f"{w}: reader {('delta', 'cumulative')[r]} got {got}, expected {exp}")
        if r == 0:
            t = ms[0][1].data.data_points[0].time_unix_nano if ms else None
            for k in since[0]:
                prev_t[k] = t
            since[0] = {k: [] for k in since[0]}
    ctx.state(b, sorted((k, tuple(v)) for k, v in since[1].items()))


def source(case, ctx):
    _, vi, va, adv, order = case
    vb = [None, (3, 4)]
    views = []
    if vi is not None:
        views.append(View(instrument_name="h0", aggregation=ExplicitBucketHistogramAggregation(boundaries=vb[vi])))
    if va is not None:
        views.append(View(instrument_type=Histogram, aggregation=ExplicitBucketHistogramAggregation(boundaries=vb[va])))
    r = Reader(C)
    m = provider([r], views).get_meter("m")
    hs = {}
    for i in order:
        hs[i] = m.create_histogram(f"h{i}", **({} if SRC[adv[i]] is None else {"explicit_bucket_boundaries_advisory": list(SRC[adv[i]])}))
    for i in order:
        hs[i].record(3.5)
    got = {n: sorted(tuple(x.data.data_points[0].explicit_bounds) for x in ms) for (_, n), ms in by_name(r.scrape()).items()}
    exp = {}
    for i in range(3):
        own = DEFAULT if SRC[adv[i]] is None else tuple(SRC[adv[i]])
        e = [tuple(vb[x] or own) for x, on in ((vi, i == 0), (va, True)) if x is not None and on]
        exp[f"h{i}"] = sorted(e or [own])
    ctx.state(case[1:4])
    ctx.check(got == exp, "boundary-source", lambda: f"view for h0 {vi}, for all {va}, advice {[SRC[a] for a in adv]}, order {order}: {got}, expected {exp}")


def kinds(case, ctx):
    """A histogram view applied to another synchronous instrument, or as a reader's preferred aggregation."""
    _, kind, b = case
    agg = ExplicitBucketHistogramAggregation(boundaries=b) if b else ExplicitBucketHistogramAggregation()
    for how in ("view", "preferred"):
        r = Reader(C, {Counter: agg} if how == "preferred" and kind == "counter" else None)
        if how == "preferred" and kind != "counter":
            continue
        m = provider([r], (View(instrument_name="x", aggregation=agg),) if how == "view" else ()).get_meter("m")
        if kind == "histogram":
            m.create_histogram("x").record(1.5)
        elif kind == "counter":
            m.create_counter("x").add(1.5)
        elif kind == "updown":
            m.create_up_down_counter("x").add(1.5)
        else:
            m.create_gauge("x").set(1.5)
        p = metrics(r.scrape())[0][1].data.data_points[0]
        ctx.check(shape(p) == expect(b or DEFAULT, [1.5]), "kinds", lambda: f"{kind} {how} {b}: {p}")
