"""M10: metric readers: preferences per instrument kind, and belonging to one provider."""
import itertools

from mc.props._metrics import C, D, KINDS, Reader, by_name, metrics, provider
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics.export import (
    AggregationTemporality, ExponentialHistogram, Gauge as GaugeData, Histogram as HistogramData, InMemoryMetricReader, PeriodicExportingMetricReader, Sum)
from opentelemetry.sdk.metrics.view import (
    DefaultAggregation, DropAggregation, ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, LastValueAggregation, SumAggregation)

NAMES = list(KINDS)
SYNC = {"counter": "add", "updown": "add", "histogram": "record", "gauge": "set"}
AGGS = {"default": DefaultAggregation, "sum": SumAggregation, "last": LastValueAggregation, "explicit": lambda: ExplicitBucketHistogramAggregation((2, 5)),
        "exponential": lambda: ExponentialBucketHistogramAggregation(max_size=8), "drop": DropAggregation}
TYPES = {"sum": Sum, "last": GaugeData, "explicit": HistogramData, "exponential": ExponentialHistogram}
DEFAULT = {"counter": "sum", "updown": "sum", "ocounter": "sum", "oupdown": "sum", "histogram": "explicit", "gauge": "last", "ogauge": "last"}
VALUES = [3, 4, 8]
LISTS = [(0,), (1,), (2,), (0, 1), (1, 2), (0, 0), ()]


def CASES(tier):
    q = tier == "quick"
    for bits in range(1 << len(NAMES)):
        yield ("temporality", bits, None)
    for k in range(len(NAMES)):
        for t in (0, 1):
            yield ("temporality", t, k)
    for a in itertools.product(AGGS, repeat=2):
        for i, j in itertools.combinations(range(len(NAMES)), 2):
            # a histogram of observations is a semantic error, for which nothing is promised
            if any(NAMES[n][0] == "o" and x in ("explicit", "exponential") for n, x in ((i, a[0]), (j, a[1]))):
                continue
            for t in (0, 1):
                yield ("aggregation", i, j, a, t)
    for i in range(len(INVALID)):
        for r in range(2):
            yield ("invalid", i, r)
    for n in range(1, 4 if q else 5):
        for w in itertools.product(range(len(LISTS)), repeat=n):
            yield ("register", w)


def instruments(m, state):
    out = {}
    for k in NAMES:
        create = {"counter": m.create_counter, "updown": m.create_up_down_counter, "histogram": m.create_histogram, "gauge": m.create_gauge, "ocounter": m.create_observable_counter,
                  "oupdown": m.create_observable_up_down_counter, "ogauge": m.create_observable_gauge}[k]
        out[k] = create(k) if k in SYNC else create(k, [lambda o, k=k: [Observation(state[k])]])
    return out


def drive(insts, state, i):
    for k in NAMES:
        if k in SYNC:
            getattr(insts[k], SYNC[k])(VALUES[i])
        else:
            state[k] = sum(VALUES[:i + 1])


def value(kind, agg, t, i):
    """The number a point of round i shows: the sum for sums and histograms, the value for gauges."""
    if agg == "last":
        return VALUES[i] if kind in SYNC else sum(VALUES[:i + 1])
    return VALUES[i] if t is D else sum(VALUES[:i + 1])


def look(ctx, what, md, kind, agg, t, i):
    ms = by_name(md).get(("m", kind), [])
    if agg == "drop":
        ctx.check(ms == [], "drop", lambda: f"{what}: {kind} reported although dropped")
        return
    if not ctx.check(len(ms) == 1 and len(ms[0].data.data_points) == 1, "streams", lambda: f"{what}: {kind} reported as {ms}"):
        return
    d = ms[0].data
    ctx.check(isinstance(d, TYPES[agg]), "aggregation", lambda: f"{what}: {kind} reported as {type(d).__name__}, expected {agg}")
    if agg != "last":
        ctx.check(d.aggregation_temporality is t, "temporality", lambda: f"{what}: {kind} reported with {d.aggregation_temporality!r}, expected {t!r}")
    if agg == "sum" and DEFAULT[kind] == "sum":
        ctx.check(d.is_monotonic == (kind in ("counter", "ocounter")), "monotonic", lambda: f"{what}: {kind} monotonic: {d.is_monotonic}")
    if kind in SYNC or agg == DEFAULT[kind]:
        p = d.data_points[0]
        got = p.value if agg in ("sum", "last") else p.sum
        ctx.check(got == value(kind, agg, t, i), "value", lambda: f"{what}: round {i} reports {got} for {kind}, expected {value(kind, agg, t, i)}")


def c_temporality(ctx, bits, only):
    """Each kind of instrument has the temporality its reader prefers for it, cumulative where it says nothing, whatever another reader prefers."""
    if only is None:
        want = {k: D if bits >> i & 1 else C for i, k in enumerate(NAMES)}
        given = {KINDS[k]: t for k, t in want.items()}
    else:
        want = {k: (D if bits else C) if i == only else C for i, k in enumerate(NAMES)}
        given = {KINDS[NAMES[only]]: D if bits else C}
    flip = {KINDS[k]: C if t is D else D for k, t in want.items()}
    before = dict(given)
    rs = [Reader(given), Reader(flip), Reader({})]
    ts = [want, {k: C if t is D else D for k, t in want.items()}, {k: C for k in NAMES}]
    state = {}
    insts = instruments(provider(rs).get_meter("m"), state)
    for i in range(len(VALUES)):
        drive(insts, state, i)
        for r, t in zip(rs, ts):
            md = r.scrape()
            for k in NAMES:
                look(ctx, f"temporality preferences {given}", md, k, DEFAULT[k], t[k], i)
    ctx.check(given == before, "given", lambda: "the mapping given as preference was changed")
    ctx.state(bits, only)


def c_aggregation(ctx, i, j, a, t):
    t = (C, D)[t]
    want = dict(DEFAULT)
    given = {}
    for n, x in ((i, a[0]), (j, a[1])):
        given[KINDS[NAMES[n]]] = AGGS[x]()
        if x != "default":
            want[NAMES[n]] = x
    rs = [Reader(t, given), Reader(C)]
    state = {}
    insts = instruments(provider(rs).get_meter("m"), state)
    for n in range(2):
        drive(insts, state, n)
        for r, w, tt in ((rs[0], want, t), (rs[1], DEFAULT, C)):
            md = r.scrape()
            for k in NAMES:
                look(ctx, f"aggregation preferences {NAMES[i]}: {a[0]}, {NAMES[j]}: {a[1]}, {t!r}", md, k, w[k], tt, n)
    ctx.state(i, j, a, t)


INVALID = [dict(preferred_temporality={KINDS["counter"]: AggregationTemporality.UNSPECIFIED}), dict(preferred_temporality={KINDS["gauge"]: None}), dict(preferred_temporality={KINDS["ogauge"]: "delta"}),
           dict(preferred_temporality={KINDS["counter"]: D, int: C}), dict(preferred_temporality={"counter": C}), dict(preferred_temporality={object: D}),
           dict(preferred_aggregation={int: SumAggregation()}), dict(preferred_aggregation={KINDS["counter"]: SumAggregation(), "histogram": DropAggregation()})]


def c_invalid(ctx, i, r):
    kw = INVALID[i]
    try:
        InMemoryMetricReader(**kw) if r == 0 else Plain(**kw)
        ctx.fail("invalid", f"{kw} accepted")
    except Exception:  # noqa
        pass
    ctx.state(i, r)


class Plain(Reader):
    def __init__(self, preferred_temporality=None, preferred_aggregation=None):
        super().__init__(preferred_temporality, preferred_aggregation)


def c_register(ctx, w):
    """Providers are made one after another with lists of three readers; a reader serves the first and no other."""
    rs = [Reader(C) for _ in range(3)]
    for r in rs:
        ctx.check(r.scrape() is None, "unregistered", lambda: "a reader without provider collected something")
    owner, unknown, provs = {}, set(), []
    for n, i in enumerate(w):
        lst = LISTS[i]
        if unknown & set(lst):
            continue
        refused = len(set(lst)) < len(lst) or any(x in owner for x in lst)
        try:
            p = provider([rs[x] for x in lst])
            ok = True
        except Exception:  # noqa
            ok = False
        ctx.check(ok is not refused, "registration", lambda: f"providers with {[LISTS[x] for x in w]}: number {n} was {'made' if ok else 'refused'}")
        ctx.step()
        if ok:
            provs.append((n, p))
            for x in lst:
                owner[x] = n
        else:
            # readers of a refused list that had no provider before may or may not be taken now
            unknown |= {x for x in lst if x not in owner}
        for m, p in provs:
            p.get_meter("m").create_counter("c").add(1 << m)
        for x, m in owner.items():
            md = metrics(rs[x].scrape())
            got = [q.value for _, y in md for q in y.data.data_points]
            want = (1 << m) * (n - m + 1)
            ctx.check(got == [want], "belongs", lambda: f"providers with {[LISTS[y] for y in w]}: after {n}, reader {x} reports {got}, expected {[want]}")
    ctx.state(w)


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    ctx.step()
    CASE[case[0]](ctx, *case[1:])
