"""M06: views."""
import itertools

from mc.props._metrics import C, D, KINDS, Reader, akey, metrics, provider
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import Counter, Histogram, ObservableCounter
from opentelemetry.sdk.metrics.view import (
    DefaultAggregation, DropAggregation, ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, LastValueAggregation,
    SumAggregation, View)

SCOPES = [("m1", "1.0", "s1"), ("m2", None, None)]
INSTS = [("counter", "req.count", "ms"), ("updown", "req.updown", "By"), ("histogram", "lat.hist", "ms"), ("gauge", "Mixed.Gauge", ""),
         ("ocounter", "obs.c", "ms"), ("oupdown", "obs.u", "By"), ("ogauge", "obs.g", "")]
CRIT = [
    dict(instrument_name="req.count"), dict(instrument_name="*"), dict(instrument_name="req.*"), dict(instrument_name="?bs.?"), dict(instrument_name="nope"),
    dict(instrument_name="req"), dict(instrument_name="Mixed.Gauge"), dict(instrument_name="mixed.gauge"), dict(instrument_type=Counter),
    dict(instrument_type=ObservableCounter), dict(instrument_type=Histogram, instrument_name="lat.hist"), dict(instrument_unit="ms"),
    dict(instrument_unit="m*", meter_name="m1"), dict(instrument_unit=""), dict(instrument_unit="MS"), dict(instrument_unit="by", instrument_name="*"), dict(meter_name="m2"), dict(meter_name="m1", meter_version="1.0"),
    dict(meter_version="2.0"), dict(meter_schema_url="s1", instrument_name="lat.hist"), dict(instrument_type=Counter, instrument_name="lat.hist"),
    dict(meter_name="m1", meter_version="1.0", meter_schema_url="s1", instrument_unit="By", instrument_name="obs.*"),
]
STREAM = [
    {}, dict(description="newdesc"), dict(attribute_keys={"a"}), dict(attribute_keys=set()), dict(aggregation=DropAggregation()),
    dict(aggregation=ExplicitBucketHistogramAggregation(boundaries=(2, 4))), dict(aggregation=ExponentialBucketHistogramAggregation(max_size=4)),
    dict(aggregation=SumAggregation(), attribute_keys={"b", "zz"}), dict(aggregation=LastValueAggregation()), dict(name="renamed", attribute_keys={"b"}),
    dict(name="renamed2", description="d2", aggregation=DefaultAggregation()),
]
DATA = [(3, {"a": 0, "b": 1}), (5, {"a": 0, "b": 2}), (2, {"b": 1}), (4, None)]
PREF = [None, {Histogram: ExponentialBucketHistogramAggregation(), Counter: LastValueAggregation()}]


def legal(c, s):
    return not (s.get("name") and ("*" in c.get("instrument_name", "") or "?" in c.get("instrument_name", "")))


ALL = [(c, s) for c in range(len(CRIT)) for s in range(len(STREAM)) if legal(CRIT[c], STREAM[s])]
FEW = [(c, s) for c, s in ALL if c in (0, 1, 3, 8, 10, 12, 16) and s in (0, 2, 4, 5, 9)]


def CASES(tier):
    for p in (0, 1):
        for t in (0, 1):
            yield ("views", p, t, ())
            for v in ALL:
                yield ("views", p, t, (v,))
    pairs = itertools.product(ALL, repeat=2) if tier == "thorough" else itertools.product(FEW, ALL[::3] + FEW)
    for a, b in pairs:
        yield ("views", 0, 0, (a, b))
    for a, b, c in itertools.product(FEW[::3], FEW[1::4], FEW[2::5]):
        yield ("views", 0, 0, (a, b, c))
    for kw in range(len(INVALID)):
        yield ("invalid", kw)


INVALID = [dict(), dict(name="x"), dict(name="x", description="d", attribute_keys={"a"}, aggregation=SumAggregation()), dict(name="x", instrument_name="a*"),
           dict(name="x", instrument_name="a?b"), dict(name="x", instrument_name="*", meter_name="m")]


def wild(pat, s):
    if not pat:
        return not s
    if pat[0] == "*":
        return any(wild(pat[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and (pat[0] == "?" or pat[0] == s[0]) and wild(pat[1:], s[1:])


def matches(c, kind, name, unit, scope):
    if "instrument_type" in c and not issubclass(KINDS[kind], c["instrument_type"]):
        return False
    if "instrument_name" in c and not wild(c["instrument_name"].lower(), name.lower()):
        return False
    if "instrument_unit" in c and not wild(c["instrument_unit"], unit):
        return False
    return all(k not in c or c[k] == v for k, v in zip(("meter_name", "meter_version", "meter_schema_url"), scope))


def stream(kind, name, unit, s, temporality, pref):
    """Expected metric for one stream, or None when it is dropped."""
    agg = s.get("aggregation")
    if agg is None or type(agg) is DefaultAggregation:
        agg = (PREF[pref] or {}).get(KINDS[kind])
    label = {DropAggregation: "drop", ExplicitBucketHistogramAggregation: "hist", ExponentialBucketHistogramAggregation: "exp",
             SumAggregation: "sum", LastValueAggregation: "last"}.get(type(agg)) or {"histogram": "hist", "gauge": "last", "ogauge": "last"}.get(kind, "sum")
    if label == "drop":
        return None
    groups = {}
    for v, a in DATA:
        a = a or {}
        if s.get("attribute_keys") is not None:
            a = {k: x for k, x in a.items() if k in s["attribute_keys"]}
        groups.setdefault(akey(a), []).append(v)
    pts = {}
    for k, vs in groups.items():
        pts[k] = {"sum": sum(vs), "last": vs[-1], "hist": (len(vs), sum(vs)), "exp": (len(vs), sum(vs))}[label]
    bounds = (2, 4) if label == "hist" and s.get("aggregation") is not None and type(s["aggregation"]) is not DefaultAggregation else None
    return (s.get("name") or name.lower(), s.get("description") or "d-" + kind, unit, label, bounds, tuple(sorted(pts.items())), None if label == "last" else temporality,
            kind in ("counter", "ocounter") if label == "sum" and kind != "histogram" else None)


def actual(m):
    d = m.data
    label = {"Sum": "sum", "Gauge": "last", "Histogram": "hist", "ExponentialHistogram": "exp"}[type(d).__name__]
    pts = {}
    bounds = None
    for p in d.data_points:
        k = akey(p.attributes)
        if k in pts:
            return ("duplicate point", m.name, k)
        pts[k] = p.value if label in ("sum", "last") else (p.count, p.sum)
        if label == "hist" and tuple(p.explicit_bounds) == (2, 4):
            bounds = (2, 4)
    return (m.name, m.description, m.unit, label, bounds, tuple(sorted(pts.items())), None if label == "last" else d.aggregation_temporality,
            d.is_monotonic if label == "sum" else None)


def run_case(case, ctx):
    ctx.step()
    if case[0] == "invalid":
        try:
            View(**INVALID[case[1]])
        except Exception:
            return
        ctx.check(False, "invalid-view", f"View({INVALID[case[1]]}) was accepted")
        return
    _, pref, t, vs = case
    T = (C, D)[t]
    r = Reader(T, PREF[pref])
    mp = provider([r], [View(**CRIT[c], **STREAM[s]) for c, s in vs])
    expected = {}
    for scope in SCOPES:
        m = mp.get_meter(*scope)
        exp = expected.setdefault(scope[0], [])
        for kind, name, unit in INSTS:
            d = "d-" + kind
            if kind.startswith("o"):
                cb = lambda o: [Observation(v, a) for v, a in DATA]  # noqa
                getattr(m, {"ocounter": "create_observable_counter", "oupdown": "create_observable_up_down_counter", "ogauge": "create_observable_gauge"}[kind])(name, [cb], unit, d)
            else:
                i = getattr(m, {"counter": "create_counter", "updown": "create_up_down_counter", "histogram": "create_histogram", "gauge": "create_gauge"}[kind])(name, unit, d)
                for v, a in DATA:
                    (i.add if hasattr(i, "add") else i.record if hasattr(i, "record") else i.set)(v, a)
            hit = [STREAM[s] for c, s in vs if matches(CRIT[c], kind, name, unit, scope)]
            # histograms of observations are semantic errors: such a view is not applied
            hit = [s for s in hit if not (kind.startswith("o") and isinstance(s.get("aggregation"), (ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation)))]
            for s in hit or [{}]:
                e = stream(kind, name, unit, s, T, pref)
                if e:
                    exp.append(e)
    got = {}
    for scope, m in metrics(r.scrape()):
        got.setdefault(scope, []).append(actual(m))
        ctx.step()

    for scope in {s[0] for s in SCOPES} | set(got):
        left = list(got.get(scope, []))
        missing = []
        for e in expected.get(scope, []):
            # e[7] is None where monotonicity is not specified (a sum over a histogram instrument)
            hit = [g for g in left if g[:7] == e[:7] and (e[7] is None or g[7:] == e[7:])]
            if hit:
                left.remove(hit[0])
            else:
                missing.append(e)
        ctx.check(not left and not missing, "streams", lambda: f"views {[(CRIT[c], {k: str(v)[:60] for k, v in STREAM[s].items()}) for c, s in vs]} scope {scope}: unexpected {left[:4]}, missing {missing[:4]}")
    ctx.state(pref, t, sorted((s, len(x)) for s, x in got.items()), vs)
