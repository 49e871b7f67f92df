"""E01: OTLP encoding preserves every field of every span, metric point and log record."""
import itertools
import logging
import struct
from types import SimpleNamespace as NS

from mc.props._wire import DEF, KINDS, fl, msg, parse, sint, varint, zig  # noqa: F401
from opentelemetry.attributes import BoundedAttributes
from opentelemetry.exporter.otlp.proto.common._log_encoder import encode_logs
from opentelemetry.exporter.otlp.proto.common.metrics_encoder import encode_metrics
from opentelemetry.exporter.otlp.proto.common.trace_encoder import encode_spans
from opentelemetry._logs import SeverityNumber
from opentelemetry.sdk._logs import LogData, LogLimits, LogRecord
from opentelemetry.sdk.metrics import Exemplar
from opentelemetry.sdk.metrics._internal.point import Buckets
from opentelemetry.sdk.metrics.export import (
    AggregationTemporality,
    ExponentialHistogram,
    ExponentialHistogramDataPoint,
    Gauge,
    Histogram,
    HistogramDataPoint,
    Metric,
    MetricsData,
    NumberDataPoint,
    ResourceMetrics,
    ScopeMetrics,
    Sum,
)
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import Event, ReadableSpan
from opentelemetry.sdk.util import BoundedList
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.trace import Link, SpanContext, SpanKind, Status, StatusCode, TraceFlags, TraceState

logging.disable(logging.CRITICAL)


def any_value(b):
    p = parse(b)
    assert len(p) <= 1, p
    for f, (v,) in p.items():
        if f == 1:
            return ("s", v.decode("utf8"))
        if f == 2:
            return ("b", bool(v))
        if f == 3:
            return ("i", sint(v))
        if f == 4:
            return ("d", struct.unpack("<d", v)[0].hex())
        if f == 5:
            return ("a", [any_value(x) for x in parse(v).get(1, [])])
        if f == 6:
            return ("m", [key_value(x) for x in parse(v).get(1, [])])
        if f == 7:
            return ("y", bytes(v))
        raise AssertionError(f"AnyValue field {f}")
    return None


def key_value(b):
    p = parse(b)
    return (p.get(1, [b""])[0].decode("utf8"), any_value(p[2][0]) if 2 in p else None)


def attrs(num):
    return (num, key_value, "rep")


def resource(b):
    return msg(b, attrs=attrs(1), dropped=(2, "uint"))


def scope(b):
    return msg(b, name=(1, "str"), version=(2, "str"), attrs=attrs(3), dropped=(4, "uint"))


def decode(b, item):
    """list of (resource, schema, scope, schema, item)"""
    top = msg(b, res=(1, lambda r: msg(r, resource=(1, resource), scopes=(2, lambda s: msg(s, scope=(1, scope), items=(2, item, "rep"), schema=(3, "str")), "rep"), schema=(3, "str")), "rep"))
    out = []
    assert "?" not in top
    for r in top["res"]:
        for s in r["scopes"]:
            for i in s["items"]:
                out.append((r["resource"], r["schema"], s["scope"], s["schema"], i))
            if not s["items"]:
                out.append((r["resource"], r["schema"], s["scope"], s["schema"], "EMPTY"))
    return out


def span(b):
    return msg(b, trace_id=(1, "bytes"), span_id=(2, "bytes"), trace_state=(3, "str"), parent=(4, "bytes"), name=(5, "str"), kind=(6, "uint"), start=(7, "f64"),
               end=(8, "f64"), attrs=attrs(9), dropped=(10, "uint"),
               events=(11, lambda e: msg(e, time=(1, "f64"), name=(2, "str"), attrs=attrs(3), dropped=(4, "uint")), "rep"), dropped_events=(12, "uint"),
               links=(13, lambda e: msg(e, trace_id=(1, "bytes"), span_id=(2, "bytes"), trace_state=(3, "str"), attrs=attrs(4), dropped=(5, "uint"), flags=(6, "f32")), "rep"),
               dropped_links=(14, "uint"), status=(15, lambda e: msg(e, message=(2, "str"), code=(3, "uint"))), flags=(16, "f32"))


def log(b):
    return msg(b, time=(1, "f64"), sev=(2, "uint"), sevtext=(3, "str"), body=(5, any_value), attrs=attrs(6), dropped=(7, "uint"), flags=(8, "f32"), trace_id=(9, "bytes"),
               span_id=(10, "bytes"), observed=(11, "f64"))


def exemplar(b):
    return msg(b, attrs=attrs(7), time=(2, "f64"), d=(3, "double", "opt"), i=(6, "sf64", "opt"), span_id=(4, "bytes"), trace_id=(5, "bytes"))


def number(b):
    return msg(b, attrs=attrs(7), start=(2, "f64"), time=(3, "f64"), d=(4, "double", "opt"), i=(6, "sf64", "opt"), exemplars=(5, exemplar, "rep"), flags=(8, "uint"))


def hist(b):
    return msg(b, attrs=attrs(9), start=(2, "f64"), time=(3, "f64"), count=(4, "f64"), sum=(5, "double", "opt"), buckets=(6, "f64", "packed"), bounds=(7, "double", "packed"),
               exemplars=(8, exemplar, "rep"), flags=(10, "uint"), min=(11, "double", "opt"), max=(12, "double", "opt"))


def bkt(b):
    return msg(b, offset=(1, "sint"), counts=(2, "uint", "packed"))


def exphist(b):
    return msg(b, attrs=attrs(1), start=(2, "f64"), time=(3, "f64"), count=(4, "f64"), sum=(5, "double", "opt"), scale=(6, "sint"), zero=(7, "f64"), pos=(8, bkt), neg=(9, bkt),
               flags=(10, "uint"), exemplars=(11, exemplar, "rep"), min=(12, "double", "opt"), max=(13, "double", "opt"), thr=(14, "double"))


def metric(b):
    return msg(b, name=(1, "str"), desc=(2, "str"), unit=(3, "str"), gauge=(5, lambda g: msg(g, pts=(1, number, "rep"))),
               sum=(7, lambda g: msg(g, pts=(1, number, "rep"), temp=(2, "uint"), mono=(3, "bool"))),
               hist=(9, lambda g: msg(g, pts=(1, hist, "rep"), temp=(2, "uint"))), exp=(10, lambda g: msg(g, pts=(1, exphist, "rep"), temp=(2, "uint"))))


# ---------------------------------------------------------------- expectations
class Bad(Exception):
    pass


def x_any(v, null=False):
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, str):
        try:
            v.encode("utf8")
        except UnicodeEncodeError:
            raise Bad from None
        return ("s", v)
    if isinstance(v, int):
        if not -2**63 <= v < 2**63:
            raise Bad
        return ("i", v)
    if isinstance(v, float):
        return ("d", v.hex())
    if isinstance(v, bytes):
        return ("y", v)
    if isinstance(v, (list, tuple)):
        return ("a", [x_any(e, null) for e in v])
    if isinstance(v, dict):
        return ("m", [(str(k), x_any(e, null)) for k, e in v.items()])
    if v is None and null:
        return None
    raise Bad


def x_attrs(a):
    out = []
    for k, v in (a or {}).items():
        try:
            out.append((k, x_any(v)))
        except Bad:
            pass
    return out


def x_res(r):
    return {"attrs": x_attrs(dict(r.attributes)), "dropped": 0}, r.schema_url or ""


def x_scope(s):
    if s is None:
        return {"name": "", "version": "", "attrs": [], "dropped": 0}, ""
    return {"name": s.name, "version": s.version or "", "attrs": x_attrs(dict(s.attributes or {})), "dropped": 0}, s.schema_url or ""


def tid(n):
    return n.to_bytes(16, "big")


def sid(n):
    return n.to_bytes(8, "big")


def x_ts(ts):
    return ",".join(f"{k}={v}" for k, v in (ts.items() if ts else ()))


def x_flags(ctx):
    return 0x300 if ctx is not None and ctx.is_remote else 0x100


KIND = {SpanKind.INTERNAL: 1, SpanKind.SERVER: 2, SpanKind.CLIENT: 3, SpanKind.PRODUCER: 4, SpanKind.CONSUMER: 5}


def x_span(d):
    c = d.ctx
    ev, ed = d.events
    ln, ld = d.links
    return {"trace_id": tid(c.trace_id), "span_id": sid(c.span_id), "trace_state": x_ts(c.trace_state), "parent": sid(d.parent.span_id) if d.parent else b"", "name": d.name,
            "kind": KIND[d.kind], "start": d.start or 0, "end": d.end or 0, "attrs": x_attrs(d.attrs[0]), "dropped": d.attrs[1],
            "events": [{"time": t, "name": n, "attrs": x_attrs(a), "dropped": dr or 0} for n, t, a, dr in ev], "dropped_events": ed,
            "links": [{"trace_id": tid(k.trace_id), "span_id": sid(k.span_id), "trace_state": x_ts(k.trace_state), "attrs": x_attrs(a), "dropped": dr or 0, "flags": x_flags(k)} for k, a, dr in ln],
            "dropped_links": ld, "status": {"message": d.status[1] or "", "code": d.status[0].value}, "flags": x_flags(d.parent)}


def bounded(a, dropped):
    """The attribute collections the SDK stores; plain mapping when nothing was dropped and values are not storable there."""
    if dropped is None:
        return a
    b = BoundedAttributes(None, None, immutable=False)
    b._dict.update(a or {})
    b.dropped = dropped
    return b


def blist(items, dropped):
    b = BoundedList.from_seq(max(len(items), 1), items)
    b.dropped = dropped
    return b


def mk_span(d, res, scp):
    evs = [Event(n, bounded(a, dr), t) for n, t, a, dr in d.events[0]]
    lns = [Link(k, bounded(a, dr)) for k, a, dr in d.links[0]]
    return ReadableSpan(d.name, d.ctx, d.parent, res, bounded(*d.attrs), blist(evs, d.events[1]), blist(lns, d.links[1]), d.kind, None, Status(*d.status), d.start, d.end, scp)


# ---------------------------------------------------------------- alphabets
BIG = 2**64 - 1
O = object()
ATTRS = [
    ({}, 0), ({"k": "v"}, 0), ({"k": ""}, 1), ({"s": "é\U0001f600", "b": True, "i": 5}, 2), ({"f": False, "z": 0, "n": -1, "d": 0.0}, 0), ({"d": -1.5, "inf": float("inf"), "nan": float("nan"), "nz": -0.0}, 0),
    ({"i": 2**63 - 1, "j": -2**63}, 0), ({"a": (), "b": ("x", "")}, 0), ({"a": (1, 2), "b": (True, False), "c": (1.5,)}, 0), ({"by": b"\x00\xff", "e": b""}, 0),
    ({"m": {"x": 1, "y": {"z": [True, "q"]}}, "e": {}}, 0), ({"n": [[1], ["a", [2.5]]]}, 0), ({"k": "v", "bad": O, "l": 2}, 0), ({"bad": None, "k": 1}, 0), ({"bad": 2**63, "k": 1}, 0),
    ({"bad": "\ud800", "k": 1}, 0), ({"bad": [1, O], "k": 1}, 0), ({"bad": {"x": O}, "k": 1}, 2**32 - 1), ({"bad": [None], "k": 1}, 0), ({"k1": 1, "k2": 1, "k3": "1", "k4": 1.0, "k5": True}, 0),
    ({"x" * 200: "y" * 300}, 0), ({"a": (0, 1), "b": ("", "x"), "c": (False,), "d": (0.0,), "m": {"z": 0, "e": "", "f": False, "l": [0, ""]}}, 0),
]
T0, T1, T2 = TraceState(), TraceState([("a", "1")]), TraceState([("b@t", "x y"), ("a", "1")])
C0 = SpanContext(0x0102030405060708090A0B0C0D0E0F10, 0x1112131415161718, False, TraceFlags(1), T0)
CTX = [C0, SpanContext(1, 1, False, TraceFlags(0), T0), SpanContext(2**128 - 1, BIG, False, TraceFlags(255), T0), SpanContext(1 << 64, 1 << 32, False, TraceFlags(1), T1),
       SpanContext(5, 6, False, TraceFlags(1), T2), SpanContext(5, 6, True, TraceFlags(1), None)]
PARENTS = [None, SpanContext(C0.trace_id, 7, False, TraceFlags(1)), SpanContext(C0.trace_id, 1 << 63, True, TraceFlags(0), T1), SpanContext(0, 0, False)]
LK = [SpanContext(9, 8, False, TraceFlags(0)), SpanContext(2**127, BIG, True, TraceFlags(1), T2), SpanContext(9, 8, True, TraceFlags(1), T1)]
SPAN = {
    "ctx": CTX, "parent": PARENTS, "name": ["n", "", "é\x00" + "x" * 200], "kind": list(SpanKind), "start": [1000, None, 0, 1, BIG], "end": [2000, None, 0, 2**63, BIG],
    "attrs": ATTRS,
    "events": [((), 0), ((("e", 5, {}, 0),), 0), ((("e", 0, {"a": 1}, 3), ("", BIG, None, None)), 4), ((("x", 1, {"bad": O, "k": (1, 2)}, 0), ("x", 1, {"k": "v"}, 0), ("y", 2, {"k": b"v"}, 1)), 0)],
    "links": [((), 0), (((LK[0], {}, 0),), 0), (((LK[1], {"a": 1}, 3), (LK[0], None, None)), 4), (((LK[2], {"bad": O, "k": (1, 2)}, 0), (LK[2], {"k": "v"}, 0), (LK[1], {"k": b"v"}, 1)), 0)],
    "status": [(StatusCode.UNSET, None), (StatusCode.OK, None), (StatusCode.ERROR, None), (StatusCode.ERROR, "why é")],
}
SPAN["parent"] = PARENTS[:3]


class Exc(Exception):
    pass


BODIES = ["b", "", None, 0, 5, -1.5, True, False, b"\x01", [], ["a", 1, [None]], {"k": {"j": [1, None, "x"]}, "n": None}, {}, ("t",), 2**63 - 1, [0, "", False, None, b"", 0.0, [], {}], {"": 0, "a": "", "b": False, "c": b"", "d": [], "e": {}}]
BADBODIES = [Exc("boom"), O, 2**63, "\ud800", {"k": O}, [1, O], {1, 2}]
SEV = [SeverityNumber.INFO, None, SeverityNumber.TRACE, SeverityNumber.FATAL4, SeverityNumber.UNSPECIFIED]
LOG = {
    "time": [1000, None, 0, BIG], "observed": [2000, None, BIG], "ids": [(C0.trace_id, C0.span_id), (1, 1), (2**128 - 1, BIG), (0, 0), (None, None), (1 << 64, 0), (0, 1 << 32)],
    "flags": [TraceFlags(1), TraceFlags(0), TraceFlags(255), None], "sev": SEV, "sevtext": ["INFO", None, "", "é"], "body": BODIES, "attrs": [a for a in ATTRS],
}


def x_log(d):
    t, s = d.ids
    return {"time": d.time or 0, "sev": d.sev.value if d.sev else 0, "sevtext": d.sevtext or "", "body": x_any(d.body, True), "attrs": x_attrs(d.attrs[0]), "dropped": d.attrs[1],
            "flags": int(d.flags or 0), "trace_id": tid(t) if t else b"", "span_id": sid(s) if s else b"", "observed": d.observed or 0}


def mk_log(d, res, scp):
    r = LogRecord(timestamp=d.time, observed_timestamp=d.observed or 1, trace_id=d.ids[0], span_id=d.ids[1], trace_flags=d.flags, severity_text=d.sevtext, severity_number=d.sev, body=d.body,
                  resource=res, attributes=None, limits=LogLimits(max_attributes=LogLimits.UNSET, max_attribute_length=LogLimits.UNSET))
    r.observed_timestamp = d.observed
    r.attributes = bounded(*d.attrs)
    return LogData(r, scp)


NA = [({}, 0), (None, None)] + ATTRS[1:]
EX = [[], [("i", 5, 10, None, None, {})], [("d", 2.5, 0, 7, 9, {"k": "v"}), ("i", 0, BIG, BIG, 2**128 - 1, {"a": (1, 2), "bad": O})], [("d", -0.0, 3, 0, 0, None)], [("i", -2**63, 3, 1, None, {"z": 1}), ("d", 1.0, 3, None, 1, {})]]
NUM = {"attrs": NA, "start": [100, None, 0, BIG], "time": [200, 0, BIG], "value": [5, 0, -1, 2**63 - 1, -2**63, 1.5, 0.0, -0.0, float("inf"), float("nan"), 3.0], "ex": EX}
HIST = {"attrs": NA, "start": [100, 0, BIG], "time": [200, BIG], "sum": [6, 0, 1.5, -2.0, float("inf")], "min": [1, 0, -0.5, float("inf")], "max": [3, 0, 9.5, float("-inf")],
        "shape": [((1, 2), (5.0,)), ((0,), ()), ((0, 0, 7), (0, 2.5)), ((BIG, 0), (1,)), (tuple(range(16)), tuple(float(i) for i in range(15)))], "ex": EX}
EXP = {"attrs": NA, "start": [100, 0], "time": [200, BIG], "sum": [6, 0, 1.5], "min": [1, 0], "max": [3, 0.0], "scale": [0, 20, -10, 1], "zero": [0, 1, 2**40],
       "pos": [(0, (1, 2)), (-5, (0, 3, 0)), (2**31 - 1, (1,)), (7, ()), (-2**31, (2**33,)), (0, (0,))], "neg": [(0, ()), (3, (4,)), (-1, (0, 0, 1)), (0, (2,)), (-2**31, (2**33,)), (2**31 - 1, (1,))], "ex": EX}
METRIC = {"kind": ["gauge", "sum", "hist", "exp"], "name": ["m", "é"], "desc": ["d", "", None], "unit": ["1", "", None], "temp": [1, 2], "mono": [True, False], "n": [1, 2, 3]}
POINT = {"gauge": dict(NUM, start=[None]), "sum": NUM, "hist": HIST, "exp": EXP}


def x_ex(ex):
    return [{"attrs": x_attrs(a), "time": t, "d": fl(v) if k == "d" else None, "i": v if k == "i" else None, "span_id": sid(s) if s is not None and tr is not None else b"",
             "trace_id": tid(tr) if s is not None and tr is not None else b""} for k, v, t, s, tr, a in ex]


def x_num(d):
    f = isinstance(d.value, float)
    return {"attrs": x_attrs(d.attrs[0]), "start": d.start or 0, "time": d.time, "d": fl(d.value) if f else None, "i": None if f else d.value, "exemplars": x_ex(d.ex), "flags": 0}


def x_hist(d):
    return {"attrs": x_attrs(d.attrs[0]), "start": d.start, "time": d.time, "count": min(sum(d.shape[0]), BIG), "sum": fl(d.sum), "buckets": list(d.shape[0]), "bounds": [fl(b) for b in d.shape[1]],
            "exemplars": x_ex(d.ex), "flags": 0, "min": fl(d.min), "max": fl(d.max)}


def x_b(b):
    return {"offset": b[0], "counts": list(b[1])} if b[1] else None


def x_exp(d):
    return {"attrs": x_attrs(d.attrs[0]), "start": d.start, "time": d.time, "count": sum(d.pos[1]) + sum(d.neg[1]) + d.zero, "sum": fl(d.sum), "scale": d.scale, "zero": d.zero, "pos": x_b(d.pos), "neg": x_b(d.neg),
            "flags": 0, "exemplars": x_ex(d.ex), "min": fl(d.min), "max": fl(d.max), "thr": fl(0)}


XP = {"gauge": x_num, "sum": x_num, "hist": x_hist, "exp": x_exp}


def mk_point(kind, d):
    ex = [Exemplar(a, v, t, s, tr) for k, v, t, s, tr, a in d.ex]
    a = bounded(d.attrs[0], None)
    if kind in ("gauge", "sum"):
        return NumberDataPoint(a, d.start, d.time, d.value, ex)
    if kind == "hist":
        return HistogramDataPoint(a, d.start, d.time, min(sum(d.shape[0]), BIG), d.sum, d.shape[0], d.shape[1], d.min, d.max, ex)
    return ExponentialHistogramDataPoint(a, d.start, d.time, sum(d.pos[1]) + sum(d.neg[1]) + d.zero, d.sum, d.scale, d.zero, Buckets(*d.pos), Buckets(*d.neg), 0, d.min, d.max, ex)


def x_metric(m, pts):
    k = m.kind
    body = {"pts": [XP[k](p) for p in pts]}
    if k != "gauge":
        body["temp"] = m.temp
    if k == "sum":
        body["mono"] = m.mono
    out = {"name": m.name, "desc": m.desc or "", "unit": m.unit or "", "gauge": None, "sum": None, "hist": None, "exp": None}
    out[k] = body
    return out


def mk_metric(m, pts):
    p = [mk_point(m.kind, d) for d in pts]
    t = AggregationTemporality(m.temp)
    data = {"gauge": lambda: Gauge(p), "sum": lambda: Sum(p, t, m.mono), "hist": lambda: Histogram(p, t), "exp": lambda: ExponentialHistogram(p, t)}[m.kind]()
    return Metric(m.name, m.desc, m.unit, data)


RES = [Resource({}), Resource({"service.name": "a"}), Resource({"service.name": "a"}, "http://s"), Resource({"service.name": "b", "l": (1, 2), "t": True}), Resource({"t": 1, "l": (1, 2), "service.name": "b"})]
SCOPES = [None, InstrumentationScope("s"), InstrumentationScope("s", "1"), InstrumentationScope("s", "", "http://s"), InstrumentationScope("s", None, None, {"k": "v"}), InstrumentationScope("", None),
          InstrumentationScope("s", None, None, {"k": "w"}), InstrumentationScope("s", "1", "http://s", {"k": (1, 2), "b": True})]
LATTICE = {"span": SPAN, "log": LOG}


def base(f):
    return NS(**{k: v[0] for k, v in f.items()})


def alt(f, *choices):
    d = base(f)
    for k, i in choices:
        setattr(d, k, f[k][i])
    return d


def deviations(f, n):
    for r in range(1, n + 1):
        for ks in itertools.combinations(f, r):
            for idx in itertools.product(*(range(1, len(f[k])) for k in ks)):
                yield tuple(zip(ks, idx))


# ---------------------------------------------------------------- cases
def CASES(tier):
    n = 2 if tier == "quick" else 3
    for sig in ("span", "log"):
        yield ("one", sig, ())
        for c in deviations(LATTICE[sig], n):
            yield ("one", sig, c)
        one = [()] + list(deviations(LATTICE[sig], 1))
        for a in one:
            for b in one:
                yield ("seq", sig, a, b)
        for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            rs = RES[1:4] if k > 2 else RES
            ss = SCOPES[:5] if k > 2 else SCOPES
            ids = [(RES.index(r), SCOPES.index(s)) for r in rs for s in ss]
            for g in itertools.product(ids, repeat=k):
                if k < 4 or (len(set(g)) < 4 and g[0] <= g[-1]):
                    yield ("group", sig, g)
    for i in range(len(BADBODIES)):
        for pos in (0, 1, 2):
            yield ("badbody", i, pos)
    for kind in METRIC["kind"]:
        for c in deviations(POINT[kind], n):
            yield ("point", kind, c)
        for m in itertools.product(*(range(len(METRIC[k])) for k in ("name", "desc", "unit", "temp", "mono", "n"))):
            yield ("metric", kind, m)
        one = [()] + list(deviations(POINT[kind], 1))
        for a in one:
            for b in one:
                yield ("pseq", kind, a, b)
    shapes = ((1,), (2,), (1, 1), (2, 1), (1, 2), (3,), (1, 1, 1), ()) if tier == "quick" else ((1,), (2,), (1, 1), (2, 1), (1, 2), (3,), (1, 1, 1), (), (2, 2), (1, 0), (0,), (1, 3), (4,))
    for sh in shapes:  # resources -> scopes, each with 1-2 metrics of every kind
        nsc = sum(sh)
        for kinds in itertools.product(METRIC["kind"], repeat=min(nsc, 2)):
            for nm in itertools.product((1, 2), repeat=min(nsc, 3)):
                yield ("shape", sh, kinds, nm)
                if nsc > 1:
                    for rep in ((1, 9), (9, 1), (1, 1), (2, 2), (1, 2)):  # how many different resources and scopes: the others are repeated
                        yield ("shape", sh, kinds, nm, rep)


def canon(x):
    return repr(x)


def compare(ctx, got, want, what, case):
    g, w = sorted(map(canon, got)), sorted(map(canon, want))
    if g == w:
        return
    missing = [x for x in w if x not in g]
    extra = [x for x in g if x not in w]
    key = what
    if len(missing) == 1 and len(extra) == 1 and len(got) == len(want):
        gi = next(x for x in got if canon(x) == extra[0])
        wi = next(x for x in want if canon(x) == missing[0])
        if isinstance(gi[4], dict) and isinstance(wi[4], dict):
            d = [k for k in wi[4] if gi[4].get(k, O) != wi[4][k]] + [k for k in gi[4] if k not in wi[4]]
            key = f"{what}:{','.join(map(str, d))}" if d else key
    ctx.check(False, key, lambda: f"{case}: decoded {extra or 'nothing'} instead of {missing or 'nothing'} ({len(got)} items for {len(want)})")


def send(sig, items):
    """items: list of (fields, resource, scope)."""
    if sig == "span":
        return decode(encode_spans([mk_span(d, r, s) for d, r, s in items]).SerializeToString(), span), [(*x_res(r), *x_scope(s), x_span(d)) for d, r, s in items]
    return decode(encode_logs([mk_log(d, r, s) for d, r, s in items]).SerializeToString(), log), [(*x_res(r), *x_scope(s), x_log(d)) for d, r, s in items]


def c_one(ctx, sig, c):
    ctx.state(sig, c)
    got, want = send(sig, [(alt(LATTICE[sig], *c), RES[1], SCOPES[2])])
    compare(ctx, got, want, sig, ("one", sig, c))


def c_seq(ctx, sig, a, b):
    f = LATTICE[sig]
    got, want = send(sig, [(alt(f, *a), RES[1], SCOPES[2]), (alt(f, *b), RES[1], SCOPES[2])])
    compare(ctx, got, want, sig + "-pair", ("seq", sig, a, b))
    ctx.check([canon(x) for x in got] == [canon(x) for x in want], sig + "-order", lambda: f"order of {sig} items changed: {a} {b}")


def c_group(ctx, sig, g):
    ctx.state(sig, "g", g)
    items = []
    for i, (r, s) in enumerate(g):
        d = base(LATTICE[sig])
        if sig == "span":
            d.name = f"n{i}"
        else:
            d.body = f"n{i}"
        items.append((d, RES[r], SCOPES[s]))
    got, want = send(sig, items)
    compare(ctx, got, want, sig + "-group", ("group", sig, g))


def c_badbody(ctx, i, pos):
    ds = [alt(LOG) for _ in range(3)]
    for j, d in enumerate(ds):
        d.body = f"n{j}"
    mk = [mk_log(d, RES[1], SCOPES[2]) for d in ds]
    mk[pos].log_record.body = BADBODIES[i]
    got = [x[4] for x in decode(encode_logs(mk).SerializeToString(), log)]
    want = [x_log(d) for d in ds]
    ctx.check(len(got) == 3, "badbody-lost", lambda: f"body {BADBODIES[i]!r}: {len(got)} of 3 records encoded")
    for j in range(min(3, len(got))):
        if j == pos:
            text = str(BADBODIES[i]).encode("utf-8", "replace").decode()
            ctx.check(got[j]["body"] == x_any(text, True), "badbody-text", lambda: f"body {BADBODIES[i]!r} is sent as {got[j]['body']}")
            got[j] = dict(got[j], body=want[j]["body"])
        ctx.check(got[j] == want[j], "badbody-other", lambda: f"body {BADBODIES[i]!r} at {pos} changed record {j}: {got[j]}")


def mdata(structure):
    """structure: list of (resource, [(scope, [(metric ns, points)])])"""
    md = MetricsData([ResourceMetrics(r, [ScopeMetrics(s, [mk_metric(m, p) for m, p in ms], s.schema_url) for s, ms in scs], r.schema_url) for r, scs in structure])
    want = [(*x_res(r), *x_scope(s), x_metric(m, p)) for r, scs in structure for s, ms in scs for m, p in ms]
    return decode(encode_metrics(md).SerializeToString(), metric), want


def c_point(ctx, kind, c):
    ctx.state(kind, c)
    got, want = mdata([(RES[1], [(SCOPES[2], [(alt(METRIC, ("kind", METRIC["kind"].index(kind))), [alt(POINT[kind], *c)])])])])
    compare(ctx, got, want, kind, ("point", kind, c))


def c_metric(ctx, kind, m):
    ns = alt(METRIC, ("kind", METRIC["kind"].index(kind)), *zip(("name", "desc", "unit", "temp", "mono", "n"), m))
    pts = []
    for i in range(ns.n):
        d = base(POINT[kind])
        d.attrs = ({"i": i}, None)
        pts.append(d)
    got, want = mdata([(RES[2], [(SCOPES[7], [(ns, pts)])])])
    compare(ctx, got, want, kind + "-metric", ("metric", kind, m))


def c_pseq(ctx, kind, a, b):
    got, want = mdata([(RES[1], [(SCOPES[2], [(alt(METRIC, ("kind", METRIC["kind"].index(kind))), [alt(POINT[kind], *a), alt(POINT[kind], *b)])])])])
    compare(ctx, got, want, kind + "-pair", ("pseq", kind, a, b))


def c_shape(ctx, sh, kinds, nm, rep=(9, 9)):
    ctx.state(sh, kinds, nm, rep)
    st, j = [], 0
    for ri, nsc in enumerate(sh):
        scs = []
        for si in range(nsc):
            ms = []
            for mi in range(nm[j % len(nm)] if nm else 1):
                kind = kinds[(j + mi) % len(kinds)] if kinds else "sum"
                m = alt(METRIC, ("kind", METRIC["kind"].index(kind)))
                m.name = f"m{ri}.{si}.{mi}"
                d = base(POINT[kind])
                d.attrs = ({"i": j}, None)
                ms.append((m, [d]))
            j += 1
            scs.append((SCOPES[1 + (si + ri) % rep[1]], ms))
        st.append((RES[1 + ri % rep[0]], scs))
    got, want = mdata(st)
    got = [x for x in got if x[4] != "EMPTY"]
    compare(ctx, got, want, "shape", ("shape", sh, kinds, nm, rep))


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    ctx.step()
    CASE[case[0]](ctx, *case[1:])
