"""D01: console, JSON and in-memory outputs reproduce the telemetry they are given."""
import datetime
import itertools
import json
import logging
import os

from opentelemetry import trace
from opentelemetry._logs import SeverityNumber
from opentelemetry.context import Context
from opentelemetry.metrics import Observation
from opentelemetry.sdk._logs import LoggerProvider, LogLimits, LogRecord
from opentelemetry.sdk._logs.export import ConsoleLogExporter, InMemoryLogExporter, LogExportResult, SimpleLogRecordProcessor
from opentelemetry.sdk.metrics import AlwaysOffExemplarFilter, AlwaysOnExemplarFilter, MeterProvider
from opentelemetry.sdk.metrics import Exemplar
from opentelemetry.sdk.metrics.export import (
    AggregationTemporality, Buckets, ConsoleMetricExporter, ExponentialHistogram, ExponentialHistogramDataPoint, Gauge, Histogram, HistogramDataPoint,
    InMemoryMetricReader, Metric, MetricExportResult, MetricsData, NumberDataPoint, ResourceMetrics, ScopeMetrics, Sum)
from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import ReadableSpan, TracerProvider
from opentelemetry.sdk.trace.export import ConsoleSpanExporter, SimpleSpanProcessor, SpanExportResult
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.trace import SpanContext, SpanKind, Status, StatusCode, TraceFlags, TraceState

logging.disable(logging.CRITICAL)
ATTRS = [None, {"a": 1}, {"s": "\u00e9\n\"\\", "b": True, "f": 1.5, "l": ["x", None, "y"], "n": (1, 2), "e": ()}]
TS = [TraceState(), TraceState([("k", "v")]), TraceState([("k", "v"), ("b", "1")])]
IDS = [(1, 1), (0xDEADBEEF, 0xFF), (2**128 - 1, 2**64 - 1)]
TIMES = [0, 1, 1000, 1_600_000_000_123_456_000, 1_700_000_000_999_999_999, 999_999_999_000]
STATUS = [(StatusCode.UNSET, None), (StatusCode.OK, None), (StatusCode.ERROR, None), (StatusCode.ERROR, "why \u00e9")]


class Odd:
    def __str__(self):
        return "odd"


BODIES = [None, "", "text \u00e9", 0, 1.5, False, ["a", 1, None], {"k": {"n": [1, "x"]}}, b"", b"\x00\xff", {"k": b"v", "l": [b"a", "b"]}, Odd(), ValueError("odd"), {"k": Odd()}]
SEV = [None] + list(SeverityNumber)
OPS = ["e1", "e2", "e0", "get", "clear", "shut"]
SHAPES = [[], [[]], [[0]], [[1]], [[2], [0, 1]], [[1, 1], []]]
RESOURCES = [{}, {"service.name": "s", "n": 1, "l": ["a", "b"]}]


def CASES(tier):
    for a, k, st, i, s, e in itertools.product(ATTRS, SpanKind, STATUS, IDS, TIMES[:4], TIMES[2:5]):
        yield ("span", (ATTRS.index(a), k, st, i, s, e))
    for p, ts, evs, lks, r in itertools.product(range(3), range(3), itertools.product(range(3), repeat=2), itertools.product(range(3), repeat=2), range(2)):
        yield ("parts", (p, ts, evs, lks, r))
    for n in range(4 if tier == "quick" else 6):
        for t in itertools.product(TIMES, repeat=n if n < 3 else 2):
            yield ("times", t)
    yield ("bare",)
    for b, s, a in itertools.product(range(len(BODIES)), range(len(SEV)), range(3)):
        yield ("log", (b, s, a))
    for t, o, i, lim in itertools.product([None] + TIMES, [None] + TIMES, [None, (0, 0)] + IDS, (None, 1, 0)):
        yield ("log2", (t, o, i, lim))
    for r, sc in itertools.product(range(2), range(3)):
        for w in itertools.product(("c", "u", "g", "h", "x", "oc", "og"), repeat=2 if tier == "quick" else 3):
            for ex in (0, 1):
                yield ("metrics", (r, sc, w, ex))
    yield ("metrics", (0, 0, (), 0))
    for kind, n, te, mono, de, un, sh in itertools.product("sghx", range(3), (1, 2), (False, True), (None, "", "d \u00e9"), (None, "", "ms"), range(len(SHAPES))):
        if kind == "g" and (te, mono) != (1, False) or kind in "hx" and mono:
            continue
        yield ("raw", (kind, n, te, mono, de, un, sh))
    for sig in ("span", "log"):
        for w in itertools.product(OPS, repeat=6 if tier == "quick" else 7):
            yield ("memory", (sig, w))
    for w in itertools.product(("add", "obs", "get", "flush", "collect", "shut"), repeat=5 if tier == "quick" else 6):
        yield ("reader", w)
    for sig in ("span", "log", "metric"):
        for n in range(4):
            for how in ("default", "custom", "fresh"):
                for batches in (1, 2):
                    yield ("console", (sig, n, how, batches))


# ------------------------------------------------------------ expectations
def j(x):
    """A value as JSON shows it."""
    if isinstance(x, dict):
        return {k: j(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [j(v) for v in x]
    return x


def time_ok(text, ns):
    if not isinstance(text, str) or not text.endswith("Z"):
        return False
    t = datetime.datetime.strptime(text, "%Y-%m-%dT%H:%M:%S.%fZ").replace(tzinfo=datetime.timezone.utc)
    got = (t - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) // datetime.timedelta(microseconds=1)
    return abs(got - ns / 1000) <= 1.5


def context_ok(doc, sc):
    return doc["trace_id"] == "0x%032x" % sc.trace_id and doc["span_id"] == "0x%016x" % sc.span_id and doc["trace_state"] == str(
        ["{key=%s, value=%s}" % kv for kv in sc.trace_state.items()])


def span_doc(ctx, what, doc, name, sc, parent, kind, start, end, status, attrs, events, links, res):
    def ck(c, m):
        ctx.check(c, "span-json", lambda: f"{what}: {m} in {doc}")
    ck(set(doc) >= {"name", "context", "kind", "parent_id", "start_time", "end_time", "status", "attributes", "events", "links", "resource"}, "missing part")
    ck(doc["name"] == name, "name")
    ck(context_ok(doc["context"], sc), "context")
    ck(doc["parent_id"] == (None if parent is None else "0x%016x" % parent), "parent")
    ck(doc["kind"] == f"SpanKind.{kind.name}", "kind")
    ck(time_ok(doc["start_time"], start) and time_ok(doc["end_time"], end), "times")
    ck(doc["status"] == {"status_code": status[0].name, **({"description": status[1]} if status[1] else {})}, "status")
    ck(doc["attributes"] == j(attrs or {}), "attributes")
    ck(len(doc["events"]) == len(events), "number of events")
    for d, (n, t, a) in zip(doc["events"], events):
        ck(d["name"] == n and time_ok(d["timestamp"], t) and (d["attributes"] or {}) == j(a or {}), f"event {n}")
    ck(len(doc["links"]) == len(links), "number of links")
    for d, (c, a) in zip(doc["links"], links):
        ck(context_ok(d["context"], c) and (d["attributes"] or {}) == j(a or {}), "link")
    ck(doc["resource"] == {"attributes": j(res), "schema_url": ""}, "resource")


class Stream:
    """A buffering stream: only what is flushed is visible."""

    def __init__(self):
        self.buf, self.shown = [], ""

    def write(self, s):
        self.buf.append(s)
        return len(s)

    def flush(self):
        self.shown += "".join(self.buf)
        self.buf = []


def documents(text):
    dec, out, i = json.JSONDecoder(), [], 0
    while i < len(text):
        d, i = dec.raw_decode(text, i)
        out.append(d)
        if text[i:i + len(os.linesep)] != os.linesep:
            return out, f"document {len(out)} is not followed by a line end"
        i += len(os.linesep)
    return out, None


def spans_world(res=None):
    out, mem = Stream(), InMemorySpanExporter()
    tp = TracerProvider(sampler=ALWAYS_ON, resource=Resource(res or {}), shutdown_on_exit=False)
    tp.add_span_processor(SimpleSpanProcessor(mem))
    tp.add_span_processor(SimpleSpanProcessor(ConsoleSpanExporter(out=out)))
    return tp, mem, out


def parent_ctx(ids, ts=TS[0], flags=1):
    return trace.set_span_in_context(trace.NonRecordingSpan(SpanContext(ids[0], ids[1], True, TraceFlags(flags), ts)), Context())


def both(ctx, what, mem, out, n):
    """The JSON form of every finished span, as to_json and as printed."""
    fin = mem.get_finished_spans()
    ctx.check(len(fin) == n, "memory", lambda: f"{what}: in-memory exporter holds {len(fin)} spans, expected {n}")
    docs, bad = documents(out.shown)
    ctx.check(bad is None, "console", lambda: f"{what}: {bad}")
    for s, d in itertools.zip_longest(fin, docs):
        one, two = json.loads(s.to_json()), json.loads(s.to_json(indent=None))
        ctx.check(one == two == d, "console", lambda: f"{what}: console printed {d}, to_json gives {one} and {two}")
    return list(zip(fin, docs))


def c_span(ctx, p):
    a, kind, st, ids, start, end = p
    tp, mem, out = spans_world(RESOURCES[1])
    s = tp.get_tracer("t").start_span("sp\u00e4n", parent_ctx(ids), kind, ATTRS[a], start_time=start)
    if st[0] is not StatusCode.UNSET:
        s.set_status(Status(*st))
    s.end(end)
    for f, d in both(ctx, p, mem, out, 1):
        span_doc(ctx, p, d, "sp\u00e4n", SpanContext(ids[0], s.context.span_id, False), ids[1], kind, start, end, st, ATTRS[a], [], [], RESOURCES[1])


def c_parts(ctx, p):
    par, ts, evs, lks, r = p
    tp, mem, out = spans_world(RESOURCES[r])
    c = Context() if par == 0 else parent_ctx(IDS[par], TS[ts])
    links = [trace.Link(SpanContext(IDS[i][0], IDS[i][1], True, TraceFlags(1), TS[i]), ATTRS[i]) for i in lks]
    s = tp.get_tracer("t").start_span("x", c, links=links, start_time=5000)
    for k, i in enumerate(evs):
        s.add_event(f"e{k}", ATTRS[i], TIMES[i])
    s.end(7000)
    tid = s.context.trace_id
    for f, d in both(ctx, p, mem, out, 1):
        span_doc(ctx, p, d, "x", SpanContext(tid, s.context.span_id, False, TraceFlags(1), TS[ts] if par else TS[0]), IDS[par][1] if par else None,
                 SpanKind.INTERNAL, 5000, 7000, STATUS[0], {}, [(f"e{k}", TIMES[i], ATTRS[i]) for k, i in enumerate(evs)],
                 [(link.context, ATTRS[i]) for link, i in zip(links, lks)], RESOURCES[r])


def c_times(ctx, t):
    tp, mem, out = spans_world()
    tr = tp.get_tracer("t")
    for i, x in enumerate(t):
        s = tr.start_span(f"s{i}", Context(), start_time=x)
        s.add_event("e", None, x)
        s.end(x + 2000)
    for (f, d), x in zip(both(ctx, t, mem, out, len(t)), t):
        ok = time_ok(d["start_time"], x) and time_ok(d["end_time"], x + 2000) and time_ok(d["events"][0]["timestamp"], x)
        ctx.check(ok, "span-times", lambda: f"times {x}: {d}")


def c_bare(ctx):
    """Spans built without optional parts, and spans that have not ended."""
    for kw in ({}, {"context": SpanContext(1, 2, False)}, {"attributes": {"a": (1,)}}, {"start_time": 0}, {"end_time": 0}, {"start_time": 0, "end_time": 0}):
        d = json.loads(ReadableSpan("n", resource=Resource({}), **kw).to_json())
        for k in ("start_time", "end_time"):
            ok = d[k] is None if k not in kw else time_ok(d[k], 0)
            ctx.check(ok, "span-times", lambda: f"span with {kw}: {k} shown as {d[k]}")
        ctx.check((d["context"] is None) == ("context" not in kw) and (d["attributes"] or {}) == j(kw.get("attributes", {})), "span-json", lambda: f"{kw}: {d}")
    tp, mem, out = spans_world()
    s = tp.get_tracer("t").start_span("open", Context(), start_time=1000)
    d = json.loads(s.to_json())
    ctx.check(d["end_time"] is None and time_ok(d["start_time"], 1000) and not out.shown, "span-json", lambda: f"open span: {d}")
    ro = s._readable_span() if hasattr(s, "_readable_span") else s
    ctx.check(json.loads(ro.to_json()) == d, "span-json", "snapshot of an open span differs")


def body_ok(got, want):
    """Bytes have no JSON form of their own; any string stands for them."""
    if isinstance(want, bytes):
        return isinstance(got, str)
    if isinstance(want, (Odd, Exception)):
        return got == "odd"
    if isinstance(want, dict):
        return isinstance(got, dict) and got.keys() == want.keys() and all(body_ok(got[k], v) for k, v in want.items())
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(map(body_ok, got, want))
    return got == want and type(got) is type(want)


def log_world(res):
    out, mem = Stream(), InMemoryLogExporter()
    lp = LoggerProvider(resource=Resource(res), shutdown_on_exit=False)
    lp.add_log_record_processor(SimpleLogRecordProcessor(ConsoleLogExporter(out=out)))
    lp.add_log_record_processor(SimpleLogRecordProcessor(mem))
    return lp, mem, out


def logs_shown(ctx, what, mem, out, n):
    fin = mem.get_finished_logs()
    docs, bad = documents(out.shown)
    ctx.check(bad is None and len(docs) == len(fin) == n, "console", lambda: f"{what}: {bad or len(docs)} documents and {len(fin)} finished, expected {n}")
    for f, d in zip(fin, docs):
        ctx.check(json.loads(f.log_record.to_json()) == json.loads(f.log_record.to_json(indent=None)) == d, "console", lambda: f"{what}: {d}")
    return docs


def c_log(ctx, p):
    b, s, a = p
    lp, mem, out = log_world(RESOURCES[1])
    sev, body = SEV[s], BODIES[b]
    lg = lp.get_logger("l")
    lg.emit(LogRecord(timestamp=1000, observed_timestamp=2000, trace_id=3, span_id=4, trace_flags=TraceFlags(1), severity_text=sev and sev.name, severity_number=sev,
                      body=body, resource=Resource(RESOURCES[1]), attributes=ATTRS[a]))
    lg.emit(LogRecord(timestamp=1000, body="next", resource=Resource({})))
    for d, k in zip(logs_shown(ctx, p, mem, out, 2), (0, 1)):
        if k:
            ctx.check(d["body"] == "next", "log-json", lambda: f"{p}: second record shown as {d}")
            continue
        ok = (body_ok(d["body"], body) and d["severity_number"] == (sev and sev.value) and d["severity_text"] == (sev and sev.name)
              and (d["attributes"] or {}) == j(ATTRS[a] or {}) and d["dropped_attributes"] == 0 and time_ok(d["timestamp"], 1000)
              and time_ok(d["observed_timestamp"], 2000) and d["trace_id"] == "0x%032x" % 3 and d["span_id"] == "0x%016x" % 4 and d["trace_flags"] == 1
              and d["resource"] == {"attributes": j(RESOURCES[1]), "schema_url": ""})
        ctx.check(ok, "log-json", lambda: f"body {body!r} severity {sev} attributes {ATTRS[a]}: {d}")


def c_log2(ctx, p):
    import warnings
    t, o, ids, lim = p
    lp, mem, out = log_world({})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lp.get_logger("l").emit(LogRecord(timestamp=t, observed_timestamp=o, trace_id=ids and ids[0], span_id=ids and ids[1], body="b", resource=Resource({}),
                                          attributes={"a": 1, "b": 2}, limits=LogLimits(max_attributes=lim)))
    (d,) = logs_shown(ctx, p, mem, out, 1)
    kept = [{"a": 1, "b": 2}, {"b": 2}, {}][0 if lim is None else 2 - lim]
    ok = ((d["timestamp"] is None if t is None else time_ok(d["timestamp"], t)) and (o is None or time_ok(d["observed_timestamp"], o))
          and d["trace_id"] in (["", None] if ids is None else ["0x%032x" % ids[0]]) and d["span_id"] in (["", None] if ids is None else ["0x%016x" % ids[1]])
          and (d["attributes"] or {}) == kept and d["dropped_attributes"] == 2 - len(kept) and d["severity_number"] is None)
    ctx.check(ok, "log-json", lambda: f"{p}: {d}")


def c_metrics(ctx, p):
    r, sc, w, ex = p
    reader = InMemoryMetricReader()
    views = [View(instrument_name="x*", aggregation=ExponentialBucketHistogramAggregation()), View(instrument_name="c1", attribute_keys={"a"})]
    mp = MeterProvider([reader], Resource(RESOURCES[r]), AlwaysOnExemplarFilter() if ex else AlwaysOffExemplarFilter(), shutdown_on_exit=False, views=views)
    m = mp.get_meter("m", *[(), ("v1",), ("v2", "http://s", {"k": [1, 2]})][sc])
    vals = [(1, ATTRS[1]), (2.5, ATTRS[2]), (-3, None)]
    for i, k in enumerate(w):
        n, cb = f"{k[-1]}{i}", [lambda o: [Observation(v, a) for v, a in vals[:2]]]
        if k in ("oc", "og"):
            {"oc": m.create_observable_counter, "og": m.create_observable_gauge}[k](n, cb, "u", f"d{i}")
            continue
        x = {"c": m.create_counter, "u": m.create_up_down_counter, "g": m.create_gauge, "h": m.create_histogram, "x": m.create_histogram}[k](n, "u", f"d{i}")
        for v, a in vals if k in "ug" else vals[:2]:
            getattr(x, {"g": "set", "h": "record", "x": "record"}.get(k, "add"))(v, a)
    md = reader.get_metrics_data() if w else MetricsData([])
    if md is None:
        return
    out = Stream()
    res = ConsoleMetricExporter(out=out).export(md)
    docs, bad = documents(out.shown)
    ctx.check(res is MetricExportResult.SUCCESS and bad is None and len(docs) == 1, "console", lambda: f"{p}: {bad} {len(docs)} documents")
    d = json.loads(md.to_json())
    ctx.check(d == json.loads(md.to_json(indent=None)) == docs[0], "console", lambda: f"{p}: console and to_json differ")
    want = {"resource_metrics": [{
        "resource": {"attributes": j(RESOURCES[r]), "schema_url": ""}, "schema_url": rm.schema_url,
        "scope_metrics": [{
            "scope": {"name": "m", "version": [None, "v1", "v2"][sc] if sc else s.scope.version, "schema_url": "http://s" if sc == 2 else "",
                      "attributes": {"k": [1, 2]} if sc == 2 else None}, "schema_url": s.schema_url,
            "metrics": [{"name": x.name, "unit": "u", "description": x.description, "data": data(x.data)} for x in s.metrics]} for s in rm.scope_metrics]}
        for rm in md.resource_metrics]}
    ctx.check(strip(d) == strip(want), "metrics-json", lambda: f"{p}: {d} expected {want}")


def c_raw(ctx, p):
    """Hand-built metric data of every shape, empty parts included."""
    kind, n, te, mono, de, un, sh = p
    te = AggregationTemporality(te)
    ex = Exemplar({"f": 1}, 1.5, 7, 3, 4)
    pts = []
    for i in range(n):
        at, a, b, exs = [{}, {"k": "v", "l": (1, 2)}][i % 2], i, 10**18 + i, [ex] * i
        if kind in "sg":
            pts.append(NumberDataPoint(at, a, b, [0, -2.5][i % 2], exs))
        elif kind == "h":
            pts.append(HistogramDataPoint(at, a, b, i, -1.5 * i, [0, i], [0.5], 0, 3 * i, exs))
        else:
            pts.append(ExponentialHistogramDataPoint(at, a, b, i, 0.0, -i, i, Buckets(i, [i]), Buckets(-i, []), i, 0, 1, exs))
    body = {"s": lambda: Sum(pts, te, mono), "g": lambda: Gauge(pts), "h": lambda: Histogram(pts, te), "x": lambda: ExponentialHistogram(pts, te)}[kind]()
    m = Metric("m", de, un, body)
    sc = InstrumentationScope("n", "v", "http://s", {"k": 1})
    res = Resource({"a": 1}, "http://r")
    md = MetricsData([ResourceMetrics(res, [ScopeMetrics(sc, [m] * k, "http://s") for k in r], "http://r") for r in SHAPES[sh]])
    d = json.loads(md.to_json())
    mm = {"name": "m", "description": de or "", "unit": un or "", "data": data(body)}
    want = {"resource_metrics": [{"resource": {"attributes": {"a": 1}, "schema_url": "http://r"}, "schema_url": "http://r", "scope_metrics": [
        {"scope": {"name": "n", "version": "v", "schema_url": "http://s", "attributes": {"k": 1}}, "schema_url": "http://s", "metrics": [mm] * k} for k in r]} for r in SHAPES[sh]]}
    ctx.check(d == want, "metrics-json", lambda: f"{p}: {d} expected {want}")
    ctx.check(json.loads(body.to_json()) == mm["data"] and json.loads(m.to_json(indent=None)) == mm, "metrics-json", lambda: f"{p}: parts {body.to_json()}")
    ctx.state(p)


def strip(x):
    """Empty mappings and absent ones are not told apart."""
    if isinstance(x, dict):
        return {k: {} if v is None and "attributes" in k else strip(v) for k, v in x.items()}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def data(x):
    d = {"data_points": [point(q) for q in x.data_points]}
    if hasattr(x, "aggregation_temporality"):
        d["aggregation_temporality"] = int(x.aggregation_temporality)
    if hasattr(x, "is_monotonic"):
        d["is_monotonic"] = x.is_monotonic
    return d


def point(q):
    d = {}
    for k in ("start_time_unix_nano", "time_unix_nano", "value", "count", "sum", "min", "max", "scale", "zero_count", "flags"):
        if hasattr(q, k):
            d[k] = getattr(q, k)
    d["attributes"] = j(dict(q.attributes))
    for k in ("bucket_counts", "explicit_bounds"):
        if hasattr(q, k):
            d[k] = list(getattr(q, k))
    for k in ("positive", "negative"):
        if hasattr(q, k):
            d[k] = {"offset": getattr(q, k).offset, "bucket_counts": list(getattr(q, k).bucket_counts)}
    d["exemplars"] = [{"filtered_attributes": j(dict(e.filtered_attributes or {})), "value": e.value, "time_unix_nano": e.time_unix_nano, "span_id": e.span_id,
                       "trace_id": e.trace_id} for e in q.exemplars]
    return d


# ------------------------------------------------------------ exporters as stores
def c_memory(ctx, p):
    sig, w = p
    mem = InMemorySpanExporter() if sig == "span" else InMemoryLogExporter()
    ok, fail = (SpanExportResult.SUCCESS, SpanExportResult.FAILURE) if sig == "span" else (LogExportResult.SUCCESS, LogExportResult.FAILURE)
    get = mem.get_finished_spans if sig == "span" else mem.get_finished_logs
    want, shut, items, given = [], False, itertools.count(), []
    for k, o in enumerate(w):
        ctx.step()
        if o[0] == "e":
            batch = [f"item{next(items)}" for _ in range(int(o[1]))]
            r = mem.export(batch)
            ctx.check(r is (fail if shut else ok), "memory-result", lambda: f"{w[:k + 1]}: export returned {r}")
            if not shut:
                want += batch
            batch.append("later")
        elif o == "get":
            g = get()
            given.append((g, list(want)))
            ctx.check(list(g) == want, "memory", lambda: f"{w[:k + 1]}: holds {g}, expected {want}")
        elif o == "clear":
            mem.clear()
            want = []
        else:
            mem.shutdown()
            shut = True
    ctx.check(list(get()) == want, "memory", lambda: f"{w}: holds {get()}, expected {want}")
    for g, snap in given:
        ctx.check(list(g) == snap, "memory-alias", lambda: f"{w}: a list handed out changed to {g} from {snap}")
    ctx.state(p[0], tuple(want), shut)


def c_reader(ctx, w):
    r = InMemoryMetricReader()
    mp = MeterProvider([r], Resource({}), AlwaysOffExemplarFilter(), shutdown_on_exit=False)
    m = mp.get_meter("m")
    c, obs, n = m.create_counter("c"), [], 0
    m.create_observable_gauge("o", [lambda o: list(obs)])
    shut = False
    for k, o in enumerate(w + ("get",)):
        ctx.step()
        if o == "add":
            c.add(1)
            n += not shut
        elif o == "obs":
            obs[:] = [Observation(len(obs) and obs[0].value + 1)]
        elif o == "flush":
            mp.force_flush()
        elif o == "collect":
            r.collect()
        elif o == "shut":
            if not shut:
                mp.shutdown()
            shut = True
        elif not shut:
            md = r.get_metrics_data()
            got = {x.name: x.data.data_points[0].value for rm in (md.resource_metrics if md else ()) for s in rm.scope_metrics for x in s.metrics}
            want = {**({"c": n} if n else {}), **({"o": obs[0].value} if obs else {})}
            ctx.check(got == want, "reader", lambda: f"{w[:k]}: reader returned {got}, expected {want}")
    ctx.state(w, n)


def c_console(ctx, p):
    """Each exporter prints to its own stream, in its own format, each item once and in order, and everything is visible on return."""
    sig, n, how, batches = p
    out, other = Stream(), Stream()
    kw = {"out": out}
    if how == "custom":
        kw["formatter"] = lambda x: f"<{label(x)}>"
    X = {"span": ConsoleSpanExporter, "log": ConsoleLogExporter, "metric": ConsoleMetricExporter}[sig]
    x, _ = X(**kw), X(out=other)
    want = []
    for b in range(batches):
        names = [f"b{b}i{i}" for i in range(n)]
        if sig == "span":
            r = x.export([ReadableSpan(q, resource=Resource({}), start_time=1, end_time=2) for q in names])
            good = SpanExportResult.SUCCESS
        elif sig == "log":
            lp, mem = LoggerProvider(resource=Resource({}), shutdown_on_exit=False), InMemoryLogExporter()
            lp.add_log_record_processor(SimpleLogRecordProcessor(mem))
            for q in names:
                lp.get_logger("l").emit(LogRecord(timestamp=1, body=q, resource=Resource({})))
            r, good = x.export(list(mem.get_finished_logs())), LogExportResult.SUCCESS
        else:
            rd = InMemoryMetricReader()
            mp = MeterProvider([rd], Resource({}), AlwaysOffExemplarFilter(), shutdown_on_exit=False)
            for q in names:
                mp.get_meter("m").create_counter(q).add(1)
            md = rd.get_metrics_data() or MetricsData([])
            r, good = x.export(md), MetricExportResult.SUCCESS
        want += [",".join(names)] if sig == "metric" else names
        ctx.check(r is good, "console-result", lambda: f"{p}: {r}")
        if how == "custom":
            ctx.check(out.shown == "".join(f"<{q}>" for q in want), "console", lambda: f"{p}: printed {out.shown!r}")
        else:
            docs, bad = documents(out.shown)
            got = [{"span": lambda d: d["name"], "log": lambda d: d["body"],
                    "metric": lambda d: ",".join(y["name"] for rm in d["resource_metrics"] for s in rm["scope_metrics"] for y in s["metrics"])}[sig](d) for d in docs]
            ctx.check(bad is None and got == want, "console", lambda: f"{p}: printed {got}, expected {want}, {bad}")
    ctx.check(other.shown == "", "console", "printed to another exporter's stream")
    x.shutdown()


def label(x):
    if isinstance(x, ReadableSpan):
        return x.name
    if isinstance(x, LogRecord):
        return x.body
    return ",".join(y.name for rm in x.resource_metrics for s in rm.scope_metrics for y in s.metrics)


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    ctx.step()
    CASE[case[0]](ctx, *case[1:])
    ctx.state(case)
