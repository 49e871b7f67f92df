"""E05: the Zipkin encodings represent every span faithfully."""
import itertools
import json
import logging
import os

from mc.props._wire import msg, parse
from opentelemetry.exporter.zipkin.encoder import Protocol
from opentelemetry.exporter.zipkin.json import ZipkinExporter
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanLimits, TracerProvider
from opentelemetry.sdk.trace.export import SpanExportResult
from opentelemetry.sdk.trace.id_generator import IdGenerator
from opentelemetry.trace import NonRecordingSpan, SpanContext, SpanKind, Status, StatusCode, TraceFlags, set_span_in_context

logging.disable(logging.CRITICAL)
ENC = ["v1", "v2"]
MAXES = [None, 1, 2, 5, 9, 10, 128, 0]
IDS = [(1, 1), ((1 << 128) - 1, (1 << 64) - 1), (0xAB << 100, 0xC << 40)]
PARENTS = [None, (5, False), ((1 << 64) - 1, True)]
KINDS = list(SpanKind)
TIMES = [(1000, 2000), (1499, 1998), (1500, 2499), (1_700_000_000_123_456_789, 1_700_000_000_123_457_288), (10, 10), (0, 501)]
NAMES = ["n", "", "\u00e9 \"x\"\n"]
STATUS = [None, Status(StatusCode.OK), Status(StatusCode.ERROR), Status(StatusCode.ERROR, "d\u00e9"), Status(StatusCode.ERROR, "long " * 30)]
ATTRS = [{}, {"s": "text", "b": True, "f": False}, {"i": 5, "neg": -3, "x": 1.5, "big": 1e300, "nan": float("nan")}, {"q": ("a", "bc"), "n": (1, 2, 3), "t": (True, False), "e": ()},
         {"long": "0123456789abcdef" * 12, "uni": "\u00e9" * 7}, {"m": ("ab", None, "c"), "fl": (1.5, -2.0)}, {"e": "", "k.\u00e9": "v"}, {"l": tuple("abcdefgh" * 9)}]
EVENTS = [[], [("e", 1499, {})], [("e", 1500, {"a": "x" * 200, "n": 3}), ("e", 2**60, {"q": ("a", "b"), "t": True})], [("\u00e9\"", 5, {"f": 1.5})]]
RES = [{"service.name": "svc"}, {"service.name": "other", "k": "v", "q": ("a", "b"), "n": 4}]
SCOPES = [("lib", "1.0"), ("lib", None), ("", None)]
FLAGS = [1, 0, 3]
FIELDS = {"ids": IDS, "parent": PARENTS, "kind": KINDS, "times": TIMES, "name": NAMES, "status": STATUS, "attrs": ATTRS, "events": EVENTS, "res": RES, "scope": SCOPES,
          "drop": [(0, 0, 0), (2, 1, 1), (0, 3, 0)]}
NODES = [(None, None, None), ("1.2.3.4", None, 80), (None, "2001:db8::1", None), ("10.0.0.1", "::1", 65535)]
ALPHA = ["a", "bc", "", None, True, 12, 1.5]


class Ids(IdGenerator):
    def generate_trace_id(self):
        return self.t

    def generate_span_id(self):
        return self.s


class Answer:
    def __init__(self, code):
        self.status_code, self.text = code, "t"


class Session:
    def __init__(self, codes=(200,)):
        self.headers, self.sent, self.codes, self.closed = {}, [], list(codes), 0

    def post(self, url, data, timeout):
        c = self.codes[min(len(self.sent), len(self.codes) - 1)]
        self.sent.append((url, data, timeout))
        if c == "raise":
            raise ConnectionError("refused")
        return Answer(c)

    def close(self):
        self.closed += 1


def exporter(enc, **kw):
    if enc == "proto":
        from opentelemetry.exporter.zipkin.proto.http import ZipkinExporter as X
        return X(**kw)
    return ZipkinExporter(Protocol.V1 if enc == "v1" else Protocol.V2, **kw)


def combos(r):
    """All settings where at most r fields differ from their first value."""
    names = list(FIELDS)
    for n in range(r + 1):
        for fs in itertools.combinations(names, n):
            for vals in itertools.product(*(range(1, len(FIELDS[f])) for f in fs)):
                yield tuple(zip(fs, vals))


def CASES(tier):
    for e in ENC:
        for c in combos(2 if tier == "quick" else 3):
            yield ("span", e, c, (0,) if tier != "quick" else (0, 3))
        for c in combos(1):
            yield ("span", e, c, tuple(range(len(MAXES))))
        for a in range(len(ATTRS)):
            for ev in range(len(EVENTS)):
                yield ("span", e, (("attrs", a), ("events", ev)), tuple(range(len(MAXES))))
        for r in range(4):
            for w in itertools.product(ALPHA, repeat=r):
                if len({type(x) for x in w if x is not None}) <= 1:
                    yield ("seq", e, w)
        for mx in range(0, 14):
            for n in range(0, 12):
                yield ("cut", e, mx, n)
        for n in range(len(NODES)):
            yield ("node", e, n)
        for codes in itertools.product((200, 202, 201, 204, 400, 404, 429, 500, 503, "raise"), repeat=2):
            yield ("status", e, codes)
        for w in itertools.product("xs", repeat=5):
            yield ("life", e, w)
        for w in itertools.product(range(3), repeat=4):
            yield ("batch", e, w)
        yield ("config", e)


def make(d, n=0):
    ids = Ids()
    dropped = d["drop"]
    attrs, events = dict(d["attrs"]), list(d["events"])
    lim = SpanLimits(max_span_attributes=len(attrs) if dropped[0] else 1000, max_events=len(events) if dropped[1] else 1000, max_links=0 if dropped[2] else 100)
    tp = TracerProvider(id_generator=ids, resource=Resource(d["res"]), shutdown_on_exit=False, span_limits=lim)
    ctx = None
    ids.t, ids.s = d["ids"]
    ids.s += n
    if d["parent"]:
        ctx = set_span_in_context(NonRecordingSpan(SpanContext(ids.t, d["parent"][0], d["parent"][1], TraceFlags(1))), {})
    pre = {f"!{i}": 0 for i in range(dropped[0])}
    s = tp.get_tracer(*d["scope"]).start_span(d["name"], ctx, d["kind"], {**pre, **attrs}, start_time=d["times"][0])
    for i in range(dropped[1]):
        s.add_event("!", {}, 1)
    for e in events:
        s.add_event(e[0], e[2], e[1])
    for i in range(dropped[2]):
        s.add_link(SpanContext(9, 9, False))
    if d["status"]:
        s.set_status(d["status"])
    s.end(d["times"][1])
    return s


def us(ns):
    return (ns + 500) // 1000


def text(v):
    return str(v).lower() if isinstance(v, bool) else str(v)


def tag(v, mx):
    """The documented rendering, None when the value is not representable within the length."""
    if isinstance(v, (bool, int, float, str)):
        return text(v)[:mx] if mx else text(v)
    els = [None if x is None else text(x) for x in v]
    if mx == 1:
        return None
    for n in range(len(els), -1, -1):
        s = json.dumps(els[:n], separators=(",", ":"))
        if not mx or len(s) <= mx:
            return s


def x_tags(d, mx):
    out = {}
    for src in (d["attrs"], d["res"]):
        for k, v in src.items():
            t = tag(v, mx)
            if t is not None:
                out[k] = t
    name, version = d["scope"][0], d["scope"][1] or ""
    out.update({"otel.library.name": name, "otel.library.version": version, "otel.scope.name": name, "otel.scope.version": version})
    if d["status"]:
        out["otel.status_code"] = d["status"].status_code.name
        if d["status"].status_code is StatusCode.ERROR:
            out["error"] = d["status"].description or ""
    for n, k in zip(d["drop"], ("attributes", "events", "links")):
        if n:
            out[f"otel.dropped_{k}_count"] = str(n)
    return out


def x_span(enc, d, mx, n=0, endpoint=None):
    out = {"traceId": f"{d['ids'][0]:032x}", "id": f"{d['ids'][1] + n:016x}", "name": d["name"], "timestamp": us(d["times"][0]), "duration": us(d["times"][1] - d["times"][0]),
           "parentId": f"{d['parent'][0]:016x}" if d["parent"] else None, "debug": True, "endpoint": endpoint or {"serviceName": d["res"]["service.name"]}}
    if enc != "v1":
        out["kind"] = None if d["kind"] is SpanKind.INTERNAL else d["kind"].name
    t = x_tags(d, mx)
    if enc == "v1" and mx:
        t = {k: v[:mx] for k, v in t.items()}
    out["tags"] = t
    out["events"] = [(us(e[1]), {e[0]: {k: (v[:mx] if mx and isinstance(v, str) else list(v) if isinstance(v, tuple) else v) for k, v in e[2].items()}}) for e in d["events"]]
    return out


def decode(enc, data):
    """The spans of a request body in one common form."""
    out = []
    if enc == "proto":
        p = parse(data)
        assert set(p) <= {1}, p
        for b in p.get(1, []):
            m = msg(b, traceId=(1, "bytes"), parentId=(2, "bytes", "opt"), id=(3, "bytes"), kind=(4, "uint"), name=(5, "str"), timestamp=(6, "f64"), duration=(7, "uint"),
                    local=(8, lambda x: msg(x, serviceName=(1, "str"), ipv4=(2, "bytes", "opt"), ipv6=(3, "bytes", "opt"), port=(4, "int", "opt"))),
                    events=(10, lambda x: msg(x, timestamp=(1, "f64"), value=(2, "str")), "rep"), tags=(11, lambda x: msg(x, k=(1, "str"), v=(2, "str")), "rep"), debug=(12, "bool"))
            import ipaddress
            ep = {k: (str(ipaddress.ip_address(v)) if k.startswith("ip") else v) for k, v in m["local"].items() if v is not None}
            keys = [t["k"] for t in m["tags"]]
            assert len(set(keys)) == len(keys), keys
            out.append({"traceId": m["traceId"].hex(), "id": m["id"].hex(), "name": m["name"], "timestamp": m["timestamp"], "duration": m["duration"],
                        "parentId": m["parentId"].hex() if m["parentId"] is not None else None, "debug": m["debug"], "endpoint": ep,
                        "kind": [None, "CLIENT", "SERVER", "PRODUCER", "CONSUMER"][m["kind"]], "tags": {t["k"]: t["v"] for t in m["tags"]},
                        "events": [(e["timestamp"], json.loads(e["value"])) for e in m["events"]], **({"?": m["?"]} if "?" in m else {})})
        return out
    for j in json.loads(data):
        j = dict(j)
        o = {k: j.pop(k, None) for k in ("traceId", "id", "name", "timestamp", "duration", "parentId", "debug")}
        ann = j.pop("annotations", None) or []
        o["events"] = [(a["timestamp"], json.loads(a["value"])) for a in ann]
        if enc == "v1":
            ba = j.pop("binaryAnnotations", None) or []
            eps = [a["endpoint"] for a in ann + ba]
            o["endpoint"] = eps[0] if eps and all(e == eps[0] for e in eps) else eps
            o["tags"] = {a["key"]: a["value"] for a in ba}
            assert len(o["tags"]) == len(ba), ba
        else:
            o["endpoint"], o["kind"], o["tags"] = j.pop("localEndpoint", None), j.pop("kind", None), j.pop("tags", None)
        if j:
            o["?"] = j
        out.append(o)
    return out


def setting(c):
    d = {k: v[0] for k, v in FIELDS.items()}
    d.update({k: FIELDS[k][i] for k, i in c})
    return d


def run(ctx, enc, spans, want, what, codes=(200,), **kw):
    s = Session(codes)
    x = exporter(enc, session=s, **kw)
    try:
        r = x.export(spans)
    except Exception as e:
        ctx.check(False, "raises", f"{what}: export raises {e!r}")
        return x, s
    ctx.step()
    ctx.check(r is SpanExportResult.SUCCESS, "result", lambda: f"{what}: {r}")
    if len(s.sent) != 1:
        ctx.check(False, "requests", f"{what}: {len(s.sent)} requests")
        return x, s
    got = decode(enc, s.sent[0][1])
    if repr(got) != repr(want):
        norm = lambda v: json.dumps(v, sort_keys=True)
        bad = [(k, g.get(k), w.get(k)) for g, w in zip(got, want) for k in sorted(set(g) | set(w)) if norm(g.get(k)) != norm(w.get(k))]
        ctx.check(len(got) == len(want) and not bad, bad[0][0] if bad else "count", lambda: f"{what}: {len(got)} of {len(want)} spans; (field, got, expected): {bad[:2]}")
    return x, s


def c_span(ctx, enc, c, maxes):
    d = setting(c)
    s = make(d)
    for m in maxes:
        mx = MAXES[m]
        run(ctx, enc, [s], [x_span(enc, d, mx)], f"{enc} {[(k, d[k]) for k, _ in c]} maximum {mx}", max_tag_value_length=mx)
    ctx.state(enc, c)


def c_seq(ctx, enc, w):
    d = setting(())
    d["attrs"] = {"q": w, "z": "after"}
    s = make(d)
    for mx in (None, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 20):
        run(ctx, enc, [s], [x_span(enc, d, mx)], f"{enc} attribute {w} maximum {mx}", max_tag_value_length=mx)


def c_cut(ctx, enc, mx, n):
    d = setting(())
    d["attrs"] = {"k": "abcdefghijkl"[:n], "u": "\u00e9\U0001f600z" * (n % 4), "i": 10 ** n, "neg": -10 ** n, "f": 10.5 ** n}
    d["events"] = [("e", 1, dict(d["attrs"]))]
    d["status"] = Status(StatusCode.ERROR, "abcdefghijkl"[:n])
    run(ctx, enc, [make(d)], [x_span(enc, d, mx)], f"{enc} lengths {n} maximum {mx}", max_tag_value_length=mx)


def c_node(ctx, enc, n):
    v4, v6, port = NODES[n]
    d = setting(())
    ep = {"serviceName": "svc"}
    if v4:
        ep["ipv4"] = v4
    if v6:
        ep["ipv6"] = v6
    if port:
        ep["port"] = port
    run(ctx, enc, [make(d)], [x_span(enc, d, None, endpoint=ep)], f"{enc} node {NODES[n]}", local_node_ipv4=v4, local_node_ipv6=v6, local_node_port=port)


def c_status(ctx, enc, codes):
    d = setting(())
    s = Session(codes)
    x = exporter(enc, session=s)
    for c in codes:
        span = make(d)
        try:
            r = x.export([span])
        except Exception:
            r = "raised"
        ctx.step()
        ok = c in (200, 202)
        ctx.check((r is SpanExportResult.SUCCESS) == ok, "answer", lambda: f"{enc} answer {c}: {r}")
        if c != "raise":
            ctx.check(r in (SpanExportResult.SUCCESS, SpanExportResult.FAILURE), "answer-kind", lambda: f"{enc} answer {c}: {r}")
    ctx.check(len(s.sent) == 2 and s.sent[0][1] == s.sent[1][1], "requests", lambda: f"{enc} answers {codes}: {len(s.sent)} requests")


def c_life(ctx, enc, w):
    d = setting(())
    s = Session()
    x = exporter(enc, session=s)
    n, closed = 0, False
    for op in w:
        if op == "x":
            r = x.export([make(d)])
            n += not closed
            ctx.check(r is (SpanExportResult.FAILURE if closed else SpanExportResult.SUCCESS), "life-result", lambda: f"{enc} {w}: {r}")
        else:
            x.shutdown()
            closed = True
        ctx.check(len(s.sent) == n, "life-sent", lambda: f"{enc} {w}: {len(s.sent)} requests instead of {n}")
        ctx.step()
    ctx.check(s.closed == closed, "life-closed", lambda: f"{enc} {w}: session closed {s.closed} times")


def c_batch(ctx, enc, w):
    """Batches of several spans, exported one after the other through one exporter; the service is that of the batch."""
    pool = [setting(()), setting((("attrs", 1), ("events", 1), ("parent", 1))), setting((("status", 3), ("kind", 1), ("name", 2)))]
    for r in (0, 1):
        ds = [dict(pool[i], res=RES[r]) for i in w]
        run(ctx, enc, [make(d, n) for n, d in enumerate(ds)], [x_span(enc, d, None, n) for n, d in enumerate(ds)], f"{enc} batch {w}")
    s = Session()
    x = exporter(enc, session=s)
    for n, i in enumerate(w):
        d = dict(pool[0], res=RES[i % 2])
        x.export([make(d, n)])
        got = decode(enc, s.sent[-1][1])
        want = [x_span(enc, d, None, n)]
        ctx.check(json.dumps(got, sort_keys=True) == json.dumps(want, sort_keys=True), "batches", lambda: f"{enc} services {w}: {got} instead of {want}")


def c_config(ctx, enc):
    d = setting(())
    default = "http://localhost:9411/api/v2/spans"
    for env in ({}, {"E": "http://env:1/x"}, {"T": "7"}, {"E": "http://env:1/x", "T": "3"}, {"E": ""}):
        for url, tm in itertools.product((None, "http://arg/y"), (None, 4)):
            names = {"E": "OTEL_EXPORTER_ZIPKIN_ENDPOINT", "T": "OTEL_EXPORTER_ZIPKIN_TIMEOUT"}
            for k, n in names.items():
                os.environ.pop(n, None)
                if k in env:
                    os.environ[n] = env[k]
            try:
                s = Session()
                x = exporter(enc, session=s, endpoint=url, timeout=tm)
                x.export([make(d)])
            finally:
                for n in names.values():
                    os.environ.pop(n, None)
            want = (url or env.get("E") or default, tm or int(env.get("T", 10)))
            got = (s.sent[0][0], s.sent[0][2])
            ctx.check(got == want, "config", lambda: f"{enc} environment {env} arguments {url, tm}: {got} instead of {want}")
            ctx.check(s.headers.get("Content-Type") == ("application/x-protobuf" if enc == "proto" else "application/json"), "content-type", lambda: f"{enc}: {s.headers}")
            ctx.step()


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    CASE[case[0]](ctx, *case[1:])
