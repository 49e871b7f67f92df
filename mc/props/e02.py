"""E02: OTLP exporters retry transient failures only, and stop when told (every sequence of answers; configuration)."""
import itertools

import grpc
from mc import sched
from mc.props import _otlp as O
from mc.props._otlp import KINDS, RESULT, Rpc, Server, make, payload, read

from google.rpc.error_details_pb2 import RetryInfo
from opentelemetry.exporter.otlp.proto.http import Compression as HC

G = grpc.StatusCode
RETRY = [G.UNAVAILABLE, G.CANCELLED, G.DEADLINE_EXCEEDED, G.RESOURCE_EXHAUSTED, G.ABORTED, G.OUT_OF_RANGE, G.DATA_LOSS]
PERM = [G.INVALID_ARGUMENT, G.UNKNOWN, G.NOT_FOUND, G.ALREADY_EXISTS, G.PERMISSION_DENIED, G.FAILED_PRECONDITION, G.UNIMPLEMENTED, G.INTERNAL, G.UNAUTHENTICATED]


def info(sec, nanos=0):
    r = RetryInfo()
    r.retry_delay.seconds = sec
    r.retry_delay.nanos = nanos
    return (("google.rpc.retryinfo-bin", r.SerializeToString()), ("other", "x"))


# name -> (answer, requested delay or None)
INFOS = {"plain": ((), None), "0": (info(0), 0.0), "5": (info(5), 5.0), "1.5": (info(1, 500000000), 1.5), "100": (info(100), 100.0), "other": ((("x-y", "z"),), None),
         "garbage": ((("google.rpc.retryinfo-bin", b"\xff\xff"),), "any"), "negative": (info(-3), "any")}
HRETRY = [503, 408, 500, 502, 504, 599]
HPERM = [400, 401, 403, 404, 407, 409, 413, 415, 422, 431, 499]
HREDIR = [300, 304, 306]  # answered without a place to go to: nothing was accepted
HOK = [200, 202, 204, 299]


def answers(proto):
    if proto == "grpc":
        r = [("R", Rpc(c), None) for c in RETRY] + [("R", Rpc(RETRY[i % 3], md), d) for i, (md, d) in enumerate(INFOS.values())][1:]
        return r, [("P", Rpc(c), None) for c in PERM], [("S", 0, None)]
    return ([("R", c, None) for c in HRETRY] + [("R", (503, {"Retry-After": "7"}), "any")], [("P", c, None) for c in HPERM + HREDIR] + [("P", (400, {"Retry-After": "1"}), None)], [("S", c, None) for c in HOK])


def CASES(tier):
    for k in range(len(KINDS)):
        r, p, s = answers(KINDS[k][0])
        fin = [("p", i) for i in range(len(p))] + [("s", i) for i in range(len(s))]
        depth = 2 if tier == "quick" else 3
        for n in range(depth + 1):
            for rs in itertools.product(range(len(r)), repeat=n):
                for f in fin:
                    yield ("seq", k, rs, f)
        for n in range(depth + 1, 8):
            alpha = (0, len(RETRY) + 1) if KINDS[k][0] == "grpc" else (0, 1)
            for rs in itertools.product(alpha, repeat=n):
                for f in (("p", 0), ("s", 0)):
                    yield ("seq", k, rs, f)
        for a in range(len(r)):
            yield ("forever", k, a)
        for a in range(len(r)):
            yield ("shut", k, a)
        # settings: explicit, signal variable, general variable, none
        for ep, hd, to, co in itertools.product(range(8), range(4), range(4), range(4)):
            yield ("config", k, ep, hd, to, co)
        for h in range(5):
            yield ("headers", k, h)
        for h in range(len(ENVH)):
            for v in range(2):
                yield ("envheaders", k, h, v)


def run(k, script, n=2):
    srv = Server([a for _, a, _ in script])
    x = make(KINDS[k], srv)
    data, want = payload(KINDS[k][1], n)
    sched.CLOCK.sleeps.clear()
    res = x.export(data)
    return srv, x, res, want, list(sched.CLOCK.sleeps)


def sends(ctx, k, srv, want, what):
    for i, s in enumerate(srv.sent):
        got = read(KINDS[k][1], s["body"])
        ctx.check(got == want, "payload", lambda: f"{KINDS[k]} {what}: request {i} carries {got}, expected {want}")


def limit(k):
    """The number of requests after which the exporter gives up, with all answers transient."""
    r = answers(KINDS[k][0])[0]
    return len(run(k, [r[0]] * 1)[0].sent)


def delays(ctx, what, t, script, key="delays"):
    """t: request times."""
    prev = 0
    for i in range(1, len(t)):
        d = (t[i] - t[i - 1]) / 1e9
        asked = script[min(i - 1, len(script) - 1)][2]
        if asked == "any":
            ctx.check(d >= 0, key, lambda: f"{what}: waited {d}")
            continue
        if asked is not None:
            ctx.check(abs(d - asked) < 0.5, "asked-delay", lambda: f"{what}: waited {d}s before request {i}, the server asked for {asked}s")
            continue
        ctx.check(d > prev - 0.2 and 0.5 <= d <= 65, key, lambda: f"{what}: waited {d}s before request {i} after {prev}s before")
        prev = max(prev, d)


def c_seq(ctx, k, rs, f):
    r, p, s = answers(KINDS[k][0])
    script = [r[i] for i in rs] + [(p if f[0] == "p" else s)[f[1]]]
    lim = limit(k)
    what = f"{KINDS[k]} answers {[(n, str(getattr(a, '_c', a)), d) for n, a, d in script]}"
    srv, x, res, want, sl = run(k, script)
    ctx.step(len(srv.sent))
    ctx.state(k, rs, f)
    n = min(len(script), lim)
    ctx.check(len(srv.sent) == n, "requests", lambda: f"{what}: {len(srv.sent)} requests sent, expected {n}")
    ok = f[0] == "s" and len(script) <= lim
    R = RESULT[KINDS[k][1]]
    lax = KINDS[k][0] == "http" and script[-1][1] in HREDIR and len(script) <= lim and res is R.SUCCESS
    ctx.check(res is (R.SUCCESS if ok else R.FAILURE), "unfollowed-redirect-reported-as-success" if lax else "result", lambda: f"{what}: reported {res}")
    sends(ctx, k, srv, want, what)
    delays(ctx, what, [s["t"] for s in srv.sent], script)
    # a later export starts afresh
    srv.script, srv.sent = [s[0][1]], []
    data, want = payload(KINDS[k][1], 1)
    res = x.export(data)
    ctx.check(res is R.SUCCESS and len(srv.sent) == 1, "after", lambda: f"{what}: the next export reported {res} with {len(srv.sent)} requests")
    sends(ctx, k, srv, want, what + " next")


def c_forever(ctx, k, a):
    """Only transient answers: gives up after a bounded number of requests spread over an increasing, bounded delay."""
    script = [answers(KINDS[k][0])[0][a]]
    srv, x, res, want, sl = run(k, script)
    what = f"{KINDS[k]} always {script[0][1]} {script[0][2]}"
    R = RESULT[KINDS[k][1]]
    ctx.step(len(srv.sent))
    ctx.check(res is R.FAILURE, "result", lambda: f"{what}: reported {res}")
    ctx.check(3 <= len(srv.sent) <= 12, "limit", lambda: f"{what}: {len(srv.sent)} requests")
    sends(ctx, k, srv, want, what)
    delays(ctx, what, [s["t"] for s in srv.sent], script)
    if script[0][2] is None:
        d = [(y["t"] - z["t"]) / 1e9 for z, y in zip(srv.sent, srv.sent[1:])]
        ctx.check(d[-1] > d[0] * 2, "backoff", lambda: f"{what}: delays {d} do not increase")


def c_shut(ctx, k, a):
    R = RESULT[KINDS[k][1]]
    srv = Server([answers(KINDS[k][0])[2][0][1]])
    x = make(KINDS[k], srv)
    data, want = payload(KINDS[k][1])
    if a % 2:
        ctx.check(x.export(data) is R.SUCCESS, "first", lambda: f"{KINDS[k]}: first export failed")
    n = len(srv.sent)
    for _ in range(2):
        x.shutdown()
        for _ in range(2):
            t = sched.CLOCK.now
            res = x.export(data)
            ctx.check(res is R.FAILURE and len(srv.sent) == n, "after-shutdown", lambda: f"{KINDS[k]}: export after shutdown reported {res}, {len(srv.sent) - n} requests sent")
            ctx.check(sched.CLOCK.now - t < 10**9, "after-shutdown-delay", lambda: f"{KINDS[k]}: export after shutdown took {(sched.CLOCK.now - t) / 1e9}s")
    if hasattr(x, "force_flush"):
        ctx.check(x.force_flush() is not False, "flush", lambda: f"{KINDS[k]}: flush failed")


EP = ["arg", "signal", "general", "none", "arg+env", "signal+general", "general/", "signal-slash"]


def c_config(ctx, k, ep, hd, to, co):
    proto, sig = KINDS[k]
    P = {"span": "TRACES", "metric": "METRICS", "log": "LOGS"}[sig]
    env, kw = {}, {}
    e = EP[ep]
    if "arg" in e:
        kw["endpoint"] = "http://argh:1/custom"
    if "signal" in e or "env" in e:
        env[f"OTEL_EXPORTER_OTLP_{P}_ENDPOINT"] = "http://sigh:2/custom" + ("/" if "slash" in e else "")
    if "general" in e or "env" in e:
        env["OTEL_EXPORTER_OTLP_ENDPOINT"] = "http://genh:3/base" + ("/" if e.endswith("/") else "")
    url = {"arg": "http://argh:1/custom", "arg+env": "http://argh:1/custom", "signal": "http://sigh:2/custom", "signal+general": "http://sigh:2/custom", "signal-slash": "http://sigh:2/custom/",
           "general": f"http://genh:3/base/v1/{O.SIGPATH[sig]}", "general/": f"http://genh:3/base/v1/{O.SIGPATH[sig]}", "none": f"http://localhost:4318/v1/{O.SIGPATH[sig]}"}[e]
    host = {"a": "argh:1", "s": "sigh:2", "g": "genh:3", "n": "localhost:4317"}[e[0]]
    hdr = {}
    if hd == 0:
        kw["headers"] = hdr = {"a": "1", "x-k": "v w"}
    if hd in (0, 1):
        env[f"OTEL_EXPORTER_OTLP_{P}_HEADERS"] = "b=2,c=x%20y"
    if hd in (0, 1, 2):
        env["OTEL_EXPORTER_OTLP_HEADERS"] = "d=4"
    hdr = [hdr, {"b": "2", "c": "x y"}, {"d": "4"}, {}][hd]
    if to == 0:
        kw["timeout"] = 3
    if to in (0, 1):
        env[f"OTEL_EXPORTER_OTLP_{P}_TIMEOUT"] = "4"
    if to in (0, 1, 2):
        env["OTEL_EXPORTER_OTLP_TIMEOUT"] = "5"
    tmo = [3, 4, 5, 10][to]
    if co == 0:
        kw["compression"] = grpc.Compression.Deflate if proto == "grpc" else HC.Deflate
    if co in (0, 1):
        env[f"OTEL_EXPORTER_OTLP_{P}_COMPRESSION"] = "gzip"
    if co == 2:
        env["OTEL_EXPORTER_OTLP_COMPRESSION"] = " GZIP"
    enc = ["deflate", "gzip", "gzip", None][co]
    srv = Server([answers(proto)[0][0][1], answers(proto)[2][0][1]])
    with O.Env(**env):
        x = make(KINDS[k], srv, **kw)
    data, want = payload(sig)
    for _ in range(2):
        x.export(data)
    ctx.step(4)
    what = f"{KINDS[k]} {kw} {env}"
    ctx.check(len(srv.sent) == 3, "requests", lambda: f"{what}: {len(srv.sent)} requests")
    for s in srv.sent:
        md = dict(s["metadata"])
        if proto == "http":
            ctx.check(s["path"] == url, "endpoint", lambda: f"{what}: sent to {s['path']}, expected {url}")
            ctx.check(s["method"] == "POST" and md.get("Content-Type") == "application/x-protobuf", "content-type", lambda: f"{what}: {s['method']} {md}")
            ctx.check(md.get("Content-Encoding") == enc, "compression", lambda: f"{what}: encoding {md.get('Content-Encoding')}, expected {enc}")
            allowed = {"user-agent", "accept-encoding", "accept", "connection", "content-type", "content-length", "content-encoding"}
        else:
            ctx.check(s["target"] == host and s["creds"] is None, "endpoint", lambda: f"{what}: sent to {s['target']}, expected {host}")
            c = {"deflate": grpc.Compression.Deflate, "gzip": grpc.Compression.Gzip, None: grpc.Compression.NoCompression}[enc]
            ctx.check((s["compression"] or grpc.Compression.NoCompression) == c, "compression", lambda: f"{what}: compression {s['compression']}, expected {c}")
            allowed = {"user-agent"}
        ctx.check(s["timeout"] == tmo, "timeout", lambda: f"{what}: timeout {s['timeout']}, expected {tmo}")
        low = {k.lower(): v for k, v in md.items()}
        ctx.check("otel-otlp-exporter-python" in low.get("user-agent", "").lower(), "user-agent", lambda: f"{what}: {md}")
        own = {k: v for k, v in low.items() if k not in allowed}
        ctx.check(own == hdr, "headers", lambda: f"{what}: headers {own}, expected {hdr}")
    sends(ctx, k, srv, want, what)


HEADERS = [("a=1,b=2", {"a": "1", "b": "2"}), ({"a": "1", "b": "2"}, {"a": "1", "b": "2"}), ((("a", "1"), ("b", "2")), {"a": "1", "b": "2"}), ((("a", "1"), ("a", "2")), None), ({}, {})]


ENVH = [("authorization=Basic YWJj", {"authorization": "Basic YWJj"}), ("authorization=Basic%20YWJj", {"authorization": "Basic YWJj"}), ("A-b=1, c = two words ,d=", {"a-b": "1", "c": "two words", "d": ""}),
        ("a=1,broken,b=x=y", {"a": "1", "b": "x=y"}), ("a=1,b=%2C", {"a": "1", "b": ","})]


def c_envheaders(ctx, k, h, v):
    """Headers given in the environment as the W3C baggage-like list, values with or without URL encoding."""
    proto, sig = KINDS[k]
    val, want = ENVH[h]
    srv = Server([answers(proto)[2][0][1]])
    P = {"span": "TRACES", "metric": "METRICS", "log": "LOGS"}[sig]
    with O.Env(**{f"OTEL_EXPORTER_OTLP_{P + '_' if v else ''}HEADERS": val}):
        x = make(KINDS[k], srv)
    x.export(payload(sig)[0])
    md = srv.sent[0]["metadata"]
    low = {a.lower(): b for a, b in (md.items() if proto == "http" else md)}
    own = {a: b for a, b in low.items() if a in ("a", "b", "c", "d", "a-b", "authorization", "broken")}
    ctx.check(own == want, "headers", lambda: f"{KINDS[k]} header variable {val!r}: {own}, expected {want}")


def c_headers(ctx, k, h):
    proto, sig = KINDS[k]
    val, want = HEADERS[h]
    if proto == "http" and not isinstance(val, dict):
        return
    srv = Server([answers(proto)[2][0][1]])
    with O.Env():
        x = make(KINDS[k], srv, headers=val)
    x.export(payload(sig)[0])
    md = [(a.lower(), b) for a, b in (srv.sent[0]["metadata"].items() if proto == "http" else srv.sent[0]["metadata"])]
    if want is None:
        ctx.check([p for p in md if p[0] == "a"] == [("a", "1"), ("a", "2")], "headers", lambda: f"{KINDS[k]} headers {val}: {md}")
        return
    own = {a: b for a, b in md if a in ("a", "b")}
    ctx.check(own == want, "headers", lambda: f"{KINDS[k]} headers {val}: {md}")


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    ctx.step()
    with O.Env():
        CASE[case[0]](ctx, *case[1:])
