"""E03: splitting a metric batch preserves every data point exactly once."""
import itertools

import grpc
from mc.props import _otlp as O
from mc.props import e01
from mc.props._otlp import MetricExportResult as R
from mc.props._otlp import Rpc, Server

from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter

KINDS = ["sum", "gauge", "hist", "exp"]


def lists(n, sub, budget):
    """All lists of at most n parts from sub(budget) with a total size within budget; yields (value, size)."""
    yield (), 0
    if n == 0:
        return
    for v, s in sub(budget):
        for rest, t in lists(n - 1, sub, budget - s):
            yield (v,) + rest, s + t


def trees(pts, nodes):
    """Trees resource > scope > metric > points with at most pts points and `nodes` inner nodes in all."""
    def met(b):
        for p in range(min(3, pts) + 1):
            if b >= 1:
                yield p, 1

    def sco(b):
        if b >= 1:
            for v, s in lists(3, met, b - 1):
                yield v, s + 1

    def res(b):
        if b >= 1:
            for v, s in lists(2, sco, b - 1):
                yield v, s + 1
    for v, _ in lists(2, res, nodes):
        if sum(p for r in v for s in r for p in s) <= pts:
            yield v


def CASES(tier):
    pts, nodes = (7, 8) if tier == "quick" else (9, 9)
    for t in trees(pts, nodes):
        n = sum(p for r in t for s in r for p in s)
        yield ("split", t, 0)
        if n and tier != "quick":
            yield ("split", t, 1)
    for t in (((((1,),),), (((2, 1),), ((1,),)), (((1, 1), (1,)),), (((3,),), ((2,),)))):
        n = sum(p for r in t for s in r for p in s)
        for mx in range(1, n + 1):
            for out in itertools.product("SPRF", repeat=min(-(-n // mx), 4)):
                yield ("outcome", t, mx, out)


def build(t, off):
    """MetricsData with distinguishable parts, and the flat list of (resource, scope, metric, point) it holds."""
    st, flat = [], []
    j = k = 0
    for ri, r in enumerate(t):
        scs = []
        for si, s in enumerate(r):
            ms = []
            for mi, p in enumerate(s):
                kind = KINDS[(j + off) % 4]
                m = e01.alt(e01.METRIC, ("kind", e01.METRIC["kind"].index(kind)), ("temp", (j // 2) % 2), ("mono", j % 2))
                m.name, m.desc, m.unit = f"m{mi}", f"d{j}", f"u{j % 3}"
                j += 1
                pts = []
                for _ in range(p):
                    d = e01.base(e01.POINT[kind])
                    d.attrs = ({"i": k}, None)
                    k += 1
                    pts.append(d)
                ms.append((m, pts))
            scs.append((e01.SCOPES[1 + si], ms))
        st.append((e01.RES[1 + ri], scs))
    md = e01.MetricsData([e01.ResourceMetrics(r, [e01.ScopeMetrics(s, [e01.mk_metric(m, p) for m, p in ms], s.schema_url) for s, ms in scs], r.schema_url) for r, scs in st])
    for r, scs in st:
        for s, ms in scs:
            for m, p in ms:
                for x in p:
                    flat.append(repr((e01.x_res(r), e01.x_scope(s), e01.x_metric(m, [x]))))
    return md, flat


def points(body, ctx, what, full=False):
    out = []
    for r, rs, s, ss, m in e01.decode(body, e01.metric):
        kind = next((k for k in KINDS if m[k] is not None), None) if m != "EMPTY" else None
        if full:
            ctx.check(kind is not None and m[kind]["pts"], "empty", lambda: f"{what}: a batch has a part without points: {m}")
        if kind is None:
            continue
        for p in m[kind]["pts"]:
            one = dict(m)
            one[kind] = dict(m[kind], pts=[p])
            out.append(repr(((r, rs), (s, ss), one)))
    return out


def c_split(ctx, t, off):
    md, flat = build(t, off)
    before = repr(md)
    n = len(flat)
    for mx in list(range(1, n + 2)) + [None]:
        srv = Server([0])
        x = O.grpc_exporter(OTLPMetricExporter, srv, max_export_batch_size=mx)
        res = x.export(md)
        ctx.step(len(srv.sent))
        ctx.state(t, mx)
        what = f"shape {t} maximum {mx}"
        ctx.check(res is R.SUCCESS, "result", lambda: f"{what}: {res}")
        got = [points(s["body"], ctx, what, mx is not None) for s in srv.sent]
        ctx.check([p for g in got for p in g] == flat, "points", lambda: f"{what}: batches {[len(g) for g in got]} hold {[p for g in got for p in g]} instead of {flat}")
        if mx is not None:
            ctx.check(all(1 <= len(g) <= mx for g in got), "size", lambda: f"{what}: batches of {[len(g) for g in got]} points")
        else:
            ctx.check(len(got) == 1, "one", lambda: f"{what}: {len(got)} requests without a maximum")
        ctx.check(repr(md) == before, "input-changed", lambda: f"{what}: the data given was changed")


def c_outcome(ctx, t, mx, out):
    """Each batch succeeds, fails permanently, succeeds after a transient failure, or fails after many."""
    md, flat = build(t, 0)
    script, per = [], {"S": [0], "P": [Rpc(grpc.StatusCode.INTERNAL)], "R": [Rpc(grpc.StatusCode.UNAVAILABLE), 0], "F": [Rpc(grpc.StatusCode.UNAVAILABLE)] * 20}
    n = -(-len(flat) // mx)
    outs = [out[i % len(out)] for i in range(n)]
    probe = Server([Rpc(grpc.StatusCode.UNAVAILABLE)])
    y = O.grpc_exporter(OTLPMetricExporter, probe)
    y.export(md)
    per["F"] = per["F"][:len(probe.sent)]
    for o in outs:
        script += per[o]
    srv = Server(script + [0])
    x = O.grpc_exporter(OTLPMetricExporter, srv, max_export_batch_size=mx)
    res = x.export(md)
    ctx.step(len(srv.sent))
    ok = all(o in "SR" for o in outs)
    what = f"shape {t} maximum {mx} outcomes {outs}"
    ctx.check((res is R.SUCCESS) == ok and res in (R.SUCCESS, R.FAILURE), "result", lambda: f"{what}: {res}")
    uniq = []
    for s in srv.sent:
        if not uniq or uniq[-1] != s["body"]:
            uniq.append(s["body"])
    ctx.check([p for b in uniq for p in points(b, ctx, what)] == flat, "points", lambda: f"{what}: the requests do not hold every point once")


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    ctx.step()
    with O.Env():
        CASE[case[0]](ctx, *case[1:])
