"""Stand-ins for the OTLP servers: a gRPC channel and an HTTP transport answering from a script."""
import gzip
import logging
import os
import zlib

import grpc
import requests
from mc import sched
from mc.props import e01
from requests.adapters import BaseAdapter

import opentelemetry.exporter.otlp.proto.grpc.exporter as gx
import opentelemetry.exporter.otlp.proto.grpc._log_exporter as glog
import opentelemetry.exporter.otlp.proto.grpc.metric_exporter as gmetric
import opentelemetry.exporter.otlp.proto.grpc.trace_exporter as gtrace
import opentelemetry.exporter.otlp.proto.http._log_exporter as hlog
import opentelemetry.exporter.otlp.proto.http.metric_exporter as hmetric
import opentelemetry.exporter.otlp.proto.http.trace_exporter as htrace
from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import ExportLogsServiceResponse
from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceResponse
from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceResponse
from opentelemetry.sdk._logs.export import LogExportResult
from opentelemetry.sdk.metrics.export import MetricExportResult
from opentelemetry.sdk.trace.export import SpanExportResult

logging.disable(logging.CRITICAL)


class Rpc(grpc.RpcError):
    def __init__(self, code, md=()):
        self._c, self._m = code, md

    def code(self):
        return self._c

    def details(self):
        return "details"

    def trailing_metadata(self):
        return self._m

    def initial_metadata(self):
        return ()


class Server:
    """Shared record of what was sent; answers come from script (list of functions or values), the last one repeating."""

    def __init__(self, script, point=None):
        self.script, self.point = list(script), point
        self.sent = []  # dicts
        self.closed = False
        self.active = 0
        self.bad = []

    def answer(self, rec):
        rec["t"] = sched.CLOCK.now
        i = len(self.sent)
        self.sent.append(rec)
        self.active += 1
        try:
            if self.point:
                self.point("rpc")
            return self.script[min(i, len(self.script) - 1)]
        finally:
            self.active -= 1


class Channel:
    def __init__(self, server, target=None, creds=None, compression=None):
        self.s, self.target, self.creds, self.compression = server, target, creds, compression

    def unary_unary(self, path, request_serializer=None, response_deserializer=None, *a, **k):
        def call(request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
            if self.s.closed:
                raise ValueError("Cannot invoke RPC on closed channel!")
            b = self.s.answer(dict(path=path, body=request_serializer(request), timeout=timeout, metadata=tuple(metadata or ()), target=self.target, compression=self.compression, creds=self.creds))
            if isinstance(b, Exception):
                raise b
            return {"trace": ExportTraceServiceResponse, "metrics": ExportMetricsServiceResponse, "logs": ExportLogsServiceResponse}[path.split(".")[3]]()
        return call

    unary_stream = stream_unary = stream_stream = unary_unary

    def close(self):
        if self.s.active:
            self.s.bad.append("the channel was closed during a request")
        self.s.closed = True


class Adapter(BaseAdapter):
    def __init__(self, server):
        super().__init__()
        self.s = server

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        body = request.body
        enc = request.headers.get("Content-Encoding")
        if enc == "gzip":
            body = gzip.decompress(body)
        elif enc == "deflate":
            body = zlib.decompress(body)
        a = self.s.answer(dict(path=request.url, method=request.method, body=body, raw=request.body, timeout=timeout, metadata=dict(request.headers), verify=verify, cert=cert))
        if isinstance(a, Exception):
            raise a
        r = requests.Response()
        r.status_code, hdrs = a if isinstance(a, tuple) else (a, {})
        r.headers.update(hdrs)
        r.reason = "reason"
        r._content = b""
        r.url = request.url
        r.request = request
        return r

    def close(self):
        self.s.closed = True


def grpc_exporter(cls, server, **kw):
    saved = gx.insecure_channel, gx.secure_channel
    gx.insecure_channel = lambda target, options=None, compression=None, **k: Channel(server, target, None, compression)
    gx.secure_channel = lambda target, creds, options=None, compression=None, **k: Channel(server, target, creds, compression)
    try:
        return cls(**kw)
    finally:
        gx.insecure_channel, gx.secure_channel = saved


def session(server):
    s = requests.Session()
    s.trust_env = False
    for p in ("http://", "https://"):
        s.mount(p, Adapter(server))
    return s


def http_exporter(cls, server, **kw):
    return cls(session=session(server), **kw)


GRPC = {"span": gtrace.OTLPSpanExporter, "metric": gmetric.OTLPMetricExporter, "log": glog.OTLPLogExporter}
HTTP = {"span": htrace.OTLPSpanExporter, "metric": hmetric.OTLPMetricExporter, "log": hlog.OTLPLogExporter}
RESULT = {"span": SpanExportResult, "metric": MetricExportResult, "log": LogExportResult}
SIGPATH = {"span": "traces", "metric": "metrics", "log": "logs"}
KINDS = [("grpc", s) for s in GRPC] + [("http", s) for s in HTTP]


def make(kind, server, **kw):
    proto, sig = kind
    return grpc_exporter(GRPC[sig], server, **kw) if proto == "grpc" else http_exporter(HTTP[sig], server, **kw)


def payload(sig, n=2):
    """What to export, and what a reader of the request must find."""
    if sig == "span":
        items = []
        for i in range(n):
            d = e01.base(e01.SPAN)
            d.name = f"s{i}"
            items.append((d, e01.RES[1], e01.SCOPES[2]))
        return [e01.mk_span(d, r, s) for d, r, s in items], sorted(repr((*e01.x_res(r), *e01.x_scope(s), e01.x_span(d))) for d, r, s in items)
    if sig == "log":
        items = []
        for i in range(n):
            d = e01.base(e01.LOG)
            d.body = f"s{i}"
            items.append((d, e01.RES[1], e01.SCOPES[2]))
        return [e01.mk_log(d, r, s) for d, r, s in items], sorted(repr((*e01.x_res(r), *e01.x_scope(s), e01.x_log(d))) for d, r, s in items)
    m = e01.alt(e01.METRIC, ("kind", 1))
    pts = [e01.alt(e01.NUM, ("value", i + 1)) for i in range(n)]
    md = e01.MetricsData([e01.ResourceMetrics(e01.RES[1], [e01.ScopeMetrics(e01.SCOPES[2], [e01.mk_metric(m, pts)], "")], "")])
    return md, [repr((*e01.x_res(e01.RES[1]), *e01.x_scope(e01.SCOPES[2]), e01.x_metric(m, pts)))]


def read(sig, body):
    return sorted(repr(x) for x in e01.decode(body, {"span": e01.span, "log": e01.log, "metric": e01.metric}[sig]))


class Env:
    """Temporary environment."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.saved = dict(os.environ)
        for k in list(os.environ):
            if k.startswith("OTEL_"):
                del os.environ[k]
        os.environ.update({k: v for k, v in self.kw.items() if v is not None})

    def __exit__(self, *a):
        os.environ.clear()
        os.environ.update(self.saved)
