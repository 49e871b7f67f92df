"""K01: configuration from the environment selects exactly what it names."""
import itertools
import logging
import os
import re
import tempfile
from urllib.parse import unquote

import importlib_metadata
from mc import sched
from mc.loader import M_time
from mc.props import _otlp as O
from mc.props.g01 import reset

from opentelemetry import _events, _logs, context as octx, metrics, trace
from opentelemetry.sdk._configuration import _OTelSDKConfigurator
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor
from opentelemetry.sdk.metrics import (Counter, Histogram, MeterProvider, ObservableCounter, ObservableGauge, ObservableUpDownCounter, UpDownCounter)
from opentelemetry.sdk.metrics.export import InMemoryMetricReader, MetricExporter, MetricExportResult, PeriodicExportingMetricReader, AggregationTemporality as AT
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanLimits, TracerProvider
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.id_generator import IdGenerator, RandomIdGenerator
from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ALWAYS_ON, Decision, ParentBased, Sampler, SamplingResult, TraceIdRatioBased
from opentelemetry.util.re import parse_env_headers

logging.disable(logging.CRITICAL)
LOGROOT = logging.getLogger()
NORES = Resource({})
GOT = []  # (exporter name, signal, what)


# ------------------------------------------------------------------ the components that can be named
class SpanRec(SpanExporter):
    name = ""

    def export(self, spans):
        for s in spans:
            GOT.append((self.name, "span", s))
        return SpanExportResult.SUCCESS

    def shutdown(self):
        pass


class MetricRec(MetricExporter):
    name = ""

    def export(self, data, timeout_millis=10000, **kw):
        for rm in data.resource_metrics:
            GOT.append((self.name, "metric", rm))
        return MetricExportResult.SUCCESS

    def shutdown(self, timeout_millis=30000, **kw):
        pass

    def force_flush(self, timeout_millis=10000):
        return True


class LogRec(LogExporter):
    name = ""

    def export(self, batch):
        for b in batch:
            GOT.append((self.name, "log", b))
        return LogExportResult.SUCCESS

    def shutdown(self):
        pass


class ReaderRec(InMemoryMetricReader):
    """A metric reader named as a metrics exporter."""
    made = []

    def __init__(self):
        super().__init__()
        ReaderRec.made.append(self)


class MyGen(IdGenerator):
    def generate_span_id(self):
        return 0x77

    def generate_trace_id(self):
        return 0x88


class MySampler(Sampler):
    def __init__(self, arg):
        self.arg = arg

    def should_sample(self, *a, **k):
        return SamplingResult(Decision.RECORD_AND_SAMPLE, {"arg": repr(self.arg)})

    def get_description(self):
        return "mine"


def bad_sampler(arg):
    return "sampler"


def boom_sampler(arg):
    raise RuntimeError("sampler")


REC = ["rec1", "rec2", "rec3", "otlp", "otlp_proto_grpc", "otlp_proto_http", "console"]
for _n in REC:
    globals()[f"Span_{_n}"] = type(f"Span_{_n}", (SpanRec,), {"name": _n})
    globals()[f"Metric_{_n}"] = type(f"Metric_{_n}", (MetricRec,), {"name": _n})
    globals()[f"Log_{_n}"] = type(f"Log_{_n}", (LogRec,), {"name": _n})

REAL = "".join((d.read_text("entry_points.txt") or "") for d in importlib_metadata.distributions() if (d.metadata["Name"] or "").startswith("opentelemetry-"))


def real_group(group):
    """Entry points of the installed distributions, in the given group."""
    out, cur = [], None
    for line in REAL.splitlines():
        m = re.fullmatch(r"\[(.*)\]", line.strip())
        if m:
            cur = m.group(1)
        elif cur == group and "=" in line:
            out.append(line.strip())
    return out


ME = "mc.props.k01"
EPS = "\n".join(
    ["[opentelemetry_traces_exporter]"] + [f"{n} = {ME}:Span_{n}" for n in REC] + [f"wrong = {ME}:Log_rec1", "missing = mc.nosuch:X"]
    + ["[opentelemetry_metrics_exporter]"] + [f"{n} = {ME}:Metric_{n}" for n in REC] + [f"wrong = {ME}:Span_rec1", "missing = mc.nosuch:X", f"reader = {ME}:ReaderRec"]
    + ["[opentelemetry_logs_exporter]"] + [f"{n} = {ME}:Log_{n}" for n in REC] + [f"wrong = {ME}:Metric_rec1", "missing = mc.nosuch:X"]
    + ["[opentelemetry_traces_sampler]"] + real_group("opentelemetry_traces_sampler") + [f"mine = {ME}:MySampler", f"notone = {ME}:bad_sampler", f"boom = {ME}:boom_sampler", "missing = mc.nosuch:X"]
    + ["[opentelemetry_id_generator]"] + real_group("opentelemetry_id_generator") + [f"mine = {ME}:MyGen", f"notone = {ME}:SpanRec"]
    + ["[opentelemetry_resource_detector]"] + real_group("opentelemetry_resource_detector")
    + ["[opentelemetry_context]"] + real_group("opentelemetry_context") + [""])


class Dist(importlib_metadata.Distribution):
    def read_text(self, filename):
        return {"entry_points.txt": EPS, "METADATA": "Metadata-Version: 2.1\nName: fake\nVersion: 1.0\n"}.get(filename)

    def locate_file(self, path):
        return path


class Fake:
    """Only the components above are installed."""

    def __enter__(self):
        F = importlib_metadata.MetadataPathFinder
        self.saved = F.__dict__["find_distributions"]
        F.find_distributions = classmethod(lambda cls, *a, **k: iter([Dist()]))

    def __exit__(self, *a):
        importlib_metadata.MetadataPathFinder.find_distributions = self.saved


def scheduled(fn):
    """One run of fn with its background threads, on the virtual clock."""
    out = []

    def main():
        try:
            out.append((fn(), None))
        except sched.Killed:
            raise
        except Exception as e:  # noqa
            out.append((None, e))

    r = sched.Run(record=False, max_steps=200000).execute(main)
    if r.verdict is not None or not out:
        raise sched.Violation(f"{r.verdict}", key="stuck")
    if out[0][1] is not None:
        raise out[0][1]
    return out[0][0]


# ------------------------------------------------------------------ cases
NAMES = [None, "", "none", " None ", "rec1", "rec1,rec2", "rec2 , rec1", "rec1,rec1", "otlp", "otlp_proto_http", "otlp_proto_grpc", " otlp,rec1", "otlp_proto_grpc,otlp", "console", "nope", "rec1,nope", "wrong", "missing", "nonesuch", "rec1,nonesuch", "not_none", "Console"]
SPROTO = [None, "", "grpc", "http/protobuf", " http/protobuf ", "bad"]
GPROTO = [None, "grpc", "http/protobuf", "bad"]
EXPL = [None, [], ["rec2"], ["rec2", "rec1"]]
SIG = ["span", "metric", "log"]
VAR = {"span": "TRACES", "metric": "METRICS", "log": "LOGS"}
SAMPLERS = [None, "", "always_on", "always_off", " always_off ", "ALWAYS_OFF", "traceidratio", " traceidratio", "parentbased_always_on", "parentbased_always_off", "parentbased_traceidratio", "parentbased_traceidratio ", "mine", "notone", "boom", "missing", "nope"]
SARGS = [None, "0.5", "0", "1", " 0.5 ", "abc", "2.0", "-1", "", "nan"]
GENS = [None, "random", "mine", " mine ", "nope", "notone"]
HTOK = ["a", "B", "=", ",", " ", "%20", "%2C", "%", '"', "\u00e9", "-", ";"]
OPTS = [(a, e) for a in (0, 1) for e in (0, 1, 2)]  # argument given?, environment: unset, valid, malformed
BASE = (0, 1)
BADNUM = ["abc", "", "1.5", "1e3"]


def CASES(tier):
    deep = tier != "quick"
    for sig in range(3):
        for n, s, g, e in itertools.product(range(len(NAMES)), range(len(SPROTO)), range(len(GPROTO)), range(len(EXPL))):
            if deep or e in (0, 2) or s in (0, 3):
                yield ("exporters", sig, n, s, g, e)
    for w in itertools.product(["none", "rec1", "reader", "rec1,reader,rec2"], repeat=1):
        yield ("reader", w[0])
    for s, a, x, via in itertools.product(SAMPLERS, SARGS, (0, 1), ("configure", "provider")):
        yield ("sampler", s, a, x, via)
    for g, x in itertools.product(GENS, (0, 1)):
        yield ("idgen", g, x)
    for v, at, env, arg, svc in itertools.product([None, "1.2"], [None, {}, {"k": "v"}, {"telemetry.auto.version": "mine"}], [None, "true", " True ", "false", "1", ""], [None, True, False], [None, "svc"]):
        yield ("rest", v, at, env, arg, svc)
    for kind in ("span", "log"):
        for w in itertools.product(OPTS, repeat=4):
            if deep or sum(o != BASE for o in w) <= 3:
                yield ("batch", kind, w, 0)
        for b in range(1, len(BADNUM)):
            for i in range(4):
                yield ("batch", kind, tuple((0, 2) if j == i else BASE for j in range(4)), b)
    for w in itertools.product(OPTS, repeat=2):
        for b in ("abc", "", "ten"):
            yield ("periodic", w, b)
    lim = [(a, s) for a in (None, 1, 0) for s in (None, "2", "", "0")]
    for i in range(6):
        for (a, s), ga, ge in itertools.product(lim, (None, 3), (None, "4", "0")):
            yield ("limit", i, a, s, ga, ge)
        for bad in ("abc", "-1", "1.5"):
            yield ("badlimit", i, bad)
    for i, j in itertools.combinations(range(6), 2):
        for x, y in itertools.product(lim, lim):
            if deep or (x[0] is None) != (y[0] is None):
                yield ("limits2", i, j, x, y)
    for d in (None, "true", "TRUE", " true ", "false", "1", "", "truee"):
        for sig in SIG:
            yield ("disabled", d, sig)
    for f, arg, sp in itertools.product([None, "always_on", "always_off", "trace_based", "nope", "ALWAYS_ON"], (0, 1), (0, 1, 2)):
        yield ("exemplar", f, arg, sp)
    for proto in ("grpc", "http"):
        for t, h, p in itertools.product([None, "delta", "DELTA", " lowmemory ", "Cumulative", "nope", ""], [None, "explicit_bucket_histogram", "base2_exponential_bucket_histogram", "nope"], range(4)):
            yield ("prefer", proto, t, h, p)
    for sig in range(3):
        for w in itertools.product(["http", "https", "none", "unset", "ip"], [None, True, False], [None, "true", "false", "TRUE"], [None, "true", "false"], (0, 1), (0, 1), (0, 1)):
            yield ("tls", sig) + w
        for w in itertools.product(range(4), repeat=3):
            yield ("certs", sig) + w
    for k in range(len(O.KINDS)):
        for w in itertools.product(range(8), range(4), range(4), range(4)):
            yield ("config", k) + w
    n = 4 if not deep else 5
    for r in range(n + 1):
        for w in itertools.product(HTOK, repeat=r):
            yield ("headers", "".join(w))


# ------------------------------------------------------------------ component selection
def emit_all():
    trace.get_tracer("t").start_span("s", octx.Context()).end()
    metrics.get_meter("m").create_counter("c").add(1)
    _events.get_event_logger("l").emit(_events.Event("e", timestamp=1))


def providers():
    return trace.get_tracer_provider(), metrics.get_meter_provider(), _logs.get_logger_provider()


def configured(env, **kw):
    """Configure, use every signal; returns (exporters reached, per signal, in order; providers) or the exception."""
    reset()
    GOT.clear()
    ReaderRec.made = []
    before = list(LOGROOT.handlers)

    def run():
        with Fake(), O.Env(**env):
            _OTelSDKConfigurator().configure(**kw)
            octx.attach(octx.Context())
            ps = providers()
        emit_all()
        for p in ps:
            if hasattr(p, "force_flush"):
                p.force_flush()
        added = [h for h in LOGROOT.handlers if h not in before]
        got = {s: [] for s in SIG}
        for n, s, w in GOT:
            got[s].append((n, w))
        res = dict(got=got, providers=ps, handlers=added)
        for p in ps:
            p.shutdown()
        return res

    try:
        return scheduled(run)
    except sched.Violation:
        raise
    except Exception as e:  # noqa
        return e
    finally:
        for h in [h for h in LOGROOT.handlers if h not in before]:
            LOGROOT.removeHandler(h)


def x_exporters(names, sproto, gproto, explicit):
    """The exporters expected, in order, or an exception."""
    out = list(explicit or [])
    if names and names.strip().lower() != "none":
        proto = (sproto or gproto or "").strip()
        for n in names.split(","):
            n = n.strip()
            if n == "otlp":
                if proto not in ("", "grpc", "http/protobuf"):
                    return RuntimeError
                n = "otlp_proto_http" if proto == "http/protobuf" else "otlp_proto_grpc"
            out.append(n)
    if any(n not in REC for n in out):
        return Exception
    return list(dict.fromkeys(out))


def c_exporters(ctx, sig, n, s, g, e):
    sig = SIG[sig]
    env, kw = {}, {}
    for o in SIG:
        if o != sig:
            env[f"OTEL_{VAR[o]}_EXPORTER"] = "rec3,otlp"
            env[f"OTEL_EXPORTER_OTLP_{VAR[o]}_PROTOCOL"] = "grpc"
    env[f"OTEL_{VAR[sig]}_EXPORTER"] = NAMES[n]
    env[f"OTEL_EXPORTER_OTLP_{VAR[sig]}_PROTOCOL"] = SPROTO[s]
    env["OTEL_EXPORTER_OTLP_PROTOCOL"] = GPROTO[g]
    arg = {"span": "trace", "metric": "metric", "log": "log"}[sig] + "_exporter_names"
    if EXPL[e] is not None:
        kw[arg] = list(EXPL[e])
    r = configured(env, **kw)
    want = x_exporters(NAMES[n], SPROTO[s], GPROTO[g], EXPL[e])
    what = lambda: f"{env} {kw}"  # noqa
    ctx.step(3)
    if isinstance(want, type):
        ctx.check(isinstance(r, want), "reported", lambda: f"{what()}: {r if isinstance(r, Exception) else r['got']} instead of an error")
        return
    if not ctx.check(not isinstance(r, Exception), "refused", lambda: f"{what()}: {r!r}"):
        return
    for o in SIG:
        w = want if o == sig else ["rec3", "otlp_proto_grpc"]
        got = [x for x, _ in r["got"][o]]
        ctx.check(got == w, "exporters", lambda: f"{what()}: {o} exporters used {got} instead of {w}")
    ctx.check(kw.get(arg, EXPL[e]) == EXPL[e], "argument", "the list of exporter names given was changed")
    ctx.state(sig, NAMES[n], SPROTO[s], GPROTO[g], e)


def c_reader(ctx, names):
    r = configured({"OTEL_METRICS_EXPORTER": names})
    want = [] if names == "none" else names.split(",")
    ctx.check(not isinstance(r, Exception), "refused", lambda: f"{names}: {r!r}")
    got = [n for n, _ in r["got"]["metric"]]
    ctx.check(got == [n for n in want if n != "reader"] and len(ReaderRec.made) == ("reader" in want), "reader", lambda: f"metrics exporters {names}: {got}, {len(ReaderRec.made)} readers")
    ctx.step()


IDS = [1, 1 << 40, (1 << 62) + 5, (1 << 63) - 1, 1 << 63, (1 << 63) + (1 << 62), (1 << 64) - 1]


def behaviour(sampler):
    """Decisions over roots and parents."""
    out = []
    for parent in (None, (True, True), (True, False), (False, True), (False, False)):
        c = octx.Context()
        if parent:
            c = trace.set_span_in_context(trace.NonRecordingSpan(trace.SpanContext(5, 6, parent[0], trace.TraceFlags(int(parent[1])))), c)
        for low in IDS:
            r = sampler.should_sample(c, (0xAB << 64) | low, "n", None, {}, None)
            out.append(r.decision)
    return out


def ref_sampler(name, arg):
    """The sampler the environment names, None when unusable."""
    def rate():
        try:
            v = float(arg)
        except (TypeError, ValueError):
            return 1.0
        return v if 0 <= v <= 1 else 1.0
    n = (name or "").strip().lower()
    root = {"always_on": ALWAYS_ON, "always_off": ALWAYS_OFF}
    if n in root:
        return root[n]
    if n == "traceidratio":
        return TraceIdRatioBased(rate())
    if n.startswith("parentbased_") and n[12:] in root:
        return ParentBased(root[n[12:]])
    if n == "parentbased_traceidratio":
        return ParentBased(TraceIdRatioBased(rate()))
    return None


def c_sampler(ctx, s, a, x, via):
    env = {"OTEL_TRACES_SAMPLER": s, "OTEL_TRACES_SAMPLER_ARG": a, "OTEL_TRACES_EXPORTER": "rec1"}
    mine = MySampler("explicit") if x else None
    what = lambda: f"{via} with sampler {s!r} argument {a!r}{' and an explicit sampler' if x else ''}"  # noqa
    if via == "configure":
        r = configured(env, **({"sampler": mine} if x else {}))
        if not ctx.check(not isinstance(r, Exception), "refused", lambda: f"{what()}: {r!r}"):
            return
        p = r["providers"][0]
    else:
        with O.Env(**env):
            p = TracerProvider(sampler=mine, shutdown_on_exit=False)
    got = p.sampler
    ctx.step(len(IDS) * 5)
    if x:
        ctx.check(got is mine, "explicit-sampler", lambda: f"{what()}: {got.get_description()}")
        return
    if s == "mine" and via == "configure":
        ctx.check(isinstance(got, MySampler) and got.arg == a, "sampler-argument", lambda: f"{what()}: {got.get_description()} made with {getattr(got, 'arg', None)!r}")
        return
    want = ref_sampler(s, a) or ParentBased(ALWAYS_ON)
    ctx.check(behaviour(got) == behaviour(want), "sampler", lambda: f"{what()}: {got.get_description()} instead of {want.get_description()}")
    ctx.state(s, a, via)


def c_idgen(ctx, g, x):
    r = configured({"OTEL_PYTHON_ID_GENERATOR": g, "OTEL_TRACES_EXPORTER": "rec1"}, **({"id_generator": MyGen()} if x else {}))
    what = lambda: f"id generator {g!r}{' and an explicit one' if x else ''}"  # noqa
    ctx.step()
    if not x and g in ("nope", "notone"):
        ctx.check(isinstance(r, Exception), "reported", lambda: f"{what()}: no error")
        return
    if not ctx.check(not isinstance(r, Exception), "refused", lambda: f"{what()}: {r!r}"):
        return
    ids = [(w.context.trace_id, w.context.span_id) for _, w in r["got"]["span"]]
    ctx.check(len(ids) == 1 and (ids[0] == (0x88, 0x77)) == bool(x or (g or "").strip() == "mine"), "idgen", lambda: f"{what()}: span ids {ids}")


def c_rest(ctx, v, at, env, arg, svc):
    kw = {}
    if v:
        kw["auto_instrumentation_version"] = v
    if at is not None:
        kw["resource_attributes"] = dict(at)
    if arg is not None:
        kw["setup_logging_handler"] = arg
    r = configured({"OTEL_TRACES_EXPORTER": "rec1", "OTEL_METRICS_EXPORTER": "rec1", "OTEL_LOGS_EXPORTER": "rec1", "OTEL_PYTHON_LOGGING_AUTO_INSTRUMENTATION_ENABLED": env, "OTEL_SERVICE_NAME": svc}, **kw)
    what = lambda: f"{kw} environment {env!r} service {svc!r}"  # noqa
    ctx.step(3)
    if not ctx.check(not isinstance(r, Exception), "refused", lambda: f"{what()}: {r!r}"):
        return
    res = [r["got"]["span"][0][1].resource, r["got"]["metric"][0][1].resource, r["got"]["log"][0][1].log_record.resource]
    want = {**(at or {}), **({"telemetry.auto.version": v} if v else {}), "service.name": svc or "unknown_service"}
    for s, q in zip(SIG, res):
        got = {k: x for k, x in q.attributes.items() if not k.startswith("telemetry.sdk.")}
        ctx.check(got == want, "resource", lambda: f"{what()}: {s} resource {got} instead of {want}")
    on = arg if arg is not None else (env or "").strip().lower() == "true"
    hs = [h for h in r["handlers"] if isinstance(h, LoggingHandler)]
    ctx.check(len(hs) == int(on), "handler", lambda: f"{what()}: {len(hs)} logging handlers")


# ------------------------------------------------------------------ batching and intervals
class Slow:
    """An exporter noting when and how much, and taking a while when told to."""

    def __init__(self):
        self.got, self.slow = [], 0

    def note(self, items):
        self.got.append((sched.CLOCK.now, len(items)))
        if self.slow:
            M_time.sleep(self.slow)


class SlowSpan(Slow, SpanExporter):
    def export(self, spans):
        self.note(spans)
        return SpanExportResult.SUCCESS

    def shutdown(self):
        pass


class SlowLog(Slow, LogExporter):
    def export(self, batch):
        self.note(batch)
        return LogExportResult.SUCCESS

    def shutdown(self):
        pass


SETTING = [("max_queue_size", "MAX_QUEUE_SIZE", 30, 40, 2048), ("max_export_batch_size", "MAX_EXPORT_BATCH_SIZE", 6, 8, 512),
           ("schedule_delay_millis", "SCHEDULE_DELAY", 200, 300, 5000), ("export_timeout_millis", "EXPORT_TIMEOUT", 600, 700, 30000)]
READERNUM = [("export_interval_millis", "INTERVAL", 2000, 3000, 60000), ("export_timeout_millis", "TIMEOUT", 600, 700, 30000)]


def settings(table, prefix, w, bad):
    env, kw, want = {}, {}, []
    for (arg, var, a, e, d), (ga, ge) in zip(table, w):
        if ga:
            kw[arg] = a
        if ge:
            env[prefix + var] = str(e) if ge == 1 else bad
        want.append(a if ga else e if ge == 1 else d)
    return env, kw, want


def near(ns, ms):
    return abs(ns / 1e6 - ms) < 20


def c_batch(ctx, kind, w, b):
    env, kw, (Q, B, D, T) = settings(SETTING, "OTEL_BSP_" if kind == "span" else "OTEL_BLRP_", w, BADNUM[b])
    what = lambda: f"batch {kind} processor, arguments {kw}, environment {env}"  # noqa

    def run():
        x = SlowSpan() if kind == "span" else SlowLog()
        with O.Env(**env):
            try:
                p = (BatchSpanProcessor if kind == "span" else BatchLogRecordProcessor)(x, **kw)
            except ValueError as e:
                return e
        if kind == "span":
            tp = TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False, resource=Resource({}))
            tp.add_span_processor(p)
            t = tp.get_tracer("t")
            emit = lambda: t.start_span("s", octx.Context()).end()  # noqa
        else:
            lp = LoggerProvider(shutdown_on_exit=False, resource=Resource({}))
            lp.add_log_record_processor(p)
            t = lp.get_logger("l")
            emit = lambda: t.emit(LogRecord(timestamp=1, body="b", resource=NORES))  # noqa
        t0 = sched.CLOCK.now
        emit()
        M_time.sleep(40)
        first = [(t - t0, n) for t, n in x.got]
        x.got.clear()
        for _ in range(Q + 5):
            emit()
        p.force_flush()
        full = [n for _, n in x.got]
        x.got.clear()
        x.slow = 100
        emit()
        t1 = sched.CLOCK.now
        ok = p.force_flush()
        return first, full, ok, sched.CLOCK.now - t1

    r = scheduled(run)
    ctx.step(Q + 8)
    if B > Q:
        ctx.check(isinstance(r, ValueError), "inconsistent", lambda: f"{what()}: a batch larger than the queue is accepted")
        return
    if not ctx.check(not isinstance(r, Exception), "refused", lambda: f"{what()}: {r!r}"):
        return
    first, full, ok, took = r
    ctx.check(len(first) == 1 and first[0][1] == 1 and near(first[0][0], D), "delay", lambda: f"{what()}: first exports (ns, count) {first}, expected one after {D} ms")
    ctx.check(sum(full) == Q, "queue", lambda: f"{what()}: {sum(full)} of {Q + 5} kept, expected {Q}")
    ctx.check(max(full) == B, "batch", lambda: f"{what()}: batches {full}, expected at most {B}")
    ctx.check(ok is False and near(took, T), "timeout", lambda: f"{what()}: flushing a stuck exporter gives {ok} after {took / 1e6} ms, expected False after {T}")


def c_periodic(ctx, w, bad):
    env, kw, (I, T) = settings(READERNUM, "OTEL_METRIC_EXPORT_", w, bad)
    what = lambda: f"periodic reader, arguments {kw}, environment {env}"  # noqa
    calls = []

    class X(MetricRec):
        def export(self, data, timeout_millis=10000, **k):
            calls.append((sched.CLOCK.now, timeout_millis))
            return MetricExportResult.SUCCESS

    def run():
        with O.Env(**env):
            r = PeriodicExportingMetricReader(X(), **kw)
            mp = MeterProvider([r], shutdown_on_exit=False, resource=Resource({}))
        t0 = sched.CLOCK.now
        mp.get_meter("m").create_counter("c").add(1)
        M_time.sleep(I * 2.5 / 1000)
        n = len(calls)
        mp.shutdown()
        return t0, n

    t0, n = scheduled(run)
    ctx.step(3)
    ctx.check(n == 2 and all(near(c[0] - t0, I * (i + 1)) for i, c in enumerate(calls[:2])), "interval", lambda: f"{what()}: exports after {[(c[0] - t0) / 1e6 for c in calls[:n]]} ms, expected every {I}")
    ctx.check(all(c[1] == T for c in calls[:2]), "export-timeout", lambda: f"{what()}: export timeouts {[c[1] for c in calls]}, expected {T}")


# ------------------------------------------------------------------ limits
LIM = [("max_span_attributes", "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT"), ("max_events", "OTEL_SPAN_EVENT_COUNT_LIMIT"), ("max_links", "OTEL_SPAN_LINK_COUNT_LIMIT"),
       ("max_event_attributes", "OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT"), ("max_link_attributes", "OTEL_LINK_ATTRIBUTE_COUNT_LIMIT"), ("max_span_attribute_length", "OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT")]
GENERAL = {"max_span_attributes": 0, "max_event_attributes": 0, "max_link_attributes": 0, "max_span_attribute_length": 1}
GEN = [("max_attributes", "OTEL_ATTRIBUTE_COUNT_LIMIT"), ("max_attribute_length", "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT")]


def spans_under(env, kw):
    """(span attributes, events, links, attributes of an event, of a link, length of a value) kept."""
    N = 140
    seen = []

    class P:
        def on_start(self, span, parent_context=None):
            pass

        def on_end(self, span):
            seen.append(span)

        def shutdown(self):
            pass

        def force_flush(self, timeout_millis=30000):
            return True

    with O.Env(**env):
        tp = TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False, resource=Resource({}), span_limits=SpanLimits(**kw))
    tp.add_span_processor(P())
    many = {f"k{i}": "v" * N for i in range(N)}
    sc = trace.SpanContext(1, 2, True)
    s = tp.get_tracer("t").start_span("s", octx.Context(), links=[trace.Link(sc, many)] * N)
    s.set_attributes(many)
    for _ in range(N):
        s.add_event("e", many)
    s.end()
    s = seen[0]
    return [len(s.attributes), len(s.events), len(s.links), len(s.events[0].attributes) if s.events else None, len(s.links[0].attributes) if s.links else None,
            len(next(iter(s.attributes.values()))) if s.attributes else None]


def x_limits(env, kw):
    out = []
    for arg, var in LIM:
        def val(a, v):
            if kw.get(a) is not None:
                return kw[a]
            if v in env and env[v] is not None:
                return 10**6 if env[v] == "" else int(env[v])
        x = val(arg, var)
        if x is None and arg in GENERAL:
            x = val(*GEN[GENERAL[arg]])
        if x is None:
            x = 10**6 if "length" in arg else 128
        out.append(min(x, 140))
    a, e, l, ea, la, ln = out
    return [a, e, l, ea if e else None, la if l else None, ln if a else None]


def limits(ctx, env, kw):
    got, want = spans_under(env, kw), x_limits(env, kw)
    ctx.check(got == want, "limits", lambda: f"span limits, arguments {kw}, environment {env}: kept (attributes, events, links, per event, per link, length) {got} instead of {want}")
    ctx.step(6)
    ctx.state(tuple(got))


def c_limit(ctx, i, a, s, ga, ge):
    g = GEN[GENERAL.get(LIM[i][0], 0)]
    limits(ctx, {LIM[i][1]: s, g[1]: ge}, {LIM[i][0]: a, g[0]: ga})


def c_limits2(ctx, i, j, x, y):
    limits(ctx, {LIM[i][1]: x[1], LIM[j][1]: y[1]}, {LIM[i][0]: x[0], LIM[j][0]: y[0]})


def c_badlimit(ctx, i, bad):
    with O.Env(**{LIM[i][1]: bad}):
        try:
            SpanLimits()
            err = None
        except ValueError as e:
            err = e
    ctx.check(err is not None and LIM[i][1] in str(err), "bad-limit", lambda: f"{LIM[i][1]}={bad!r}: {err!r} instead of an error naming it")
    ctx.step()


# ------------------------------------------------------------------ switches
class One:
    def __init__(self):
        self.got = []

    def on_start(self, span, parent_context=None):
        pass

    def on_end(self, span):
        self.got.append(span)

    emit = on_end

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=30000):
        return True


def c_disabled(ctx, d, sig):
    on = (d or "").strip().lower() != "true"
    with O.Env(OTEL_SDK_DISABLED=d):
        x = One()
        if sig == "span":
            p = TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False)
            p.add_span_processor(x)
            s = p.get_tracer("t").start_span("s", octx.Context())
            rec = s.is_recording()
            s.end()
            ctx.check(rec == on, "disabled", lambda: f"OTEL_SDK_DISABLED={d!r}: span recording {rec}")
        elif sig == "metric":
            r = InMemoryMetricReader()
            p = MeterProvider([r], shutdown_on_exit=False)
            p.get_meter("m").create_counter("c").add(1)
            if r.get_metrics_data() is not None:
                x.got.append(1)
        else:
            p = LoggerProvider(shutdown_on_exit=False)
            p.add_log_record_processor(x)
            p.get_logger("l").emit(LogRecord(timestamp=1, body="b", resource=NORES))
    ctx.check(len(x.got) == int(on), "disabled", lambda: f"OTEL_SDK_DISABLED={d!r}: {len(x.got)} {sig}s recorded")
    ctx.step()


def c_exemplar(ctx, f, arg, sp):
    from opentelemetry.sdk.metrics import AlwaysOffExemplarFilter, AlwaysOnExemplarFilter
    kw = {"exemplar_filter": AlwaysOnExemplarFilter() if f != "always_on" else AlwaysOffExemplarFilter()} if arg else {}
    c = octx.Context()
    if sp:
        c = trace.set_span_in_context(trace.NonRecordingSpan(trace.SpanContext(5, 6, False, trace.TraceFlags(sp - 1))), c)
    r = InMemoryMetricReader()
    known = f in (None, "always_on", "always_off", "trace_based")
    with O.Env(OTEL_METRICS_EXEMPLAR_FILTER=f):
        try:
            mp = MeterProvider([r], shutdown_on_exit=False, **kw)
        except ValueError as e:
            ctx.check(not known and not arg, "refused", lambda: f"exemplar filter {f!r}: {e}")
            return
    ctx.check(known or arg, "reported", lambda: f"unknown exemplar filter {f!r} accepted")
    mp.get_meter("m").create_counter("c").add(1, {"a": 1}, context=c)
    ex = r.get_metrics_data().resource_metrics[0].scope_metrics[0].metrics[0].data.data_points[0].exemplars
    mode = ("always_on" if f != "always_on" else "always_off") if arg else f or "trace_based"
    want = mode == "always_on" or mode == "trace_based" and sp == 2
    ctx.check(bool(ex) == want, "exemplar", lambda: f"exemplar filter {f!r}{' and an explicit one' if arg else ''}, span {['none', 'unsampled', 'sampled'][sp]}: exemplars {ex}")
    ctx.step()


# ------------------------------------------------------------------ OTLP exporters
INST = {Counter: "counter", UpDownCounter: "updown", Histogram: "hist", ObservableCounter: "ocounter", ObservableUpDownCounter: "oupdown"}
DELTAS = {"delta": {Counter, Histogram, ObservableCounter}, "lowmemory": {Counter, Histogram}}
PREF = [{}, {Counter: AT.CUMULATIVE}, {UpDownCounter: AT.DELTA, Histogram: AT.CUMULATIVE}, {ObservableCounter: AT.DELTA, Counter: AT.DELTA}]
PAGG = [{}, {Histogram: ExplicitBucketHistogramAggregation([1, 2])}, {}, {Histogram: ExponentialBucketHistogramAggregation()}]


def c_prefer(ctx, proto, t, h, p):
    from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest
    from opentelemetry.metrics import Observation
    srv = O.Server([(0 if proto == "grpc" else 200)])
    kw = {}
    if PREF[p]:
        kw["preferred_temporality"] = PREF[p]
    if PAGG[p]:
        kw["preferred_aggregation"] = PAGG[p]
    with O.Env(OTEL_EXPORTER_OTLP_METRICS_TEMPORALITY_PREFERENCE=t, OTEL_EXPORTER_OTLP_METRICS_DEFAULT_HISTOGRAM_AGGREGATION=h):
        x = O.make((proto, "metric"), srv, **kw)
        r = PeriodicExportingMetricReader(x, export_interval_millis=float("inf"))
        mp = MeterProvider([r], shutdown_on_exit=False, resource=Resource({}))
    m = mp.get_meter("m")
    m.create_counter("counter").add(1)
    m.create_up_down_counter("updown").add(1)
    m.create_histogram("hist").record(1)
    m.create_observable_counter("ocounter", [lambda o: [Observation(1)]])
    m.create_observable_up_down_counter("oupdown", [lambda o: [Observation(1)]])
    r.collect()
    req = ExportMetricsServiceRequest.FromString(srv.sent[0]["body"])
    deltas = DELTAS.get((t or "").strip().lower(), set())
    what = lambda: f"{proto} temporality preference {t!r}, histogram aggregation {h!r}, arguments {kw}"  # noqa
    got = {}
    for k in req.resource_metrics[0].scope_metrics[0].metrics:
        f = k.WhichOneof("data")
        got[k.name] = (f, getattr(k, f).aggregation_temporality)
    for cls, name in INST.items():
        at = PREF[p].get(cls, AT.DELTA if cls in deltas else AT.CUMULATIVE)
        f = "sum"
        if cls is Histogram:
            expo = isinstance(PAGG[p].get(Histogram), ExponentialBucketHistogramAggregation) or not PAGG[p] and h == "base2_exponential_bucket_histogram"
            f = "exponential_histogram" if expo else "histogram"
        ctx.check(got.get(name) == (f, int(at)), "preference", lambda: f"{what()}: {name} sent as {got.get(name)} instead of {(f, int(at))}")
    ctx.step(5)


DIR = None


def files():
    global DIR
    if DIR is None:
        DIR = tempfile.mkdtemp(prefix="mc-k01-")
        for n in ("sig.pem", "gen.pem", "sigkey", "genkey", "sigcrt", "gencrt"):
            with open(os.path.join(DIR, n), "w") as f:
                f.write(n)
    return DIR


def cleanup():
    global DIR
    if DIR:
        for n in os.listdir(DIR):
            os.unlink(os.path.join(DIR, n))
        os.rmdir(DIR)
        DIR = None


def c_tls(ctx, sig, scheme, arg, senv, genv, creds, scert, gcert):
    if scheme == "https" and (arg or (arg is None and (senv or "").lower() == "true")) and scert:
        return  # contradictory settings
    name = ["span", "metric", "log"][sig]
    P = VAR[name]
    d = files()
    env = {f"OTEL_EXPORTER_OTLP_{P}_INSECURE": senv, "OTEL_EXPORTER_OTLP_INSECURE": genv}
    if scert:
        env.update({f"OTEL_EXPORTER_OTLP_{P}_CERTIFICATE": f"{d}/sig.pem", f"OTEL_EXPORTER_OTLP_{P}_CLIENT_KEY": f"{d}/sigkey", f"OTEL_EXPORTER_OTLP_{P}_CLIENT_CERTIFICATE": f"{d}/sigcrt"})
    if gcert:
        env.update({"OTEL_EXPORTER_OTLP_CERTIFICATE": f"{d}/gen.pem", "OTEL_EXPORTER_OTLP_CLIENT_KEY": f"{d}/genkey", "OTEL_EXPORTER_OTLP_CLIENT_CERTIFICATE": f"{d}/gencrt"})
    kw = {}
    if scheme != "unset":
        kw["endpoint"] = {"http": "http://h:1", "https": "https://h:1", "none": "h:1", "ip": "1.2.3.4:1"}[scheme]
    if arg is not None:
        kw["insecure"] = arg
    if creds:
        kw["credentials"] = ("explicit",)
    srv = O.Server([0])
    saved, O.gx.ssl_channel_credentials = O.gx.ssl_channel_credentials, lambda root_certificates=None, private_key=None, certificate_chain=None: (root_certificates, private_key, certificate_chain)
    try:
        with O.Env(**env):
            x = O.make(("grpc", name), srv, **kw)
    finally:
        O.gx.ssl_channel_credentials = saved
    x.export(O.payload(name, 1)[0])
    got = srv.sent[0]["creds"]
    secure = scheme == "https"
    if not secure:
        ins = arg
        for e in (senv, genv):
            if ins is None and e is not None:
                ins = e.lower() == "true"
        secure = not ins if ins is not None else scheme in ("none", "ip")
    want = None
    if secure:
        want = ("explicit",) if creds else (b"sig.pem", b"sigkey", b"sigcrt") if scert else (b"gen.pem", b"genkey", b"gencrt") if gcert else (None, None, None)
    ctx.check(got == want, "credentials", lambda: f"gRPC {name} exporter, arguments {kw}, environment {env}: channel credentials {got} instead of {want}")
    ctx.check(srv.sent[0]["target"] == ({"unset": "localhost:4317", "ip": "1.2.3.4:1"}.get(scheme, "h:1")), "target", lambda: f"{kw}: sent to {srv.sent[0]['target']}")
    ctx.step()


def c_certs(ctx, sig, a, b, c):
    name = ["span", "metric", "log"][sig]
    P = VAR[name]
    env, kw, want = {}, {}, []
    for arg, var, how in (("certificate_file", "CERTIFICATE", a), ("client_key_file", "CLIENT_KEY", b), ("client_certificate_file", "CLIENT_CERTIFICATE", c)):
        # 0: nothing, 1: general, 2: signal and general, 3: argument, signal and general
        if how >= 1:
            env[f"OTEL_EXPORTER_OTLP_{var}"] = "g" + var
        if how >= 2:
            env[f"OTEL_EXPORTER_OTLP_{P}_{var}"] = "s" + var
        if how >= 3:
            kw[arg] = "a" + var
        want.append([None, "g", "s", "a"][how] + var if how else None)
    srv = O.Server([200])
    with O.Env(**env):
        x = O.make(("http", name), srv, **kw)
        x.export(O.payload(name, 1)[0])
    v, key, crt = want
    s = srv.sent[0]
    cert = (crt, key) if crt and key else crt
    ctx.check(s["verify"] == (v or True) and s["cert"] == cert, "certificates", lambda: f"HTTP {name} exporter, arguments {kw}, environment {env}: verify {s['verify']!r} cert {s['cert']!r}, expected {v or True!r} and {cert!r}")
    ctx.step()


# ------------------------------------------------------------------ header strings
TOKEN = set("!#$%&'*+-.^_`|~") | set("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
OCTET = {chr(c) for c in range(0x21, 0x7F)} - set('",;\\')


def x_headers(s, liberal):
    out = {}
    for item in s.split(","):
        k, eq, v = item.strip().partition("=")
        k, v = k.strip(" \t"), v.strip(" \t")
        if not eq or not k or set(k) - TOKEN:
            continue
        if not set(v) - OCTET:
            out[unquote(k).strip().lower()] = unquote(v).strip()
        elif liberal and not set(v) - OCTET - {" "}:
            out[k.lower()] = v
    return out


def c_headers(ctx, s):
    for liberal in (False, True):
        got, want = dict(parse_env_headers(s, liberal=liberal)), x_headers(s, liberal)
        ctx.check(got == want, "headers", lambda: f"header string {s!r}{' read liberally' if liberal else ''}: {got} instead of {want}")
        ctx.step()


from mc.props.e02 import c_config  # noqa  endpoints, headers, timeouts and compression

CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    sched.CLOCK.now = sched.T0
    try:
        CASE[case[0]](ctx, *case[1:])
    finally:
        cleanup()
