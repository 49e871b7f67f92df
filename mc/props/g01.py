"""G01: global providers are set once, early handles become live, no-op use is harmless (sequential histories)."""
import asyncio
import importlib.metadata
import itertools
import logging
import os
import warnings

import importlib_metadata

from mc.props._metrics import C, Reader, metrics
from opentelemetry import _events, _logs, context as octx, metrics as api_metrics, trace
from opentelemetry._events import Event
from opentelemetry.metrics import Observation
from opentelemetry.propagate import inject
from opentelemetry.sdk._events import EventLoggerProvider
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord, LogRecordProcessor
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.test.globals_test import reset_event_globals, reset_logging_globals, reset_metrics_globals, reset_trace_globals

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
RES = Resource({"service.name": "svc"})
DEFS = [("n", None, None, None), ("n", "1", "http://s", {"a": 1}), ("n", "1", "http://s", {"a": 2}), ("m", "2", None, {"k": ("x", "y")})]
KIND = ["counter", "up_down_counter", "histogram", "gauge", "observable_counter", "observable_up_down_counter", "observable_gauge"]
REMOTE = trace.SpanContext(2**127 + 9, 2**63 + 7, True, trace.TraceFlags(1), trace.TraceState([("k", "v")]))


class SP(SpanProcessor):
    def __init__(self):
        self.got = []

    def on_end(self, span):
        self.got.append(span)


class LP(LogRecordProcessor):
    def __init__(self):
        self.got = []

    def emit(self, log_data):
        self.got.append(log_data)

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=30000):
        return True


def reset():
    reset_trace_globals()
    reset_metrics_globals()
    reset_logging_globals()
    reset_event_globals()


def sdef(s):
    return (s.name, s.version or "", s.schema_url or "", dict(s.attributes or {}))


def want_def(d):
    return (d[0], d[1] or "", d[2] or "", d[3] or {})


def vdef(d, default_version):
    """Definition as requested; the module-level getters default the version to an empty string."""
    return (d[0], default_version if d[1] is None else d[1], d[2], d[3])


# ---------------------------------------------------------------- signals
class Trace:
    version = None

    def __init__(self):
        self.sinks = []

    def provider(self):
        tp = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False)
        p = SP()
        tp.add_span_processor(p)
        self.sinks.append(p)
        return tp

    def get(self, d, prov=None):
        if prov is not None:
            return prov.get_tracer(*d)
        return trace.get_tracer(d[0], d[1], None, d[2], d[3])

    set = staticmethod(lambda p: trace.set_tracer_provider(p))
    cur = staticmethod(lambda: trace.get_tracer_provider())

    def use(self, h, name):
        h.start_span(name, octx.Context()).end()

    def seen(self, i):
        return [(s.name, sdef(s.instrumentation_scope)) for s in self.sinks[i].got]


class Logs(Trace):
    version = ""

    def provider(self):
        lp = LoggerProvider(resource=RES, shutdown_on_exit=False)
        p = LP()
        lp.add_log_record_processor(p)
        self.sinks.append(p)
        return lp

    def get(self, d, prov=None):
        if prov is not None:
            return prov.get_logger(*d)
        return _logs.get_logger(d[0], "" if d[1] is None else d[1], None, d[2], d[3])

    set = staticmethod(lambda p: _logs.set_logger_provider(p))
    cur = staticmethod(lambda: _logs.get_logger_provider())

    def use(self, h, name):
        h.emit(LogRecord(observed_timestamp=1, body=name, resource=RES))

    def seen(self, i):
        return [(d.log_record.body, sdef(d.instrumentation_scope)) for d in self.sinks[i].got]


class Events(Logs):
    version = None

    def provider(self):
        return EventLoggerProvider(super().provider())

    def get(self, d, prov=None):
        if prov is not None:
            return prov.get_event_logger(*d)
        return _events.get_event_logger(*d)

    set = staticmethod(lambda p: _events.set_event_logger_provider(p))
    cur = staticmethod(lambda: _events.get_event_logger_provider())

    def use(self, h, name):
        h.emit(Event("e", body=name))


class Metrics(Trace):
    version = ""

    def provider(self):
        self.sinks.append(Reader(C))
        return MeterProvider([self.sinks[-1]], RES, shutdown_on_exit=False)

    def get(self, d, prov=None):
        if prov is not None:
            return prov.get_meter(*d)
        return api_metrics.get_meter(d[0], d[1] or "", None, d[2], d[3])

    set = staticmethod(lambda p: api_metrics.set_meter_provider(p))
    cur = staticmethod(lambda: api_metrics.get_meter_provider())

    def use(self, h, name):
        h.create_counter(name).add(1)

    def seen(self, i):
        md = self.sinks[i].scrape()
        return [(x.name, sdef(sc.scope)) for r in (md.resource_metrics if md else ()) for sc in r.scope_metrics for x in sc.metrics for _ in x.data.data_points]


SIGNALS = {"trace": Trace, "logs": Logs, "events": Events}
# provider named by the environment: entry point group, variable, the names real distributions offer
ENV = {
    "trace": (Trace, "tracer_provider", "OTEL_PYTHON_TRACER_PROVIDER", {"sdk_tracer_provider": TracerProvider, "default_tracer_provider": trace.NoOpTracerProvider}),
    "metrics": (Metrics, "meter_provider", "OTEL_PYTHON_METER_PROVIDER", {"sdk_meter_provider": MeterProvider, "default_meter_provider": api_metrics.NoOpMeterProvider}),
    "logs": (Logs, "logger_provider", "OTEL_PYTHON_LOGGER_PROVIDER", {"sdk_logger_provider": LoggerProvider}),
    "events": (Events, "event_logger_provider", "OTEL_PYTHON_EVENT_LOGGER_PROVIDER", {}),
}
_mine = {g: "mine = mc.props.g01:env_provider" for _, g, _, _ in ENV.values()}
_groups = {}
for _d in importlib_metadata.distributions():
    if (_d.metadata["Name"] or "").startswith("opentelemetry-"):
        _g = None
        for _l in (_d.read_text("entry_points.txt") or "").splitlines():
            if _l.strip().startswith("["):
                _g = _l.strip()[1:-1]
            elif "=" in _l and _g:
                _groups.setdefault(_g, []).append(_l.strip())
for _g, _l in _mine.items():
    _groups.setdefault("opentelemetry_" + _g, []).append(_l)
EPS = "".join(f"[{g}]\n" + "\n".join(ls) + "\n" for g, ls in _groups.items())
MADE, FACTORY = [], [None]


def _dist(mod):
    class Dist(mod.Distribution):
        def read_text(self, filename):
            return {"entry_points.txt": EPS, "METADATA": "Metadata-Version: 2.1\nName: fake\nVersion: 1.0\n"}.get(filename)

        def locate_file(self, path):
            return path
    return Dist()


def env_provider():
    """The provider an entry point of the application's offers."""
    MADE.append(FACTORY[0]())
    return MADE[-1]


class named_provider:
    """The environment names a provider of the signal."""

    def __init__(self, sig, name, factory):
        self.var, self.name, FACTORY[0] = ENV[sig][2], name, factory
        MADE.clear()

    def __enter__(self):
        os.environ[self.var] = self.name
        self.saved = [(m, m.MetadataPathFinder.__dict__["find_distributions"]) for m in (importlib_metadata, importlib.metadata)]
        for m, _ in self.saved:
            d = _dist(m)
            m.MetadataPathFinder.find_distributions = classmethod(lambda cls, *a, d=d, **k: iter([d]))

    def __exit__(self, *a):
        os.environ.pop(self.var, None)
        for m, f in self.saved:
            m.MetadataPathFinder.find_distributions = f


EOPS = ["get0", "get1", "prov1", "use", "cur", "set"]
OPS = ["get0", "get1", "get2", "prov1", "prov3", "use", "setA", "setB"]
MOPS = ["meter0", "meter1", "prov2", "create", "use", "setA", "setB", "collect"]
INST = [("i", "", ""), ("j", "u", "d"), ("I", "", "")]


def CASES(tier):
    n = 5 if tier == "quick" else 6
    for s in SIGNALS:
        for w in itertools.product(range(len(OPS)), repeat=n):
            yield ("seq", s, w)
    for s in ENV:
        for w in itertools.product(EOPS, repeat=n - 1):
            yield ("env", s, w)
        for name in ENV[s][3]:
            yield ("env-real", s, name)
        yield ("env-real", s, "no_such_provider")
    for w in itertools.product(range(len(MOPS)), repeat=n):
        yield ("metrics", w)
    for ks in itertools.product(range(len(KIND)), repeat=2):
        for early in itertools.product((0, 1), repeat=2):
            for ds in itertools.product(range(len(DEFS)), repeat=2):
                for ins in itertools.product(range(len(INST)), repeat=2):
                    yield ("inst", ks, early, ds, ins)
    for k1 in range(len(KIND)):
        for bad in ("", "1bad", "é", "x" * 300):
            for pos in (0, 1, 2):
                yield ("badinst", k1, bad, pos)
    for b in (None, (1, 2), (5.5,), ()):
        for early in (0, 1):
            yield ("advice", b, early)
    for how in ("start", "startctx", "as_current", "as_current_ctx", "decorator", "async_decorator", "use_span", "nested", "raise"):
        for parent in ("none", "remote", "local", "ended", "invalid"):
            for tr in ("noop", "proxy", "disabled"):
                yield ("noop", how, parent, tr)
    for deco in ("deco", "adeco"):
        for sets in (0, 1, 2):
            yield ("late-deco", deco, sets)
    for w in itertools.product(("log", "setA", "setB", "handler", "flush"), repeat=4):
        yield ("handler", w)
    for kind in KIND:
        for args in range(4):
            yield ("noop-inst", kind, args)


def run_case(case, ctx):
    reset()
    tok = octx.attach(octx.Context())
    try:
        CASE[case[0].replace("-", "_")](case, ctx)
    finally:
        octx.detach(tok)
        reset()


def c_seq(case, ctx):
    _, sig, w = case
    s = SIGNALS[sig]()
    provs = [s.provider(), s.provider()]
    early = s.cur()  # the provider object an application may keep
    handles, won, want, n = [], None, [[], []], 0
    for i in w:
        op = OPS[i]
        ctx.step()
        if op.startswith(("get", "prov")):
            d = DEFS[int(op[-1])]
            h = s.get(d, early if op[:4] == "prov" else None)
            handles.append((h, want_def(d if op[:4] == "prov" else vdef(d, s.version))))
        elif op == "use":
            for h, d in handles:
                n += 1
                s.use(h, f"x{n}")
                if won is not None:
                    want[won].append((f"x{n}", d))
        else:
            k = "AB".index(op[-1])
            s.set(provs[k])
            if won is None:
                won = k
            ctx.check(s.cur() is provs[won], "set-once", lambda: f"{[OPS[i] for i in w]}: the global provider is not the first one set")
    got = [s.seen(0), s.seen(1)]
    ctx.check(got == want, "live", lambda: f"{sig} {[OPS[i] for i in w]}: delivered {got}, expected {want}")
    ctx.state(sig, tuple(map(repr, got)), won)


def c_env(case, ctx):
    """The environment names a provider: it is the global one from the first use on, unless the application set its own before."""
    _, sig, w = case
    s = ENV[sig][0]()
    own = s.provider()
    handles, want, n, won = [], [], 0, None
    with named_provider(sig, "mine", s.provider):
        for op in w:
            ctx.step()
            if op == "set":
                s.set(own)
                won = won or "own"
            elif op != "use":
                won = won or "env"
            if op[:3] == "get" or op[:4] == "prov":
                d = DEFS[int(op[-1])]
                handles.append((s.get(d, s.cur() if op[:4] == "prov" else None), want_def(d if op[:4] == "prov" else vdef(d, s.version))))
            elif op == "use":
                for h, d in handles:
                    n += 1
                    s.use(h, f"x{n}")
                    want.append((f"x{n}", d))
            if won:
                ctx.check(s.cur() is (own if won == "own" else MADE[0]), "env-provider", lambda: f"{case}: the global provider is not the {'one set' if won == 'own' else 'one the environment names'}")
        ctx.check(len(MADE) == (won == "env"), "env-provider", lambda: f"{case}: {len(MADE)} providers were made from the environment")
        got = [s.seen(k) for k in range(len(s.sinks))]
        exp = [[]] + [[] for _ in MADE]
        if won:
            exp[won == "env"] = want
        ctx.check([sorted(g, key=repr) for g in got] == [sorted(g, key=repr) for g in exp], "live", lambda: f"{case}: delivered {got}, expected {exp}")
    ctx.state(sig, won, tuple(map(repr, got)))


def c_env_real(case, ctx):
    _, sig, name = case
    ctx.step()
    s = ENV[sig][0]()
    with named_provider(sig, name, None):
        if name in ENV[sig][3]:
            p = s.cur()
            ctx.check(type(p) is ENV[sig][3][name] and s.cur() is p, "env-provider", lambda: f"{case}: the global provider is {p}")
        else:
            try:
                p = s.cur()
                ctx.check(False, "env-provider", lambda: f"{case}: an unknown name silently selected {p}")
            except BaseException as e:  # which exception it is is up to the implementation
                ctx.state(type(e).__name__)
    own = s.provider()
    if name not in ENV[sig][3]:
        s.set(own)
        ctx.check(s.cur() is own, "env-provider", lambda: f"{case}: after an unknown name the application cannot set its own provider")
    ctx.state(case)


def mk(m, kind, d, cb=None, **kw):
    f = getattr(m, "create_" + kind)
    if kind.startswith("obs"):
        return f(d[0], [cb], d[1], d[2])
    return f(d[0], d[1], d[2], **kw)


def put(i, kind, v):
    {"counter": lambda: i.add(v), "up_down_counter": lambda: i.add(v), "histogram": lambda: i.record(v), "gauge": lambda: i.set(v)}[kind]()


def c_metrics(case, ctx):
    w = case[1]
    rds = [Reader(C), Reader(C)]
    provs = [MeterProvider([r], RES, shutdown_on_exit=False) for r in rds]
    early = api_metrics.get_meter_provider()
    meters, insts, won, sums, ncre = [], [], None, {}, 0
    for i in w + (MOPS.index("collect"),):
        op = MOPS[i]
        ctx.step()
        if op.startswith(("meter", "prov")):
            d = DEFS[int(op[-1])]
            if op[:4] == "prov":
                meters.append((early.get_meter(*d), want_def(d)))
            else:
                meters.append((api_metrics.get_meter(d[0], d[1] or "", None, d[2], d[3]), want_def(vdef(d, ""))))
        elif op == "create":
            if meters:
                m, d = meters[-1]
                kind = ("counter", "observable_gauge", "histogram")[ncre % 3]
                v = 100 + ncre
                insts.append((mk(m, kind, (f"i{ncre}", "u", "d"), lambda o, v=v: [Observation(v)]), kind, (repr(d), f"i{ncre}", "u", "d"), v))
                ncre += 1
        elif op == "use":
            for h, kind, key, v in insts:
                if kind[:3] != "obs":
                    put(h, kind, v)
                    if won is not None:
                        sums[key] = sums.get(key, 0) + v
        elif op == "collect":
            for k in (0, 1):
                md = rds[k].scrape()
                got = {}
                for r in md.resource_metrics if md else ():
                    for sc in r.scope_metrics:
                        for x in sc.metrics:
                            for p in x.data.data_points:
                                key = (repr(sdef(sc.scope)), x.name, x.unit, x.description)
                                ctx.check(key not in got, "twice", lambda: f"{key} reported twice")
                                got[key] = p.value if hasattr(p, "value") else p.sum
                want = {}
                if won == k:
                    want = {**sums, **{key: v for h, kind, key, v in insts if kind[:3] == "obs"}}
                ctx.check(got == want, "live", lambda: f"{[MOPS[i] for i in w]}: provider {'AB'[k]} reports {got}, expected {want}")
        else:
            k = "AB".index(op[-1])
            api_metrics.set_meter_provider(provs[k])
            if won is None:
                won = k
            ctx.check(api_metrics.get_meter_provider() is provs[won], "set-once", lambda: f"{[MOPS[i] for i in w]}: the global provider is not the first one set")
    ctx.state(won, tuple(sorted(sums.items())), len(insts))


def report(rd):
    md = rd.scrape()
    out = {}
    for r in md.resource_metrics if md else ():
        for sc in r.scope_metrics:
            for x in sc.metrics:
                for p in x.data.data_points:
                    out.setdefault((repr(sdef(sc.scope)), x.name.lower(), x.unit, x.description, type(x.data).__name__, getattr(x.data, "is_monotonic", None)),
                                   []).append(p.value if hasattr(p, "value") else p.sum)
    return out


def c_inst(case, ctx):
    """Two instruments, each created before (early) or after the provider is set, report what the same live ones would."""
    _, ks, early, ds, ins = case
    ctx.step(4)
    reps = []
    for proxied in (True, False):
        rd = Reader(C)
        mp = MeterProvider([rd], RES, shutdown_on_exit=False)
        objs, ran = [], []
        order = sorted(range(2), key=lambda j: -early[j])
        if proxied:
            meters = [api_metrics.get_meter(DEFS[d][0], DEFS[d][1] or "", None, DEFS[d][2], DEFS[d][3]) for d in ds]
        else:
            meters = [mp.get_meter(DEFS[d][0], DEFS[d][1] or "", DEFS[d][2], DEFS[d][3]) for d in ds]
        done = False
        for j in order:
            if proxied and not early[j] and not done:
                api_metrics.set_meter_provider(mp)
                done = True
            objs.append((j, mk(meters[j], KIND[ks[j]], INST[ins[j]], lambda o, j=j: ran.append(j) or [Observation(1 + j, {"j": j})])))
        if proxied and not done:
            api_metrics.set_meter_provider(mp)
        for j, o in objs:
            if KIND[ks[j]][:3] != "obs":
                put(o, KIND[ks[j]], 3 + 4 * j)
        reps.append((report(rd), sorted(ran)))
    ctx.check(reps[0] == reps[1], "instrument", lambda: f"{case}: through early handles {reps[0]}, live {reps[1]}")
    ctx.state(case[1:3], repr(reps[0]))


def c_badinst(case, ctx):
    """An early instrument the SDK refuses must not keep the provider or the other handles from becoming live."""
    _, k, bad, pos = case
    rds = [Reader(C), Reader(C)]
    provs = [MeterProvider([r], RES, shutdown_on_exit=False) for r in rds]
    m1, m2 = api_metrics.get_meter("m1"), api_metrics.get_meter("m2")
    good = []
    for j in range(3):
        if j == pos:
            b = mk(m1, KIND[k], (bad, "", ""), lambda o: [])
        else:
            good.append(mk(m1, "counter", (f"c{j}", "", "")))
    good.append(mk(m2, "counter", ("c", "", "")))
    api_metrics.set_meter_provider(provs[0])
    api_metrics.set_meter_provider(provs[1])
    ctx.check(api_metrics.get_meter_provider() is provs[0], "set-once", f"{case}: a second provider took effect")
    if KIND[k][:3] != "obs":
        put(b, KIND[k], 1)
    for g in good:
        g.add(1)
    ctx.check(len(report(rds[0])) == 3 and not report(rds[1]), "live", lambda: f"{case}: {report(rds[0])} / {report(rds[1])}")
    ctx.state(case)
    ctx.step()


def c_advice(case, ctx):
    _, b, early = case
    rd = Reader(C)
    mp = MeterProvider([rd], RES, shutdown_on_exit=False)
    m = api_metrics.get_meter("m")
    if not early:
        api_metrics.set_meter_provider(mp)
    h = m.create_histogram("h", "u", "d", explicit_bucket_boundaries_advisory=b)
    if early:
        api_metrics.set_meter_provider(mp)
    h.record(1)
    p = metrics(rd.scrape())[0][1].data.data_points[0]
    ctx.check(b is None and len(p.explicit_bounds) == 15 or b is not None and tuple(p.explicit_bounds) == b, "advice", lambda: f"{case}: bounds {p.explicit_bounds}")
    ctx.state(case)
    ctx.step()


def hdr():
    c = {}
    inject(c)
    return c


def c_noop(case, ctx):
    _, how, parent, trk = case
    ctx.step()
    if trk == "noop":
        tr = trace.NoOpTracerProvider().get_tracer("t")
    elif trk == "proxy":
        tr = trace.get_tracer("t")
    else:
        import os
        os.environ["OTEL_SDK_DISABLED"] = "true"
        try:
            tr = TracerProvider(resource=RES, shutdown_on_exit=False).get_tracer("t")
        finally:
            del os.environ["OTEL_SDK_DISABLED"]
    if parent in ("local", "ended"):
        sp = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False).get_tracer("t").start_span("p", octx.Context())
        if parent == "ended":
            sp.end()
    else:
        sp = {"none": None, "remote": trace.NonRecordingSpan(REMOTE), "invalid": trace.INVALID_SPAN}[parent]
    want = trace.INVALID_SPAN_CONTEXT if sp is None else sp.get_span_context()
    pc = octx.Context() if sp is None else trace.set_span_in_context(sp, octx.Context())
    explicit = how.endswith("ctx")
    tok = None if explicit else octx.attach(pc)
    before = octx.get_current()

    def inside(what):
        got = trace.get_current_span().get_span_context()
        ctx.check(got == want and got.trace_state == want.trace_state, "propagates", lambda: f"{case} {what}: active span context {got}, expected {want}")
        h = hdr()
        ctx.check(("traceparent" in h) == want.is_valid and (not want.is_valid or format(want.trace_id, "032x") in h["traceparent"]), "propagates",
                  lambda: f"{case} {what}: injected {h}")

    def uses(s):
        ctx.check(not s.is_recording(), "noop", f"{case}: a span without an SDK records")
        ctx.check(s.get_span_context() == want, "propagates", lambda: f"{case}: no-op span has {s.get_span_context()}, expected {want}")
        s.set_attribute("a", 1)
        s.add_event("e")
        s.set_status(trace.Status(trace.StatusCode.ERROR))
        s.update_name("n")
        s.record_exception(ValueError("x"))

    try:
        if how in ("start", "startctx"):
            s = tr.start_span("s", pc if explicit else None, kind=trace.SpanKind.SERVER, attributes={"a": 1}, links=[trace.Link(REMOTE)], start_time=1)
            uses(s)
            s.end()
            s.end(5)
        elif how == "use_span":
            s = tr.start_span("s")
            with trace.use_span(s, end_on_exit=True):
                inside("in use_span")
        elif how in ("as_current", "as_current_ctx"):
            with tr.start_as_current_span("s", **({"context": pc} if explicit else {})) as s:
                uses(s)
                inside("in scope")
        elif how == "nested":
            with tr.start_as_current_span("s"):
                with tr.start_as_current_span("t") as s:
                    inside("nested")
                inside("after nested")
        elif how == "raise":
            e = ValueError("x")
            try:
                with tr.start_as_current_span("s"):
                    raise e
            except ValueError as got:
                ctx.check(got is e, "raise", "another exception was raised")
        elif how == "decorator":
            @tr.start_as_current_span("s")
            def f(a, *, b):
                inside("decorated")
                return a + b
            ctx.check(f(1, b=2) == 3 and f(2, b=2) == 4, "decorator", "wrong result")
        else:
            @tr.start_as_current_span("s")
            async def g(a):
                await asyncio.sleep(0)
                inside("async decorated")
                return a
            ctx.check(asyncio.run(g(4)) == 4, "decorator", "wrong result")
        ctx.check(octx.get_current() == before, "restored", f"{case}: the current context was not restored")
        if parent == "local":
            ctx.check(sp.is_recording(), "noop", f"{case}: a no-op span ended its parent")
            ctx.check(not sp.events and not sp.attributes and sp.status.status_code is trace.StatusCode.UNSET and sp.name == "p", "noop", f"{case}: a no-op span changed its parent")
    finally:
        if tok is not None:
            octx.detach(tok)
    ctx.state(case)


def c_late_deco(case, ctx):
    _, deco, sets = case
    t = trace.get_tracer("t", "1", None, "s", {"a": 1})
    calls = []
    if deco == "deco":
        @t.start_as_current_span("f", kind=trace.SpanKind.CLIENT)
        def f():
            calls.append(trace.get_current_span().get_span_context().is_valid)
    else:
        @t.start_as_current_span("f", kind=trace.SpanKind.CLIENT)
        async def g():
            calls.append(trace.get_current_span().get_span_context().is_valid)

        def f():
            asyncio.run(g())
    f()
    s = Trace()
    for _ in range(sets):
        trace.set_tracer_provider(s.provider())
    f()
    f()
    ctx.check(calls == [False] + [sets > 0] * 2, "live", lambda: f"{case}: {calls}")
    if sets:
        got = s.seen(0)
        ctx.check(got == [("f", ("t", "1", "s", {"a": 1}))] * 2 and s.sinks[0].got[0].kind is trace.SpanKind.CLIENT, "live", lambda: f"{case}: {got}")
    if sets > 1:
        ctx.check(not s.seen(1), "set-once", "the second provider got spans")
    ctx.state(case)
    ctx.step()


def c_handler(case, ctx):
    s = Logs()
    provs = [s.provider(), s.provider()]
    lg = logging.Logger("app", 1)
    hs, won, want, n = 0, None, [], 0
    logging.disable(logging.NOTSET)
    try:
        for op in case[1]:
            ctx.step()
            if op == "handler":
                lg.addHandler(LoggingHandler())
                hs += 1
            elif op == "log":
                n += 1
                lg.warning("m%d", n)
                if won is not None:
                    want += [f"m{n}"] * hs
            elif op == "flush":
                for h in lg.handlers:
                    h.flush()
            else:
                k = "AB".index(op[-1])
                _logs.set_logger_provider(provs[k])
                won = k if won is None else won
    finally:
        logging.disable(logging.CRITICAL)
    got = [[b for b, _ in s.seen(k)] for k in (0, 1)]
    exp = [[], []]
    if won is not None:
        exp[won] = want
    ctx.check(got == exp, "live", lambda: f"{case}: delivered {got}, expected {exp}")
    ctx.state(case[1], won)


def c_noop_inst(case, ctx):
    _, kind, args = case
    for m in (api_metrics.get_meter("m"), api_metrics.NoOpMeterProvider().get_meter("m"), api_metrics.NoOpMeter("x")):
        i = mk(m, kind, ("é bad name", "u" * 99, "d"), lambda o: [Observation(1)])
        if kind[:3] != "obs":
            a = [(1,), (-1, {"a": 1}), (2.5, None, octx.Context()), ("bad", {"a": object()})][args]
            getattr(i, {"counter": "add", "up_down_counter": "add", "histogram": "record", "gauge": "set"}[kind])(*a)
        mk(m, kind, ("é bad name", "u" * 99, "d"), lambda o: [Observation(1)])
    ctx.state(case)
    ctx.step()


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}
