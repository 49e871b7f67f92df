"""T08: samplers."""
import itertools
import logging
import os
from fractions import Fraction

from opentelemetry import trace
from opentelemetry.context import Context
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace import sampling as S
from opentelemetry.trace import Link, NonRecordingSpan, SpanContext, SpanKind, TraceFlags, TraceState

logging.disable(logging.CRITICAL)
RES = Resource({})
RATIOS = [0.0, 5e-324, 2.0**-65, 2.0**-64, 2.0**-63, 1e-12, 1e-6, 1e-3, 0.1, 0.25, 1 / 3, 0.5, 0.6, 2 / 3, 0.75, 0.9, 0.999999, 1 - 2.0**-53, 1.0]
M = 1 << 64
PARENTS = [None, "invalid"] + [(r, s) for r in (0, 1) for s in (0, 1)]
TS = TraceState([("v", "1")])
KINDS = list(SpanKind)


class Rec(S.Sampler):
    def __init__(self, name, dec, calls):
        self.name, self.dec, self.calls = name, dec, calls

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        self.calls.append((self.name, parent_context, trace_id, name, kind, attributes, links))
        return S.SamplingResult(self.dec, {"by": self.name}, TraceState([("s", self.name)]))

    def get_description(self):
        return self.name


def pctx(p, tid=77):
    if p is None:
        return Context()
    if p == "invalid":
        sc = SpanContext(0, 0, True, TraceFlags(1), TS)
    else:
        sc = SpanContext(tid, 88, bool(p[0]), TraceFlags(p[1]), TS)
    return trace.set_span_in_context(NonRecordingSpan(sc), Context())


def bounds(r):
    b = round(Fraction(r) * M)
    return b


def ids():
    out = {1, 2, M // 2, M - 1, M, M + 1, 1 << 127, (1 << 128) - 1, (1 << 128) - M, 0xDEADBEEF, (0xABCDEF << 64) | 1}
    for r in RATIOS:
        b = bounds(r)
        for d in (-2, -1, 0, 1, 2):
            for hi in (0, 1, (1 << 64) - 1):
                x = ((hi << 64) | ((b + d) % M))
                if x:
                    out.add(x)
    for k in range(0, 64):
        out.add(1 << k)
    return sorted(out)


def samplers(calls=None):
    yield "on", S.ALWAYS_ON
    yield "off", S.ALWAYS_OFF
    for r in RATIOS:
        yield ("ratio", r), S.TraceIdRatioBased(r)
    yield "default_on", S.DEFAULT_ON
    yield "default_off", S.DEFAULT_OFF
    for r in (0.0, 0.5, 1.0):
        yield ("pb_ratio", r), S.ParentBasedTraceIdRatio(r)
        yield ("pb", r), S.ParentBased(S.TraceIdRatioBased(r), remote_parent_sampled=S.ALWAYS_OFF, remote_parent_not_sampled=S.ALWAYS_ON,
                                       local_parent_sampled=S.TraceIdRatioBased(0.5), local_parent_not_sampled=S.TraceIdRatioBased(0.25))


def expect(name, tid, p):
    """True if sampled."""
    def ratio(r):
        return (tid % M) < bounds(r)
    v = p if isinstance(p, tuple) else None
    if name == "on":
        return True
    if name == "off":
        return False
    if name[0] == "ratio":
        return ratio(name[1])
    if name == "default_on":
        return True if v is None else bool(v[1])
    if name == "default_off":
        return False if v is None else bool(v[1])
    if name[0] == "pb_ratio":
        return ratio(name[1]) if v is None else bool(v[1])
    if v is None:
        return ratio(name[1])
    return {(1, 1): lambda: False, (1, 0): lambda: True, (0, 1): lambda: ratio(0.5), (0, 0): lambda: ratio(0.25)}[v]()


def CASES(tier):
    for i in ids():
        yield ("id", i)
    for p in range(len(PARENTS)):
        for cur in range(len(PARENTS)):
            yield ("deleg", p, cur)
    for b in (-0.1, 1.1, -1, 2, float("inf"), float("-inf"), -5e-324, 1 + 2.0**-52, float("nan")):
        yield ("bad", b)
    for n in ["always_on", "always_off", "parentbased_always_on", "parentbased_always_off", "traceidratio", "parentbased_traceidratio", "ALWAYS_OFF", "nope", "", None]:
        for a in [None, "", "0", "0.0", "0.5", "1", "1.0", "x", "2", "-1", "nan", "0.25"]:
            yield ("env", n, a)
    for r in range(len(RATIOS)):
        yield ("bound", r)


SAMPLERS = list(samplers())
ATTRS = {"k": 1}


def run_case(case, ctx):
    ctx.step()
    kind = case[0]
    if kind == "id":
        tid = case[1]
        prev = {}
        for name, s in SAMPLERS:
            for p in PARENTS:
                c = pctx(p, tid)
                res = []
                for nm, kd, at, lk in (("a", None, None, None), ("b", SpanKind.CLIENT, ATTRS, [Link(SpanContext(1, 2, True))]), ("", SpanKind.SERVER, ATTRS, [])):
                    r = s.should_sample(c, tid, nm, kd, at, lk)
                    ctx.step()
                    res.append(r.decision)
                    if r.decision is S.Decision.DROP:
                        ctx.check(not r.attributes, "drop-attributes", lambda: f"{name}: dropping decision carries {r.attributes}")
                    else:
                        ctx.check(dict(r.attributes or {}) == (at or {}), "attributes", lambda: f"{name}: {r.attributes} for {at}")
                    want_ts = TS if isinstance(p, tuple) else None
                    ctx.check((r.trace_state or None) == want_ts, "trace-state", lambda: f"{name} parent {p}: trace state {r.trace_state}")
                want = S.Decision.RECORD_AND_SAMPLE if expect(name, tid, p) else S.Decision.DROP
                ctx.check(all(x is want for x in res), "decision", lambda: f"{name} trace id {tid:#x} parent {p}: {res}, expected {want}")
            if isinstance(name, tuple) and name[0] == "ratio":
                on = s.should_sample(None, tid, "n").decision.is_sampled()
                for r0, o0 in prev.items():
                    ctx.check(not (o0 and r0 <= name[1]) or on, "monotone", lambda: f"id {tid:#x} sampled at {r0} but not at {name[1]}")
                prev[name[1]] = on
                if name[1] == 1.0:
                    ctx.check(on, "ratio-one", f"id {tid:#x} not sampled at ratio 1")
                if name[1] == 0.0:
                    ctx.check(not on, "ratio-zero", f"id {tid:#x} sampled at ratio 0")
        ctx.state(tid, tuple(prev.values()))
    elif kind == "deleg":
        p, cur = PARENTS[case[1]], PARENTS[case[2]]
        from opentelemetry.context import attach, detach
        for dec in S.Decision:
            for explicit in (True, False):
                calls = []
                names = ["root", "rs", "rn", "ls", "ln"]
                sub = [Rec(n, dec, calls) for n in names]
                s = S.ParentBased(sub[0], remote_parent_sampled=sub[1], remote_parent_not_sampled=sub[2], local_parent_sampled=sub[3], local_parent_not_sampled=sub[4])
                tok = attach(pctx(cur))
                c = pctx(p) if explicit else None
                links = [Link(SpanContext(1, 2, True))]
                r = s.should_sample(c, 77, "nm", SpanKind.CLIENT, ATTRS, links)
                d = S.ParentBased(Rec("root", dec, [])).should_sample(c, 77, "nm", SpanKind.CLIENT, ATTRS, links)
                detach(tok)
                eff = p if explicit else cur
                want = "root" if not isinstance(eff, tuple) else {(1, 1): "rs", (1, 0): "rn", (0, 1): "ls", (0, 0): "ln"}[eff]
                ctx.check([x[0] for x in calls] == [want], "delegation", lambda: f"parent {eff}: asked {[x[0] for x in calls]}, expected {want}")
                ctx.check(calls and calls[0][2:6] == (77, "nm", SpanKind.CLIENT, ATTRS) and calls[0][6] == links and (calls[0][1] is c), "delegation-args", lambda: f"{calls}")
                ctx.check(r.decision is dec and dict(r.attributes) == {"by": want} and r.trace_state == TraceState([("s", want)]), "delegation-result", lambda: f"{r}")
                # omitted delegates default to following the parent
                if isinstance(eff, tuple):
                    ctx.check(d.decision is (S.Decision.RECORD_AND_SAMPLE if eff[1] else S.Decision.DROP), "default-delegates", lambda: f"parent {eff}: {d.decision}")
                else:
                    ctx.check(d.decision is dec, "default-delegates", lambda: f"parent {eff}: {d.decision}")
                ctx.state(eff, dec, want)
    elif kind == "bad":
        for mk in (S.TraceIdRatioBased, S.ParentBasedTraceIdRatio):
            try:
                mk(case[1])
                ctx.fail("bad-ratio", f"{mk.__name__}({case[1]}) accepted")
            except ValueError:
                pass
        ctx.state(case)
    elif kind == "bound":
        r = RATIOS[case[1]]
        s = S.TraceIdRatioBased(r)
        ctx.check(s.rate == r, "rate", f"rate {s.rate}")
        # binary search for the decision boundary over the whole 64-bit space: exact fraction
        lo, hi = 0, M
        while lo < hi:
            mid = (lo + hi) // 2
            if s.should_sample(None, mid | (1 << 64), "n").decision.is_sampled():
                lo = mid + 1
            else:
                hi = mid
            ctx.step()
        ctx.check(lo == bounds(r), "fraction", lambda: f"ratio {r}: {lo} of 2^64 ids sampled, expected {bounds(r)}")
        ctx.state(r, lo)
    else:
        _, n, a = case
        for k, v in (("OTEL_TRACES_SAMPLER", n), ("OTEL_TRACES_SAMPLER_ARG", a)):
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        try:
            sampler = TracerProvider(resource=RES, shutdown_on_exit=False).sampler
        finally:
            for k in ("OTEL_TRACES_SAMPLER", "OTEL_TRACES_SAMPLER_ARG"):
                os.environ.pop(k, None)
        try:
            r = float(a)
            if not 0 <= r <= 1:
                r = 1.0
        except (TypeError, ValueError):
            r = 1.0
        base = (n or "parentbased_always_on").lower()
        if base not in ("always_on", "always_off", "parentbased_always_on", "parentbased_always_off", "traceidratio", "parentbased_traceidratio"):
            base = "parentbased_always_on"
        name = {"always_on": "on", "always_off": "off", "parentbased_always_on": "default_on", "parentbased_always_off": "default_off",
                "traceidratio": ("ratio", r), "parentbased_traceidratio": ("pb_ratio", r)}[base]
        for tid in (1, M // 4 - 1, M // 4, M // 2 - 1, M // 2, M - 1, (5 << 64) | 3):
            for p in PARENTS:
                got = sampler.should_sample(pctx(p, tid), tid, "n").decision.is_sampled()
                ctx.step()
                ctx.check(got == expect(name, tid, p), "env", lambda: f"sampler {n!r} arg {a!r}: id {tid:#x} parent {p} sampled={got}")
        ctx.state(case)
