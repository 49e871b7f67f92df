"""C05: B3 (single, multi) and Jaeger propagation."""
import itertools

from opentelemetry import baggage, trace
from opentelemetry.context import Context, get_value, set_value
from opentelemetry.propagators.b3 import B3MultiFormat, B3SingleFormat
from opentelemetry.propagators.jaeger import JaegerPropagator
from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags

PROPS = {"multi": B3MultiFormat(), "single": B3SingleFormat(), "jaeger": JaegerPropagator()}
TIDS = [1, 0xF, 0x10, 2**63, 2**64 - 1, 2**64, 2**127, 2**128 - 1, 0x0123456789ABCDEF0123456789ABCDEF]
SIDS = [1, 0xA, 2**32, 2**63, 2**64 - 1, 0x0123456789ABCDEF]
T32, T16, S16 = "0123456789abcdef0123456789abcdef", "00f067aa0ba902b7", "a1b2c3d4e5f60718"
TID = [None, "", T32, T16, T32.upper(), "0" * 32, "0" * 16, "0" * 31 + "1", T32[:-1], T32 + "0", T16[:-1], "g" * 32, "-" + T32[1:], "0x" + T32[2:], " " + T32[1:], "+" + T16[1:], "1_1" + T16[3:]]
SID = [None, "", S16, S16.upper(), "0" * 16, S16[:-1], S16 + "0", "z" * 16, "0" * 15 + "1", "-" + S16[1:], " " + S16[1:], "1_1" + S16[3:]]
SMP = {None: 0, "1": 1, "0": 0, "true": 1, "True": 1, "false": 0, "False": 0, "d": 1, "": 0}
FLG = {None: 0, "1": 1, "0": 0, "": 0}
HEXD = set("0123456789abcdefABCDEF")
BVAL = ["a", " ", "%", "é", ",", "=", "+", "/", "\t", ":"]


def okid(s, lens):
    return isinstance(s, str) and len(s) in lens and all(c in HEXD for c in s) and int(s, 16) != 0


def CASES(tier):
    for name in PROPS:
        for t, s, f in itertools.product(TIDS, SIDS, (0, 1)):
            yield ("rt", name, t, s, f)
        for t, s, f in [(0, 0, 1), (0, 1, 0), (1, 0, 1), (2**128, 1, 1), (1, 2**64, 0)]:
            yield ("inj", name, t, s, f)
        yield ("empty", name)
        yield ("rt-recording", name)
    for t, s, m, f in itertools.product(TID, SID, SMP, FLG):
        yield ("multi", t, s, m, f)
    for t, s, m, p in itertools.product(TID, SID, SMP, (None, S16, "")):
        if t is None or s is None:
            continue
        yield ("single", "-".join(x for x in (t, s, m, p) if x is not None), t, s, m, p)
    for h in ["", "0", "1", "d", "-", "--", "---", "----", "a-b", f"{T32}", f"{T32}-{S16}-1-{S16}-extra", f"-{S16}-1", f"{T32}--1", "é", " "]:
        yield ("single-bad", h)
    for h in (f"{T32}-{S16}-1", f"{T32}-{S16}-0", "0"):
        for t, s in ((None, None), (T16, S16[::-1]), ("bad", "bad")):
            yield ("both", h, t, s)
    jt = ["", "1", T32, T16, "0", "0" * 32, "g", "-1", T32 + "0", T32.upper(), "f" * 32, "1" + "0" * 32]
    js = ["", "1", S16, "0", "0" * 16, "g", "-1", S16 + "0", "f" * 16, "1" + "0" * 16]
    jp = ["", "0", S16, "g"]
    jf = ["", "0", "1", "2", "3", "00", "01", "03", "ff", "g", "8", "-1"]
    for c in itertools.product(jt, js, jp, jf):
        yield ("jaeger",) + c
    for h in ["", ":", "::", ":::", "::::", f"{T32}:{S16}:0", f"{T32}:{S16}:0:1:1", f"{T32}%3A{S16}%3A0%3A1", "a"]:
        yield ("jaeger-bad", h)
    for n in range(0, 3 if tier == "quick" else 4):
        for w in itertools.product(BVAL, repeat=n):
            yield ("jbag", {"k": "".join(w), "other": "v"})
    for k in ("k", "a-b", "uberctx-x", "x-uberctx-y", "K", "uberctx-"):
        yield ("jbag", {k: "v", "z": "w"})


PRIOR = NonRecordingSpan(SpanContext(7, 8, False, TraceFlags(1)))


def look(ctx, P, carrier, want, what):
    """want: None (context unchanged) or (trace_id, span_id, sampled)."""
    base = set_value("other", 42, trace.set_span_in_context(PRIOR, Context()))
    for given in (base, None):
        out = P.extract(carrier, given)
        sp = trace.get_current_span(out)
        sc = sp.get_span_context()
        if want is None:
            if given is not None:
                ctx.check(sp is PRIOR, f"malformed:{what}", lambda: f"{carrier} replaced the context's span by {sc}")
            else:
                ctx.check(not sc.is_valid, f"malformed:{what}", lambda: f"{carrier} accepted as {sc}")
        else:
            have = (sc.trace_id, sc.span_id, sc.trace_flags.sampled)
            ctx.check(have == (want[0], want[1], bool(want[2])) and sc.is_remote and sc.is_valid, f"extract:{what}",
                      lambda: f"{carrier} extracted as {sc}, expected {want}")
        if given is not None:
            ctx.check(get_value("other", out) == 42, "context", "other values lost")
    return out


def run_case(case, ctx):
    ctx.step()
    ctx.state(case if not isinstance(case[-1], dict) else repr(case))
    kind = case[0]
    if kind in ("rt", "inj"):
        _, name, t, s, f = case
        P = PROPS[name]
        carrier = {"keep": "1"}
        P.inject(carrier, trace.set_span_in_context(NonRecordingSpan(SpanContext(t, s, False, TraceFlags(f))), Context()))
        ctx.check(carrier.pop("keep") == "1", "carrier", "another entry changed")
        if kind == "inj":
            ctx.check(carrier == {}, "inject-invalid", lambda: f"invalid context injected as {carrier}")
            return
        ctx.check(set(carrier) == set(P.fields), "fields", lambda: f"{set(carrier)} vs {P.fields}")
        look(ctx, P, carrier, (t, s, f), "round-trip")
        look(ctx, P, {k: [v] for k, v in carrier.items()}, (t, s, f), "round-trip")
        if name != "jaeger":
            for other in ("multi", "single"):
                look(ctx, PROPS[other], carrier, (t, s, f), "either form")
    elif kind == "rt-recording":
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk.trace import TracerProvider
        from opentelemetry.sdk.trace.sampling import ALWAYS_ON
        P = PROPS[case[1]]
        tr = TracerProvider(resource=Resource({}), sampler=ALWAYS_ON, shutdown_on_exit=False).get_tracer("t")
        root = tr.start_span("r", Context())
        child = tr.start_span("c", trace.set_span_in_context(root, Context()))
        for sp in (root, child):
            carrier = {}
            P.inject(carrier, trace.set_span_in_context(sp, Context()))
            sc = sp.get_span_context()
            look(ctx, P, carrier, (sc.trace_id, sc.span_id, 1), "round-trip")
            if case[1] == "jaeger":
                p = carrier["uber-trace-id"].split(":")[2]
                ctx.check(int(p, 16) == (sp.parent.span_id if sp.parent else 0), "jaeger-parent", carrier)
    elif kind == "empty":
        P = PROPS[case[1]]
        look(ctx, P, {}, None, "absent")
        d = {}
        P.inject(d, Context())
        ctx.check(d == {}, "inject-none", f"injected {d}")
    elif kind == "multi":
        _, t, s, m, f = case
        carrier = {k: v for k, v in zip(("x-b3-traceid", "x-b3-spanid", "x-b3-sampled", "x-b3-flags"), (t, s, m, f)) if v is not None}
        want = (int(t, 16), int(s, 16), SMP[m] | FLG[f]) if okid(t, (16, 32)) and okid(s, (16,)) else None
        look(ctx, PROPS["multi"], carrier, want, "multi")
        look(ctx, PROPS["single"], carrier, want, "multi")
    elif kind == "single":
        _, h, t, s, m, p = case
        # the header is read back from its parts only when they do not contain the separator themselves
        f = h.split("-")
        want = None
        if 2 <= len(f) <= 4 and okid(f[0], (16, 32)) and okid(f[1], (16,)):
            sm = 1 if len(f) == 2 else SMP.get(f[2], 0)
            if len(f) == 3 and m is None:
                return  # sampling field is a span id here: unspecified
            want = (int(f[0], 16), int(f[1], 16), sm)
        look(ctx, PROPS["single"], {"b3": h}, want, "single")
        look(ctx, PROPS["multi"], {"b3": h}, want, "single")
    elif kind == "single-bad":
        look(ctx, PROPS["single"], {"b3": case[1]}, None, "single")
        look(ctx, PROPS["multi"], {"b3": case[1]}, None, "single")
    elif kind == "both":
        _, h, t, s = case
        carrier = {"b3": h}
        if t:
            carrier.update({"x-b3-traceid": t, "x-b3-spanid": s, "x-b3-sampled": "0"})
        f = h.split("-")
        want = (int(f[0], 16), int(f[1], 16), int(f[2])) if len(f) == 3 else None
        if want is None and t:
            return
        look(ctx, PROPS["single"], carrier, want, "both")
        look(ctx, PROPS["multi"], carrier, want, "both")
    elif kind == "jaeger":
        _, t, s, p, f = case
        hexs = lambda x: len(x) > 0 and all(c in HEXD for c in x)  # noqa
        want = None
        if hexs(t) and hexs(s) and hexs(f) and 0 < int(t, 16) < 2**128 and 0 < int(s, 16) < 2**64:
            want = (int(t, 16), int(s, 16), int(f, 16) & 1)
        elif f == "-1" and hexs(t) and hexs(s):
            return  # negative flags: either reading is acceptable
        look(ctx, PROPS["jaeger"], {"uber-trace-id": f"{t}:{s}:{p}:{f}"}, want, "jaeger")
        look(ctx, PROPS["jaeger"], {"uber-trace-id": [f"{t}:{s}:{p}:{f}"]}, want, "jaeger")
    elif kind == "jaeger-bad":
        look(ctx, PROPS["jaeger"], {"uber-trace-id": case[1]}, None, "jaeger")
    elif kind == "jbag":
        P = PROPS["jaeger"]
        c = trace.set_span_in_context(NonRecordingSpan(SpanContext(5, 6, False, TraceFlags(1))), Context())
        for k, v in case[1].items():
            c = baggage.set_baggage(k, v, c)
        carrier = {}
        P.inject(carrier, c)
        out = P.extract(carrier, baggage.set_baggage("old", "o", Context()))
        ctx.check(dict(baggage.get_all(out)) == {"old": "o", **case[1]}, "jaeger-baggage", lambda: f"{case[1]!r} via {carrier} came back as {dict(baggage.get_all(out))!r}")
        ctx.check(trace.get_current_span(out).get_span_context().trace_id == 5, "jaeger-baggage", "span lost")
