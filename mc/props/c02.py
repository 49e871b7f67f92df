"""C02: W3C trace context propagation."""
import itertools

from opentelemetry import trace
from opentelemetry.context import Context, get_value, set_value
from opentelemetry.propagators.textmap import Getter, Setter
from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags, TraceState
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

P = TraceContextTextMapPropagator()
TIDS = [1, 0xF, 0x10, 2**64 - 1, 2**64, 2**127, 2**128 - 1, 0x0123456789ABCDEF0123456789ABCDEF, 0xABCDEF << 100]
SIDS = [1, 0xA, 2**32, 2**63, 2**64 - 1, 0x0123456789ABCDEF]
STATES = [None, [], [("a", "1")], [("a", "1"), ("b@c", "x y!"), ("1z@q", "~")], [(f"k{i}", f"v{i}") for i in range(32)]]


class ListGetter(Getter):
    """carrier: list of (name, value); case-insensitive, multi-valued."""

    def get(self, carrier, key):
        v = [x for k, x in carrier if k.lower() == key.lower()]
        return v or None

    def keys(self, carrier):
        return [k for k, _ in carrier]


class ListSetter(Setter):
    def set(self, carrier, key, value):
        carrier.append((key.title(), value))


BASES = ["00-0123456789abcdef0123456789abcdef-0123456789abcdef-01",
         "01-0123456789abcdef0123456789abcdef-0123456789abcdef-00",
         "ff-0123456789abcdef0123456789abcdef-0123456789abcdef-01",
         "fe-00000000000000000000000000000001-0000000000000001-ff"]
ALPHA = list("019afgAF- \t.é_") + ["00"]


def model_parse(h):
    """Independent reading of the traceparent grammar."""
    hexd = set("0123456789abcdef")
    s = h.strip(" \t")
    if len(s) < 55:
        return None
    v, t, p, f = s[0:2], s[3:35], s[36:52], s[53:55]
    if s[2] != "-" or s[35] != "-" or s[52] != "-":
        return None
    if not all(c in hexd for c in v + t + p + f):
        return None
    rest = s[55:]
    if v == "ff" or int(t, 16) == 0 or int(p, 16) == 0:
        return None
    if v == "00" and rest:
        return None
    if rest and not rest.startswith("-"):
        return None
    return int(t, 16), int(p, 16), int(f, 16)


def headers():
    seen = set()

    def emit(h):
        if h not in seen:
            seen.add(h)
            return True

    for b in BASES:
        c = [b, "", " ", b + b, b.upper(), b + "-", b + "-x", b + "-x-y", b + "x", b + " ", " " + b, "\t" + b + "\t ", b + " x", b + "- ", "x " + b, "x" + b]
        c += [b[:i] for i in range(len(b))] + [b[i:] for i in range(len(b))]
        for i in range(len(b)):
            c += [b[:i] + a + b[i + 1:] for a in ALPHA]
            c += [b[:i] + a + b[i:] for a in ALPHA]
            c.append(b[:i] + b[i + 1:])
        z = b[:3] + "0" * 32 + b[35:]
        c += [z, b[:36] + "0" * 16 + b[52:], b[:3] + "0" * 31 + "1" + b[35:], b[:36] + "0" * 15 + "1" + b[52:]]
        for x in range(256):
            c.append(f"{x:02x}" + b[2:])
            c.append(b[:53] + f"{x:02x}")
            c.append(f"{x:02x}" + b[2:] + "-more")
        for h in c:
            if emit(h):
                yield h


def CASES(tier):
    for t, s in itertools.product(TIDS, SIDS):
        for st in range(len(STATES)):
            for fl in ((0, 1, 2, 0xFF) if (t, s) != (TIDS[0], SIDS[0]) else range(256)):
                for c in ("dict", "list"):
                    yield ("rt", t, s, fl, st, c)
    for h in headers():
        yield ("ex", [h], None)
    hs = list(BASES) + ["bad", ""]
    for a, b in itertools.product(hs, repeat=2):
        yield ("ex", [a, b], None)
    tss = [[], [""], ["a=1"], ["a=1", "b=2"], ["a=1,b=2"], ["a=1", "bad"], ["bad"], ["a=1 , b=2"], ["a=1,a=2"]]
    for h in BASES + ["bad"]:
        for ts in tss:
            yield ("ex", [h], ts)
    bad = [0, -1]
    for t, s in [(0, 0), (0, 1), (1, 0), (2**128, 1), (1, 2**64), (2**128, 0)]:
        for fl in (0, 1):
            for st in range(3):
                yield ("inj", t, s, fl, st)
    for kind in ("list", "tuple", "str"):
        for ts in (None, "", "a=1", ["a=1", "b=2"], ("a=1", "b=2", "c=3"), [], [""]):
            for h in (BASES[0], BASES[1], "", "bad"):
                yield ("default", kind, h, ts)
    for c in ("none", "plain", "empty-list", "str", "unset", "nocontext"):
        yield ("carrier", c)


def run_case(case, ctx):
    ctx.step()
    kind = case[0]
    ctx.state(case)
    base = set_value("other", 42, Context())
    if kind == "rt":
        _, t, s, fl, st, car = case
        ts = TraceState(STATES[st]) if STATES[st] is not None else None
        sc = SpanContext(t, s, is_remote=False, trace_flags=TraceFlags(fl), trace_state=ts)
        c = trace.set_span_in_context(NonRecordingSpan(sc), base)
        if car == "dict":
            carrier = {"keep": "1"}
            P.inject(carrier, c)
            names = set(carrier) - {"keep"}
            ctx.check(carrier.get("keep") == "1", "carrier", "inject disturbed another carrier entry")
            back = P.extract(carrier, base)
        else:
            carrier = []
            P.inject(carrier, c, setter=ListSetter())
            names = {k.lower() for k, _ in carrier}
            ctx.check(len(names) == len(carrier), "carrier", "a header was set twice")
            back = P.extract(carrier, base, getter=ListGetter())
        ctx.check(names <= set(P.fields) and "traceparent" in names, "fields", lambda: f"injected {names}, fields {P.fields}")
        got = trace.get_current_span(back).get_span_context()
        want = (t, s, bool(fl & 1), STATES[st] or [], True)
        have = (got.trace_id, got.span_id, got.trace_flags.sampled, list(got.trace_state.items()), got.is_remote)
        ctx.check(have == want, "round-trip", lambda: f"{want} came back as {have} via {carrier}")
        ctx.check(got.is_valid and get_value("other", back) == 42, "context", "other context values lost")
        ctx.check(trace.get_current_span(base).get_span_context() == trace.INVALID_SPAN_CONTEXT, "context", "base context changed")
    elif kind == "ex":
        _, hs, ts = case
        prior = NonRecordingSpan(SpanContext(7, 8, False, TraceFlags(1)))
        c0 = trace.set_span_in_context(prior, base)
        carrier = [("traceparent", h) for h in hs] + [("tracestate", x) for x in (ts or [])]
        want = model_parse(hs[0])
        for given, tag in ((c0, "prior"), (None, "no context")):
            out = P.extract(carrier, given, getter=ListGetter())
            sp = trace.get_current_span(out).get_span_context()
            if want is None:
                if given is not None:
                    ctx.check(out == given and trace.get_current_span(out) is prior, "malformed-changes-context",
                              lambda: f"malformed header {hs!r} changed the context: {sp}")
                else:
                    ctx.check(not sp.is_valid, "malformed-accepted", lambda: f"malformed header {hs!r} accepted as {sp}")
            else:
                from mc.props.c03 import m_header
                have = (sp.trace_id, sp.span_id, int(sp.trace_flags))
                ctx.check(have[:2] == want[:2] and (have[2] & 1) == (want[2] & 1) and sp.is_remote, "extract",
                          lambda: f"{hs!r}: got {have}, expected {want}")
                wts = m_header(ts) if ts else []
                ctx.check(list(sp.trace_state.items()) == wts, "extract-state", lambda: f"{ts!r}: {list(sp.trace_state.items())} expected {wts}")
                if given is not None:
                    ctx.check(get_value("other", out) == 42, "context", "other context values lost")
        # single header in a plain dict behaves the same
        if len(hs) == 1 and not ts:
            out = P.extract({"traceparent": hs[0]}, c0)
            sp = trace.get_current_span(out).get_span_context()
            ok = (sp.trace_id, sp.span_id) == want[:2] if want else trace.get_current_span(out) is prior
            ctx.check(ok, "extract-dict", lambda: f"dict carrier {hs!r}: {sp}")
    elif kind == "default":
        # the default getter reads strings, lists and tuples from a mapping
        _, k2, h, ts = case
        from mc.props.c03 import m_header
        car = {"traceparent": {"list": [h], "tuple": (h, BASES[3]), "str": h}[k2]}
        if ts is not None:
            car["tracestate"] = ts
        c0 = trace.set_span_in_context(NonRecordingSpan(SpanContext(7, 8, False, TraceFlags(1))), base)
        out = P.extract(car, c0)
        want = model_parse(h)
        sp = trace.get_current_span(out).get_span_context()
        if want is None:
            ctx.check(out == c0, "default-malformed", lambda: f"{car}: {sp}")
        else:
            tl = [] if ts is None else [ts] if isinstance(ts, str) else list(ts)
            wts = m_header(tl) if tl else []
            ctx.check((sp.trace_id, sp.span_id) == want[:2] and list(sp.trace_state.items()) == wts, "default-getter", lambda: f"{car}: {sp}, expected state {wts}")
        from opentelemetry.propagators.textmap import DefaultGetter
        for v, w in (("x", ["x"]), ("", [""]), (["a", "b"], ["a", "b"]), (("a", "b"), ["a", "b"]), ([], []), (None, None)):
            ctx.check(DefaultGetter().get({"k": v}, "k") == w, "default-getter", lambda: f"value {v!r} read as {DefaultGetter().get({'k': v}, 'k')!r}")
        ctx.check(DefaultGetter().get({}, "k") is None and list(DefaultGetter().keys({"k": 1, "j": 2})) == ["k", "j"], "default-getter", "missing key, or keys")
    elif kind == "inj":
        _, t, s, fl, st = case
        sc = SpanContext(t, s, is_remote=False, trace_flags=TraceFlags(fl), trace_state=TraceState(STATES[st] or []))
        carrier = {}
        P.inject(carrier, trace.set_span_in_context(NonRecordingSpan(sc), base))
        ctx.check(not carrier, "inject-invalid", lambda: f"invalid span context {sc} injected as {carrier}")
    else:
        c0 = trace.set_span_in_context(NonRecordingSpan(SpanContext(7, 8, False, TraceFlags(1))), base)
        car = {"none": {"traceparent": None}, "plain": {"x": "y"}, "empty-list": {"traceparent": []}, "str": {"traceparent": BASES[0]},
               "unset": {}, "nocontext": {}}[case[1]]
        if case[1] == "none":
            car = {}
        out = P.extract(car, c0)
        if case[1] == "str":
            ctx.check(trace.get_current_span(out).get_span_context().trace_id == int(BASES[0][3:35], 16), "extract", "plain dict")
        else:
            ctx.check(out == c0, "context", f"carrier {car} changed the context")
        d = {}
        P.inject(d, Context())
        ctx.check(d == {}, "inject-none", f"injected {d} without a span")
