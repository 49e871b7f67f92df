"""A01: attribute validation at every entry point, and bounded attribute collections."""
import itertools
import logging

from opentelemetry import trace
from opentelemetry.attributes import BoundedAttributes
from opentelemetry.context import Context
from opentelemetry.sdk._logs import LogRecord
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON

logging.disable(logging.CRITICAL)
RES = Resource({})


class Last(SpanProcessor):
    def on_end(self, span):
        self.span = span


LAST = Last()
TP = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False)
TP.add_span_processor(LAST)
TR = TP.get_tracer("t")
SC = trace.SpanContext(5, 6, True, trace.TraceFlags(1))
OBJ = object()
SCALARS = [True, False, 0, 1, -1, 2**70, 0.0, 1.5, float("inf"), "s", "", "é", b"ok", b"", b"\xc3\xa9"]
BAD = [None, OBJ, {"k": 1}, {1, 2}, 1j, b"\xff", lambda: 1, type]
ELEM = [True, False, 0, 1, 1.5, "s", "", b"ok", None, OBJ, [1], (1,), {"k": 1}, 1j]
KEYS_BAD = ["", None, 0, 1, b"k", (1,), True, 1.5]
POINTS = ["span-start", "set_attribute", "set_attributes", "event", "link-start", "add_link", "resource", "scope", "log"]
DROP = object()


def model(v):
    if isinstance(v, bytes):
        try:
            return v.decode()
        except UnicodeDecodeError:
            return DROP
    if isinstance(v, (bool, str, int, float)):
        return v
    if isinstance(v, (list, tuple, range)):
        out, t = [], None
        for e in v:
            if e is None:
                out.append(None)
                continue
            e = e.decode() if isinstance(e, bytes) else e
            if type(e) not in (bool, str, int, float):
                return DROP
            if t is None:
                t = type(e)
            elif t is not type(e):
                return DROP
            out.append(e)
        return tuple(out)
    return DROP


def typed(v):
    return (type(v).__name__, tuple(typed(x) for x in v)) if isinstance(v, (list, tuple)) else (type(v).__name__, v)


def record(point, attrs):
    """Hand attrs to an entry point; returns a function giving what is recorded."""
    if point == "span-start":
        s = TR.start_span("s", Context(), attributes=attrs)
        s.end()
        sp = LAST.span
        return lambda: sp.attributes
    if point in ("set_attribute", "set_attributes"):
        s = TR.start_span("s", Context())
        if point == "set_attributes":
            s.set_attributes(attrs)
        else:
            for k, v in attrs.items():
                s.set_attribute(k, v)
        s.end()
        sp = LAST.span
        return lambda: sp.attributes
    if point == "event":
        s = TR.start_span("s", Context())
        s.add_event("e", attrs)
        s.end()
        sp = LAST.span
        return lambda: sp.events[0].attributes
    if point == "link-start":
        s = TR.start_span("s", Context(), links=[trace.Link(SC, attrs)])
        s.end()
        sp = LAST.span
        return lambda: sp.links[0].attributes
    if point == "add_link":
        s = TR.start_span("s", Context())
        s.add_link(SC, attrs)
        s.end()
        sp = LAST.span
        return lambda: sp.links[0].attributes
    if point == "resource":
        r = Resource(attrs)
        return lambda: r.attributes
    if point == "scope":
        s = TP.get_tracer("x", "1", None, attrs).start_span("s", Context())
        s.end()
        sp = LAST.span
        return lambda: sp.instrumentation_scope.attributes
    r = LogRecord(attributes=attrs, resource=RES)
    return lambda: r.attributes


def seqs(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for w in itertools.product(range(len(ELEM)), repeat=n):
            yield list(ELEM[i] for i in w)


def CASES(tier):
    for p in range(len(POINTS)):
        for i in range(len(SCALARS) + len(BAD)):
            yield ("scalar", p, i)
        for i in range(len(KEYS_BAD)):
            yield ("key", p, i)
        yield ("none", p)
    for i, s in enumerate(seqs(tier)):
        if len(s) <= 2:
            for p in range(len(POINTS)):
                yield ("seq", p, i)
        else:
            yield ("seq", i % len(POINTS), i)
    n = 5 if tier == "quick" else 6
    for mx in (None, 0, 1, 2):
        for w in itertools.product(range(len(BOPS)), repeat=n if mx else n - 1):
            yield ("bounded", mx, w)
    for mx, lim in itertools.product((None, 1, 2), (None, 0, 1, 2)):
        for w in itertools.product(range(len(VLEN)), repeat=3):
            yield ("vlen", mx, lim, w)
    for mx in (None, 2, 3):
        for w in itertools.product(range(len(BOPS)), repeat=2):
            for at in range(4):
                yield ("iterate", mx, w, at)
    for i in range(4):
        yield ("immutable", i)
    for mx in (-1, "1", 1.5):
        yield ("maxlen", mx)


BOPS = [("set", "a", 1), ("set", "b", [1, 2]), ("set", "c", "xyz"), ("set", "a", OBJ), ("set", "", 1), ("del", "a", None)]
VLEN = [("a", ""), ("a", "x"), ("b", "xyz"), ("c", b"xyz"), ("a", ["xyz", "", None, "z"]), ("b", [1, 2, 3]), ("c", 12345), ("b", True), ("c", [b"\xc3\xa9\xc3\xa9"])]
SEQ = None


def cut(v, lim):
    v = model(v)
    f = lambda x: x[:lim] if isinstance(x, str) and lim is not None else x  # noqa
    return tuple(f(x) for x in v) if isinstance(v, tuple) else f(v)


def run_case(case, ctx):
    global SEQ
    ctx.step()
    kind = case[0]
    if kind in ("scalar", "seq"):
        if kind == "scalar":
            v = (SCALARS + BAD)[case[2]]
        else:
            if SEQ is None:
                SEQ = list(seqs("thorough"))
            v = list(SEQ[case[2]])
        want = model(v)
        vals = [v] if kind == "scalar" else [v, tuple(v)]
        for val in vals:
            attrs = {"first": 1, "k": val, "last": "z"}
            get = record(POINTS[case[1]], attrs)
            exp = {"first": 1, "last": "z"}
            if want is not DROP:
                exp = {"first": 1, "k": want, "last": "z"}
            for mutate in (False, True):
                if mutate:
                    attrs["k2"] = 1
                    attrs["first"] = 2
                    del attrs["last"]
                    if isinstance(val, list):
                        val.append("changed")
                        if val:
                            val[0] = "changed"
                got = get()
                ctx.check({k: typed(x) for k, x in got.items()} == {k: typed(x) for k, x in exp.items()} and list(got) == list(exp),
                          "copy" if mutate else "value", lambda: f"{POINTS[case[1]]} given {val!r}: recorded {dict(got)!r}, expected {exp!r}")
        ctx.state(case[1], repr(want) if want is not DROP else "drop")
    elif kind == "key":
        k = KEYS_BAD[case[2]]
        get = record(POINTS[case[1]], {"first": 1, k: "v", "last": 2})
        ctx.check(dict(get()) == {"first": 1, "last": 2}, "key", lambda: f"{POINTS[case[1]]} key {k!r}: {dict(get())!r}")
        ctx.state(case)
    elif kind == "none":
        p = POINTS[case[1]]
        for a in ({}, None):
            if p in ("set_attribute", "set_attributes") and a is None:
                continue
            g = record(p, a)()
            ctx.check(dict(g or {}) == {}, "none", lambda: f"{p}: no attributes recorded as {g!r}")
        ctx.state(case)
    elif kind == "bounded":
        _, mx, w = case
        b = BoundedAttributes(mx, None, immutable=False)
        m, dropped = {}, 0
        for i in w:
            op, k, v = BOPS[i]
            if op == "set":
                b[k] = v
                c = model(v) if k else DROP
                if c is not DROP:
                    if mx == 0:
                        dropped += 1
                    else:
                        if k in m:
                            del m[k]
                        elif mx is not None and len(m) == mx:
                            del m[next(iter(m))]
                            dropped += 1
                        m[k] = c
            else:
                try:
                    del b[k]
                    ok = True
                except KeyError:
                    ok = False
                ctx.check(ok == (k in m), "delete", f"deleting {k!r}")
                m.pop(k, None)
            ctx.step()
            if mx == 0 and any(BOPS[j][2] is OBJ or not BOPS[j][1] for j in w):
                dropped = b.dropped  # counting invalid entries under a limit of 0: unspecified
            good = (dict(b) == m and list(b) == list(m) and len(b) == len(m) and list(b.items()) == list(m.items()) and b == m and m == b
                    and all((x in b) == (x in m) for x in "abc") and b.dropped == dropped and dict(b.copy()) == m
                    and [b.get(x) for x in "abc"] == [m.get(x) for x in "abc"])
            ctx.check(good, "bounded", lambda: f"maxlen {mx} after {[BOPS[j][:2] for j in w]}: {b!r} dropped {b.dropped}, expected {m} dropped {dropped}")
            c = b.copy()
            c["zz"] = 1
            ctx.check("zz" not in b, "bounded-copy", "copy() aliases the collection")
            ctx.state(mx, tuple(m.items()), dropped)
        im = BoundedAttributes(mx, m or None)
        ctx.check(dict(im) == m and im.dropped == 0, "bounded", "construction from a mapping differs")
    elif kind == "vlen":
        _, mx, lim, w = case
        whole = BoundedAttributes(mx, dict(VLEN[i] for i in w), max_value_len=lim)
        b = BoundedAttributes(mx, None, immutable=False, max_value_len=lim)
        for x, items in ((whole, list(dict(VLEN[i] for i in w).items())), (b, [VLEN[i] for i in w])):
            m = {}
            for k, v in items:
                if x is b:
                    b[k] = v
                m.pop(k, None)
                m[k] = cut(v, lim)
                while mx is not None and len(m) > mx:
                    del m[next(iter(m))]
            ctx.check({k: typed(v) for k, v in x.items()} == {k: typed(v) for k, v in m.items()} and list(x) == list(m), "length",
                      lambda: f"maxlen {mx}, values up to {lim}, given {items}: {x!r}, expected {m}")
        ctx.state(mx, lim, repr(m))
    elif kind == "iterate":
        _, mx, w, at = case
        b = BoundedAttributes(mx, {"x": 1, "a": 2, "b": 3}, immutable=False)
        want, seen = list(b), []
        try:
            for j, k in enumerate(b):
                if j == at:
                    for i in w:
                        op, key, v = BOPS[i]
                        if op == "set":
                            b[key] = v
                        elif key in b:
                            del b[key]
                seen.append(k)
        except Exception as e:
            seen.append(e)
        ctx.check(seen == want, "iterate", lambda: f"maxlen {mx}: iterating {want} while {[BOPS[i] for i in w]} happened gave {seen}")
        ctx.state(case)
    elif kind == "immutable":
        im = BoundedAttributes(2, {"a": 1, "b": 2, "c": 3})
        ops = [lambda: im.__setitem__("a", 2), lambda: im.__delitem__("b"), lambda: im.update({"z": 1}), lambda: im.clear()]
        try:
            ops[case[1]]()
            ctx.fail("immutable", "modification of an immutable collection succeeded")
        except TypeError:
            pass
        ctx.check(dict(im) == {"b": 2, "c": 3} and im.dropped == 1, "immutable", f"changed to {im!r}")
        ctx.state(case)
    else:
        try:
            BoundedAttributes(case[1])
            ctx.fail("maxlen", f"maxlen {case[1]!r} accepted")
        except ValueError:
            pass
        ctx.state(case)
