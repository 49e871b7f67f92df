"""C03: TraceState operations and header codec against a list-of-pairs model."""
import itertools

from opentelemetry.trace import TraceState

LOW = set("abcdefghijklmnopqrstuvwxyz")
DIG = set("0123456789")
EXTRA = set("_-*/")


def valid_key(k):
    if not isinstance(k, str) or not k:
        return False
    if "@" not in k:
        return k[0] in LOW and len(k) <= 256 and all(c in LOW | DIG | EXTRA for c in k)
    if k.count("@") != 1:
        return False
    t, s = k.split("@")
    ok = lambda x: all(c in LOW | DIG | EXTRA for c in x)  # noqa
    return 1 <= len(t) <= 241 and t[0] in LOW | DIG and ok(t) and 1 <= len(s) <= 14 and s[0] in LOW and ok(s)


def valid_value(v):
    return (isinstance(v, str) and 1 <= len(v) <= 256 and all(0x20 <= ord(c) <= 0x7E and c not in ",=" for c in v) and v[-1] != " ")


def m_ctor(entries):
    if len(entries) > 32:
        return []
    out = []
    for k, v in entries:
        if valid_key(k) and valid_value(v) and k not in [x for x, _ in out]:
            out.append((k, v))
    return out


def m_header(headers):
    out = []
    for h in headers:
        for m in h.split(","):
            m = m.strip(" \t")
            if not m:
                continue
            if "=" not in m:
                return []
            k, v = m.split("=", 1)
            if not (valid_key(k) and valid_value(v)) or k in [x for x, _ in out]:
                return []
            out.append((k, v))
    return out if len(out) <= 32 else []


def m_op(st, op):
    name, k, v = op
    keys = [x for x, _ in st]
    if name == "delete":
        return [e for e in st if e[0] != k]
    if not (valid_key(k) and valid_value(v)):
        return st
    if name == "add":
        return st if k in keys or len(st) >= 32 else [(k, v)] + st
    if k not in keys and len(st) >= 32:
        return st
    return [(k, v)] + [e for e in st if e[0] != k]


def full(n):
    return [(f"k{i}", f"v{i}") for i in range(n)]


STARTS = [[], [("a", "1")], [("b", "2"), ("a", "1")], full(30) + [("a", "1")], full(31) + [("a", "1")], full(32)]
KEYS = ["a", "b", "1t@s", "A"]
VALS = ["x", "y z", "p=q"]
OPS = ([("add", k, v) for k in KEYS for v in VALS] + [("update", k, v) for k in KEYS for v in VALS]
       + [("delete", k, None) for k in KEYS + ["k0"]])
TOK = ["a=1", "b=2", "a=2", ",", " ", "\t", "A=1", "zz", "=", "c=x y", "d@e=5", "e= 1", "f=g=h", ";"]


def CASES(tier):
    d = 3 if tier == "quick" else 4
    for s in range(len(STARTS)):
        for n in range(d, d + 1):
            if d == 4 and s > 2:
                n = 3
            for w in itertools.product(range(len(OPS)), repeat=n if s != 3 else 2):
                yield ("ops", s, w)
    ents = [("a", "1"), ("a", "2"), ("b", "3"), ("B", "x"), ("c", ""), ("c", None), (None, "1"), ("d", "é")]
    for n in range(0, 4):
        for w in itertools.product(range(len(ents)), repeat=n):
            yield ("ctor", [ents[i] for i in w])
    for n in (31, 32, 33):
        yield ("ctor", full(n))
        yield ("header", [",".join(f"{k}={v}" for k, v in full(n))])
        yield ("header", [",".join(f"{k}={v}" for k, v in full(n - 1)), "zzz=1"])
        yield ("header", [",".join(f"{k}={v}" for k, v in full(n)) + ",,"])
    ka = ["a", "z", "0", "_", "-", "*", "/", "@", "A", " ", "=", ",", "é", "."]
    for n in range(0, 4):
        for w in itertools.product(ka, repeat=n):
            yield ("key", "".join(w))
    for k in ["a" * 256, "a" * 257, "0" + "a" * 240 + "@a", "0" + "a" * 241 + "@a", "a@" + "b" * 14, "a@" + "b" * 15, "a" * 241 + "@" + "b" * 14]:
        yield ("key", k)
    va = ["a", " ", ",", "=", "~", "!", "\x7f", "\t", "é", "\x1f", "<", ">", "+", "-", "\n"]
    for n in range(0, 4):
        for w in itertools.product(va, repeat=n):
            yield ("val", "".join(w))
    for v in ["a" * 256, "a" * 257, " " * 255 + "a", " " * 256 + "a", "a" + " " * 255]:
        yield ("val", v)
    m = 4 if tier == "quick" else 5
    for n in range(0, m + 1):
        for w in itertools.product(TOK, repeat=n):
            yield ("header", ["".join(w)])
    for a, b in itertools.product(TOK, repeat=2):
        yield ("header", [a, b])
        yield ("header", [a + ",b=2", b])


def items(ts):
    return list(ts.items())


def run_case(case, ctx):
    kind = case[0]
    if kind == "ops":
        model = list(STARTS[case[1]])
        ts = TraceState(list(model))
        for i in case[2]:
            op = OPS[i]
            before = items(ts)
            nxt = getattr(ts, op[0])(*op[1:]) if op[0] != "delete" else ts.delete(op[1])
            want = m_op(model, op)
            ctx.step()
            ctx.state(tuple(want))
            if items(ts) != before:
                return ctx.fail("original-changed", f"{op} changed the original {before} -> {items(ts)}")
            if items(nxt) != want:
                return ctx.fail(f"op-{op[0]}", f"{op} on {model}: got {items(nxt)}, expected {want}")
            if nxt is ts and want != model:
                return ctx.fail("same-object", f"{op} returned the same object with other contents")
            if len(nxt) != len(want) or list(nxt) != [k for k, _ in want] or list(nxt.values()) != [v for _, v in want] or (
                    want and nxt[want[-1][0]] != want[-1][1]) or (op[1] in nxt) != (op[1] in dict(want)):
                return ctx.fail("mapping-view", f"mapping views disagree after {op}: {list(nxt)}")
            back = items(TraceState.from_header([nxt.to_header()]))
            if back != want:
                return ctx.fail("round-trip", f"{want} serialised as {nxt.to_header()!r} parsed as {back}")
            ts, model = nxt, want
        return
    ctx.step()
    if kind == "ctor":
        src = list(case[1])
        got, want = items(TraceState(src)), m_ctor(case[1])
        ctx.check(src == case[1], "input-changed", "constructor changed its input")
        if len(case[1]) <= 32:
            ctx.check(got == want, "constructor", lambda: f"TraceState({case[1]!r}) holds {got}, expected {want}")
        ctx.check(len(got) <= 32, "too-many", "more than 32 entries")
    elif kind == "key":
        got, want = items(TraceState([(case[1], "v")])), m_ctor([(case[1], "v")])
        ctx.check(got == want, "key-validation", lambda: f"key {case[1]!r}: {got} expected {want}")
        g2 = items(TraceState([("q", "r")]).add(case[1], "v"))
        ctx.check(g2 == m_op([("q", "r")], ("add", case[1], "v")), "key-validation", lambda: f"add key {case[1]!r}: {g2}")
        g3 = items(TraceState([("q", "r")]).update(case[1], "v"))
        ctx.check(g3 == m_op([("q", "r")], ("update", case[1], "v")), "key-validation", lambda: f"update key {case[1]!r}: {g3}")
    elif kind == "val":
        got, want = items(TraceState([("k", case[1])])), m_ctor([("k", case[1])])
        ctx.check(got == want, "value-validation", lambda: f"value {case[1]!r}: {got} expected {want}")
        if want:
            back = items(TraceState.from_header([TraceState(want).to_header()]))
            ctx.check(back == want, "round-trip", lambda: f"{want} parsed back as {back}")
    elif kind == "header":
        got, want = items(TraceState.from_header(list(case[1]))), m_header(case[1])
        edge = any(h != h.strip(" \t") for h in case[1])  # carriers strip edge whitespace themselves: refusing it is as good
        ctx.check(got == want or (edge and got == []), "header", lambda: f"header {case[1]!r}: got {got}, expected {want}")
    ctx.state(tuple(want))
