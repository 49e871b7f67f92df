"""C04: baggage mapping per context and the W3C baggage header codec."""
import itertools

from opentelemetry import baggage
from opentelemetry.baggage.propagation import W3CBaggagePropagator
from opentelemetry.context import Context, attach, detach, get_value, set_value

P = W3CBaggagePropagator()
NAMES = ["a", "b"]
OPS = ([("set", n, v) for n in NAMES for v in ("1", "2")] + [("remove", n, None) for n in NAMES + ["zz"]] + [("clear", None, None)])
VAL = ["a", " ", ",", ";", "=", "%", "+", '"', "\\", "é", "\U0001f600", "\t", "\n", "%41", "/", "\x7f"]
KCH = ["a", " ", ",", ";", "=", "%", "+", "é", "-"]
TOK = ["a=1", "b=2", "a=3", ",", ";", "p", "=", " ", "%20", "%zz", "x y", "é", "c=%C3%A9", "d=1+1", "\t"]
KEYCH = set("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")

VPROP = ["p", "p=v", "p1=%41", "p_=a-b"]
BPROP = ["p q", "p=\"", "p=a\\b", "=v", "é", "p=é", "p q=1", "p=a b"]


def CASES(tier):
    d = 3 if tier == "quick" else 4
    for w in itertools.product(range(len(OPS)), repeat=d):
        for branch in range(d):
            yield ("ops", w, branch)
    n = 3 if tier == "quick" else 4
    for k in range(0, n + 1):
        for w in itertools.product(VAL, repeat=k):
            yield ("rt", {"key": "".join(w)})
    for k in range(1, n + 1):
        for w in itertools.product(KCH, repeat=k):
            yield ("rt", {"".join(w): "v"})
    for a, b in itertools.product(VAL, repeat=2):
        yield ("rt", {"k1": a, "k2": "x" + b, "k3": ""})
    for v in (1, True, 1.5):
        yield ("rt", {"k": v})
    for v in (b"x", None):
        yield ("noraise", {"k": v})
    for k in range(0, (4 if tier == "quick" else 5) + 1):
        for w in itertools.product(range(len(TOK)), repeat=k):
            yield ("hdr", w)
    for n in (1, 2, 179, 180, 181, 182, 190, 400):
        for bad in [None] + sorted({0, min(1, n - 1), n // 2, n - 1}):
            for how in ("noeq", "long", "empty", "badkey"):
                yield ("count", n, bad, how)
    for ln in (4095, 4096, 4097):
        for pos in (0, 1, 2):
            yield ("pair", ln, pos)
    for ln in (8190, 8191, 8192, 8193, 20000):
        yield ("total", ln)
    for v in VPROP + BPROP:
        for w in VPROP + BPROP + [None]:
            for pos in (0, 1, 2):
                yield ("prop", v, w, pos)
    for c in ("none", "absent", "multi", "noctx"):
        yield ("carrier", c)


def extract(h, base):
    return P.extract({"baggage": h}, base)


def run_case(case, ctx):
    kind = case[0]
    ctx.step()
    if kind == "ops":
        # a chain of contexts; each operation applies to one of the contexts made so far
        _, w, branch = case
        pool = [(Context(), {}), (set_value("other", 1, baggage.set_baggage("a", "0")), {"a": "0"})]
        for j, i in enumerate(w):
            name, n, v = OPS[i]
            c, m = pool[1 if j == branch else -1]
            m2 = dict(m)
            if name == "set":
                c2 = baggage.set_baggage(n, v, c)
                m2[n] = v
            elif name == "remove":
                c2 = baggage.remove_baggage(n, c)
                m2.pop(n, None)
            else:
                c2 = baggage.clear(c)
                m2 = {}
            # the same through the implicit current context
            tok = attach(c)
            c3 = (baggage.set_baggage(n, v) if name == "set" else baggage.remove_baggage(n) if name == "remove" else baggage.clear())
            same = dict(baggage.get_all()) == m and all(baggage.get_baggage(x) == m.get(x) for x in NAMES)
            detach(tok)
            ctx.check(same, "implicit", "reading the current context's baggage differs")
            ctx.check(dict(baggage.get_all(c3)) == m2, "implicit", lambda: f"implicit {name}: {dict(baggage.get_all(c3))} expected {m2}")
            pool.append((c2, m2))
            ctx.step()
            for c, m in pool:
                ctx.check(dict(baggage.get_all(c)) == m and list(baggage.get_all(c)) == list(m), "mapping",
                          lambda: f"after {w[:j + 1]}: {dict(baggage.get_all(c))} expected {m}")
                ctx.check(all(baggage.get_baggage(x, c) == m.get(x) for x in NAMES), "get", "get_baggage differs")
            ctx.check(get_value("other", pool[1][0]) == 1, "context", "other value lost")
            ctx.state(tuple(tuple(m.items()) for _, m in pool))
        try:
            baggage.get_all(pool[-1][0])["q"] = 1
            ctx.fail("mutable", "get_all returned a mutable mapping")
        except TypeError:
            pass
        ctx.check(dict(baggage.get_all(Context())) == {}, "leak", "empty context has baggage")
    elif kind in ("rt", "noraise"):
        c = Context()
        for k, v in case[1].items():
            c = baggage.set_baggage(k, v, c)
        carrier = {"keep": "1"}
        P.inject(carrier, c)
        ctx.check(set(carrier) == {"keep", "baggage"} and "baggage" in P.fields, "fields", f"carrier keys {set(carrier)}")
        h = carrier["baggage"]
        ctx.check(all(0x20 <= ord(x) < 0x7F for x in h), "header-chars", f"header {h!r} has non-printable characters")
        base = set_value("other", 42, baggage.set_baggage("old", "o", Context()))
        out = P.extract(carrier, base)
        if kind == "rt":
            want = {"old": "o"}
            want.update({k: str(v) for k, v in case[1].items()})
            ctx.check(dict(baggage.get_all(out)) == want, "round-trip", lambda: f"{case[1]!r} via {h!r} came back as {dict(baggage.get_all(out))!r}")
        ctx.check(get_value("other", out) == 42 and dict(baggage.get_all(base)) == {"old": "o"}, "context", "context disturbed")
        ctx.state(h)
    elif kind == "hdr":
        h = "".join(TOK[i] for i in case[1])
        base = set_value("other", 42, baggage.set_baggage("old", "o", Context()))
        out = dict(baggage.get_all(extract(h, base)))
        ctx.state(h)
        ctx.check(out.pop("old", None) == "o", "context", f"{h!r} lost prior baggage")
        # entries that are plainly valid must be there, last one wins; nothing may be invented
        members = [m.strip(" \t") for m in h.split(",")]
        want = {}
        loose = set()
        for m in members:
            if "=" not in m:
                continue
            k, v = m.split("=", 1)
            from urllib.parse import unquote_plus
            strict = (k and all(x in KEYCH for x in k) and all(0x21 <= ord(x) < 0x7F and x not in '",\\' for x in v)
                      and ";" not in v)
            if strict:
                want[unquote_plus(k)] = unquote_plus(v)
            loose.add((unquote_plus(k).strip(), unquote_plus(v).strip()))
        for k, v in out.items():
            ctx.check((k.strip(), v.strip()) in loose, "invented", lambda: f"{h!r}: entry {k!r}={v!r} is not in the header")
        for k, v in want.items():
            if h != h.strip(" \t"):  # whitespace at the edge of the whole header: carriers strip it
                continue
            ok = out.get(k) == v or (k in out and any(kk == k for kk, _ in loose) and (k, out[k]) in loose and h.count(k + "=") > 1)
            ctx.check(ok, "valid-lost", lambda: f"{h!r}: valid entry {k!r}={v!r} lost: {out}")
    elif kind == "count":
        _, n, bad, how = case
        ents = [(f"k{i}", "v") for i in range(n)]
        parts = [f"{k}={v}" for k, v in ents]
        good = list(ents)
        if bad is not None:
            if how == "long":
                parts[bad] = "k=" + "v" * 4096
            else:
                parts[bad] = {"noeq": "zz", "empty": "", "badkey": "a b=1"}[how]
            good.pop(bad)
        h = ",".join(parts)
        out = dict(baggage.get_all(extract(h, Context())))
        want = dict(good[:180]) if len(h) <= 8192 else {}
        ctx.check(out == want, "count-limit", lambda: f"{n} entries ({how} at {bad}): {len(out)} kept, expected {len(want)}: {sorted(set(want) ^ set(out))[:4]}")
        ctx.state(n, bad, how)
    elif kind == "pair":
        _, ln, pos = case
        parts = ["x=1", "y=2"]
        parts.insert(pos, "k=" + "v" * (ln - 2))
        out = dict(baggage.get_all(extract(",".join(parts), Context())))
        want = {"x": "1", "y": "2"}
        if ln <= 4096:
            want["k"] = "v" * (ln - 2)
        ctx.check(out == want, "pair-limit", lambda: f"pair length {ln}: kept {sorted(out)}")
        ctx.state(ln, pos)
    elif kind == "prop":
        _, v, w2, pos = case
        ps = [x for x in (v, w2) if x is not None]
        parts = ["x=1", "y=2"]
        parts.insert(pos, "k=z;" + ";".join(ps))
        out = dict(baggage.get_all(extract(",".join(parts), Context())))
        got = out.pop("k", None)
        ctx.check(out == {"x": "1", "y": "2"}, "property-others", lambda: f"{parts}: {out}")
        if all(x in VPROP for x in ps):
            ctx.check(got is not None and got.split(";")[0] == "z", "property-lost", lambda: f"{parts}: k became {got!r}")
        else:
            ctx.check(got is None, "property-malformed", lambda: f"{parts}: entry with a malformed property was kept: {got!r}")
        ctx.state(case)
    elif kind == "total":
        ln = case[1]
        h = "a=" + "v" * 4000 + ",b=" + "v" * 3000
        h += ",c=" + "w" * (ln - len(h) - 3)
        out = dict(baggage.get_all(extract(h, baggage.set_baggage("old", "o", Context()))))
        want = {"old"} if ln > 8192 else {"old", "a", "b", "c"}
        ctx.check(set(out) == want, "total-limit", lambda: f"header length {ln}: kept {sorted(out)}")
        ctx.state(ln)
    else:
        base = baggage.set_baggage("old", "o", Context())
        if case[1] == "absent":
            ctx.check(P.extract({}, base) == base, "absent", "context changed")
        elif case[1] == "none":
            d = {}
            P.inject(d, Context())
            ctx.check(d == {}, "inject-empty", f"injected {d}")
        elif case[1] == "noctx":
            tok = attach(base)
            d = {}
            P.inject(d)
            got = dict(baggage.get_all(P.extract({"baggage": "n=1"})))
            detach(tok)
            ctx.check(d == {"baggage": "old=o"} and got == {"old": "o", "n": "1"}, "implicit", f"{d} {got}")
        else:
            out = dict(baggage.get_all(P.extract({"baggage": ["p=1", "q=2"]}, base)))
            ctx.check(out.get("p") == "1" and out.get("old") == "o", "multi", f"{out}")
        ctx.state(case)
