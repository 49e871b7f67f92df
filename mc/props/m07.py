"""M07: identity of meters and instruments, sequential part."""
import itertools
import logging

from mc.props._metrics import C, D, Reader, by_name, metrics, provider
from opentelemetry.metrics import Observation

logging.disable(logging.CRITICAL)
KIND = ["counter", "up_down_counter", "histogram", "gauge", "observable_counter", "observable_up_down_counter", "observable_gauge"]
DEFS = [("n", "", ""), ("N", "", ""), ("n", "u", ""), ("n", "U", ""), ("n", "", "d"), ("n", "u", "d"), ("n", "u,d", ""), ("n", "u", "d,"), ("n", "u,", "d"),
        ("n", ",u", "d"), ("n2", "u", "d"), ("n", "", "u,d"), ("n", "u", ",d"), ("n", "u'", "d"), ("n", "u', 'd", ""), ("n", "u\x00d", ""), ("n", "u", "\x00d"), ("n", None, None), ("n", None, "d"), ("N", "u", None)]
METERS = [("m", "1", "s", None), ("m", "1", "s", {"a": 1}), ("m", "1", "s", {"a": 2}), ("m", "1", "s2", None), ("m", "2", "s", None), ("M", "1", "s", None),
          ("m", "1", "s", {"a": (1, 2)}), ("m", "1", "s", {"a": [1, 2]}), ("m", "1", "s", {"a": 1, "b": "x"}), ("m", "1", "s", {"b": "x", "a": 1})]
BADN = ["", " ", " n", "n ", " n ", "1n", "_n", "é", "n é", "n" * 256, "n$", "n\n", "\tn", "n,m", "n!"]
OKN = ["n", "N", "n" * 255, "a-b", "a.b", "a/b", "a_b", "Z9", "aZ", "a9-./_"]
BADU = ["é", "u" * 64, "u" * 65, "µs"]
OKU = ["", "u", "u" * 63, "{x} y", "\x00", "~", "\x7f"]


def make(m, kind, d, cbs=None, **kw):
    f = getattr(m, "create_" + kind)
    if kind.startswith("obs"):
        return f(d[0], cbs, d[1], d[2])
    return f(d[0], d[1], d[2], **kw)


def put(i, kind, v):
    {"counter": "add", "up_down_counter": "add", "histogram": "record", "gauge": "set"}[kind]
    (i.add if hasattr(i, "add") else i.record if hasattr(i, "record") else i.set)(v)


def CASES(tier):
    n = len(DEFS)
    for k in KIND:
        for a, b in itertools.product(range(n), repeat=2):
            yield ("pair", k, k, a, b)
    for k1, k2 in itertools.permutations(KIND, 2):
        for a, b in itertools.product((0, 1, 2, 5), repeat=2):
            yield ("pair", k1, k2, a, b)
    if tier != "quick":
        for a, b, c in itertools.product(range(n), repeat=3):
            for k in KIND:
                yield ("triple", k, a, b, c)
    for i in range(len(METERS)):
        for j in range(len(METERS)):
            yield ("meter", i, j)
    for k in KIND:
        for x in BADN + OKN:
            for y in OKN[:3]:
                yield ("name", k, x, y)
        for x in BADU + OKU:
            yield ("unit", k, x)
    for c in range(0, 0x180):
        yield ("char", c)
    for k in ("adv",):
        for b1 in (None, (1, 2), (1, 3), "bad", (1, "x")):
            for b2 in (None, (1, 2), (1, 3), [1, 2]):
                yield ("advice", b1, b2)
    for order in itertools.permutations(range(4)):
        yield ("many", order)


def plain(d):
    """No unit or description is an empty one."""
    return d[0], d[1] or "", d[2] or ""


def same(d1, d2):
    d1, d2 = plain(d1), plain(d2)
    return d1[0].lower() == d2[0].lower() and d1[1:] == d2[1:]


def streams(md):
    out = {}
    for s, m in metrics(md):
        for p in m.data.data_points:
            v = p.value if hasattr(p, "value") else p.sum
            out.setdefault((s, m.name, m.unit, m.description, type(m.data).__name__, getattr(m.data, "is_monotonic", None)), []).append(v)
    return out


DATA = {"counter": ("Sum", True), "up_down_counter": ("Sum", False), "histogram": ("Histogram", None), "gauge": ("Gauge", None),
        "observable_counter": ("Sum", True), "observable_up_down_counter": ("Sum", False), "observable_gauge": ("Gauge", None)}


def pair(seq, ctx):
    """seq of (kind, definition): creates, uses and collects all; checks identity and streams."""
    rd = Reader(C)
    mp = provider([rd])
    m = mp.get_meter("m")
    made = []
    want = {}
    calls = []
    for n, (k, d) in enumerate(seq):
        ctx.step()
        v = 1 << n
        i = make(m, k, d, [lambda o, v=v: (calls.append(v), [Observation(v)])[1]])
        first = None
        for k2, d2, i2 in made:
            s = k == k2 and same(d, d2)
            if not s:
                ctx.check(i is not i2, "distinct", f"{k} {d!r} and {k2} {d2!r} are one instrument")
            else:
                ctx.check(i is i2, "same", f"creating {k} {d!r} after {d2!r} gave another instrument")
                first = first or (k2, d2)
        made.append((k, d, i))
        key = None
        for kk in want:
            if kk[0] == k and same(kk[1], d):
                key = kk
        if key is None:
            key = (k, d)
            want[key] = []
        if k.startswith("obs"):
            if not want[key]:
                want[key].append(v)
        else:
            put(i, k, v)
            want[key].append(v)
    got = streams(rd.scrape())
    exp = {}
    for (k, d), vs in want.items():
        t = ("m", d[0].lower(), *plain(d)[1:]) + DATA[k]
        exp.setdefault(t, []).append(vs[-1] if "gauge" in k else sum(vs))
    got = {k: sorted(v) for k, v in got.items()}
    exp = {k: sorted(v) for k, v in exp.items()}
    ctx.state(tuple(sorted(map(str, exp.items()))))
    ctx.check(got == exp, "streams", f"streams {got}, expected {exp}")
    ctx.check(len(calls) == sum(1 for k, _ in want if k.startswith("obs")), "callbacks", f"{len(calls)} callbacks ran")


def run_case(case, ctx):
    what = case[0]
    if what == "pair":
        _, k1, k2, a, b = case
        pair([(k1, DEFS[a]), (k2, DEFS[b])], ctx)
    elif what == "triple":
        pair([(case[1], DEFS[x]) for x in case[2:]], ctx)
    elif what == "meter":
        _, i, j = case
        rd = Reader(C)
        mp = provider([rd])
        a, b = METERS[i], METERS[j]
        m1, m2 = mp.get_meter(a[0], a[1], a[2], a[3]), mp.get_meter(b[0], b[1], b[2], b[3])
        norm = lambda x: x[:3] + (None if x[3] is None else {k: tuple(v) if isinstance(v, list) else v for k, v in x[3].items()},)  # noqa
        eq = norm(a) == norm(b)
        ctx.step()
        ctx.check((m1 is m2) == eq, "meter", f"meters for {a} and {b}: identical={m1 is m2}")
        m1.create_counter("c").add(1)
        m2.create_counter("c").add(2)
        md = rd.scrape()
        got = sorted((s.scope.name, s.scope.version, s.scope.schema_url, str(dict(s.scope.attributes or {})), tuple(p.value for x in s.metrics for p in x.data.data_points))
                     for s in md.resource_metrics[0].scope_metrics)
        mk = lambda x, v: (x[0], x[1], x[2], str(norm(x)[3] or {}), (v,))  # noqa
        if eq:
            ok = len(got) == 1 and got[0][4] == (3,) and got[0][:3] == a[:3]
        else:
            ok = got == sorted([mk(a, 1), mk(b, 2)])
        ctx.check(ok, "meter-streams", f"{got} for {a} {b}")
        ctx.state((i, j))
    elif what in ("name", "unit", "char"):
        rd = Reader(C)
        m = provider([rd]).get_meter("m")
        if what == "name":
            _, k, x, y = case
            bad, d, after = x in BADN, (x, "", ""), (y, "", "")
        elif what == "unit":
            _, k, x = case
            bad, d, after = x in BADU, ("n", x, ""), ("n", "u", "")
        else:
            c = chr(case[1])
            k = KIND[case[1] % len(KIND)]
            asc = c.isascii()
            okfirst = asc and c.isalpha()
            okrest = asc and (c.isalnum() or c in "-_./")
            for d, bad in (((c, "", ""), not okfirst), (("a" + c, "", ""), not okrest), (("a", "x" + c, ""), not asc)):
                try:
                    make(m, k, d)
                    r = False
                except Exception:
                    r = True
                ctx.step()
                ctx.check(r == bad, "syntax", f"{d!r} accepted={not r}")
            ctx.state(case)
            return
        for _ in range(2):
            try:
                i = make(m, k, d, [lambda o: [Observation(5)]])
                r = False
            except Exception:
                r = True
            ctx.step()
            ctx.check(r == bad, "syntax", f"{d!r} accepted={not r}")
        try:
            j = make(m, k, after, [lambda o: [Observation(7)]])
        except Exception as e:
            ctx.check(False, "corrupt", f"after {d!r}, creating {after!r} raises {e!r}")
            return
        if not k.startswith("obs"):
            put(j, k, 7)
        got = streams(rd.scrape())
        one = not bad and same(d, after)
        mine = [v for t, v in got.items() if t[1] == after[0].lower() and t[2:4] == after[1:]]
        exp = [[5]] if one and k.startswith("obs") else [[7]]
        ctx.check(mine == exp, "corrupt", f"after {d!r}: {after!r} reports {mine}")
        ctx.state(case)
    elif what == "advice":
        _, b1, b2 = case
        rd = Reader(C)
        m = provider([rd]).get_meter("m")
        logs = []

        class Hd(logging.Handler):
            def emit(self, r):
                logs.append(r.getMessage())

        hd = Hd()
        logging.disable(logging.NOTSET)
        logging.getLogger().addHandler(hd)
        try:
            i = m.create_histogram("h", explicit_bucket_boundaries_advisory=b1)
            logs.clear()
            j = m.create_histogram("h", explicit_bucket_boundaries_advisory=b2)
        finally:
            logging.getLogger().removeHandler(hd)
            logging.disable(logging.CRITICAL)
        ctx.step()
        ctx.check(i is j, "same", f"advice {b1} then {b2}: another instrument")
        n1 = None if b1 in ("bad", (1, "x")) else b1
        differ = (tuple(n1) if n1 else None) != (tuple(b2) if b2 else None)
        if differ:
            ctx.check(bool(logs), "conflict", f"advice {b1} then {b2}: no conflict reported")
        elif type(n1) is type(b2):
            ctx.check(not logs, "conflict", f"advice {b1} then {b2}: reported {logs}")
        i.record(1)
        j.record(2)
        got = [p for ms in by_name(rd.scrape()).values() for x in ms for p in x.data.data_points]
        ctx.check(len(got) == 1 and got[0].sum == 3, "streams", f"{got}")
        if n1:
            ctx.check(tuple(got[0].explicit_bounds) == tuple(n1), "advice", f"{got[0].explicit_bounds}")
        ctx.state(case)
    else:
        rd, rd2 = Reader(C), Reader(D)
        mp = provider([rd, rd2])
        defs = [("m1", "c"), ("m2", "c"), ("m1", "d"), ("m2", "C")]
        for n, o in enumerate(case[1]):
            mn, iname = defs[o]
            mp.get_meter(mn).create_counter(iname).add(1 << n)
            ctx.step()
        want = {}
        for n, o in enumerate(case[1]):
            k = (defs[o][0], defs[o][1].lower())
            want[k] = want.get(k, 0) + (1 << n)
        for r in (rd, rd2):
            got = {k: [p.value for x in ms for p in x.data.data_points] for k, ms in by_name(r.scrape()).items()}
            ctx.check(got == {k: [v] for k, v in want.items()}, "streams", f"{got} {want}")
        ctx.state(case)
