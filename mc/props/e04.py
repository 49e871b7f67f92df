"""E04: the Prometheus exposition matches the collected metrics."""
import itertools

from mc.props import _prom as Q
from mc.props._metrics import OFF
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.view import DropAggregation, ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, View
from opentelemetry.sdk.resources import Resource

A, B = {"k": "x"}, {"k": "y", "n": 1}
A2, A3, B2 = {"k": "x2"}, {"k": "x3"}, {"n": 2, "k": "y"}
OPS = [("c", 3, A), ("c", 2.5, B), ("u", 4, A), ("u", -6, None), ("g", 7, A), ("g", -1.5, A), ("h", 1, A), ("h", 6, A), ("h", 5, None),
       ("flush",), ("collect",), ("scrape",), ("o", 8, A), ("o", 2, B)]
SHORT = [("c", 3, A), ("g", 7, A), ("h", 6, A), ("flush",), ("scrape",)]
NCH = ["a", "B", "1", "_", ".", "-", "/", ":", " ", "\u00e9", "\u0663"]
UTOK = ["s", "ms", "By", "m", "1", "%", "h", "min", "x", "/", "{r}", "_", " ", "km"]
VALS = ["", "x", "a\"b", "a\\b", "a\nb", "\u00e9\U0001f600", 1, -1.5, True, float("inf"), ("a", "b"), (1, 2), (True,), (), "a,b", "}", "\\n", " "]
UNITS = {"d": "days", "h": "hours", "min": "minutes", "s": "seconds", "ms": "milliseconds", "us": "microseconds", "ns": "nanoseconds", "By": "bytes",
         "KiBy": "kibibytes", "MiBy": "mebibytes", "GiBy": "gibibytes", "TiBy": "tibibytes", "KBy": "kilobytes", "MBy": "megabytes", "GBy": "gigabytes",
         "TBy": "terabytes", "m": "meters", "V": "volts", "A": "amperes", "J": "joules", "W": "watts", "g": "grams", "Cel": "celsius", "Hz": "hertz", "1": "",
         "%": "percent"}
PER = {"s": "second", "m": "minute", "h": "hour", "d": "day", "w": "week", "mo": "month", "y": "year"}
KINDS = ["counter", "updown", "histogram", "gauge", "ocounter", "oupdown", "ogauge", "exp", "drop"]
DEFAULT = [0, 5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000]


def CASES(tier):
    n, k = (4, 7) if tier == "quick" else (5, 8)
    for w in itertools.product(range(len(OPS)), repeat=n):
        if tier != "quick" or sum(w) % 4 == 0 or any(OPS[i][0] in ("flush", "scrape", "collect") for i in w[1:]):
            yield ("hist", w)
    for w in itertools.product(range(len(SHORT)), repeat=k - 2):
        yield ("short", w)
    for r in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for w in itertools.product(NCH, repeat=r):
            yield ("name", "".join(w))
    for s in ("a_total", "a.total", "total", "a_seconds", "a_seconds_total", "a_total_seconds", "a_bytes", "http.server.request.duration"):
        yield ("name", s)
    for r in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
        for w in itertools.product(UTOK, repeat=r):
            yield ("unit", "".join(w))
    for u in list(UNITS) + ["a/" + p for p in PER] + [f"{a}/{b}" for a in UNITS for b in PER]:
        yield ("unit", u)
    keys = ["".join(w) for r in (1, 2) for w in itertools.product(["a", "B", "1", "_", ".", ":", "\u00e9"], repeat=r)]
    for a in keys:
        yield ("label", (a,))
    for a, b in itertools.combinations(keys, 2):
        yield ("label", (a, b))
    for w in itertools.combinations(["a.b", "a_b", "a-b", "a b", "a..b", "c", "B"], 3):
        yield ("label", w)
    for v in range(len(VALS)):
        for v2 in range(len(VALS)):
            yield ("value", v, v2)
    for r in (1, 2, 3):
        for w in itertools.product(KINDS, repeat=r):
            for t in (0, 1):
                yield ("kinds", w, t)
    for r in range(5) if tier == "quick" else range(7):
        for w in itertools.product([0, 1, 2, 2.5, 7], repeat=r):
            for b in ((), (0,), (1, 2), (2.5,), (1.0, 2.0, 4.0)):
                yield ("buckets", w, b)
    for sets in itertools.product(([], [A], [B], [A, B], [None, A, B], [A, A2], [B, A, B2, A2, A3]), repeat=2):
        yield ("points", sets)
    for k in KINDS[:7]:
        for r in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            for w in itertools.permutations((None, A, A2, B, B2), r):
                yield ("sets", k, w)
    for w in itertools.product((0, 1, 2), repeat=5 if tier == "quick" else 7):
        yield ("two", w)


class World:
    def __init__(self, views=(), res=None, no_target=False):
        self.reg = Q.Registered(no_target)
        self.res = {"service.name": "s"} if res is None else res
        self.mp = MeterProvider([self.reg.reader], Resource(self.res), OFF, shutdown_on_exit=False, views=views)
        self.m = self.mp.get_meter("m")
        self.no_target = no_target

    def check(self, ctx, exp, what):
        """exp without target_info, which is added when there is something to expose."""
        if exp is not None and not self.no_target:
            Q.target(exp, self.res)
        try:
            text = self.reg.text()
        except Exception as e:
            ctx.check(False, "raises", f"{what}: the scrape raises {e!r}")
            return
        ctx.step()
        got, bad = Q.parse(text)
        ctx.check(not bad, "valid", lambda: f"{what}: {bad[:3]}")
        d = Q.diff(got, exp)
        ctx.check(d is None, "exposition", lambda: f"{what}: {d}")


def ops(ctx, w, table):
    W = World()
    obs = {}

    def cb(options):
        return [Observation(v, a) for a, v in obs.values()]
    c, u = W.m.create_counter("c", "s", "C"), W.m.create_up_down_counter("u", "By", "U")
    g, h = W.m.create_gauge("g", "1", "G"), W.m.create_histogram("h", "ms", "H", explicit_bucket_boundaries_advisory=[1, 5])
    W.m.create_observable_gauge("o", [cb], "", "O")
    st = {}
    for n, i in enumerate(w + (None,)):
        op = ("scrape",) if i is None else table[i]
        what = f"operations {[table[j] for j in w[:n]]} then scrape"
        if op[0] in ("flush", "collect"):
            W.mp.force_flush() if op[0] == "flush" else W.reg.reader.collect()
            st = {k: v for k, v in st.items() if k[0] != "g"}  # a synchronous gauge is reported once per measurement
        elif op[0] == "scrape":
            exp = {}
            for (k, key), (a, v) in list(st.items()) + [(("o", key), x) for key, x in obs.items()]:
                kind, unit, d = {"c": ("counter", "seconds", "C"), "u": ("gauge", "bytes", "U"), "g": ("gauge", "", "G"), "h": ("histogram", "milliseconds", "H"),
                                 "o": ("gauge", "", "O")}[k]
                Q.put(exp, kind, k, unit, d, a, v, (1.0, 5.0))
            if not exp:
                # nothing recorded: only target information may be shown
                got, bad = Q.parse(W.reg.text())
                t = {}
                Q.target(t, W.res)
                ctx.check(not bad and (not got or got == t), "empty", lambda: f"{what}: {got} {bad}")
                continue
            W.check(ctx, exp, what)
            ctx.state(repr(sorted(exp)))
            st = {k: v for k, v in st.items() if k[0] != "g"}
        else:
            k, v, a = op
            key = (k, repr(a))
            if k == "o":
                obs[repr(a)] = (a, v)
            elif k == "g":
                g.set(v, a)
                st[key] = (a, v)
            elif k == "h":
                h.record(v, a)
                st[key] = (a, st.get(key, (a, []))[1] + [v])
            else:
                (c if k == "c" else u).add(v, a)
                st[key] = (a, st.get(key, (a, 0))[1] + v)
    W.mp.shutdown()


def c_hist(ctx, w):
    ops(ctx, w, OPS)


def c_short(ctx, w):
    ops(ctx, w, SHORT)


def view(src, name, **kw):
    return View(instrument_name=src, name=name, **kw)


def c_name(ctx, name):
    for unit, u in (("", ""), ("s", "seconds")):
        W = World([view("c", name)])
        W.m.create_counter("c", unit, "d").add(2)
        exp = {}
        Q.put(exp, "counter", name, u, "d", None, 2)
        W.check(ctx, exp, f"counter named {name!r} unit {unit!r}")
        W.mp.shutdown()
    W = World([view("g", name)])
    W.m.create_gauge("g", "s", "d").set(3, A)
    W.m.create_histogram("other", "", "e").record(3)
    exp = {}
    Q.put(exp, "gauge", name, "seconds", "d", A, 3)
    Q.put(exp, "histogram", "other", "", "e", None, [3], [float(b) for b in DEFAULT])
    W.check(ctx, exp, f"gauge named {name!r}")
    W.mp.shutdown()


def unit_of(s):
    i, j = s.find("{"), s.rfind("}")
    if 0 <= i < j:
        s = s[:i] + s[j + 1:]
    if s in UNITS:
        return UNITS[s]
    top, slash, bottom = s.partition("/")
    if slash and Q.name_of("x" + bottom)[1:]:
        top, bottom = Q.name_of("x" + top)[1:], Q.name_of("x" + bottom)[1:]
        top, bottom = UNITS.get(top, top), PER.get(bottom, bottom)
        return f"{top}_per_{bottom}" if top else f"per_{bottom}"
    return Q.name_of("x" + s)[1:].strip("_")


def c_unit(ctx, unit):
    W = World(no_target=True)
    W.m.create_counter("c", unit, "d").add(2)
    W.m.create_gauge("g", unit, "d").set(2)
    W.m.create_histogram("h", unit, "d", explicit_bucket_boundaries_advisory=[1]).record(2)
    u, exp = unit_of(unit), {}
    for kind, n in (("counter", "c"), ("gauge", "g"), ("histogram", "h")):
        Q.put(exp, kind, n, u, "d", None, [2] if kind == "histogram" else 2, [1.0])
    W.check(ctx, exp, f"unit {unit!r}")
    W.mp.shutdown()


def c_label(ctx, keys):
    attrs = {k: f"v{i}" for i, k in enumerate(keys)}
    W = World(res=dict(attrs))
    W.m.create_counter("c").add(2, attrs)
    W.m.create_counter("c").add(3, {k: "w" for k in keys})
    W.m.create_histogram("h", explicit_bucket_boundaries_advisory=[1]).record(2, dict(reversed(attrs.items())))
    exp = {}
    Q.put(exp, "counter", "c", "", "", attrs, 2)
    Q.put(exp, "counter", "c", "", "", {k: "w" for k in keys}, 3)
    Q.put(exp, "histogram", "h", "", "", attrs, [2], [1.0])
    W.check(ctx, exp, f"label keys {keys}")
    W.mp.shutdown()


def c_value(ctx, v, v2):
    attrs = {"a": VALS[v], "b": VALS[v2]}
    W = World(res={"r": VALS[v]} if isinstance(VALS[v], (str, bool, int, float)) else None)
    c = W.m.create_counter("c", "", "d\\n\n" if v2 % 2 else "d e")
    c.add(2, attrs)
    c.add(4, {"z": VALS[v2]})
    W.m.create_gauge("g").set(3)
    exp = {}
    d = "d\\n\n" if v2 % 2 else "d e"
    Q.put(exp, "counter", "c", "", d, attrs, 2)
    Q.put(exp, "counter", "c", "", d, {"z": VALS[v2]}, 4)
    Q.put(exp, "gauge", "g", "", "", None, 3)
    W.check(ctx, exp, f"attributes {attrs}")
    W.mp.shutdown()


def c_kinds(ctx, w, t):
    views = [View(instrument_name="exp*", aggregation=ExponentialBucketHistogramAggregation()), View(instrument_name="drop*", aggregation=DropAggregation())]
    W = World(views, no_target=bool(t))
    exp = {}
    for i, k in enumerate(w):
        n, m, d = f"{k}{i}", W.m, f"d{i}"
        cb = [lambda o, i=i: [Observation(i + 1, A), Observation(i + 5, B)]]
        if k in ("counter", "updown", "drop"):
            x = (m.create_up_down_counter if k == "updown" else m.create_counter)(n, "By", d)
            x.add(i + 1, A), x.add(i + 5, B)
        elif k in ("histogram", "exp"):
            x = m.create_histogram(n, "By", d, explicit_bucket_boundaries_advisory=[2, 6])
            x.record(i + 1, A), x.record(i + 5, B), x.record(9, A)
        elif k == "gauge":
            x = m.create_gauge(n, "By", d)
            x.set(i + 1, A), x.set(i + 5, B)
        else:
            {"ocounter": m.create_observable_counter, "oupdown": m.create_observable_up_down_counter, "ogauge": m.create_observable_gauge}[k](n, cb, "By", d)
        if k in ("exp", "drop"):
            continue
        p = {"histogram": "histogram", "counter": "counter", "ocounter": "counter"}.get(k, "gauge")
        for a, v in ((A, i + 1), (B, i + 5)):
            Q.put(exp, p, n, "bytes", d, a, ([v, 9] if a is A else [v]) if p == "histogram" else v, [2.0, 6.0])
    if not exp:
        exp = {}
        try:
            got, bad = Q.parse(W.reg.text())
        except Exception as e:
            ctx.check(False, "raises", f"instruments {w}: the scrape raises {e!r}")
            return
        ctx.check(not bad and all(k[0] == "target_info" for k in got), "empty", lambda: f"instruments {w}: {got} {bad}")
    else:
        W.check(ctx, exp, f"instruments {w}")
    W.mp.shutdown()


def c_buckets(ctx, w, b):
    W = World([View(instrument_name="h", aggregation=ExplicitBucketHistogramAggregation(b))], no_target=True)
    h = W.m.create_histogram("h")
    for i, v in enumerate(w):
        h.record(v, A if i % 2 else None)
    for _ in (0, 1):
        exp = {}
        for a, vs in ((None, w[::2]), (A, w[1::2])):
            if vs:
                Q.put(exp, "histogram", "h", "", "", a, list(vs), b)
        if exp:
            W.check(ctx, exp, f"measurements {w} bounds {b}")
    W.mp.shutdown()


def c_points(ctx, sets):
    """Two meters, each with a counter of its own and points of different label sets; both names share a prefix."""
    W = World()
    exp = {}
    for i, s in enumerate(sets):
        c = W.mp.get_meter(f"meter{i}", f"{i}").create_counter(f"c{i}", "", "d")
        for j, a in enumerate(s):
            c.add(10 * i + j + 1, a)
            Q.put(exp, "counter", f"c{i}", "", "d", a, 10 * i + j + 1)
    if exp:
        W.check(ctx, exp, f"points {sets}")
    W.mp.shutdown()


def c_sets(ctx, k, w):
    """One instrument of each kind with several points, of the same and of different label sets, next to another instrument."""
    W, m, exp = World(), None, {}
    m = W.m
    signed = k in ("updown", "gauge", "oupdown", "ogauge")
    vals = {i: (a, ((0, 4, -7, 0.0, -2.5) if signed else (0, 4, 7, 0.0, 2.5))[i]) for i, a in enumerate(w)}
    cb = [lambda o: [Observation(v, a) for a, v in vals.values()]]
    if k[0] == "o":
        {"ocounter": m.create_observable_counter, "oupdown": m.create_observable_up_down_counter, "ogauge": m.create_observable_gauge}[k]("i", cb, "s", "d")
    else:
        x = {"counter": m.create_counter, "updown": m.create_up_down_counter, "histogram": m.create_histogram, "gauge": m.create_gauge}[k]("i", "s", "d")
    m.create_counter("j").add(7, A)
    p = {"histogram": "histogram", "counter": "counter", "ocounter": "counter"}.get(k, "gauge")
    for a, v in vals.values():
        if k[0] != "o":
            getattr(x, {"histogram": "record", "gauge": "set"}.get(k, "add"))(v, a)
        Q.put(exp, p, "i", "seconds", "d", a, [v] if p == "histogram" else v, [float(b) for b in DEFAULT])
    Q.put(exp, "counter", "j", "", "", A, 7)
    W.check(ctx, exp, f"{k} with points {list(vals.values())}")
    W.mp.shutdown()


def c_two(ctx, w):
    """Two readers on one provider, and a scrape that is given up half way, never affect each other's expositions."""
    r1, r2 = Q.Registered(), Q.Registered(True)
    mp = MeterProvider([r1.reader, r2.reader], Resource({"service.name": "s"}), OFF, shutdown_on_exit=False)
    c, g, n = mp.get_meter("m").create_counter("c"), mp.get_meter("m").create_up_down_counter("g"), 0
    for i in w + (1, 2):
        n += 1
        c.add(1)
        g.add(1)
        exp = {}
        Q.put(exp, "counter", "c", "", "", None, n)
        Q.put(exp, "gauge", "g", "", "", None, n)
        if i == 0:
            next(iter(r1.reader._collector.collect()))
            next(iter(r2.registry.collect()))
            continue
        if i == 1:
            Q.target(exp, {"service.name": "s"})
        got, bad = Q.parse((r1 if i == 1 else r2).text())
        ctx.step()
        d = bad or Q.diff(got, exp)
        ctx.check(not d, "two", lambda: f"steps {w}: {d}")
    mp.shutdown()


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    CASE[case[0]](ctx, *case[1:])
