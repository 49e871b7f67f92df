"""M01: sums conserve measurements."""
import itertools

from mc.props._metrics import C, D, Reader, akey, by_name, now, provider
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import Counter, ObservableCounter, ObservableUpDownCounter, UpDownCounter

A1, A1p, A2 = {"a": 1, "b": "x"}, {"b": "x", "a": 1}, {"a": 0, "b": "", "c": False}
OPS = [("c", 3, A1), ("c", 5, A1p), ("c", -2, A1), ("c", 2.5, A2), ("c", 0, A2), ("u", -4, A1), ("u", 6, None), ("u", 1, {}),
       ("collect", 0), ("collect", 1), ("flush",)]
SMALL = [("c", 3, A1), ("c", 5, A2), ("u", -4, A1), ("collect", 0), ("collect", 1)]
# values that look alike but are different attributes
LIKE = [1, "1", 2, 1.5, "1.5", "", "None", (1,), "(1,)", ("1",), (1, 1), "True", False, "False", ("a", "b"), "a,b", ("a,b",), ("b", "a"), "a", "A", " a", 0.1, 10**20, "\u00e9", "e\u0301", None]
TEMPS = [(D, D), (D, C), (C, C), ("mix", D), (C, "mix")]
MIX = {Counter: D, UpDownCounter: C}


def CASES(tier):
    n = 4 if tier == "quick" else 5
    for t in range(len(TEMPS)):
        for w in itertools.product(range(len(OPS)), repeat=n):
            yield ("full", t, w)
    for t in range(len(TEMPS)):
        for w in itertools.product(range(len(SMALL)), repeat=n + 2):
            yield ("small", t, w)
    yield ("mutate",)
    for i, j in itertools.permutations(range(len(LIKE)), 2):
        for k in ("c", "u", "oc", "h"):
            yield ("alike", k, i, j)
    for k in ("c", "u", "oc", "h"):
        yield ("many", k)
    for t in range(len(TEMPS)):
        for w in itertools.product((None, 0, 5, 2.5, -3, 9), repeat=n):
            for rs in itertools.product((0, 1), repeat=n):
                yield ("obs", t, w, rs)


class Model:
    def __init__(self, temps):
        self.temps = temps
        self.tot = {}  # (inst, key) -> total
        self.first = {}  # (inst, key) -> (before, after) of the first measurement
        self.base = [{}, {}]  # per reader: value at its last collection
        self.fresh = [set(), set()]  # series with measurements since the reader's last collection
        self.cstart = [{}, {}]
        self.last = [{}, {}]  # per reader: series -> time of last collection at which it existed
        self.lastc = [None, None]

    def add(self, inst, v, attrs, before, after):
        if inst == "c" and v < 0:
            return
        k = (inst, akey(attrs))
        self.tot[k] = self.tot.get(k, 0) + v
        self.first.setdefault(k, (before, after))
        for f in self.fresh:
            f.add(k)

    def temp(self, r, inst):
        t = self.temps[r]
        return MIX[Counter if inst == "c" else UpDownCounter] if t == "mix" else t

    def check(self, r, md, ctx, w):
        got = {}
        times = set()
        for (scope, name), ms in by_name(md).items():
            ctx.check(len(ms) == 1, "dup-metric", lambda: f"{w}: metric {name} reported {len(ms)} times")
            for m in ms:
                ctx.check(m.data.aggregation_temporality is self.temp(r, name) and m.data.is_monotonic == (name == "c") and m.unit == "u-" + name
                          and m.description == "d-" + name, "identity", lambda: f"{w}: {m}")
                for p in m.data.data_points:
                    k = (name, akey(p.attributes))
                    ctx.check(k not in got, "dup-point", lambda: f"{w}: point {k} twice")
                    got[k] = p
                    times.add(p.time_unix_nano)
        exp = {}
        for k, v in self.tot.items():
            if self.temp(r, k[0]) is C:
                exp[k] = v
            elif k in self.fresh[r]:
                exp[k] = v - self.base[r].get(k, 0)
        vals = {k: p.value for k, p in got.items()}
        ctx.check(vals == exp, "values", lambda: f"{w}: reader {r} ({self.temps[r]}) got {vals}, expected {exp}")
        ctx.check(len(times) <= 1, "times", lambda: f"{w}: several times in one collection {times}")
        t = next(iter(times), None)
        for k, p in got.items():
            if k not in self.first:
                continue
            lo, hi = self.first[k]
            s = p.start_time_unix_nano
            if self.temp(r, k[0]) is C:
                want = self.cstart[r].setdefault(k, s)
                ctx.check(s == want and s <= hi and s <= p.time_unix_nano, "cumulative-start", lambda: f"{w}: {k} start moved from {want} to {s}")
            else:
                prev = self.last[r].get(k)
                if prev is None:
                    ctx.check(s <= hi and (self.lastc[r] is None or s >= self.lastc[r]) and s <= p.time_unix_nano, "delta-first-start", lambda: f"{w}: {k} start {s} not before its first measurement {hi}, or before the previous collection {self.lastc[r]}")
                else:
                    ok = prev[0] <= s <= prev[1] if isinstance(prev, tuple) else s == prev
                    ctx.check(ok and s <= p.time_unix_nano, "delta-abut", lambda: f"{w}: {k} start {s}, previous collection {prev}")
        return t

    def collected(self, r, t, lo, hi):
        for k, v in self.tot.items():
            self.base[r][k] = v
            self.last[r][k] = t if t is not None else (lo, hi)
        self.lastc[r] = lo
        self.fresh[r].clear()


def run_case(case, ctx):
    ctx.step()
    if case[0] == "mutate":
        return mutate(ctx)
    if case[0] in ("alike", "many"):
        return series(case, ctx)
    if case[0] == "obs":
        return observed(case, ctx)
    _, t, w = case
    ops = [(OPS if case[0] == "full" else SMALL)[i] for i in w]
    readers = [Reader(MIX if x == "mix" else x) for x in TEMPS[t]]
    mp = provider(readers)
    m = mp.get_meter("m")
    inst = {"c": m.create_counter("c", "u-c", "d-c"), "u": m.create_up_down_counter("u", "u-u", "d-u")}
    model = Model(TEMPS[t])

    def collect(r):
        lo = now()
        md = readers[r].scrape()
        tm = model.check(r, md, ctx, ops)
        model.collected(r, tm, lo, now())

    for op in ops + [("collect", 0), ("collect", 1), ("collect", 0)]:
        ctx.step()
        if op[0] == "collect":
            collect(op[1])
        elif op[0] == "flush":
            for r in readers:
                r.got.clear()
            lo = now()
            mp.force_flush()
            for i, r in enumerate(readers):
                tm = model.check(i, r.got[-1] if r.got else None, ctx, ops)
                model.collected(i, tm, lo, now())
        else:
            before = now()
            inst[op[0]].add(op[1], op[2])
            model.add(op[0], op[1], op[2], before, now())
    ctx.state(t, sorted(model.tot.items()), [sorted(b.items()) for b in model.base])


def observed(case, ctx):
    """Totals observed by callbacks: the deltas a reader gets add up to what was observed, cumulative points equal it."""
    _, t, w, rs = case
    temps = [{ObservableCounter: D, ObservableUpDownCounter: C} if x == "mix" else x for x in TEMPS[t]]
    readers = [Reader(x) for x in temps]
    m = provider(readers).get_meter("m")
    cur = [None]

    def cb(options):
        return [] if cur[0] is None else [Observation(cur[0], A1)]

    m.create_observable_counter("c", [cb])
    m.create_observable_up_down_counter("u", [cb])
    sums = [{}, {}]
    for v, r in zip(w, rs):
        cur[0] = v
        md = by_name(readers[r].scrape())
        ctx.step()
        for (_, name), ms in md.items():
            for p in ms[0].data.data_points:
                temp = temps[r]
                if isinstance(temp, dict):
                    temp = temp[ObservableCounter if name == "c" else ObservableUpDownCounter]
                ctx.check(ms[0].data.aggregation_temporality is temp, "obs-temporality", lambda: f"{case}: {ms}")
                total = sums[r][name] = p.value + (sums[r].get(name, 0) if temp is D else 0)
                ctx.check(total == v, "obs-total", lambda: f"{case}: {name} through reader {r}: points add up to {total}, observed {v}")
        ctx.check(sorted(n for _, n in md) == ([] if v is None else ["c", "u"]), "obs-present", lambda: f"{case}: {sorted(md)}")


def series(case, ctx):
    """Every distinct attribute set has a series of its own, however alike and however many."""
    k = case[1]
    sets = [{"k": LIKE[i]} if LIKE[i] is not None else {} for i in case[2:]] if case[0] == "alike" else [{"k": i, "m": f"{i % 7}"} for i in range(3000)]
    readers = [Reader(D), Reader(C)]
    m = provider(readers).get_meter("m")
    want = {akey(a): 1 + i for i, a in enumerate(sets)}
    if k == "oc":
        m.create_observable_counter("i", [lambda o: [Observation(1 + i, a) for i, a in enumerate(sets)]])
    else:
        inst = {"c": m.create_counter, "u": m.create_up_down_counter, "h": m.create_histogram}[k]("i")
        for i, a in enumerate(sets):
            inst.record(1 + i, a) if k == "h" else inst.add(1 + i, a)
    for r in readers:
        for i in range(2):
            ps = [p for _, ms in by_name(r.scrape()).items() for p in ms[0].data.data_points]
            got = {akey(p.attributes): p.sum if k == "h" else p.value for p in ps}
            exp = want if not i or r is readers[1] else {a: 0 for a in want} if k == "oc" else {}
            ctx.step()
            if not ctx.check(got == exp and len(ps) == len(exp), "series", lambda: f"{case}: {len(ps)} points {list(got.items())[:4]}, expected {list(exp.items())[:4]}"):
                return


def mutate(ctx):
    """Later changes to the caller's attribute mapping do not move recorded measurements."""
    for t in (D, C):
        r = Reader(t)
        c = provider([r]).get_meter("m").create_counter("c")
        a = {"k": 1}
        c.add(1, a)
        a["k"] = 2
        c.add(10, a)
        a["z"] = 3
        a.pop("k")
        c.add(100, a)
        a.clear()
        got = {akey(p.attributes): p.value for _, ms in by_name(r.scrape()).items() for p in ms[0].data.data_points}
        ctx.check(got == {(("k", 1),): 1, (("k", 2),): 10, (("z", 3),): 100}, "caller-mutation", f"got {got}")
