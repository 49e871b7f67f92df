"""M05: threads recording while others collect."""
import logging

from mc.explore import Harness, spawn
from mc.props._metrics import C, D, Reader, akey, by_name, provider
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import Counter, Histogram
from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View

logging.disable(logging.CRITICAL)
BOUNDS = [1.5, 6.0]


def mk(meter, kind):
    if kind == "counter":
        return meter.create_counter("i")
    if kind == "updown":
        return meter.create_up_down_counter("i")
    if kind in ("histogram", "exp"):
        return meter.create_histogram("i", explicit_bucket_boundaries_advisory=BOUNDS if kind == "histogram" else None)
    return meter.create_gauge("i")


def rec(inst, kind, v, a):
    attrs = {"a": a} if a else {}
    if kind in ("counter", "updown"):
        inst.add(v, attrs)
    elif kind == "gauge":
        inst.set(v, attrs)
    else:
        inst.record(v, attrs)


def bits(n):
    return [1 << i for i in range(n.bit_length()) if n >> i & 1]


def points(md):
    """{attribute value: point} and the metric's data."""
    got = by_name(md).get(("m", "i"), [])
    out = {}
    for m in got:
        for p in m.data.data_points:
            k = (p.attributes or {}).get("a", "")
            if k in out:
                raise AssertionError("duplicate")
            out[k] = p
    return out


def check_point(kind, p, valid):
    """Internal consistency; returns (set of values covered, problem)."""
    if kind == "gauge":
        return [p.value], None if p.value in valid else f"gauge value {p.value} was never recorded"
    if kind in ("counter", "updown"):
        s = p.value
    else:
        s = p.sum
    if s != int(s) or s < 0:
        return [], f"sum {s}"
    vals = bits(int(s))
    if not set(vals) <= set(valid):
        return vals, f"sum {s} is not a sum of recorded values {valid}"
    if kind in ("histogram", "exp"):
        if p.count != len(vals):
            return vals, f"count {p.count} but sum {s}"
        if vals and (p.min, p.max) != (min(vals), max(vals)):
            return vals, f"min/max {p.min}/{p.max} but values {vals}"
    if kind == "histogram":
        want = [0] * (len(BOUNDS) + 1)
        for v in vals:
            want[sum(b < v for b in BOUNDS)] += 1
        if list(p.bucket_counts) != want:
            return vals, f"buckets {p.bucket_counts} for values {vals}"
    if kind == "exp":
        if p.zero_count + sum(p.positive.bucket_counts) + sum(p.negative.bucket_counts) != p.count:
            return vals, f"bucket total differs from count {p.count}"
    return vals, None


class H(Harness):
    def __init__(self, name, kind, plan, temps, shared_first=False, pre=0, bound=2, views=None):
        """plan: per thread list of ('r', value, attr) | ('c', reader) | ('new',) ; values are distinct powers of two"""
        self.name, self.kind, self.plan, self.temps, self.bound, self.pre = name, kind, plan, temps, bound, pre
        self.own = shared_first

    def body(self):
        bad = []
        kind = self.kind
        views = [View(instrument_name="i", aggregation=ExponentialBucketHistogramAggregation(max_size=4, max_scale=3))] if kind == "exp" else []
        readers = [Reader(t) for t in self.temps]
        mp = provider(readers, views)
        meter = mp.get_meter("m")
        inst = mk(meter, kind)
        seq = [0]
        recs = []  # (value, attr, start, end)
        cols = [[] for _ in readers]  # (start, end, {attr: values})
        valid = [op[1] for p in self.plan for op in p if op[0] == "r"] + [1 << (20 + i) for i in range(self.pre)]

        def tick():
            seq[0] += 1
            return seq[0]

        def do_rec(i, v, a):
            s = tick()
            rec(i, kind, v, a)
            recs.append((v, a, s, tick()))

        def do_col(r):
            s = tick()
            readers[r].collect()
            cols[r].append((s, tick()))

        for i in range(self.pre):
            do_rec(inst, 1 << (20 + i), "")

        def work(t):
            i = inst
            for op in self.plan[t]:
                if op[0] == "r":
                    do_rec(i, op[1], op[2])
                elif op[0] == "c":
                    do_col(op[1])

        ts = [spawn(lambda t=t: work(t), f"t{t}") for t in range(len(self.plan))]
        for t in ts:
            t.join()
        final = [r for r in range(len(readers))]
        for r in final:
            do_col(r)
        for r, rd in enumerate(readers):
            delta = self.temps[r] is D
            seen = {}
            # one delivery per collection that had anything to report
            if len(rd.got) > len(cols[r]):
                bad.append(f"reader: {len(rd.got)} deliveries for {len(cols[r])} collections")
            last = {}
            for md in rd.got:
                try:
                    pts = points(md)
                except AssertionError:
                    bad.append("duplicate: an attribute set is reported twice in one collection")
                    continue
                for a, p in pts.items():
                    ok = [v for v, b in [(op[1], op[2]) for q in self.plan for op in q if op[0] == "r"] + [(v, "") for v in valid if v >= 1 << 20] if b == a]
                    vals, err = check_point(kind, p, ok)
                    if err:
                        bad.append(f"point: {'delta' if delta else 'cumulative'} {kind} {err}")
                    seen.setdefault(a, []).append(sorted(vals))
                    last[a] = sorted(vals)
            for a in {x[1] for x in recs}:
                mine = [x for x in recs if x[1] == a]
                if kind == "gauge":
                    # the final value must not have been overwritten by a set that started after it finished
                    if not seen.get(a):
                        bad.append(f"lost: gauge {a!r} never reported")
                        continue
                    fin = seen[a][-1][0]
                    mx = [x for x in mine if x[0] == fin]
                    if not mx or any(y[2] > mx[0][3] for y in mine):
                        bad.append(f"stale: gauge {a!r} ends with {fin}, history {mine}")
                    continue
                total = sorted(x[0] for x in mine)
                if delta:
                    got = sorted(v for vs in seen.get(a, []) for v in vs)
                    if got != total:
                        bad.append(f"delta: reports cover {got}, recorded {total}")
                else:
                    if last.get(a) != total:
                        bad.append(f"cumulative: final report covers {last.get(a)}, recorded {total}")
                    prev = set()
                    for vs in seen.get(a, []):
                        if not prev <= set(vs):
                            bad.append(f"cumulative: {vs} after {sorted(prev)}")
                        prev = set(vs)
        split = tuple(tuple(tuple(sorted((a, tuple(check_point(kind, p, valid)[0])) for a, p in points(md).items())) for md in rd.got) for rd in readers) if not bad else ()
        return tuple(bad), split

    def check(self, out):
        if out[0]:
            return out[0][0]


class Obs(Harness):
    """Observable instruments collected by several threads and readers at once."""
    name = "observable"

    def __init__(self, kind, temps, colls):
        self.name = f"observable-{kind}-{len(temps)}"
        self.kind, self.temps, self.colls = kind, temps, colls

    def body(self):
        bad = []
        calls = []

        def cb(opts):
            calls.append(1)
            n = len(calls)
            return [Observation(n * 10, {"a": 1})]

        readers = [Reader(t) for t in self.temps]
        mp = provider(readers)
        m = mp.get_meter("m")
        {"c": m.create_observable_counter, "u": m.create_observable_up_down_counter, "g": m.create_observable_gauge}[self.kind]("o", [cb])
        cnt = m.create_counter("n")
        ts = [spawn(lambda r=r: readers[r].collect(), f"c{i}") for i, r in enumerate(self.colls)]
        ts.append(spawn(lambda: cnt.add(1), "rec"))
        for t in ts:
            t.join()
        for r in readers:
            r.collect()
        if len(calls) != len(self.colls) + len(readers):
            bad.append(f"callbacks: ran {len(calls)} times for {len(self.colls) + len(readers)} collections")
        allv = []
        for r, rd in enumerate(readers):
            vals = []
            for md in rd.got:
                for x in by_name(md).get(("m", "o"), []):
                    vals += [p.value for p in x.data.data_points]
            want = self.colls.count(r) + 1
            if len(vals) != want:
                bad.append(f"observable: reader {r} got {len(vals)} points in {want} collections")
            if self.temps[r] is D and self.kind != "g":
                acc, c = [], 0
                for v in vals:
                    c += v
                    acc.append(c)
                vals = acc
            if vals != sorted(vals) or any(v % 10 for v in vals):
                bad.append(f"observable: values {vals}")
            allv += vals
            tot = 0
            for md in rd.got:
                for x in by_name(md).get(("m", "n"), []):
                    v = x.data.data_points[0].value
                    tot = tot + v if self.temps[r] is D else v
            if tot != 1:
                bad.append(f"observable: counter total {tot} at reader {r}")
        if sorted(allv) != [10 * (i + 1) for i in range(len(calls))]:
            bad.append(f"observable: values {sorted(allv)}")
        return tuple(bad), tuple(allv)

    def check(self, out):
        if out[0]:
            return out[0][0]


class Create(Harness):
    """Instruments created and used for the first time while a reader collects."""
    name = "create-use-collect"

    def __init__(self, temps=(D, C)):
        self.temps = temps

    def body(self):
        bad = []
        readers = [Reader(t) for t in self.temps]
        mp = provider(readers)

        def w(n):
            m = mp.get_meter(f"m{n}")
            m.create_counter(f"c{n}").add(1)
            m.create_observable_counter(f"o{n}", [lambda o: [Observation(7)]])
            m.create_histogram(f"h{n}").record(2)

        def col():
            for r in readers:
                r.collect()

        ts = [spawn(lambda: w(1), "w1"), spawn(col, "col"), spawn(lambda: w(2), "w2")]
        for t in ts:
            t.join()
        col()
        for r, rd in enumerate(readers):
            tot = {}
            for md in rd.got:
                for k, ms in by_name(md).items():
                    if len(ms) != 1:
                        bad.append(f"create: {k} in {len(ms)} streams")
                    for p in ms[0].data.data_points:
                        v = p.value if hasattr(p, "value") else p.sum
                        tot[k] = tot.get(k, 0) + v if self.temps[r] is D else v
            want = {(f"m{n}", f"{x}{n}"): v for n in (1, 2) for x, v in (("c", 1), ("o", 7), ("h", 2))}
            if tot != want:
                bad.append(f"create: {tot} != {want}")
        return tuple(bad)

    def check(self, out):
        if out:
            return out[0]


def warm():
    """Fills the process-wide mapping cache, so that every schedule starts from the same state."""
    for v in ([1, 2], [1, 1 << 25], [4, 8, 1 << 20], [1, 2, 4, 8, 1 << 20]):
        rd = Reader(C)
        mp = provider([rd], [View(instrument_name="i", aggregation=ExponentialBucketHistogramAggregation(max_size=4, max_scale=3))])
        i = mp.get_meter("m").create_histogram("i")
        for x in v:
            i.record(x)
        rd.collect()


warm()


def R(v, a=""):
    return ("r", v, a)


def HARNESSES(tier):
    hs = []
    for k in ("counter", "updown", "histogram", "exp", "gauge"):
        hs.append(H(f"{k}-first-use", k, [[R(1)], [R(2)], [("c", 0)]], (D, C), bound=2 if k in ("counter", "histogram") else 1))
        hs.append(H(f"{k}-two-attrs", k, [[R(1, "x"), R(2, "y")], [R(4, "y"), R(8, "x")], [("c", 1)]], (D, C), bound=1))
        hs.append(H(f"{k}-warm", k, [[R(1), R(2)], [("c", 0), ("c", 0)], [R(4)]], (D, C), pre=1))
        hs.append(H(f"{k}-collectors", k, [[R(1), R(2)], [("c", 0), ("c", 1)], [("c", 0)]], (D, D) if k != "exp" else (D, C), pre=1))
        for h in hs[-4:-2]:
            h.thorough_bound = 2
    hs.append(Obs("c", (D, C), [0, 1]))
    hs.append(Obs("u", (D,), [0, 0]))
    hs.append(Obs("g", (C,), [0, 0]))
    for h in hs[-3:-1]:
        h.bound, h.thorough_bound = 1, 2
    hs.append(Create())
    hs[-1].bound, hs[-1].thorough_bound = 1, 2
    return hs
