"""M04: observable instruments."""
from mc.props._boom import Boom
import itertools

from mc import loader
from mc.props._metrics import C, D, Reader, akey, by_name, provider
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import ObservableCounter, ObservableUpDownCounter

A, B = {"a": 1}, {"b": "x", "c": 2}
# what one callback run does: list of observations, then possibly raise; sleep first
STEPS = {
    "5": [(5, A)], "9": [(9, A)], "AB": [(7, A), (3, B)], "B": [(4, B)], "none": [], "raise": "raise", "part": [(6, A), "raise"], "zero": [(0, A)],
    "noattr": [(2, None)], "slow": ["sleep", (8, A)],
}
KINDS = ["ocounter", "oupdown", "ogauge"]
TEMPS = [(D, C), (C, D), (D, D), ("mix", C)]
MIX = {ObservableCounter: D, ObservableUpDownCounter: C}
STYLES = ["func", "gen", "list"]


def CASES(tier):
    q = tier == "quick"
    names = ["5", "9", "AB", "B", "none", "raise", "part", "zero", "noattr"]
    n = 3 if q else 4
    # one instrument of each kind under the same script; which reader collects each time
    for t in range(len(TEMPS)):
        for style in STYLES:
            for w in itertools.product(names, repeat=n):
                for rs in itertools.product((0, 1), repeat=n):
                    if style != "func" and any(rs) and q:
                        continue
                    yield ("script", t, style, w, rs)
    # two instruments, the first failing in every way, both orders
    for t in (0, 1):
        for w in itertools.product(("5", "raise", "part", "none", "AB"), repeat=2):
            for v in itertools.product(("5", "9", "AB", "none"), repeat=2):
                for kinds in itertools.product(KINDS, repeat=2):
                    yield ("two", t, kinds, w, v)
    # running out of time at each instrument
    for t in (0, 1, 2):
        for kinds in itertools.product(KINDS, repeat=3):
            for slow in itertools.product((0, 1), repeat=3):
                for again in (0, 1):
                    yield ("timeout", t, kinds, slow, again)
    for style in ("two-callbacks", "late", "none", "shared"):
        for t in range(len(TEMPS)):
            yield ("misc", style, t)


class Script:
    def __init__(self, steps):
        self.steps, self.i, self.runs = steps, 0, 0

    def next(self):
        self.runs += 1
        s = STEPS[self.steps[self.i]] if self.i < len(self.steps) else []
        self.i += 1
        return s


def do(step):
    if step == "raise":
        raise Boom("callback")
    for x in step:
        if x == "raise":
            raise Boom("callback")
        if x == "sleep":
            loader.M_time.sleep(2)
            continue
        yield Observation(x[0], x[1])


def callback(script, style):
    if style == "func":
        return lambda options: do(script.next())
    if style == "list":
        def cb(options):
            out = []
            for o in do(script.next()):
                out.append(o)
            return out
        return cb

    def gen():
        options = yield
        while True:
            s = script.next()
            if s == "raise":
                options = yield do("raise")
            else:
                options = yield do(s)
    return gen()


def make(m, kind, name, cbs):
    return {"ocounter": m.create_observable_counter, "oupdown": m.create_observable_up_down_counter, "ogauge": m.create_observable_gauge}[kind](name, cbs, "u", "d")


class Model:
    """Expected points of one reader."""

    def __init__(self, temp):
        self.temp = temp
        self.base = {}  # series -> set of possible last observed values
        self.last = {}

    def temporality(self, kind):
        if kind == "ogauge":
            return None
        return MIX[ObservableCounter if kind == "ocounter" else ObservableUpDownCounter] if self.temp == "mix" else self.temp

    def verify(self, ctx, what, md, insts):
        """insts: name -> (kind, observed {akey: value}, partial?)"""
        got = {}
        for (_, name), ms in by_name(md).items():
            ctx.check(len(ms) == 1, "dup-metric", lambda: f"{what}: {name} reported {len(ms)} times")
            kind = insts[name][0]
            data = ms[0].data
            ok = type(data).__name__ == ("Gauge" if kind == "ogauge" else "Sum")
            if ok and kind != "ogauge":
                ok = data.aggregation_temporality is self.temporality(kind) and data.is_monotonic == (kind == "ocounter")
            ctx.check(ok and ms[0].unit == "u" and ms[0].description == "d", "identity", lambda: f"{what}: {ms[0]}")
            for p in data.data_points:
                k = akey(p.attributes)
                ctx.check((name, k) not in got, "dup-point", lambda: f"{what}: {name} {k} twice")
                got[name, k] = p
        for name, (kind, obs, partial) in insts.items():
            t = self.temporality(kind)
            seen = {k: p for (n, k), p in got.items() if n == name}
            if not partial:
                ctx.check(set(seen) == set(obs), "presence", lambda: f"{what}: {name} ({kind}) reports {list(seen)}, observed {obs}")
            for k, p in seen.items():
                if k not in obs:
                    ctx.check(False, "phantom", f"{what}: {name} ({kind}) reports {k}={p.value}, which was not observed")
                    continue
                v = obs[k]
                if t is D:
                    allowed = {v - b for b in self.base.get((name, k), {0})}
                    pt = self.last.get((name, k))
                    if pt is not None:
                        ctx.check(p.start_time_unix_nano in pt, "delta-start", lambda: f"{what}: {name} {k} starts {p.start_time_unix_nano}, previous point ended {pt}")
                else:
                    allowed = {v}
                    if t is C:
                        st = self.last.setdefault(("start", name, k), p.start_time_unix_nano)
                        ctx.check(st == p.start_time_unix_nano, "cumulative-start", lambda: f"{what}: {name} {k} start moved")
                ctx.check(p.value in allowed, "value", lambda: f"{what}: {name} ({kind}, {t}) reports {k}={p.value}, expected {allowed}")
                if t is D:
                    self.last[name, k] = {p.time_unix_nano}
            for k, v in obs.items():
                old = self.base.get((name, k), {0})
                self.base[name, k] = ({v} | old) if partial and k not in seen else {v}
                ctx.state(kind, str(t), k, v)


def observed(step):
    if step == "raise":
        return {}, True
    obs, partial = {}, False
    for x in step:
        if x == "raise":
            partial = True
            break
        if x != "sleep":
            obs[akey(x[1])] = x[0]
    return obs, partial


def run_case(case, ctx):
    ctx.step()
    kind = case[0]
    if kind == "script":
        _, t, style, w, rs = case
        scripts = {k: Script(w) for k in KINDS}
        readers = [Reader(MIX if x == "mix" else x) for x in TEMPS[t]]
        models = [Model(x) for x in TEMPS[t]]
        m = provider(readers).get_meter("m")
        for k in KINDS:
            make(m, k, k, [callback(scripts[k], style)])
        for i, r in enumerate(rs):
            ctx.step()
            md = readers[r].scrape()
            obs, partial = observed(STEPS[w[i]])
            models[r].verify(ctx, f"{style} {w} by readers {rs}, collection {i}", md, {k: (k, obs, partial) for k in KINDS})
            for k in KINDS:
                ctx.check(scripts[k].runs == i + 1, "runs", lambda: f"{w}: callback of {k} ran {scripts[k].runs} times in {i + 1} collections")
            if style == "gen" and STEPS[w[i]] == "raise":
                pass
    elif kind == "two":
        _, t, kinds, w, v = case
        readers = [Reader(x) for x in TEMPS[t]]
        models = [Model(x) for x in TEMPS[t]]
        m = provider(readers).get_meter("m")
        ss = [Script(w + w), Script(v + v)]
        for i in (0, 1):
            make(m, kinds[i], f"i{i}", [callback(ss[i], "func")])
        c = m.create_counter("sync")
        total = 0
        for j, r in enumerate((0, 1, 0, 1)):
            c.add(1)
            total += 1
            md = readers[r].scrape()
            sync = [ms for (_, n), ms in by_name(md).items() if n == "sync"]
            ctx.check(len(sync) == 1, "sync-lost", lambda: f"{case}: the synchronous counter is missing")
            insts = {f"i{i}": (kinds[i],) + observed(STEPS[(w + w, v + v)[i][j]]) for i in (0, 1)}
            for r2 in md.resource_metrics:
                for s in r2.scope_metrics:
                    s.metrics[:] = [x for x in s.metrics if x.name != "sync"]
            models[r].verify(ctx, f"{case} collection {j}", md, insts)
    elif kind == "timeout":
        _, t, kinds, slow, again = case
        readers = [Reader(x) for x in TEMPS[t]]
        models = [Model(x) for x in TEMPS[t]]
        m = provider(readers).get_meter("m")
        # the first collection of reader 0 runs out of time, the following ones do not
        scr = [Script(["5"] + (["slow"] if s else ["9"]) * (1 + again) + ["AB", "9", "5"]) for s in slow]
        for i in range(3):
            make(m, kinds[i], f"i{i}", [callback(scr[i], "func")])
        c = m.create_counter("sync")

        def collect(r, timeout):
            c.add(1)
            n0 = [s.i for s in scr]
            failed = False
            readers[r].got.clear()
            try:
                readers[r].collect(timeout_millis=timeout)
            except Exception:
                failed = True
            md = readers[r].got[-1] if readers[r].got else None
            ran = [s.i > n for s, n in zip(scr, n0)]
            if failed:
                ctx.check(md is None, "failed-report", lambda: f"{case}: a failed collection reported {md}")
                for i in range(3):  # observations of a failed collection may or may not be the new baseline
                    if ran[i]:
                        for k, v in observed(STEPS[scr[i].steps[n0[i]]])[0].items():
                            models[r].base[f"i{i}", k] = models[r].base.get((f"i{i}", k), {0})
                return
            for r2 in md.resource_metrics:
                for s in r2.scope_metrics:
                    s.metrics[:] = [x for x in s.metrics if x.name != "sync"]
            insts = {f"i{i}": (kinds[i],) + observed(STEPS[scr[i].steps[n0[i]]]) for i in range(3)}
            models[r].verify(ctx, f"{case}", md, insts)

        collect(0, 10000)
        for _ in range(1 + again):
            collect(0, 1000)
        # scripts of instruments that were not reached in the failed collections lag behind: that is fine
        collect(0, 10000)
        collect(0, 10000)
        collect(1, 10000)
    else:
        misc(case, ctx)


def misc(case, ctx):
    _, style, t = case
    readers = [Reader(MIX if x == "mix" else x) for x in TEMPS[t]]
    models = [Model(x) for x in TEMPS[t]]
    m = provider(readers).get_meter("m")
    if style == "two-callbacks":
        # several callbacks of one instrument for different attributes, one of which always raises
        s1, s2, s3 = Script(["5", "9", "5"]), Script(["B", "B", "none"]), Script(["raise"] * 3)
        for k in KINDS:
            make(m, k, k, [callback(x, "func") for x in (s3, s1, s2)])
            for r in (0, 1):
                s1.i = s2.i = s3.i = 0
                for i in range(3):
                    md = readers[r].scrape()
                    obs = {**observed(STEPS[s1.steps[i]])[0], **observed(STEPS[s2.steps[i]])[0]}
                    models[r].verify(ctx, f"{case} {k} {i}", md, {k: (k, obs, False)})
            break
    elif style == "late":
        # an instrument created between collections takes part from then on
        s = Script(["5", "9"])
        c = m.create_counter("sync")
        c.add(1)
        readers[0].scrape()
        make(m, "ocounter", "late", [callback(s, "func")])
        for r in (0, 1):
            md = readers[r].scrape()
            v = {n: [(akey(p.attributes), p.value) for p in ms[0].data.data_points] for (_, n), ms in by_name(md).items()}
            ctx.check(v.get("late") == [(akey(A), (5, 9)[r])], "late", lambda: f"{case}: {v}")
    elif style == "none":
        for cbs in (None, [], [lambda o: None], [lambda o: 5], [lambda o: ["x"]]):
            m2 = provider([r := Reader(C)]).get_meter("m")
            make(m2, "ocounter", "x", cbs)
            s = Script(["5"])
            make(m2, "ogauge", "ok", [callback(s, "func")])
            v = [n for (_, n) in by_name(r.scrape())]
            ctx.check(v == ["ok"], "unsuitable-callback", lambda: f"{cbs}: {v}")
    else:
        # the same callback serves two instruments
        s = Script(["5"] * 10)
        cb = callback(s, "func")
        make(m, "ocounter", "x", [cb])
        make(m, "ogauge", "y", [cb])
        md = readers[0].scrape()
        v = {n: [p.value for p in ms[0].data.data_points] for (_, n), ms in by_name(md).items()}
        ctx.check(v == {"x": [5], "y": [5]} and s.runs == 2, "shared", lambda: f"{v}")
