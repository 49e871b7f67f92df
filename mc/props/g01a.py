"""G01: early handles and provider setting, all interleavings."""
import logging
import warnings

from mc import sched
from mc.explore import Harness, spawn
from mc.props._metrics import C, Reader
from mc.props.g01 import DEFS, ENV, KIND, MADE, SIGNALS, mk, named_provider, put, report, reset, sdef, want_def
from opentelemetry import metrics as api_metrics
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.resources import Resource

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
RES = Resource({"service.name": "svc"})
D3 = DEFS[1]


class Handles(Harness):
    """Threads get and use a handle; others set a provider."""

    def __init__(self, name, sig, users, setters, bound=2, own=False):
        self.name, self.sig, self.users, self.setters, self.bound, self.own = name, sig, users, setters, bound, own

    def body(self):
        reset()
        s = SIGNALS[self.sig]()
        provs = [s.provider() for _ in range(self.setters)]
        early = s.cur()
        bad, refused, done = [], [], {}
        shared = s.get(D3)

        def user(t):
            h = shared if t == 0 else s.get(D3, early if t == 2 else None)
            for n in range(2):
                before = bool(done)
                s.use(h, f"u{t}.{n}")
                done.setdefault("must", []).append(f"u{t}.{n}") if before and "set" in done else None

        def setter(k):
            s.set(provs[k])
            done["set"] = True
            if s.cur() not in provs:
                bad.append("cur: after set_*_provider the global provider is none of those set")
            refused.append((k, s.cur()))

        ts = [spawn(lambda t=t: user(t), f"u{t}") for t in range(self.users)] + [spawn(lambda k=k: setter(k), f"s{k}") for k in range(self.setters)]
        for t in ts:
            t.join()
        cur = s.cur()
        won = provs.index(cur)
        if any(c is not cur for _, c in refused):
            bad.append("set-once: the global provider changed")
        s.use(shared, "last")
        got = [s.seen(k) for k in range(self.setters)]
        for k, g in enumerate(got):
            if k != won and g:
                bad.append(f"live: provider {k} got {g} although {won} is the global one")
        names = [n for n, _ in got[won]]
        if len(set(names)) != len(names):
            bad.append(f"twice: {names}")
        if any(d != want_def(D3) for _, d in got[won]):
            bad.append(f"scope: {got[won]}")
        for n in done.get("must", []) + ["last"]:
            if n not in names:
                bad.append(f"lost: {n}, used after the provider was set, was not delivered")
        reset()
        return tuple(bad), tuple(names)

    def check(self, out):
        if out[0]:
            return out[0][0]


class EnvNamed(Harness):
    """The environment names a provider: threads get and use handles for the first time, another may set its own."""

    def __init__(self, name, sig, users, setter, bound=2):
        self.name, self.sig, self.users, self.setter, self.bound = name, sig, users, setter, bound

    def body(self):
        reset()
        s = ENV[self.sig][0]()
        own = s.provider()
        curs, used = [], []

        def user(t):
            c = s.cur()
            h = s.get(D3)
            s.use(h, f"u{t}")
            used.append(f"u{t}")
            curs.append(c)
            curs.append(s.cur())

        def setter():
            s.set(own)
            curs.append(s.cur())

        bad = []
        sinks = {id(own): s}

        def factory():
            f = ENV[self.sig][0]()
            p = f.provider()
            sinks[id(p)] = f
            return p

        with named_provider(self.sig, "mine", factory):
            ts = [spawn(lambda t=t: user(t), f"u{t}") for t in range(self.users)] + ([spawn(setter, "s")] if self.setter else [])
            for t in ts:
                t.join()
            cur = s.cur()
        if any(c is not cur for c in curs):
            bad.append(f"set-once: threads saw different global providers: {[c is cur for c in curs]}")
        if cur is not own and cur not in MADE or cur is own and not self.setter:
            bad.append("env-provider: the global provider is neither the one named nor the one set")
        for k, p in enumerate([own] + MADE):
            seen = sorted(n for n, _ in sinks[id(p)].seen(0))
            if seen != (sorted(used) if p is cur else []):
                bad.append(f"live: provider {k} of {1 + len(MADE)} received {seen}; used {used}; global {p is cur}")
        out = tuple(bad), cur is own
        reset()
        return out

    def check(self, out):
        if out[0]:
            return out[0][0]


class Meters(Harness):
    def __init__(self, name, kinds, setters=1, bound=2, shared=True):
        self.name, self.kinds, self.setters, self.bound, self.shared = name, kinds, setters, bound, shared

    def body(self):
        reset()
        rds = [Reader(C) for _ in range(self.setters)]
        provs = [MeterProvider([r], RES, shutdown_on_exit=False) for r in rds]
        bad, isset, sure, may, insts = [], [], {}, {}, []
        m0 = api_metrics.get_meter("n", "1", None, "http://s", {"a": 1}) if self.shared else None

        def user(t):
            k = KIND[self.kinds[t]]
            m = m0 or api_metrics.get_meter("n", "1", None, "http://s", {"a": 1})
            nm = f"i{t}"
            i = mk(m, k, (nm, "u", "d"), lambda o, t=t: [Observation(1000 + t)])
            insts.append((t, k, i))
            if k[:3] != "obs":
                for v in (1, 2):
                    before = bool(isset)
                    put(i, k, v)
                    may.setdefault(nm, []).append(v)
                    if before:
                        sure.setdefault(nm, []).append(v)

        def setter(k):
            api_metrics.set_meter_provider(provs[k])
            isset.append(k)
            if api_metrics.get_meter_provider() not in provs:
                bad.append("cur: after set_meter_provider the global provider is none of those set")

        ts = [spawn(lambda t=t: user(t), f"u{t}") for t in range(len(self.kinds))] + [spawn(lambda k=k: setter(k), f"s{k}") for k in range(self.setters)]
        for t in ts:
            t.join()
        won = provs.index(api_metrics.get_meter_provider())
        for t, k, i in insts:
            if k[:3] != "obs":
                put(i, k, 4)
                for x in (sure, may):
                    x.setdefault(f"i{t}", []).append(4)
        reps = [report(r) for r in rds]
        for k, r in enumerate(reps):
            if k != won and r:
                bad.append(f"live: provider {k} reports {r} although {won} is the global one")
        got = {}
        for (sc, nm, u, d, *_), v in reps[won].items():
            if sc != repr(want_def(DEFS[1])) or (u, d) != ("u", "d"):
                bad.append(f"definition: {sc} {nm} {u} {d}")
            if len(v) != 1 or nm in got:
                bad.append(f"twice: {nm} {v}")
            got[nm] = v[0]
        for t, k, i in insts:
            nm = f"i{t}"
            if k[:3] == "obs":
                ok = got.get(nm) == 1000 + t
            elif k == "gauge":
                ok = got.get(nm) == 4
            else:
                ok = nm in got and any(got[nm] == sum(s) + sum(sure[nm]) for s in self.subsets([v for v in may[nm] if v not in sure[nm]]))
            if not ok:
                bad.append(f"lost: {k} {nm} reports {got.get(nm)}; certainly delivered {sure.get(nm)}, possibly {may.get(nm)}")
        reset()
        return tuple(bad), tuple(sorted(got.items()))

    @staticmethod
    def subsets(xs):
        out = [[]]
        for x in xs:
            out += [o + [x] for o in out]
        return out

    def check(self, out):
        if out[0]:
            return out[0][0]


def HARNESSES(tier):
    hs = []
    for sig in SIGNALS:
        hs.append(Handles(f"{sig}-handles", sig, 3, 1, 1))
        hs.append(Handles(f"{sig}-setters", sig, 1, 2, 2))
        hs.append(Handles(f"{sig}-both", sig, 2, 2, 1))
    for sig in ENV:
        hs.append(EnvNamed(f"env-{sig}", sig, 2, False, 2))
        hs.append(EnvNamed(f"env-{sig}-set", sig, 2 if sig == "trace" else 1, True, 2))
    hs.append(Handles("trace-three-setters", "trace", 0, 3, 2))
    hs.append(Meters("meters-setters", [0], 2, 2))
    for k in range(len(KIND)):
        hs.append(Meters(f"meter-{KIND[k]}", [k], 1, 3))
    hs.append(Meters("meters-two", [0, 4], 1, 2, False))
    hs.append(Meters("meters-shared", [0, 6], 1, 2, True))
    hs.append(Meters("meters-three", [2, 3, 1], 1, 1, False))
    for h in hs:
        h.thorough_bound = h.bound + 1
    return hs
