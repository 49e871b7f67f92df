"""M07: concurrent creation of meters and instruments."""
import logging

from mc.explore import Harness, spawn
from mc.props._metrics import C, Reader, metrics, provider
from mc.props.m07 import make, put
from opentelemetry.metrics import Observation

logging.disable(logging.CRITICAL)


class H(Harness):
    def __init__(self, name, plan, bound=2):
        """plan: per thread list of (meter name, kind, definition)"""
        self.name, self.plan, self.bound = name, plan, bound

    def body(self):
        bad, got, calls = [], {}, []
        rd = Reader(C)
        mp = provider([rd])
        want = {}

        def w(t):
            for n, op in enumerate(self.plan[t]):
                if op == "collect":
                    rd.collect()
                    continue
                mn, k, d = op
                m = mp.get_meter(mn)
                v = 1 << (t * 4 + n)
                i = make(m, k, d, [lambda o, v=v: (calls.append(v), [Observation(v)])[1]])
                got.setdefault((mn, k, d), []).append(i)
                got.setdefault(mn, []).append(m)
                if not k.startswith("obs"):
                    put(i, k, v)
                want.setdefault((mn, k, d), []).append(v)

        ts = [spawn(lambda t=t: w(t), f"t{t}") for t in range(len(self.plan))]
        for t in ts:
            t.join()
        for k, v in got.items():
            if any(x is not v[0] for x in v):
                bad.append(f"identity: {k} has {len({id(x) for x in v})} objects")
        ids = [id(v[0]) for v in got.values()]
        if len(set(ids)) != len(ids):
            bad.append("identity: different definitions share one instrument")
        rd.got.clear()
        calls.clear()
        rd.collect()
        rep = {}
        for s, x in metrics(rd.got[-1]):
            for p in x.data.data_points:
                rep.setdefault((s, x.name, x.unit), []).append(p.value if hasattr(p, "value") else p.sum)
        for (mn, k, d), vs in want.items():
            r = rep.get((mn, d[0].lower(), d[1]), [])
            if k.startswith("obs"):
                ok = len(r) == 1 and r[0] in vs
            elif k == "gauge":
                ok = len(r) == 1 and r[0] in vs
            else:
                ok = r == [sum(vs)]
            if not ok:
                bad.append(f"streams: {(mn, k, d)} reports {r}, recorded {vs}")
        n_obs = sum(1 for k in want if k[1].startswith("obs"))
        if len(calls) != n_obs:
            bad.append(f"callbacks: {len(calls)} ran for {n_obs} observable instruments")
        return tuple(bad), tuple(sorted((str(k), tuple(v)) for k, v in rep.items()))

    def check(self, out):
        if out[0]:
            return out[0][0]


def HARNESSES(tier):
    n = ("n", "u", "d")
    hs = [H("meters", [[("m", "counter", n)], [("m", "counter", n)], [("m2", "counter", n)]], 2)]
    for k in ("counter", "up_down_counter", "histogram", "gauge", "observable_counter", "observable_up_down_counter", "observable_gauge"):
        hs.append(H(f"same-{k}", [[("m", k, n)], [("m", k, n)]], 3))
    hs.append(H("case", [[("m", "counter", n), ("m", "counter", ("x", "", ""))], [("m", "counter", n), ("m", "counter", ("x", "", ""))]], 1))
    hs.append(H("kinds", [[("m", "counter", n)], [("m", "counter", ("n", "v", "d"))], [("m", "counter", n)]], 1))
    hs.append(H("collecting", [[("m", "counter", n), ("m", "observable_gauge", ("o", "", ""))], ["collect"], [("m", "counter", n), ("m", "observable_gauge", ("o", "", ""))]], 1))
    for h in hs:
        h.thorough_bound = h.bound + 1
    return hs
