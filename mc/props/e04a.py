"""E04: concurrent scrapes, flushes and measurements."""
from mc import sched
from mc.explore import Harness, spawn
from mc.props import _prom as Q
from mc.props._metrics import OFF
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.resources import Resource


class Scrapes(Harness):
    """Every scrape exposes the counter, the gauge and target_info exactly once, with every value recorded before it began."""

    def __init__(self, name, plan, bound=1, tbound=None):
        self.name, self.plan, self.bound, self.thorough_bound = name, plan, bound, tbound or bound + 1

    def body(self):
        reg, bad, vals = Q.Registered(), [], []
        mp = MeterProvider([reg.reader], Resource({"r": "1"}), OFF, shutdown_on_exit=False)
        m = mp.get_meter("m")
        c, g = m.create_counter("c"), m.create_up_down_counter("g")
        c.add(1)
        g.add(5)
        done = [1]

        def w(ops):
            for op in ops:
                if op == "flush":
                    mp.force_flush()
                elif op == "scrape":
                    low = sum(done)
                    got, b = Q.parse(reg.text())
                    bad.extend(b)
                    v = got.pop(("c_total", ()), (None,))[0]
                    rest = {}
                    Q.put(rest, "gauge", "g", "", "", None, 5)
                    Q.target(rest, {"r": "1"})
                    if v is None or v < low:
                        bad.append(f"counter exposed as {v} although {low} was recorded")
                    d = Q.diff(got, rest)
                    if d:
                        bad.append(d)
                    vals.append(v)
                else:
                    c.add(op)
                    done.append(op)
        ts = [spawn(lambda p=p: w(p), f"t{i}") for i, p in enumerate(self.plan)]
        for t in ts:
            t.join()
        w(["scrape"])
        if vals[-1] != sum(done):
            bad.append(f"the last scrape shows {vals[-1]} of {sum(done)}")
        return tuple(bad), tuple(vals)

    def check(self, out):
        if out[0]:
            return "scrape: " + out[0][0]


def HARNESSES(tier):
    return [
        Scrapes("two-scrapes", [["scrape"], ["scrape"]], 2, 3),
        Scrapes("scrape-flush", [["scrape"], ["flush"]], 2, 3),
        Scrapes("scrape-flush-add", [["scrape"], ["flush", 2], [4]], 1, 2),
        Scrapes("scrapes-add", [["scrape", "scrape"], [2, "scrape"]], 1, 2),
    ]
