"""R01: detectors run concurrently; their order of completion never matters."""
import logging

from mc.explore import Harness
from mc.props import r01
from mc.loader import M_time
from mc import sched
from opentelemetry.sdk.resources import Resource, get_aggregated_resources

logging.disable(logging.CRITICAL)


class Pt(r01.D):
    def detect(self):
        sched.RT.point(("detect",))
        return super().detect()


class Detect(Harness):
    fair_ticks = True

    def __init__(self, name, dets, bound=2, tbound=None):
        """dets: per detector the attribute value of "a", "raise", or ("slow", seconds)"""
        self.name, self.dets, self.bound, self.thorough_bound = name, dets, bound, tbound or bound + 1

    def body(self):
        ds = []
        for i, d in enumerate(self.dets):
            if d == "raise":
                ds.append(Pt(err=ValueError("x")))
            elif isinstance(d, tuple):
                ds.append(Pt({"a": i, f"k{i}": 1}, delay=d[1]))
            else:
                ds.append(Pt({"a": i, f"k{i}": 1}))
        r = get_aggregated_resources(ds, Resource({"i": 1}), timeout=5)
        return tuple(sorted(r.attributes.items()))

    def check(self, out):
        want = {"i": 1}
        for i, d in enumerate(self.dets):
            if d != "raise" and not (isinstance(d, tuple) and d[1] > 100):
                want.update({"a": i, f"k{i}": 1})
        if dict(out) != want:
            return f"detectors: {dict(out)} instead of {want}"


def HARNESSES(tier):
    return [
        Detect("two", ["ok", "ok"], 3),
        Detect("three", ["ok", "raise", "ok"], 1, 2),
        Detect("slow-first", [("slow", 3), "ok", "ok"], 1, 2),
        Detect("too-slow", [("slow", 1000), "ok", ("slow", 1)], 1, 2),
        Detect("four-too-slow", [("slow", 1000)] * 4 + ["ok"], 0, 0),
        Detect("many", ["ok"] * 4, 0, 1),
    ]
