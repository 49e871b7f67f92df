"""T04: concurrent mutation and end of one span."""
import logging

from mc import sched
from mc.explore import Harness, spawn
from opentelemetry import trace
from opentelemetry.context import Context
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanLimits, SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.trace import SpanContext, Status, StatusCode, TraceFlags

logging.disable(logging.CRITICAL)
RES = Resource({})
SC = SpanContext(5, 6, True, TraceFlags(1))


def view(s):
    return (s.name, s.status.status_code, s.status.description, tuple(sorted((k, v) for k, v in s.attributes.items())),
            tuple((e.name, e.timestamp, tuple(sorted((e.attributes or {}).items()))) for e in s.events),
            tuple((k.context.trace_id, tuple(sorted((k.attributes or {}).items()))) for k in s.links), s.end_time, s.dropped_attributes, s.dropped_events, s.dropped_links)


OPS = {
    "attr": (lambda s, i: s.set_attribute(f"a{i}", i), lambda v, i: (f"a{i}", i) in v[3]),
    "attrs": (lambda s, i: s.set_attributes({f"x{i}": i, f"y{i}": i}), lambda v, i: ((f"x{i}", i) in v[3], (f"y{i}", i) in v[3])),
    "same": (lambda s, i: s.set_attribute("k", i), lambda v, i: any(k == "k" for k, _ in v[3])),
    "event": (lambda s, i: s.add_event(f"e{i}", {"p": i, "q": i}, 100 + i), lambda v, i: (f"e{i}", 100 + i, (("p", i), ("q", i))) in v[4]),
    "link": (lambda s, i: s.add_link(SC, {"i": i}), lambda v, i: (5, (("i", i),)) in v[5]),
    "name": (lambda s, i: s.update_name(f"n{i}"), lambda v, i: v[0].startswith("n")),
    "status": (lambda s, i: s.set_status(Status(StatusCode.ERROR, f"d{i}")), lambda v, i: v[1] is StatusCode.ERROR),
    "exc": (lambda s, i: s.record_exception(ValueError("v"), timestamp=7), lambda v, i: any(e[0] == "exception" for e in v[4])),
}


class H(Harness):
    def __init__(self, name, plan, limits=None, bound=2):
        """plan: list (per thread) of operation names; 'end' ends the span"""
        self.name, self.plan, self.limits, self.bound = name, plan, limits, bound

    def body(self):
        log, bad = [], []

        class P(SpanProcessor):
            def on_end(self, span):
                log.append((span, view(span)))

        tp = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False, span_limits=self.limits or SpanLimits(*[None] * 8))
        tp.add_span_processor(P())
        s = tp.get_tracer("t").start_span("n", Context())
        done_before_end = []
        ending = [False]

        def work(t):
            for j, op in enumerate(self.plan[t]):
                i = t * 10 + j
                if op == "end":
                    ending[0] = True
                    s.end(1000 + i)
                else:
                    OPS[op][0](s, i)
                    if not ending[0]:
                        done_before_end.append((op, i))

        ts = [spawn(lambda t=t: work(t), f"t{t}") for t in range(len(self.plan))]
        for t in ts:
            t.join()
        if any("end" in p for p in self.plan):
            if len(log) != 1:
                bad.append(f"{len(log)} end notifications")
            else:
                ro, v = log[0]
                if view(ro) != v:
                    bad.append(f"exported span changed after its end: {v} -> {view(ro)}")
                if view(s) != v:
                    bad.append(f"span and exported span differ: {view(s)} / {v}")
                ends = [1000 + t * 10 + j for t, p in enumerate(self.plan) for j, op in enumerate(p) if op == "end"]
                if v[6] not in ends:
                    bad.append(f"end time {v[6]}")
        else:
            s.end()
        ro, v = log[0]
        if not self.limits:
            for op, i in done_before_end:
                r = OPS[op][1](v, i)
                if r is False or r == (False, False) or r == (False, True) or r == (True, False):
                    bad.append(f"{op}: change made before the end is missing from the exported span")
        # whole or absent
        for t, p in enumerate(self.plan):
            for j, op in enumerate(p):
                i = t * 10 + j
                if op == "attrs" and not self.limits:
                    r = OPS[op][1](v, i)
                    if r[0] != r[1]:
                        bad.append("attrs: only part of one set_attributes call is in the exported span")
        for n, tm, at in v[4]:
            if n.startswith("e") and n != "exception" and at != (("p", int(n[1:])), ("q", int(n[1:]))):
                bad.append(f"event {n} torn: {at}")
        if self.limits:
            n_attr = sum(1 for p in self.plan for op in p if op == "attr")
            n_ev = sum(1 for p in self.plan for op in p if op == "event")
            n_ln = sum(1 for p in self.plan for op in p if op == "link")
            if all("end" not in p for p in self.plan):
                if len(v[3]) + v[7] != n_attr or len(v[4]) + v[8] != n_ev or len(v[5]) + v[9] != n_ln:
                    bad.append(f"dropped: counts wrong: {v}")
            if len(v[3]) > 1 or len(v[4]) > 1 or len(v[5]) > 1:
                bad.append(f"limit: exceeded: {v}")
        return tuple(bad), v[:6]

    def check(self, out):
        if out[0]:
            return out[0][0]


class Reader(Harness):
    """A thread reads a live span while another changes it."""
    name = "reader"

    def body(self):
        bad = []
        tp = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False, span_limits=SpanLimits(max_events=2, max_links=2))
        s = tp.get_tracer("t").start_span("n", Context())

        def w():
            s.add_event("e1", {"p": 1}, 1)
            s.add_link(SC, {"i": 1})
            s.add_event("e2", {"p": 1}, 1)
            s.add_event("e3", {"p": 1}, 1)
            s.set_attribute("a", 1)

        def r():
            for _ in range(2):
                ev, ln, at = s.events, s.links, dict(s.attributes)
                names = [e.name for e in ev]
                if names not in ([], ["e1"], ["e1", "e2"], ["e2", "e3"]) or len(ln) > 1 or at not in ({}, {"a": 1}):
                    bad.append(f"reader: saw events {names}, links {len(ln)}, attributes {at}")

        a, b = spawn(w, "w"), spawn(r, "r")
        a.join()
        b.join()
        return tuple(bad)

    def check(self, out):
        if out:
            return out[0]


def HARNESSES(tier):
    L1 = SpanLimits(max_span_attributes=1, max_events=1, max_links=1)
    hs = [H("end-end", [["end"], ["end"], ["end"]]),
          H("mutate-end", [["attr", "event", "status"], ["end"]]),
          H("attrs-end", [["attrs", "link", "name"], ["end"]]),
          H("exc-end", [["exc"], ["end", "attr"]]),
          H("mutators", [["attr", "event", "link"], ["attr", "event", "link"]]),
          H("same-key", [["same", "attrs"], ["same", "attrs"]]),
          H("limited", [["attr", "event", "link"], ["attr", "event", "link"]], L1),
          H("limited-end", [["attr", "event"], ["event", "end"]], L1),
          H("three", [["event"], ["event"], ["event", "end"]]),
          Reader()]
    return hs
