"""T04: operation sequences on one span, before and after its end."""
import itertools
import json
import logging

from opentelemetry import trace
from opentelemetry.context import Context
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.trace import SpanContext, Status, StatusCode, TraceFlags

logging.disable(logging.CRITICAL)
RES = Resource({"r": 1})
SC = SpanContext(5, 6, True, TraceFlags(1))


class P(SpanProcessor):
    def __init__(self):
        self.log = []

    def on_start(self, span, parent_context=None):
        self.log.append(("start", span))

    def on_end(self, span):
        self.log.append(("end", span, view(span)))


def view(s):
    return (s.name, s.status.status_code, s.status.description, dict(s.attributes), [(e.name, e.timestamp, dict(e.attributes or {})) for e in s.events],
            [(k.context.trace_id, dict(k.attributes or {})) for k in s.links], s.start_time, s.end_time, s.kind, s.context, s.parent)


MUT = {"v": [1, 2]}
OPS = {
    "attr": lambda s: s.set_attribute("a", "1"),
    "attr2": lambda s: s.set_attribute("a", ["x", "y"]),
    "attrs": lambda s: s.set_attributes({"b": 2, "c": True}),
    "event": lambda s: s.add_event("e", {"k": 1}, 111),
    "event2": lambda s: s.add_event("f", timestamp=222),
    "link": lambda s: s.add_link(SC, {"l": 1}),
    "name": lambda s: s.update_name("renamed"),
    "name0": lambda s: s.update_name(""),
    "ok": lambda s: s.set_status(StatusCode.OK),
    "err": lambda s: s.set_status(Status(StatusCode.ERROR, "d")),
    "exc": lambda s: s.record_exception(ValueError("v"), timestamp=333),
    "end": lambda s: s.end(),
    "end5": lambda s: s.end(555),
    "exit": lambda s: s.__exit__(None, None, None),
    "start": lambda s: s.start(),
}
NAMES = list(OPS)


def CASES(tier):
    n = 4 if tier == "quick" else 5
    for w in itertools.product(range(len(NAMES)), repeat=n):
        yield ("seq", w)
    yield ("times",)
    for api in range(5):
        yield ("mutate-after", api)


def model(m, op):
    m = dict(m)
    if op == "attr":
        m["attrs"] = {**{k: v for k, v in m["attrs"].items() if k != "a"}, "a": "1"}
    elif op == "attr2":
        m["attrs"] = {**{k: v for k, v in m["attrs"].items() if k != "a"}, "a": ("x", "y")}
    elif op == "attrs":
        m["attrs"] = {**{k: v for k, v in m["attrs"].items() if k not in "bc"}, "b": 2, "c": True}
    elif op == "event":
        m["events"] = m["events"] + [("e", 111, {"k": 1})]
    elif op == "event2":
        m["events"] = m["events"] + [("f", 222, {})]
    elif op == "exc":
        m["events"] = m["events"] + [("exception", 333, None)]
    elif op == "link":
        m["links"] = m["links"] + [(5, {"l": 1})]
    elif op == "name":
        m["name"] = "renamed"
    elif op == "name0":
        m["name"] = ""
    elif op == "ok":
        m["status"] = (StatusCode.OK, None)
    elif op == "err" and m["status"][0] is not StatusCode.OK:
        m["status"] = (StatusCode.ERROR, "d")
    return m


def run_case(case, ctx):
    ctx.step()
    proc = P()
    tp = TracerProvider(resource=RES, sampler=ALWAYS_ON, shutdown_on_exit=False)
    tp.add_span_processor(proc)
    tr = tp.get_tracer("t")
    if case[0] == "seq":
        s = tr.start_span("orig", Context(), start_time=100)
        m = {"name": "orig", "status": (StatusCode.UNSET, None), "attrs": {}, "events": [], "links": []}
        ended, frozen, end_time = False, None, None
        for i in case[1]:
            op = NAMES[i]
            ctx.step()
            r = OPS[op](s)
            if not ended:
                if op in ("end", "end5", "exit"):
                    ended = True
                    end_time = s.end_time
                    ctx.check(end_time is not None and (op != "end5" or end_time == 555), "end-time", lambda: f"{op}: end time {end_time}")
                    frozen = view(s)
                else:
                    m = model(m, op)
            v = view(s)
            if ended:
                ctx.check(v == frozen, "changed-after-end", lambda: f"{[NAMES[j] for j in case[1]]}: {op} changed an ended span: {v}")
            ctx.check(s.is_recording() == (not ended), "recording", "is_recording wrong")
            ev = [(n, t, None if n == "exception" else a) for n, t, a in v[4]]
            ctx.check((v[0], (v[1], v[2]), v[3], ev, v[5], v[6]) == (m["name"], m["status"], m["attrs"], m["events"], m["links"], 100), "content",
                      lambda: f"{[NAMES[j] for j in case[1]]} after {op}: {v}, expected {m}")
        if not ended:
            s.end()
            frozen = view(s)
        ends = [e for e in proc.log if e[0] == "end"]
        ctx.check(len(ends) == 1 and len(proc.log) == 2, "notified-once", lambda: f"{[NAMES[j] for j in case[1]]}: {len(ends)} end notifications")
        ctx.check(ends[0][2] == frozen and view(ends[0][1]) == frozen, "exported", lambda: f"exported {view(ends[0][1])} differs from {frozen}")
        ctx.state(repr(m), ended)
    elif case[0] == "times":
        for st, en in ((0, 0), (0, 5), (1, 1), (10, 5), (None, 7), (7, None)):
            s = tr.start_span("x", Context(), start_time=st)
            s.end(en)
            ctx.check((st is None or s.start_time == st) and (en is None or s.end_time == en) and s.end_time is not None and s.start_time is not None,
                      "times", lambda: f"start {st} end {en}: recorded {s.start_time} {s.end_time}")
            s.end(99)
            s.set_attribute("late", 1)
            ctx.check(dict(s.attributes) == {} and s.end_time != 99 and not s.is_recording(), "times", lambda: f"span ended at {en} still changes")
        s = tr.start_span("x", Context())
        s.add_event("e")
        s.end()
        ctx.check(s.start_time <= s.events[0].timestamp <= s.end_time, "times", "implicit times not ordered")
        json.loads(proc.log[-1][1].to_json())
        ctx.state(case)
    else:
        # the objects the application passed or got back do not reach into the exported span
        attrs, lst = {"k": [1, 2]}, [1, 2]
        s = tr.start_span("x", Context(), attributes=attrs)
        s.set_attribute("l", lst)
        s.add_event("e", attrs)
        s.add_link(SC, attrs)
        s.end()
        ro = proc.log[-1][1]
        before = view(ro)
        got = [s.attributes, s.events, s.links, ro.attributes, ro.events][case[1]]
        attrs["k"].append(3)
        attrs["z"] = 1
        lst.append(3)
        for f in (lambda: got.__setitem__("q", 1), lambda: got.append(1), lambda: got.clear(), lambda: got[0].attributes.__setitem__("q", 1)):
            try:
                f()
            except Exception:  # noqa
                pass
        ctx.check(view(ro) == before and view(s) == before, "aliasing", lambda: f"exported span changed to {view(ro)}")
        ctx.state(case)
