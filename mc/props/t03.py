"""T03: processor fan-out, flush and shutdown (sequential histories)."""
from mc.props._boom import Boom
import itertools
import logging

from mc import sched
from opentelemetry.context import Context
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult

logging.disable(logging.CRITICAL)
RES = Resource({})


class ByName(Sampler):
    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        return SamplingResult({"d": Decision.DROP, "r": Decision.RECORD_ONLY}.get(name[0], Decision.RECORD_AND_SAMPLE))

    def get_description(self):
        return "x"


class P(SpanProcessor):
    def __init__(self, i, log, flush=True, cost_ms=0):
        self.i, self.log, self.flush, self.cost = i, log, flush, cost_ms

    def on_start(self, span, parent_context=None):
        self.log.append(("start", self.i, span.name, span.is_recording(), parent_context))

    def on_end(self, span):
        self.log.append(("end", self.i, span.name, span.end_time is not None))

    def shutdown(self):
        self.log.append(("shutdown", self.i))

    def force_flush(self, timeout_millis=30000):
        self.log.append(("flush", self.i, timeout_millis))
        sched.CLOCK.now += self.cost * 10**6
        return self.flush


class E(SpanExporter):
    def __init__(self, i, log, script):
        self.i, self.log, self.script, self.n = i, log, script, 0

    def export(self, spans):
        self.log.append(("export", self.i, [s.name for s in spans]))
        b = self.script[self.n % len(self.script)]
        self.n += 1
        if b == "raise":
            raise Boom("exporter failed")
        return SpanExportResult.SUCCESS if b == "ok" else SpanExportResult.FAILURE

    def force_flush(self, timeout_millis=30000):
        if "raise" in self.script:
            raise Boom("flush failed")
        return "fail" not in self.script

    def shutdown(self):
        self.log.append(("xshutdown", self.i))


OPS = ["add", "start-s", "start-r", "start-d", "end-first", "end-last", "flush"]
SPECS = [("p", True), ("p", False), ("simple", ("ok",)), ("simple", ("raise", "ok")), ("simple", ("fail",))]


def CASES(tier):
    n = 5 if tier == "quick" else 6
    for fl in itertools.product((0, 1, 2), repeat=2):  # kinds of the processors added, in order
        for w in itertools.product(range(len(OPS)), repeat=n):
            yield ("seq", fl, w)
    for k in range(0, 4):
        for w in itertools.product(range(len(SPECS)), repeat=k):
            yield ("fan", w)
    for k in range(1, 4):
        for fl in itertools.product((True, False, None), repeat=k):
            for cost in itertools.product((0, 5, 20), repeat=k):
                for t in (0, 1, 10, 30000):
                    yield ("flush", fl, cost, t)


def run_case(case, ctx):
    ctx.step()
    log = []
    tp = TracerProvider(resource=RES, sampler=ByName(), shutdown_on_exit=False)
    tr = tp.get_tracer("t")
    if case[0] == "seq":
        _, kinds, w = case
        procs, spans, seq, want = [], [], itertools.count(), []
        kind = itertools.cycle(kinds)
        for i in w:
            op = OPS[i]
            ctx.step()
            if op == "add":
                j = len(procs)
                k = next(kind)
                pr = P(j, log) if k == 0 else SimpleSpanProcessor(E(j, log, ("ok",) if k == 1 else ("raise", "ok")))
                tp.add_span_processor(pr)
                procs.append(k)
            elif op.startswith("start"):
                name = f"{op[-1]}{next(seq)}"
                s = tr.start_span(name, Context())
                if op[-1] != "d":
                    want += [("start", j, name) for j, k in enumerate(procs) if k == 0]
                spans.append((s, name, op[-1]))
            elif op.startswith("end"):
                if not spans:
                    continue
                s, name, kd = spans.pop(0 if op == "end-first" else -1)
                s.end()
                s.end()
                if kd != "d":
                    for j, k in enumerate(procs):
                        if k == 0:
                            want.append(("end", j, name))
                        elif kd == "s":
                            want.append(("export", j, name))
            else:
                ctx.check(tp.force_flush() is True, "flush", "flush of succeeding processors reported failure")
                want += [("flush", j, None) for j, k in enumerate(procs) if k == 0]
        tp.shutdown()
        want += [("shutdown" if k == 0 else "xshutdown", j, None) for j, k in enumerate(procs)]
        got = []
        for e in log:
            if e[0] == "export":
                ctx.check(len(e[2]) == 1, "simple-batch", f"simple processor exported {e[2]}")
                got += [("export", e[1], n) for n in e[2]]
            elif e[0] in ("start", "end"):
                got.append(e[:3])
                ctx.check(e[3], "state", f"{e}: span recording on start / end time on end")
            else:
                got.append((e[0], e[1], None))
        ctx.check(got == want, "notifications", lambda: f"{[OPS[i] for i in w]}: saw {got}, expected {want}")
        ctx.state(tuple(got))
    elif case[0] == "fan":
        for j, k in enumerate(case[1]):
            kd, arg = SPECS[k]
            tp.add_span_processor(P(j, log, arg) if kd == "p" else SimpleSpanProcessor(E(j, log, arg)))
        for i, nm in enumerate(("s0", "r1", "s2", "d3")):
            c = Context({"n": i})
            s = tr.start_span(nm, c)
            n0 = len(log)
            s.end()
            for j, k in enumerate(case[1]):
                kd, arg = SPECS[k]
                seen = [e for e in log[n0:] if e[1] == j]
                if nm[0] == "d":
                    ctx.check(not seen, "dropped-span", f"dropped span reached processor {j}")
                elif kd == "p":
                    ctx.check(seen == [("end", j, nm, True)], "fan-out", lambda: f"processor {j} saw {seen} for {nm}")
                    st = [e for e in log if e[:3] == ("start", j, nm)]
                    ctx.check(len(st) == 1 and st[0][4] is c, "fan-out", lambda: f"processor {j} starts {st}")
                else:
                    ctx.check(seen == ([("export", j, [nm])] if nm[0] == "s" else []), "simple-export", lambda: f"simple {j} saw {seen} for {nm}")
        ok = all(SPECS[k][1] for k in case[1] if SPECS[k][0] == "p")
        got = tp.force_flush()
        ctx.check(bool(got) == ok, "flush", lambda: f"flush of {[SPECS[k] for k in case[1]]} reported {got}")
        n0 = len(log)
        tp.shutdown()
        ctx.check([e[1] for e in log[n0:]] == list(range(len(case[1]))) and all("shutdown" in e[0] for e in log[n0:]), "shutdown", lambda: f"{log[n0:]}")
        ctx.state(case)
    else:
        _, fl, cost, t = case
        for j, (f, c) in enumerate(zip(fl, cost)):
            tp.add_span_processor(P(j, log, f, c))
        t0 = sched.CLOCK.now
        got = tp.force_flush(t)
        flushed = [e for e in log if e[0] == "flush"]
        if got:
            ctx.check(all(fl) and [e[1] for e in flushed] == list(range(len(fl))), "flush-true", lambda: f"{case}: success although {flushed}")
            ctx.check(sum(cost[:-1]) <= t, "flush-deadline", lambda: f"{case}: success after the deadline")
        elif all(fl):
            ctx.check(t == 0 or sum(cost[:-1]) >= t - 1, "flush-false", lambda: f"{case}: failure although every processor flushed in time")
        for e in flushed:
            ctx.check(0 <= e[2] <= t, "flush-budget", lambda: f"{case}: processor {e[1]} was given {e[2]} ms of {t}")
        ctx.state(case[:3], t, got)
