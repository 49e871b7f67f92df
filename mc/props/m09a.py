"""M09: exemplars under concurrent recording and collecting."""
import logging

from mc.explore import Harness, spawn
from mc.props._metrics import C, D, Reader, metrics, now, provider
from opentelemetry import trace
from opentelemetry.context import Context
from opentelemetry.sdk.metrics import AlwaysOnExemplarFilter
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, View
from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags

logging.disable(logging.CRITICAL)


def ctx(i):
    return trace.set_span_in_context(NonRecordingSpan(SpanContext(1000 + i, 10 + i, False, TraceFlags(1))), Context())


CTX = {i: ctx(i) for i in (1, 2, 4, 8, 16)}


class H(Harness):
    bound = 1
    thorough_bound = 2

    def __init__(self, agg, plan, colls, pre=(), temp=D):
        self.name = f"exemplars-{agg}-{'-'.join(str(len(p)) for p in plan)}-{colls}{'w' if pre else ''}"
        self.agg, self.plan, self.colls, self.pre, self.temp = agg, plan, colls, pre, temp

    def body(self):
        bad = []
        kw = {}
        if self.agg == "hist":
            kw["aggregation"] = ExplicitBucketHistogramAggregation(boundaries=[100])
        if self.agg == "exp":
            kw["aggregation"] = ExponentialBucketHistogramAggregation(max_size=4, max_scale=3)
        rd = Reader(self.temp)
        mp = provider([rd], [View(instrument_name="i", attribute_keys={"k"}, **kw)], AlwaysOnExemplarFilter())
        m = mp.get_meter("m")
        inst = m.create_counter("i") if self.agg == "sum" else m.create_gauge("i") if self.agg == "gauge" else m.create_histogram("i")
        f = inst.add if self.agg == "sum" else inst.set if self.agg == "gauge" else inst.record
        when = {}

        def rec(v):
            lo = now()
            when[v] = [lo, 1 << 80]
            f(v, {"k": 1, "f": v}, CTX[v])
            when[v][1] = now()

        for v in self.pre:
            rec(v)

        def w(p):
            for v in p:
                rec(v)

        def col():
            for _ in range(self.colls):
                rd.collect()

        ts = [spawn(lambda p=p: w(p), f"r{i}") for i, p in enumerate(self.plan)] + [spawn(col, "c")]
        for t in ts:
            t.join()
        rd.collect()
        seen = set()
        shape = []
        for md in rd.got:
            for _, x in metrics(md):
                for p in x.data.data_points:
                    tot = p.value if hasattr(p, "value") else p.sum
                    for e in p.exemplars:
                        v = e.value
                        shape.append(v)
                        if v not in when:
                            bad.append(f"exemplar: value {v} was never recorded")
                            continue
                        if dict(e.filtered_attributes) != {"f": v} or (e.trace_id, e.span_id) != (1000 + v, 10 + v):
                            bad.append(f"exemplar: value {v} with attributes {e.filtered_attributes}, trace {e.trace_id} span {e.span_id}")
                        elif not when[v][0] <= e.time_unix_nano <= when[v][1]:
                            bad.append(f"exemplar: value {v} with time outside its recording")
                        if self.agg != "gauge" and not int(tot) & v:
                            bad.append(f"exemplar: value {v} is not part of the point (sum {tot})")
                        if self.temp is D:
                            if v in seen:
                                bad.append(f"exemplar: value {v} reported twice")
                            seen.add(v)
        return tuple(bad), tuple(shape)

    def check(self, out):
        if out[0]:
            return out[0][0]


def HARNESSES(tier):
    hs = []
    for agg in ("sum", "hist", "exp", "gauge"):
        hs.append(H(agg, [[1], [2]], 0, (4,)))
        hs.append(H(agg, [[1, 2]], 2, (4,)))
        hs.append(H(agg, [[1], [2]], 1, (4,)))
    return hs


def warm():
    for c in ((1, 2, 4), (4, 1, 2), (1,), (2,), (4,), (1, 2), (4, 1), (4, 2)):
        rd = Reader(C)
        i = provider([rd], [View(instrument_name="i", aggregation=ExponentialBucketHistogramAggregation(max_size=4, max_scale=3))]).get_meter("m").create_histogram("i")
        for x in c:
            i.record(x)
        rd.collect()


warm()
