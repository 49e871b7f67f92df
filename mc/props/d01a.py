"""D01: in-memory exporters and readers used by several threads."""
import logging

from mc import sched
from mc.explore import Harness, spawn
from mc.props._metrics import C, D, OFF, RES, temp
from opentelemetry.sdk._logs.export import InMemoryLogExporter, LogExportResult
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.trace.export import SpanExportResult
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter

logging.disable(logging.CRITICAL)


class Store(Harness):
    """Exporting, reading, clearing and shutting down threads."""

    def __init__(self, sig, plan, bound=2):
        self.sig, self.plan, self.bound = sig, plan, bound
        self.name = f"{sig}-" + "-".join("+".join(p) for p in plan)

    def body(self):
        mem = InMemorySpanExporter() if self.sig == "span" else InMemoryLogExporter()
        ok = SpanExportResult.SUCCESS if self.sig == "span" else LogExportResult.SUCCESS
        get = mem.get_finished_spans if self.sig == "span" else mem.get_finished_logs
        bad, taken, seen = [], [], []

        def w(i, ops):
            for k, o in enumerate(ops):
                if o == "export":
                    b = [(i, k, 0), (i, k, 1)]
                    if mem.export(b) is ok:
                        taken.append(b)
                        if not any("clear" in p for p in self.plan) and any(x not in get() for x in b):
                            bad.append(f"missing: {b} exported but not held")
                elif o == "get":
                    seen.append(get())
                elif o == "clear":
                    mem.clear()
                else:
                    mem.shutdown()
                    if mem.export([(i, k, 9)]) is ok:
                        bad.append("shutdown: export after shutdown accepted")

        ts = [spawn(lambda i=i, p=p: w(i, p), f"t{i}") for i, p in enumerate(self.plan)]
        for t in ts:
            t.join()
        final = get()
        for s in seen + [final]:
            if len(set(s)) != len(s):
                bad.append(f"duplicate: {s}")
            for b in taken:
                got = [x for x in s if x in b]
                if got not in ([], b):
                    bad.append(f"torn: {s} holds a part of {b}")
            for i in range(len(self.plan)):
                mine = [x for x in s if x[0] == i]
                if mine != sorted(mine):
                    bad.append(f"order: {s}")
        if not any("clear" in p for p in self.plan):
            for b in taken:
                if any(x not in final for x in b):
                    bad.append(f"lost: {b} is not in {final}")
            for a, b in zip(seen, seen[1:]):
                if len(self.plan) == 2 and len(b) < len(a):
                    bad.append("shrunk: items disappeared without a clear")
        if any(x[2] == 9 for x in final):
            bad.append("shutdown: held an item exported after shutdown")
        return tuple(bad), len(final)

    def check(self, out):
        if out[0]:
            return out[0][0]


class Reader(Harness):
    """Every delta is returned by exactly one of the concurrent reads."""

    def __init__(self, plan, temporality, bound=1):
        self.plan, self.t, self.bound = plan, temporality, bound
        self.name = ("delta-" if temporality is D else "cumulative-") + "-".join("+".join(map(str, p)) for p in plan)

    def body(self):
        r = InMemoryMetricReader(preferred_temporality=temp(self.t))
        mp = MeterProvider([r], RES, OFF, shutdown_on_exit=False)
        c = mp.get_meter("m").create_counter("c")
        c.add(1)
        got, bad, done = [], [], [1]

        def value(md):
            if md is None:
                return 0
            return sum(p.value for rm in md.resource_metrics for s in rm.scope_metrics for m in s.metrics for p in m.data.data_points)

        def w(ops):
            for o in ops:
                if o == "get":
                    n = sum(done)
                    v = value(r.get_metrics_data())
                    got.append(v)
                    if self.t is C and v < n:
                        bad.append(f"stale: a read returned {v} after {n} had been recorded")
                else:
                    c.add(o)
                    done.append(o)

        ts = [spawn(lambda p=p: w(p), f"t{i}") for i, p in enumerate(self.plan)]
        for t in ts:
            t.join()
        got.append(value(r.get_metrics_data()))
        total = sum(done)
        if self.t is D and sum(got) != total:
            bad.append(f"delta: reads returned {got}, recorded {total}")
        if self.t is C and got[-1] != total:
            bad.append(f"final: {got[-1]}, recorded {total}")
        return tuple(bad), tuple(sorted(got))

    def check(self, out):
        if out[0]:
            return out[0][0]


def HARNESSES(tier):
    hs = []
    for sig in ("span", "log"):
        hs += [Store(sig, [("export", "export"), ("get", "get")]), Store(sig, [("export",), ("export",), ("get",)]), Store(sig, [("export",), ("clear",), ("get",)]),
               Store(sig, [("export", "export"), ("shutdown",)]), Store(sig, [("export", "get"), ("export", "clear")])]
    hs += [Reader([("get",), ("get",)], t) for t in (D, C)]
    hs += [Reader([("get",), (2,)], t) for t in (D, C)] + [Reader([("get",), (2, "get")], t) for t in (D, C)]
    if tier != "quick":
        hs += [Reader([("get",), (2,), ("get",)], D), Store("span", [("export",), ("export",), ("export",)]), Store("span", [("export",), ("get", "clear"), ("export", "get")])]
    return hs
