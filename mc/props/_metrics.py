"""Helpers shared by the metric checks."""
import logging

from mc import sched
from opentelemetry.sdk.metrics import Counter, Histogram, MeterProvider, ObservableCounter, ObservableGauge, ObservableUpDownCounter, UpDownCounter
from opentelemetry.sdk.metrics._internal.instrument import Gauge
from opentelemetry.sdk.metrics.export import AggregationTemporality, MetricReader
from opentelemetry.sdk.metrics import AlwaysOffExemplarFilter
from opentelemetry.sdk.resources import Resource

logging.disable(logging.CRITICAL)
RES = Resource({"res": "r"})
OFF = AlwaysOffExemplarFilter()
D, C = AggregationTemporality.DELTA, AggregationTemporality.CUMULATIVE
KINDS = {"counter": Counter, "updown": UpDownCounter, "histogram": Histogram, "gauge": Gauge, "ocounter": ObservableCounter,
         "oupdown": ObservableUpDownCounter, "ogauge": ObservableGauge}


def now():
    return sched.CLOCK.now


def temp(t):
    return {k: t for k in KINDS.values()}


class Reader(MetricReader):
    def __init__(self, temporality=C, aggregation=None):
        super().__init__(temporality if isinstance(temporality, dict) else temp(temporality), aggregation)
        self.got = []

    def _receive_metrics(self, metrics_data, timeout_millis=10000, **kwargs):
        self.got.append(metrics_data)

    def shutdown(self, timeout_millis=30000, **kwargs):
        pass

    def scrape(self, **kw):
        """One collection; returns the MetricsData or None."""
        self.got.clear()
        self.collect(**kw)
        return self.got[-1] if self.got else None


def provider(readers, views=(), exemplar_filter=OFF, **kw):
    return MeterProvider(readers, RES, exemplar_filter, shutdown_on_exit=False, views=views, **kw)


def akey(attrs):
    return tuple(sorted((attrs or {}).items()))


def metrics(md):
    """[(scope name, metric)] in order."""
    if md is None:
        return []
    return [(s.scope.name, m) for r in md.resource_metrics for s in r.scope_metrics for m in s.metrics]


def by_name(md):
    """{(scope, name): [metrics]}"""
    out = {}
    for s, m in metrics(md):
        out.setdefault((s, m.name), []).append(m)
    return out
