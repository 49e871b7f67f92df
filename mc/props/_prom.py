"""Helpers for the Prometheus checks: a parser of the text exposition and a reader kept out of the process-wide registry."""
import logging
import re

import opentelemetry.exporter.prometheus as P
from prometheus_client import CollectorRegistry, generate_latest

logging.disable(logging.CRITICAL)
NAME = r"[a-zA-Z_:][a-zA-Z0-9_:]*"
SAMPLE = re.compile(rf"^({NAME})(?:\{{(.*)\}})? (\S+)$")
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\\n]|\\["\\n])*)"(,|$)')


class Router:
    """Stands for the process-wide registry: each collector goes to a registry of its own."""

    def __init__(self):
        self.of = {}

    def register(self, collector):
        self.of[id(collector)] = r = CollectorRegistry(auto_describe=False)
        r.register(collector)

    def unregister(self, collector):
        self.of.pop(id(collector)).unregister(collector)


ROUTER = P.REGISTRY = Router()


class Registered:
    """A PrometheusMetricReader registered in a registry of its own."""

    def __init__(self, disable_target_info=False):
        before = set(ROUTER.of)
        self.reader = P.PrometheusMetricReader(disable_target_info)
        (new,) = set(ROUTER.of) - before
        self.registry = ROUTER.of[new]

    def text(self):
        return generate_latest(self.registry).decode("utf-8")


def unescape(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n"}.get(m[1], m[1]), s)


def parse(text):
    """Returns (samples, problems): samples maps (name, labels) to (value, type, help)."""
    out, bad, kinds, helps = {}, [], {}, {}
    if text and not text.endswith("\n"):
        bad.append("no newline at the end")
    for line in text.split("\n")[:-1]:
        if line.startswith("# HELP "):
            n, _, d = line[7:].partition(" ")
            helps[n] = unescape(d)
            continue
        if line.startswith("# TYPE "):
            n, t = line[7:].split(" ")
            if kinds.get(n, t) != t:
                bad.append(f"{n} has types {kinds[n]} and {t}")
            kinds[n] = t
            continue
        m = SAMPLE.match(line)
        if not m:
            bad.append(f"invalid line {line!r}")
            continue
        labels, rest = [], m[2] or ""
        while rest:
            k = LABEL.match(rest)
            if not k:
                bad.append(f"invalid labels in {line!r}")
                break
            labels.append((k[1], unescape(k[2])))
            rest = rest[k.end():]
        if len(dict(labels)) != len(labels):
            bad.append(f"repeated label in {line!r}")
        name = m[1]
        labels = [(a, str(float(b)) if a == "le" else b) for a, b in labels]
        fam = next((f for f in (name, *(name[:-len(s)] for s in ("_bucket", "_count", "_sum") if name.endswith(s))) if f in kinds), None)
        if fam is None:
            bad.append(f"sample without a type {line!r}")
        if fam != name and kinds.get(fam) != "histogram":
            bad.append(f"sample outside its family {line!r}")
        key = (name, tuple(sorted(labels)))
        if key in out:
            bad.append(f"{key} exposed more than once")
        out[key] = (float(m[3]), kinds.get(fam), helps.get(fam))
    return out, bad


def name_of(s):
    """The documented rule: a leading digit and each run of other characters become one underscore; colons stay."""
    if s[:1].isdigit():
        s = "_" + s[1:]
    out = ""
    for c in s:
        if c.isascii() and (c.isalnum() or c == ":"):
            out += c
        elif not out.endswith("_"):
            out += "_"
    return out


def label_of(s):
    if s[:1].isdigit():
        s = "_" + s[1:]
    out = ""
    for c in s:
        if c.isascii() and c.isalnum():
            out += c
        elif not out.endswith("_"):
            out += "_"
    return out


def full_name(name, unit, counter):
    """The family name and, for counters, its sample's; unit is the expected Prometheus unit."""
    n = name_of(name)
    if counter and n.endswith("_total"):
        n = n[:-6]
    if unit and not n.endswith("_" + unit):
        n += "_" + unit
    return n + "_total" if counter else n


def labels_of(attrs):
    import json
    out = {}
    for k, v in sorted((attrs or {}).items()):
        v = v if isinstance(v, str) else json.dumps(v, default=str)
        k = label_of(k)
        out[k] = out[k] + ";" + v if k in out else v
    return out


def put(exp, kind, name, unit, desc, attrs, value, bounds=None):
    """Adds the samples of one point to the expectation; a histogram's value is its list of measurements."""
    labels = labels_of(attrs)
    key = lambda n, **kw: (n, tuple(sorted({**labels, **kw}.items())))
    if kind in ("counter", "gauge"):
        exp[key(full_name(name, unit, kind == "counter"))] = (float(value), kind, desc)
        return
    n = full_name(name, unit, False)
    for b in list(bounds) + ["+Inf"]:
        exp[key(n + "_bucket", le=str(float(b)))] = (float(sum(b == "+Inf" or v <= b for v in value)), kind, desc)
    exp[key(n + "_count")] = (float(len(value)), kind, desc)
    exp[key(n + "_sum")] = (float(sum(value)), kind, desc)


def target(exp, attrs):
    exp[("target_info", tuple(sorted(labels_of(attrs).items())))] = (1.0, "gauge", "Target metadata")


def diff(got, exp):
    if got == exp:
        return None
    return "; ".join([f"missing {k}={exp[k]}" for k in exp if k not in got] + [f"extra {k}={got[k]}" for k in got if k not in exp] +
                     [f"{k} is {got[k]} instead of {exp[k]}" for k in exp if k in got and got[k] != exp[k]])[:600]
