"""R01: resources merge deterministically and keep what they were given."""
from mc.props._boom import Boom
import itertools
import json
import logging
import os
import platform
import socket
import sys
from urllib.parse import unquote_to_bytes

import opentelemetry.sdk.resources as R
from mc import sched
from mc.loader import M_time
from opentelemetry.sdk.resources import Resource, ResourceDetector, get_aggregated_resources

logging.disable(logging.CRITICAL)
ENV = ("OTEL_RESOURCE_ATTRIBUTES", "OTEL_SERVICE_NAME", "OTEL_EXPERIMENTAL_RESOURCE_DETECTORS")
ATTRS = [{}, {"a": 1}, {"a": "2", "b": "x"}, {"b": ""}, {"service.name": "s"}, {"a": (1, 2), "c": True}, {"b": "y", "a": 1}]
SCHEMAS = ["", "A", "B"]
POOL = [(a, s) for a in range(len(ATTRS)) for s in SCHEMAS]
TOK = ["a", "b", "=", ",", " ", "%20", "%2C", "%", "+", "\u00e9", "%C3%A9", "service.name"]
SDK = {"telemetry.sdk.language": "python", "telemetry.sdk.name": "opentelemetry"}
DET = ["ok1", "ok2", "ok3", "raise", "raise!", "slow", "slow!", "conflict", "empty", "late"]


def CASES(tier):
    for p in itertools.product(range(len(POOL)), repeat=2):
        yield ("pair", p)
    n = len(POOL)
    for p in itertools.product(range(n), repeat=3):
        if tier != "quick" or sum(p) % 2 == 0:
            yield ("triple", p)
    for v in [1, True, 1.5, "s", "", (1, 2), [1, "a"], None, b"x", b"\xff", {"m": 1}, object, (True, None, False), ("a", "b"), [], float("nan"), 2**70]:
        yield ("value", repr(v), v if not isinstance(v, type) else "OBJ")
    k = 4 if tier == "quick" else 5
    for r in range(k + 1):
        for w in itertools.product(TOK, repeat=r):
            yield ("env", "".join(w))
    for w in itertools.product([None, "", "x=1", "service.name=e", "service.name=", "a=env,b=env,service.name=e"], [None, "", "sn"],
                               [None, {}, {"a": "code"}, {"service.name": "code"}, {"service.name": "", "a": "code"}, {"telemetry.sdk.name": "mine"}, {"process.executable.name": "exe"}],
                               [None, "", "A", "B"], ["", "d1", "d1,d2", "d2,d1", " d1 , d2 ", "d1,missing,d2", "broken,d1", "otel,d1", "d1,otel", "d3", "boom,d1", "d1,d1,d2", "d3,d2", "d4,d2"]):
        yield ("create",) + w
    for r in range(4):
        for w in itertools.product(DET, repeat=r):
            yield ("detect", w)
    for w in itertools.permutations(["d1", "d2", "d5"]):
        yield ("order", w)
    for r in range(4):
        for w in itertools.permutations(("process", "os", "host"), r):
            for argv in (["prog"], [""], ["/a b/prog", "-x", "y z"], ["p", "", "é"]):
                for sysname in ("Linux", "Darwin", "Windows", "SunOS", "FreeBSD", ""):
                    for env in (None, "process.pid=7,os.type=mine,a=b", "service.name=svc"):
                        yield ("builtin", w, argv, sysname, env)
    for exe in (None, ""):
        yield ("builtin", ("os", "process", "host"), ["p"], "Linux", None, exe)


def mk(i):
    a, s = POOL[i]
    return Resource(dict(ATTRS[a]), s)


def view(r):
    return dict(r.attributes), r.schema_url


def x_merge(x, y):
    """Reference: union, the second wins; on conflicting schemas the result is the first resource."""
    (a, s), (b, t) = x, y
    if s and t and s != t:
        return a, s
    return {**a, **b}, s or t


def X(i):
    return dict(ATTRS[POOL[i][0]]), POOL[i][1]


def c_pair(ctx, p):
    x, y = mk(p[0]), mk(p[1])
    before = view(x), view(y)
    m = x.merge(y)
    ctx.check(view(m) == x_merge(X(p[0]), X(p[1])), "merge", lambda: f"{before[0]} merged with {before[1]} gives {view(m)}")
    ctx.check((view(x), view(y)) == before, "operand", lambda: f"merging {before} changed an operand: {view(x), view(y)}")
    ctx.check(view(mk(p[0]).merge(mk(p[1]))) == view(m), "repeat", lambda: f"merging {before} twice differs")
    for e in (Resource.get_empty(), Resource({})):
        ctx.check(view(x.merge(e)) == before[0] and view(e.merge(x)) == before[0], "neutral", lambda: f"the empty resource changes {before[0]}")
    same = X(p[0]) == X(p[1])
    ctx.check((x == y) == same, "equal", lambda: f"{before}: compared equal {x == y}")
    if same:
        ctx.check(hash(x) == hash(y), "hash", lambda: f"{before}: equal resources hash differently")
    try:
        m.attributes["new"] = 1
        ctx.check(False, "immutable", "the attributes of a resource can be changed")
    except TypeError:
        pass
    src = dict(ATTRS[POOL[p[0]][0]])
    z = Resource(src)
    src["later"] = 1
    ctx.check("later" not in z.attributes, "alias", "changing the attributes given to a resource changes the resource")
    j = json.loads(m.to_json())
    ctx.check(j == {"attributes": json.loads(json.dumps(dict(m.attributes))), "schema_url": m.schema_url}, "json", lambda: f"to_json of {view(m)}: {j}")
    ctx.step()


def c_triple(ctx, p):
    schemas = {POOL[i][1] for i in p} - {""}
    a, b, c = map(mk, p)
    left = a.merge(b).merge(c)
    ctx.check(view(left) == x_merge(x_merge(X(p[0]), X(p[1])), X(p[2])), "fold", lambda: f"{[X(i) for i in p]}: {view(left)}")
    if len(schemas) <= 1:
        right = a.merge(b.merge(c))
        ctx.check(left == right, "associative", lambda: f"{[X(i) for i in p]}: {view(left)} and {view(right)}")
    ctx.step()


def c_value(ctx, name, v):
    """Unsupported attribute values are left out alone."""
    import collections.abc
    if v == "OBJ":
        v = object()
    v = list(v) if isinstance(v, list) else v
    r = Resource({"x": v, "keep": 1, "": 5})
    good = isinstance(v, (bool, int, float, str)) or isinstance(v, bytes) and v != b"\xff" or isinstance(v, (list, tuple)) and len({type(e) for e in v if e is not None}) <= 1
    want = {"keep"} | ({"x"} if good else set())
    ctx.check(set(r.attributes) == want and r.attributes["keep"] == 1, "value", lambda: f"value {name}: attributes {dict(r.attributes)}")
    if good and isinstance(v, (list, tuple)):
        ctx.check(r.attributes["x"] == tuple(v), "sequence", lambda: f"value {name}: kept as {r.attributes['x']!r}")
    elif good and not isinstance(v, bytes) and v == v:
        ctx.check(r.attributes["x"] == v and type(r.attributes["x"]) is type(v), "kept", lambda: f"value {name}: kept as {r.attributes['x']!r}")
    if good and isinstance(v, list):
        v.append(99)
        ctx.check(99 not in r.attributes["x"], "alias", "changing a list given to a resource changes the resource")
    ctx.step()


class Env:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        for k in ENV:
            os.environ.pop(k, None)
        for k, v in self.kw.items():
            if v is not None:
                os.environ[k] = v

    def __exit__(self, *a):
        for k in ENV:
            os.environ.pop(k, None)


def x_env(s):
    """Pairs key=value separated by commas, blanks trimmed, values percent-decoded, entries without '=' left out."""
    out = {}
    for item in (s or "").split(","):
        k, eq, v = item.partition("=")
        if eq and k.strip():
            out[k.strip()] = unquote_to_bytes(v.strip()).decode("utf-8", "replace")
    return out


def c_env(ctx, s):
    with Env(OTEL_RESOURCE_ATTRIBUTES=s):
        got = dict(R.OTELResourceDetector().detect().attributes)
    ctx.check(got == x_env(s), "env", lambda: f"OTEL_RESOURCE_ATTRIBUTES={s!r}: {got} instead of {x_env(s)}")
    ctx.step()


class D(ResourceDetector):
    def __init__(self, attrs=None, schema="", err=None, delay=0, raise_on_error=False):
        super().__init__(raise_on_error)
        self.a, self.s, self.err, self.delay = attrs, schema, err, delay

    def detect(self):
        if self.delay:
            M_time.sleep(self.delay)
        if self.err:
            raise self.err
        return Resource(self.a, self.s)


class EP:
    def __init__(self, f):
        self.f = f

    def load(self):
        if self.f is None:
            raise ImportError("broken")
        return self.f


PLUGINS = {"d1": lambda: D({"a": "d1", "p": "d1"}), "d2": lambda: D({"a": "d2", "q": "d2"}), "d3": lambda: D({"a": "d3"}, "A"), "d4": lambda: D({"z": "d4"}, "B"),
           "d5": lambda: D({"a": "d5", "p": "d5"}), "broken": None, "boom": lambda: D(err=Boom("detect")), "otel": R.OTELResourceDetector}
PX = {"d1": ({"a": "d1", "p": "d1"}, ""), "d2": ({"a": "d2", "q": "d2"}, ""), "d3": ({"a": "d3"}, "A"), "d4": ({"z": "d4"}, "B"), "d5": ({"a": "d5", "p": "d5"}, "")}


def fake_entry_points(group=None, name=None):
    assert group == "opentelemetry_resource_detector", group
    return [EP(PLUGINS[name])] if name in PLUGINS else []


def listed(dets):
    return list(dict.fromkeys(["otel"] + [d.strip() for d in dets.split(",") if d.strip()]))


def c_create(ctx, attrs, sn, code, schema, dets):
    saved, R.entry_points = R.entry_points, fake_entry_points
    try:
        with Env(OTEL_RESOURCE_ATTRIBUTES=attrs, OTEL_SERVICE_NAME=sn, OTEL_EXPERIMENTAL_RESOURCE_DETECTORS=dets or None):
            src = dict(code) if code is not None else None
            r = Resource.create(src, schema)
            again = Resource.create(src, schema)
    finally:
        R.entry_points = saved
    what = f"attributes {attrs!r}, service name {sn!r}, explicit {code} schema {schema!r}, detectors {dets!r}"
    x = dict(SDK), ""
    env = x_env(attrs)
    if sn:
        env["service.name"] = sn
    for d in listed(dets):
        if d == "otel":
            x = x_merge(x, (env, ""))
        elif d in PX:
            x = x_merge(x, PX[d])
    x = x_merge(x, (code or {}, schema or ""))
    got = dict(r.attributes)
    ver = got.pop("telemetry.sdk.version", None)
    ctx.check(ver == R._OPENTELEMETRY_SDK_VERSION, "version", lambda: f"{what}: version {ver}")
    ctx.check(bool(got.get("service.name")), "service-name", lambda: f"{what}: no service name in {got}")
    want = dict(x[0])
    if not want.get("service.name"):
        want["service.name"] = "unknown_service" + (":" + want["process.executable.name"] if want.get("process.executable.name") else "")
    ctx.check(got == want, "attributes", lambda: f"{what}: {got} instead of {want}")
    ctx.check(r.schema_url == x[1], "schema", lambda: f"{what}: schema {r.schema_url!r} instead of {x[1]!r}")
    ctx.check(r == again, "repeat", lambda: f"{what}: created twice with different results")
    ctx.check(src == code, "argument", lambda: f"{what}: the attributes given were changed")
    ctx.step()


def c_builtin(ctx, w, argv, sysname, env, exe="/usr/bin/mypython"):
    """The detectors for process, operating system and host describe this process, in their place among the others."""
    un = platform.uname()
    fake = type(un)(sysname, "myhost", "rel-1", "ver-2", "arch64")
    saved = platform.uname, sys.argv, sys.executable, socket.gethostname
    platform.uname, sys.argv, sys.executable, socket.gethostname = (lambda: fake), list(argv), exe, (lambda: "myhost")
    try:
        with Env(OTEL_EXPERIMENTAL_RESOURCE_DETECTORS=",".join(w) or None, OTEL_RESOURCE_ATTRIBUTES=env):
            r = Resource.create({"mine": 1})
        used = list(sys.argv)
    finally:
        platform.uname, sys.argv, sys.executable, socket.gethostname = saved
    want = dict(SDK)
    want.update(x_env(env))
    for d in w:
        if d == "os":
            alt = sysname in ("Windows", "SunOS")
            want.update({"os.type": {"SunOS": "solaris"}.get(sysname, sysname.lower()), "os.version": "ver-2" if alt else "rel-1"})
        elif d == "host":
            want.update({"host.name": "myhost", "host.arch": "arch64"})
        elif exe is not None:
            v = sys.version_info
            want.update({"process.runtime.description": sys.version, "process.runtime.name": sys.implementation.name,
                         "process.runtime.version": ".".join(map(str, v[:3] if v.releaselevel == "final" and not v.serial else v)),
                         "process.pid": os.getpid(), "process.parent_pid": os.getppid(), "process.executable.name": exe,
                         "process.executable.path": os.path.dirname(exe), "process.command": argv[0], "process.command_line": " ".join(argv), "process.command_args": tuple(argv)})
    want["mine"] = 1
    if not want.get("service.name"):
        want["service.name"] = "unknown_service" + (":" + want["process.executable.name"] if want.get("process.executable.name") else "")
    got = dict(r.attributes)
    for k in ("process.owner", "telemetry.sdk.version"):
        got.pop(k, None)
    if exe is None:  # what remains known of a process without executable is up to the detector
        got, want = ({k: v for k, v in x.items() if not k.startswith("process.")} for x in (got, want))
    got = {k: v for k, v in got.items() if v != "" or k in want}
    ctx.check(got == want, "builtin", lambda: f"detectors {w}, argv {argv}, system {sysname!r}, environment {env!r}, executable {exe!r}: {got} instead of {want}")
    ctx.check(used == argv, "builtin", lambda: f"sys.argv became {used}")
    ctx.state(tuple(sorted(map(str, got.items()))))
    ctx.step()


def c_order(ctx, w):
    """Whatever the order in which the names happen to hash, detectors merge as listed."""
    saved, R.entry_points = R.entry_points, fake_entry_points
    try:
        with Env(OTEL_EXPERIMENTAL_RESOURCE_DETECTORS=",".join(w), OTEL_RESOURCE_ATTRIBUTES="a=env"):
            r = Resource.create()
    finally:
        R.entry_points = saved
    want = {"a": "env"}
    for d in w:
        want.update(PX[d][0])
    got = {k: v for k, v in r.attributes.items() if k in want}
    ctx.check(got == want, "order", lambda: f"detectors {w}: {got} instead of {want}")
    ctx.step()


def build(d):
    a = {"ok1": ({"a": 1, "x": 1}, ""), "ok2": ({"a": 2, "y": 2}, ""), "ok3": ({"a": 3}, "A"), "conflict": ({"a": 4, "c": 4}, "B"), "empty": ({}, ""), "late": ({"late": 1}, "")}
    if d in a:
        return D(*a[d], delay=3 if d == "late" else 0), a[d], None
    if d.startswith("raise"):
        return D(err=ValueError(d), raise_on_error=d.endswith("!")), None, ValueError if d.endswith("!") else None
    return D({"slow": 1}, delay=1000, raise_on_error=d.endswith("!")), None, TimeoutError if d.endswith("!") else None


def c_detect(ctx, w):
    for initial in (None, ({"a": 0, "i": 0}, ""), ({"a": 0}, "A")):
        ds = [build(d) for d in w]
        want, err = (initial if initial else None), None
        if want is None:
            with Env():
                init = Resource.create()
            want = view(init)
        for _, a, e in ds:
            if e:
                err = e
                break
            if a:
                want = x_merge(want, a)
        with Env():
            try:
                r, got = get_aggregated_resources([d for d, _, _ in ds], Resource(*initial) if initial else None, timeout=5), None
            except Exception as e:
                r, got = None, e
        if err:
            ctx.check(isinstance(got, err), "told", lambda: f"detectors {w}: {got!r} instead of {err.__name__}")
        else:
            ctx.check(got is None, "raised", lambda: f"detectors {w}: raised {got!r}")
            if r is not None:
                ctx.check(view(r) == want, "detected", lambda: f"detectors {w} from {initial}: {view(r)} instead of {want}")
        ctx.step()


CASE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run_case(case, ctx):
    sched.CLOCK.now = sched.T0
    CASE[case[0]](ctx, *case[1:])
