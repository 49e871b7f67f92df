"""T06: status precedence, exception handling, current-span scoping."""
import asyncio
import contextvars
import itertools
import logging

from opentelemetry import trace
from opentelemetry.context import Context, get_current
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ALWAYS_ON
from opentelemetry.trace import NonRecordingSpan, SpanContext, Status, StatusCode, TraceFlags, use_span

logging.disable(logging.CRITICAL)
RES = Resource({})
C = StatusCode


class Last(SpanProcessor):
    def __init__(self):
        self.spans = []

    def on_end(self, span):
        self.spans.append(span)


def mk(sampler=ALWAYS_ON):
    last = Last()
    tp = TracerProvider(resource=RES, sampler=sampler, shutdown_on_exit=False)
    tp.add_span_processor(last)
    return tp.get_tracer("t"), last


TR, LAST = mk()
STAT = [Status(C.UNSET), Status(C.OK), Status(C.ERROR), Status(C.ERROR, "d1"), Status(C.OK, "d2"), Status(C.UNSET, "d3"),
        (C.UNSET, None), (C.OK, None), (C.ERROR, None), (C.ERROR, "d4"), (C.OK, "d5"), (C.UNSET, "d6"), (Status(C.ERROR, "d7"), "ignored"), "exc", "end"]


class Boom(Exception):
    pass


class Base(BaseException):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    class Inner(Exception):
        pass


EXCS = [None, lambda: ValueError("bad"), lambda: Boom("x", 1), lambda: Boom(), lambda: KeyError("k"), lambda: Falsy("f"), lambda: Falsy.Inner("i")]
FORMS = ["use_span", "start_as_current_span", "with-span", "decorator", "async-decorator", "async-with", "method-decorator"]


def CASES(tier):
    n = 4 if tier == "quick" else 5
    for w in itertools.product(range(len(STAT)), repeat=n):
        yield ("status", w)
    for form in FORMS:
        for exc in range(len(EXCS)):
            for rec, sst, end in itertools.product((True, False), repeat=3):
                for depth in (1, 2, 3):
                    for catch in range(depth + 1):
                        for dropped in (0, 1):
                            for inner_end in (0, 1):
                                yield ("scope", form, exc, rec, sst, end, depth, catch, dropped, inner_end)
    for e in range(1, len(EXCS)):
        for esc in (True, False):
            for at in (None, {"k": "v"}, {"exception.message": "mine"}):
                for ts in (None, 12345):
                    yield ("record", e, esc, at, ts)
    for form in ("use_span", "start_as_current_span", "with-span"):
        yield ("base", form)
    yield ("gen",)
    # one decorated function called several times: in sequence, recursively, concurrently
    for sync in (True, False):
        for n in (1, 2, 3):
            for how in ("seq", "rec") if sync else ("seq", "rec", "tasks"):
                for bad in itertools.product((False, True), repeat=n):
                    for end in (True, False):
                        yield ("reuse", sync, how, bad, end)


def fold(cur, s):
    if s in ("exc", "end"):
        return cur
    if isinstance(s, tuple):
        if isinstance(s[0], Status):
            new = (s[0].status_code, s[0].description)
        else:
            new = (s[0], s[1] if s[0] is C.ERROR else None)
    else:
        new = (s.status_code, s.description)
    if cur[0] is C.OK or new[0] is C.UNSET:
        return cur
    return new


def exc_name(e):
    t = type(e)
    return t.__qualname__ if t.__module__ == "builtins" else f"{t.__module__}.{t.__qualname__}"


def run_case(case, ctx):
    contextvars.Context().run(_run, case, ctx)


def _run(case, ctx):
    ctx.step()
    LAST.spans.clear()
    kind = case[0]
    if kind == "status":
        span = TR.start_span("s", Context())
        cur, ended = (C.UNSET, None), False
        for i in case[1]:
            s = STAT[i]
            ctx.step()
            if s == "exc":
                span.record_exception(ValueError("v"))
            elif s == "end":
                span.end()
                ended = True
            elif isinstance(s, tuple):
                span.set_status(*s)
            else:
                span.set_status(s)
            if not ended:
                cur = fold(cur, s)
            have = (span.status.status_code, span.status.description)
            ctx.check((span.status.is_ok, span.status.is_unset) == (cur[0] is not C.ERROR, cur[0] is C.UNSET), "status",
                      lambda: f"status {have}: is_ok {span.status.is_ok}, is_unset {span.status.is_unset}")
            ctx.check(have == cur, "status", lambda: f"{[str(STAT[j]) if not isinstance(STAT[j], Status) else (STAT[j].status_code, STAT[j].description) for j in case[1]]}: status {have}, expected {cur}")
            ctx.check(have[1] is None or have[0] is C.ERROR, "description", f"description on {have}")
        span.end()
        sp = LAST.spans[0]
        ctx.check((sp.status.status_code, sp.status.description) == cur and len(LAST.spans) == 1, "exported-status", "exported status differs")
        ctx.state(cur, ended)
    elif kind == "scope":
        _, form, ei, rec, sst, end, depth, catch, dropped, inner_end = case
        tr, last = mk(ALWAYS_OFF) if dropped else (TR, LAST)
        exc = EXCS[ei]() if ei else None
        spans, seen = [], []
        kw = dict(record_exception=rec, set_status_on_exception=sst)
        amb = NonRecordingSpan(SpanContext(9, 9, False, TraceFlags(1)))
        tok = trace.context_api.attach(trace.set_span_in_context(amb))
        before = get_current()

        def level(d):
            """enter depth d..depth, then maybe raise; exceptions are swallowed after leaving level `catch`"""
            if d > depth:
                if inner_end and spans:
                    spans[-1].end()
                if exc is not None:
                    raise exc
                return "done"
            outer = trace.get_current_span()
            try:
                r = enter(d)
            except Exception as e:  # noqa
                seen.append((d, e))
                ctx.check(trace.get_current_span() is outer, "restore", lambda: f"{case}: current span not restored after exception")
                if catch == d:
                    return "caught"
                raise
            ctx.check(trace.get_current_span() is outer, "restore", lambda: f"{case}: current span not restored")
            return r

        def note(span, d):
            spans.append(span)
            ctx.check(trace.get_current_span() is span if form != "with-span" else True, "current", lambda: f"{case}: span of level {d} is not current")

        def enter(d):
            name = f"s{d}"
            if form == "use_span":
                sp = tr.start_span(name, record_exception=rec, set_status_on_exception=sst)
                with use_span(sp, end_on_exit=end, **kw) as got:
                    ctx.check(got is sp, "current", "use_span yields another span")
                    note(sp, d)
                    return level(d + 1)
            if form == "start_as_current_span":
                with tr.start_as_current_span(name, end_on_exit=end, **kw) as sp:
                    note(sp, d)
                    return level(d + 1)
            if form == "with-span":
                with tr.start_span(name, **kw) as sp:
                    note(sp, d)
                    return level(d + 1)
            if form == "decorator":
                @tr.start_as_current_span(name, end_on_exit=end, **kw)
                def f(x, y=2):
                    note(trace.get_current_span(), d)
                    ctx.check((x, y) == (1, 3), "decorator-args", "arguments changed")
                    return level(d + 1)
                ctx.check(f.__name__ == "f", "decorator-name", "function name lost")
                if d == 1 and exc is None and not inner_end:  # reuse of the decorated function: a fresh span each time
                    n0 = len(spans)
                    ctx.check(trace.get_current_span() is amb, "current", "ambient")
                    f(1, y=3)
                    del spans[n0:]
                    last.spans.clear()
                return f(1, y=3)
            if form == "method-decorator":
                class K:
                    @tr.start_as_current_span(name, end_on_exit=end, **kw)
                    def m(self, v):
                        note(trace.get_current_span(), d)
                        ctx.check(isinstance(self, K) and v == 5, "decorator-args", "self")
                        return level(d + 1)
                return K().m(5)
            if form == "async-decorator":
                @tr.start_as_current_span(name, end_on_exit=end, **kw)
                async def f(x):
                    await asyncio.sleep(0)
                    note(trace.get_current_span(), d)
                    return level_sync(d + 1)

                level_sync = level
                ctx.check(asyncio.iscoroutinefunction(f), "async-decorator", "decorated coroutine function is not one any more")
                loop = asyncio.new_event_loop() if d == 1 else None
                if loop is None:
                    co = f(1)
                    try:
                        while True:
                            co.send(None)
                    except StopIteration as e:
                        return e.value
                try:
                    return loop.run_until_complete(f(1))
                finally:
                    loop.close()

            async def g():
                with tr.start_as_current_span(name, end_on_exit=end, **kw) as sp:
                    await asyncio.sleep(0)
                    note(sp, d)
                    return level(d + 1)
            co = g()
            try:
                while True:
                    co.send(None)
            except StopIteration as e:
                return e.value

        raised = None
        try:
            level(1)
        except Exception as e:  # noqa
            raised = e
        ctx.check(get_current() is before or dict(get_current()) == dict(before), "restore", lambda: f"{case}: context not restored")
        trace.context_api.detach(tok)
        esc = exc is not None and catch == 0
        ctx.check((raised is exc) if esc else raised is None, "reraise", lambda: f"{case}: propagated {raised!r}")
        ctx.check([d for d, _ in seen] == (list(range(depth, max(catch, 1) - 1, -1)) if exc is not None else []) and all(e is exc for _, e in seen),
                  "reraise", lambda: f"{case}: exception seen at {seen}")
        ctx.check(len(spans) == depth, "spans", f"{len(spans)} spans")
        auto_end = end or form == "with-span"
        if dropped:
            ctx.check(not last.spans, "dropped", "a dropped span was exported")
            for s in spans:
                s.end()
            return
        done = {s.name for s in last.spans}
        for d, s in enumerate(spans, 1):
            left_by_exc = exc is not None and d >= max(catch, 1)
            early = inner_end and d == depth
            ctx.check((s.name in done) == bool(auto_end or early) and s.is_recording() == (not (auto_end or early)), "end-on-exit",
                      lambda: f"{case}: level {d} ended={s.name in done}")
            evs = [e for e in s.events if e.name == "exception"]
            want_ev = left_by_exc and rec and not early
            ctx.check(len(evs) == (1 if want_ev else 0), "exception-event", lambda: f"{case}: level {d} has {len(evs)} exception events, expected {int(want_ev)}")
            for e in evs:
                at = e.attributes
                ctx.check(at["exception.type"] == exc_name(exc) and at["exception.message"] == str(exc) and type(exc).__name__ in at["exception.stacktrace"]
                          and "Traceback" in at["exception.stacktrace"], "exception-event", lambda: f"{dict(at)}")
            want_st = (C.ERROR, f"{type(exc).__name__}: {exc}") if left_by_exc and sst and not early else (C.UNSET, None)
            ctx.check((s.status.status_code, s.status.description) == want_st, "exception-status", lambda: f"{case}: level {d} status {s.status.status_code, s.status.description}, expected {want_st}")
            if s.is_recording():
                s.end()
        for d, s in enumerate(spans, 1):
            par = s.parent.span_id if s.parent else None
            want = (spans[d - 2].get_span_context().span_id if d > 1 and form != "with-span" else 9)
            ctx.check(par == want, "parent", lambda: f"{case}: level {d} parent {par}, expected {want}")
        ctx.check(len(last.spans) == depth, "ended-once", lambda: f"{case}: {len(last.spans)} ends for {depth} spans")
        ctx.state(case)
    elif kind == "record":
        _, e, esc, at, ts = case
        span = TR.start_span("s", Context())
        try:
            raise EXCS[e]()
        except Exception as ex:  # noqa
            exc = ex
        src = dict(at) if at else at
        span.record_exception(exc, src, ts, esc)
        ctx.check(src == at, "input", "attributes given were changed")
        span.end()
        ev = LAST.spans[0].events[0]
        want = {"exception.type": exc_name(exc), "exception.message": str(exc), "exception.escaped": str(esc)}
        want.update(at or {})
        got = {k: ev.attributes.get(k) for k in want}
        ctx.check(ev.name == "exception" and got == want and (ts is None or ev.timestamp == ts), "record-exception", lambda: f"{dict(ev.attributes)}")
        ctx.check("in _run" in ev.attributes["exception.stacktrace"] and len(LAST.spans[0].events) == 1, "record-exception", "stack trace")
        ctx.check(LAST.spans[0].status.status_code is C.UNSET, "record-exception", "recording an exception changed the status")
        ctx.state(case[1:3], repr(at), ts)
    elif kind == "reuse":
        run_reuse(case, ctx)
    elif kind == "base":
        amb = trace.get_current_span()
        sp = TR.start_span("s", Context())
        try:
            if case[1] == "use_span":
                with use_span(sp, end_on_exit=True):
                    raise Base()
            elif case[1] == "with-span":
                with sp:
                    raise Base()
            else:
                with TR.start_as_current_span("x"):
                    raise Base()
            ctx.fail("reraise", "swallowed")
        except Base:
            pass
        ctx.check(trace.get_current_span() is amb and len(LAST.spans) == 1, "base-exception", "scope not restored or span not ended")
        ctx.state(case)
    else:
        # abandoning a generator that holds a scope restores and ends it
        def g():
            with TR.start_as_current_span("g"):
                yield 1
        it = contextvars.copy_context()
        gen = g()
        it.run(next, gen)
        it.run(gen.close)
        ctx.check(len(LAST.spans) == 1 and LAST.spans[0].status.status_code is C.UNSET and not LAST.spans[0].events, "generator-close", "span of a closed generator")
        ctx.check(not it.run(trace.get_current_span).get_span_context().is_valid, "restore", "closed generator left its span current")
        ctx.state(case)


def run_reuse(case, ctx):
    """calls of one decorated function, each with a span of its own that is current during the call only"""
    _, sync, how, bad, end = case
    n = len(bad)
    amb = NonRecordingSpan(SpanContext(9, 9, False, TraceFlags(1)))
    mine = {}

    def enter(i):
        sp = trace.get_current_span()
        ctx.check(sp is not amb and sp.get_span_context().is_valid and all(sp is not s for s in mine.values()), "decorator-reuse",
                  lambda: f"{case}: call {i} has no span of its own")
        mine[i] = sp

    def leave(i):
        ctx.check(trace.get_current_span() is mine[i], "decorator-reuse", lambda: f"{case}: call {i}'s span is no longer current within it")
        if bad[i]:
            raise ValueError(str(i))
        return i

    if sync:
        @TR.start_as_current_span("r", end_on_exit=end)
        def f(i):
            enter(i)
            if how == "rec" and i + 1 < n:
                call(i + 1)
            return leave(i)

        def call(i):
            try:
                ctx.check(f(i) == i and not bad[i], "decorator-reuse", "result")
            except ValueError as e:
                ctx.check(bad[i] and str(e) == str(i), "decorator-reuse", "exception")
    else:
        @TR.start_as_current_span("r", end_on_exit=end)
        async def f(i):
            await asyncio.sleep(0)
            enter(i)
            await asyncio.sleep(0)
            if how == "rec" and i + 1 < n:
                await acall(i + 1)
            await asyncio.sleep(0)
            return leave(i)

        async def acall(i):
            cur = trace.get_current_span()
            try:
                ctx.check(await f(i) == i and not bad[i], "decorator-reuse", "result")
            except ValueError as e:
                ctx.check(bad[i] and str(e) == str(i), "decorator-reuse", "exception")
            ctx.check(trace.get_current_span() is cur, "restore", lambda: f"{case}: current span not restored")

    tok = trace.context_api.attach(trace.set_span_in_context(amb))
    if sync:
        for i in range(n) if how == "seq" else (0,):
            call(i)
            ctx.check(trace.get_current_span() is amb, "restore", lambda: f"{case}: current span not restored")
    else:
        async def main():
            if how == "tasks":
                await asyncio.gather(*[acall(i) for i in range(n)])
            else:
                for i in range(n) if how == "seq" else (0,):
                    await acall(i)

        loop = asyncio.new_event_loop()
        loop.run_until_complete(main())
        loop.close()
        ctx.check(trace.get_current_span() is amb, "restore", lambda: f"{case}: current span not restored")
    trace.context_api.detach(tok)
    ctx.check(len(mine) == n, "decorator-reuse", f"{len(mine)} calls")
    ctx.check(len(LAST.spans) == (n if end else 0) and all(s.is_recording() != end for s in mine.values()), "ended-once", lambda: f"{case}: {len(LAST.spans)} ends")
    for i, s in mine.items():
        evs = [e.attributes["exception.message"] for e in s.events]
        ctx.check(evs == ([str(i)] if bad[i] else []) and s.status.status_code is (C.ERROR if bad[i] else C.UNSET), "exception-event", lambda: f"{case}: call {i}: {evs}")
        par = mine[i - 1].get_span_context().span_id if how == "rec" and i else 9
        ctx.check(s.parent.span_id == par, "parent", lambda: f"{case}: call {i} parent")
        s.end()
    ctx.state(case)
