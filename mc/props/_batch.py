"""Closed drivers for the batching processors, parameterised by signal."""
from mc import sched
from mc.props._boom import Boom
from mc.explore import Harness, spawn


def yield_(what):
    sched.RT.point((what,))


class Rec:
    """Observation log shared by exporter and driver."""

    def __init__(self):
        self.log = []  # ordered events
        self.active = 0
        self.bad = []
        self.kept = []  # what the exporter was given, as given

    def add(self, *e):
        self.log.append(e)

    def exported(self):
        return [n for e in self.log if e[0] == "export" for n in e[1]]


def behave(rec, batch, name_of, script, i, hooks, results):
    """Body of a modelled exporter's export()."""
    names = [name_of(x) for x in batch]
    rec.kept.append((batch, names, name_of))
    if rec.active:
        rec.bad.append("overlapping export calls")
    rec.active += 1
    if any(e[0] == "exporter_shutdown" for e in rec.log):
        rec.bad.append("export after exporter shutdown")
    rec.add("export", list(names))
    try:
        yield_("export")
        if i in hooks:
            hooks[i]()
        b = script[i] if i < len(script) else "ok"
        if b == "raise":
            raise Boom("exporter failed")
        return results["fail" if b == "fail" else "ok"]
    finally:
        rec.active -= 1


# ---------------------------------------------------------------- signals
class Spans:
    sig = "span"

    @classmethod
    def load(cls):
        from opentelemetry.sdk.resources import Resource
        from opentelemetry.sdk.trace import TracerProvider
        from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult
        from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult

        class S(Sampler):
            def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
                d = {"d": Decision.DROP, "r": Decision.RECORD_ONLY}.get(name[:1], Decision.RECORD_AND_SAMPLE)
                return SamplingResult(d)

            def get_description(self):
                return "by-name"

        cls.S, cls.R, cls.TP, cls.BP = S(), Resource({}), TracerProvider, BatchSpanProcessor
        cls.SE, cls.SER = SpanExporter, SpanExportResult

    @classmethod
    def build(cls, rec, script=(), hooks=None, **kw):
        hooks = hooks or {}

        class E(cls.SE):
            n = -1

            def export(self, spans):
                E.n += 1
                return behave(rec, spans, lambda s: s.name, script, E.n, hooks, {"ok": cls.SER.SUCCESS, "fail": cls.SER.FAILURE})

            def shutdown(self):
                rec.add("exporter_shutdown")

            def force_flush(self, timeout_millis=30000):
                return True

        proc = cls.BP(E(), **kw)
        tp = cls.TP(shutdown_on_exit=False, resource=cls.R, sampler=cls.S)
        tp.add_span_processor(proc)
        tracer = tp.get_tracer("x")
        return proc, lambda name: tracer.start_span(name).end()

    @staticmethod
    def eligible(name):
        return name[:1] not in "dr"


class Logs:
    sig = "log"

    @classmethod
    def load(cls):
        from opentelemetry.sdk._logs import LoggerProvider, LogRecord
        from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
        from opentelemetry.sdk.resources import Resource

        cls.R, cls.LP, cls.LR, cls.BP = Resource({}), LoggerProvider, LogRecord, BatchLogRecordProcessor
        cls.LE, cls.LER = LogExporter, LogExportResult

    @classmethod
    def build(cls, rec, script=(), hooks=None, **kw):
        hooks = hooks or {}

        class E(cls.LE):
            n = -1

            def export(self, batch):
                E.n += 1
                return behave(rec, batch, lambda d: d.log_record.body, script, E.n, hooks, {"ok": cls.LER.SUCCESS, "fail": cls.LER.FAILURE})

            def shutdown(self):
                rec.add("exporter_shutdown")

        proc = cls.BP(E(), **kw)
        lp = cls.LP(shutdown_on_exit=False, resource=cls.R)
        lp.add_log_record_processor(proc)
        logger = lp.get_logger("x")
        return proc, lambda name: logger.emit(cls.LR(timestamp=1, body=name, resource=cls.R, attributes={}, trace_id=0, span_id=0))

    @staticmethod
    def eligible(name):
        return True


# ---------------------------------------------------------------- oracles
def common(rec, batch, producers, eligible, complete=True):
    """producers: list of lists of names, each in the order produced by one thread."""
    if rec.bad:
        return rec.bad[0]
    exp = rec.exported()
    for batch_, names, name_of in rec.kept:
        now = [x if x is None else name_of(x) for x in batch_]
        if now != names:
            return f"the batch {names} handed to the exporter became {now}"
    for e in rec.log:
        if e[0] == "export":
            if not e[1]:
                return "empty batch exported"
            if len(e[1]) > batch:
                return f"batch of {len(e[1])} exceeds the configured {batch}"
    if len(set(exp)) != len(exp):
        return f"exported twice: {exp}"
    bad = [n for n in exp if not eligible(n)]
    if bad:
        return f"unsampled span exported: {bad}"
    for p in producers:
        want = [n for n in p if eligible(n)]
        got = [n for n in exp if n in want]
        if complete and sorted(got) != sorted(want):
            return f"lost: produced {want}, exported {exp}"
        if got != [n for n in want if n in got]:
            return f"order of one thread not kept: {want} exported as {exp}"
    return None


class BatchHarness(Harness):
    sig = None
    opts = dict(max_queue_size=4, max_export_batch_size=2, schedule_delay_millis=5000)
    script = ()
    producers = ()
    complete = True
    flush = 0

    def start(self, **kw):
        self.rec = Rec()
        return self.sig.build(self.rec, script=self.script, **dict(self.opts, **kw))

    def produce(self, emit, names):
        def f():
            for n in names:
                emit(n)
                self.rec.add("ended", n)
        return f

    def check(self, out):
        return common(self.rec, self.opts["max_export_batch_size"], self.producers, self.sig.eligible, self.complete)


class Producers(BatchHarness):
    """Threads end spans while the worker runs; shutdown drains."""

    def body(self):
        proc, emit = self.start()
        ts = [spawn(self.produce(emit, p), f"p{i}") for i, p in enumerate(self.producers)]
        for t in ts:
            t.join()
        proc.shutdown()
        return self.rec.log


class Delay(BatchHarness):
    """Without flush or shutdown, a partial batch goes out once the schedule delay has passed."""
    producers = (["s0"],)
    fair_ticks = True

    def body(self):
        proc, emit = self.start()
        t = spawn(self.produce(emit, self.producers[0][:1]), "p0")
        t.join()
        import_time().sleep(3 * self.opts["schedule_delay_millis"] / 1e3)
        self.rec.add("waited")
        out = list(self.rec.log)
        for n in self.producers[0][1:]:
            emit(n)
            import_time().sleep(3 * self.opts["schedule_delay_millis"] / 1e3)
        self.mid = list(self.rec.log)
        proc.shutdown()
        return out

    def check(self, out):
        if not any(e[0] == "export" and "s0" in e[1] for e in out):
            return "partial batch not exported after the schedule delay"
        exp = [n for e in self.mid if e[0] == "export" for n in e[1]]
        if exp != list(self.producers[0]):
            return f"not exported within the schedule delay: {exp}"
        return super().check(out)


def import_time():
    from mc.loader import M_time
    return M_time


class Overflow(BatchHarness):
    """Exporter stuck in its first export while n more items arrive into a queue of size q."""
    opts = dict(max_queue_size=3, max_export_batch_size=1, schedule_delay_millis=5000)
    names = ["s0", "s1", "s2", "s3", "s4", "s5"]
    expect = ["s0", "s3", "s4", "s5"]

    def body(self):
        entered, release = sched.Event(), sched.Event()

        def hook():
            entered.set()
            release.wait()

        proc, emit = self.start(hooks={0: hook})
        emit(self.names[0])
        entered.wait()
        for n in self.names[1:]:
            emit(n)
        self.rec.add("all ended")
        release.set()
        proc.shutdown()
        return self.rec.log

    def check(self, out):
        m = common(self.rec, self.opts["max_export_batch_size"], [], self.sig.eligible)
        if m:
            return m
        if self.rec.exported() != self.expect:
            return f"overflow: expected {self.expect}, exported {self.rec.exported()}"


class Race(BatchHarness):
    """One thread outruns a small queue; only the excess may be lost."""
    opts = dict(max_queue_size=2, max_export_batch_size=2, schedule_delay_millis=5000)
    names = ["s0", "s1", "s2", "s3"]

    def body(self):
        proc, emit = self.start()

        def f():
            for n in self.names:
                emit(n)
                self.rec.add("ended", n)

        t = spawn(f, "p0")
        t.join()
        proc.shutdown()
        return self.rec.log

    def check(self, out):
        m = common(self.rec, self.opts["max_export_batch_size"], [self.names], self.sig.eligible, complete=False)
        if m:
            return m
        exp = self.rec.exported()
        q = self.opts["max_queue_size"]
        if exp[-q:] != self.names[-q:]:
            return f"one of the newest {q} was lost: {exp}"
        # how many could have been waiting beyond capacity
        waiting, allow = 0, 0
        handed = set()
        for e in self.rec.log:
            if e[0] == "export":
                handed.update(e[1])
                waiting = max(0, waiting - len(e[1]))
            elif e[0] == "ended":
                if e[1] not in handed:
                    waiting += 1
                if waiting > q:
                    allow += waiting - q
                    waiting = q
        # an item counts as ended only when end() returned: one more may already sit in the queue
        if len(self.names) - len(exp) > allow + 1:
            return f"lost {len(self.names) - len(exp)} although at most {allow} exceeded the capacity: {self.rec.log}"


class Flush(BatchHarness):
    """main ends s0 then flushes while p0 keeps ending; a successful flush covers s0."""
    producers = (["s0"], ["s1"])
    second = False

    def body(self):
        proc, emit = self.start()
        ts = [spawn(self.produce(emit, self.producers[1]), "p1")]
        res = []

        def flusher(who, names):
            for n in names:
                emit(n)
                self.rec.add("ended", n)
            before = [e[1] for e in self.rec.log if e[0] == "ended"]
            r = proc.force_flush(30000)
            self.rec.add("flushed", who, r)
            missing = [n for n in before if self.sig.eligible(n) and n not in self.rec.exported()]
            if r is True and missing:
                res.append(f"flush reported success but {missing} not exported: {self.rec.log}")
            if self.rec.active and r is True and [n for e in self.rec.log[-1:] if e[0] == "export" for n in e[1] if n in before]:
                res.append("flush returned while its export was still running")
            self.results.append(r)

        self.results = []
        if self.second:
            ts.append(spawn(lambda: flusher("f2", ["s2"]), "f2"))
        flusher("main", self.producers[0])
        for t in ts:
            t.join()
        self.res = res
        proc.shutdown()
        return self.rec.log

    def check(self, out):
        if self.res:
            return self.res[0]
        if not all(r is True for r in self.results) and not self.timeouts_ok(out):
            return f"flush reported {self.results} although it was given time to finish"
        extra = (["s2"],) if self.second else ()
        return common(self.rec, self.opts["max_export_batch_size"], tuple(self.producers) + extra, self.sig.eligible)

    def timeouts_ok(self, out):
        # virtual time may pass arbitrarily while threads are runnable: a false result is then legitimate
        return sched.CLOCK.now - sched.T0 >= 30000 * 10**6


class FlushJoin(BatchHarness):
    """Two flushes are asked for while the worker is busy exporting; the second comes after more items ended."""
    opts = dict(max_queue_size=8, max_export_batch_size=1, schedule_delay_millis=5000)
    producers = (["s0", "s1", "s2", "s3"],)
    fair_ticks = True

    def body(self):
        entered, release = sched.Event(), sched.Event()

        def hook():
            entered.set()
            release.wait()

        proc, emit = self.start(hooks={0: hook})
        self.res = []

        def flush(names):
            r = proc.force_flush(30000)
            missing = [n for n in names if n not in self.rec.exported()]
            self.rec.add("flushed", r)
            if r is True and missing:
                self.res.append(f"flush reported success but {missing} not exported: {self.rec.log}")
            if r is not True and sched.CLOCK.now - sched.T0 < 30000 * 10**6:
                self.res.append(f"flush reported {r} although it was given time to finish")

        emit("s0")
        entered.wait()
        emit("s1")
        a = spawn(lambda: flush(["s0", "s1"]), "fa")
        import_time().sleep(1)
        emit("s2")
        emit("s3")
        b = spawn(lambda: flush(["s0", "s1", "s2", "s3"]), "fb")
        import_time().sleep(1)
        release.set()
        a.join()
        b.join()
        proc.shutdown()
        return self.rec.log

    def check(self, out):
        if self.res:
            return self.res[0]
        return common(self.rec, 1, self.producers, self.sig.eligible)


class FlushShut(BatchHarness):
    """A flush is under way when shutdown is called: it still covers what ended before it, and does not wait in vain."""
    opts = dict(max_queue_size=8, max_export_batch_size=1, schedule_delay_millis=5000)
    fair_ticks = True
    stuck = False
    producers = (["s0", "s1", "s2"],)

    def body(self):
        entered, release = sched.Event(), sched.Event()

        def hook():
            entered.set()
            release.wait()

        proc, emit = self.start(hooks={0: hook} if self.stuck else {})
        self.res, self.sure, self.called = [], False, False

        def flush():
            r = proc.force_flush(30000)
            missing = [n for n in self.producers[0] if n not in self.rec.exported()]
            self.rec.add("flushed", r)
            if r is True and missing and (self.stuck or self.sure or not self.called):
                self.res.append(f"flush reported success but {missing} not exported: {self.rec.log}")
            if r is not True:
                self.res.append(f"flush reported {r} although nothing kept it from finishing: {self.rec.log}")

        emit("s0")
        if self.stuck:
            entered.wait()
        for n in self.producers[0][1:]:
            emit(n)
        ts = [spawn(flush, "fl")]
        if self.stuck:
            import_time().sleep(1)
            ts.append(spawn(proc.shutdown, "sd"))
            import_time().sleep(1)
            release.set()
        else:
            sched.RT.point(("shutdown soon",))
            # a flush that waits for something was called before the shutdown
            self.sure = [t.state for t in sched.RT.threads if t.name == "fl"] == ["blocked"]
            self.called = True
            proc.shutdown()
        for t in ts:
            t.join()
        return self.rec.log

    def check(self, out):
        if self.res:
            return self.res[0]
        return common(self.rec, self.opts["max_export_batch_size"], self.producers, self.sig.eligible)


class FlushTimeout(BatchHarness):
    """The exporter is stuck: the flush must give up and report failure."""
    producers = (["s0"],)
    timeout, limit, fair_ticks = 1000, 1.0, True

    def body(self):
        release = sched.Event()
        proc, emit = self.start(hooks={0: release.wait})
        emit("s0")
        t = sched.CLOCK.now
        self.r = proc.force_flush(self.timeout)
        self.t = (sched.CLOCK.now - t) / 1e9
        release.set()
        proc.shutdown()
        return (self.r, self.rec.log)

    def check(self, out):
        if self.r is not False:
            return f"flush reported {self.r} while the export was still running"
        if self.t > self.limit + 0.01:
            return f"flush returned after {self.t}s with a timeout of {self.limit}s"
        return super().check(out)


class Shutdown(BatchHarness):
    """Shutdown races with ends (and flushes); everything ended before it is exported."""
    producers = (["s0"], ["s1", "s2"])
    flusher = False
    two = False

    def body(self):
        proc, emit = self.start()
        ts = [spawn(self.produce(emit, p), f"p{i}") for i, p in enumerate(self.producers)]
        if self.flusher:
            ts.append(spawn(lambda: self.rec.add("flushed", proc.force_flush(30000)), "fl"))
        emit("m0")
        self.rec.add("ended", "m0")
        before = [e[1] for e in self.rec.log if e[0] == "ended"]

        def shut():
            proc.shutdown()
            self.rec.add("shutdown returned")

        if self.two:
            ts.append(spawn(shut, "s2"))
        shut()
        for t in ts:
            t.join()
        n = len(self.rec.exported())
        emit("late")
        import_time().sleep(60)
        self.late = len(self.rec.exported()) - n
        self.before = before
        self.alive = [t.name for t in sched.RT.threads if t.state != "done" and t.tid != 0]
        return self.rec.log

    def check(self, out):
        exp = self.rec.exported()
        missing = [n for n in self.before if self.sig.eligible(n) and n not in exp]
        if missing:
            return f"shutdown lost {missing}, ended before it was called: {self.rec.log}"
        n = sum(e[0] == "exporter_shutdown" for e in self.rec.log)
        if n != (2 if self.two else 1) and not (self.two and n >= 1):
            return f"exporter shut down {n} times"
        if self.late or "late" in exp:
            return "something was exported after shutdown returned"
        if self.alive:
            return f"threads still running after shutdown: {self.alive}"
        first = self.rec.log.index(("shutdown returned",))
        if any(e[0] == "export" for e in self.rec.log[first:]):
            return "export after shutdown returned"
        return common(self.rec, self.opts["max_export_batch_size"], list(self.producers) + [["m0"]], self.sig.eligible, complete=False)


class Prompt(BatchHarness):
    """Flush and shutdown are served at once, not at the next scheduled export; neither takes time of its own."""
    opts = dict(max_queue_size=8, max_export_batch_size=4, schedule_delay_millis=100000)
    fair_ticks = True
    producers = (["s0"], ["s1"])
    flushes = 1

    def body(self):
        proc, emit = self.start()
        self.res = []

        def timed(what, f, *a):
            t = sched.CLOCK.now
            r = f(*a)
            if sched.CLOCK.now - t > 10**7:
                self.res.append(f"{what} took {(sched.CLOCK.now - t) / 1e9}s although nothing kept it from finishing: {self.rec.log}")
            self.rec.add(what, r)
            return r

        for i in range(self.flushes):
            for n in self.producers[i]:
                emit(n)
            if timed("flush", proc.force_flush, 60000) is not True:
                self.res.append("the flush did not succeed")
        for n in self.producers[-1]:
            emit(n)
        timed("shutdown", proc.shutdown)
        return self.rec.log

    def check(self, out):
        return self.res[0] if self.res else common(self.rec, self.opts["max_export_batch_size"], self.producers, self.sig.eligible)


def mk(cls, sig, name, **kw):
    h = type(name, (cls,), dict(kw, sig=sig, name=f"{sig.sig}-{name}"))
    globals()[f"{sig.sig}_{name}"] = h
    h.__module__ = __name__
    h.__qualname__ = f"{sig.sig}_{name}"
    return h()


def delivery(sig, tier):
    small = dict(max_queue_size=4, max_export_batch_size=1, schedule_delay_millis=5000)
    exact = dict(max_queue_size=3, max_export_batch_size=3, schedule_delay_millis=5000)
    un = ["s0", "d1", "s2", "r3"] if sig is Spans else ["s0", "s2"]
    hs = [
        mk(Overflow, sig, "overflow"),
        mk(Delay, sig, "delay"),
        mk(Delay, sig, "delay-raise", script=("raise",), producers=(["s0", "s1"],)),
        mk(Delay, sig, "delay-fail", script=("fail", "raise"), producers=(["s0", "s1", "s2"],)),
        mk(Producers, sig, "two-threads", producers=(["s0", "s1"], ["t0"])),
        mk(Producers, sig, "unsampled", producers=(un,)),
        mk(Producers, sig, "raise", producers=(["s0"], ["t0"]), script=("raise", "fail"), opts=small),
        mk(Producers, sig, "exact-queue", producers=(["s0", "s1", "s2"],), opts=exact),
        mk(Race, sig, "race"),
    ]
    if tier == "thorough":
        hs.append(mk(Producers, sig, "three-threads", producers=(["s0"], ["t0"], ["u0"]), bound=2, thorough_bound=2))
        hs.append(mk(Producers, sig, "four-one", producers=(["s0", "s1", "s2", "s3"],), opts=dict(small)))
    return hs


def lifecycle(sig, tier):
    small = dict(max_queue_size=4, max_export_batch_size=1, schedule_delay_millis=5000)
    hs = [
        mk(FlushTimeout, sig, "flush-timeout"),
        mk(FlushTimeout, sig, "flush-timeout-0", timeout=0, limit=0),
        mk(FlushTimeout, sig, "flush-timeout-default", timeout=None, limit=7, opts=dict(BatchHarness.opts, export_timeout_millis=7000)),
        mk(Prompt, sig, "prompt"),
        mk(Prompt, sig, "prompt-shutdown", flushes=0, producers=(["s0"],)),
        mk(Prompt, sig, "prompt-idle", flushes=1, producers=([], [])),
        mk(Flush, sig, "flush"),
        mk(Flush, sig, "flush-batch1", opts=small, producers=(["s0", "s3"], ["s1"])),
        mk(Flush, sig, "flush-raise", script=("raise",), producers=(["s0", "s3", "s4"], ["s1"]), bound=1),
        mk(Flush, sig, "flush-two", second=True, producers=(["s0"], []), bound=1, thorough_bound=2),
        mk(FlushJoin, sig, "flush-join", bound=1),
        mk(FlushShut, sig, "flush-shut-stuck", stuck=True, bound=1),
        mk(FlushShut, sig, "flush-shut", producers=(["s0"],)),
        mk(FlushShut, sig, "flush-shut-idle", opts=dict(max_queue_size=16, max_export_batch_size=8, schedule_delay_millis=5000), bound=2),
        mk(FlushShut, sig, "flush-shut-batch2", producers=(["s0", "s1"],), opts=dict(FlushShut.opts, max_export_batch_size=3), bound=1),
        mk(Shutdown, sig, "shutdown", producers=(["s0"],)),
        mk(Shutdown, sig, "shutdown-batch1", producers=(["s0", "s1"],), opts=small),
        mk(Shutdown, sig, "shutdown-flush", producers=(), flusher=True),
        mk(Shutdown, sig, "shutdown-two", producers=(), two=True),
        mk(Shutdown, sig, "shutdown-raise", producers=(["s0"],), script=("raise", "raise")),
    ]
    if tier == "thorough":
        hs.append(mk(Shutdown, sig, "shutdown-all", producers=(["s0"],), flusher=True, bound=2, thorough_bound=2))
        hs.append(mk(Flush, sig, "flush-three", second=True, producers=(["s0"], ["s1"]), bound=2, thorough_bound=2))
    return hs
