"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"
API = "opentelemetry-api/src/opentelemetry/"
X = "exporter/opentelemetry-exporter-"
GRPC = X + "otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/"
HTTP = X + "otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/"
COMMON = X + "otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


# ------------------------------------------------------------------ traces
p("T01", "Batched spans reach the exporter exactly once, in order, in bounded batches",
  "With a batching span processor, every sampled span that ends while the processor is running is handed to the exporter exactly once as long as no more than the queue capacity of spans is waiting, whatever the exporter returns or raises; unsampled spans are never exported. Every exported batch is non-empty and no larger than the configured batch size, export calls never overlap, and spans ended one after another by one thread are exported in that order. When the queue overflows only the excess is lost, oldest first, ending a span never blocks on the exporter, and nothing is exported twice.",
  ["schedules", "fault_sequences"], "all interleavings (preemption-bounded) of 1-3 ending threads, the export worker, timer expiries and flush/shutdown calls; exporters that succeed, fail or raise; queue and batch sizes 1-4",
  "The tests run a few wall-clock schedules with sleeps; loss or duplication needs a switch at a particular shared access between an ending thread and the worker.",
  [SDK + "trace/export/__init__.py"], [("bounded deque + condition + worker thread", SDK + "trace/export/__init__.py:BatchSpanProcessor")],
  [("queue", "ended spans not yet exported", "BatchSpanProcessor.queue")], ["SpanExporter.export arguments"])
p("T02", "Flush and shutdown of the batch span processor drain it and always return",
  "A flush of the batching span processor called while it runs that reports success means that every sampled span ended before the flush was called has been passed to the exporter; a flush that cannot finish within its timeout reports failure, and no flush waits out its timeout or reports failure merely because the processor is shut down meanwhile. Flush and shutdown are served at once, without waiting for the next scheduled export. Shutdown exports everything that ended before it was called, shuts the exporter down exactly once and only after the last export, and afterwards nothing more is exported. Any combination of concurrent end, flush and shutdown calls terminates without deadlock, without raising, and without leaving the worker thread running.",
  ["schedules", "fault_sequences"], "all interleavings (preemption-bounded) of ending, flushing and shutting-down threads with the worker and timer expiries",
  "Flush/worker/shutdown hand-offs break only in specific interleavings that wall-clock tests hit by luck; tests use one flush and one shutdown in sequence.",
  [SDK + "trace/export/__init__.py"], [("flush request hand-off", SDK + "trace/export/__init__.py:_FlushRequest"), ("worker drain on shutdown", SDK + "trace/export/__init__.py:worker")],
  [("flush request", "pending flush and its completion event", "BatchSpanProcessor._flush_request")], ["force_flush result", "SpanExporter.shutdown"])
p("T03", "Every registered span processor sees every span start, end, flush and shutdown",
  "Each span processor registered before a span starts gets exactly one start notification and, when the span ends, exactly one end notification, in registration order for the sequential composition; processors may be added while spans are being created and ended without losing notifications to those already present. As long as processors do not raise, a provider-level flush reports success only if every processor's flush did, and provider shutdown reaches every processor once. A simple (unbatched) processor exports each sampled span once, synchronously, at its end, and an exporter that raises neither breaks the application nor the delivery to other processors.",
  ["schedules", "histories", "fault_sequences"], "all sequences of add/start/end/flush/shutdown up to a depth over 1-3 processors with failing flushes and raising exporters, plus all interleavings of adding processors with span creation",
  "Tests use fixed fan-outs; the combinations of failing member, deadline and registration race are not covered.",
  [SDK + "trace/__init__.py", SDK + "trace/export/__init__.py"], [("copy-on-write processor tuple", SDK + "trace/__init__.py:SynchronousMultiSpanProcessor"), ("thread-pool fan-out", SDK + "trace/__init__.py:ConcurrentMultiSpanProcessor"), ("simple processor", SDK + "trace/export/__init__.py:SimpleSpanProcessor")],
  [], ["SpanProcessor callbacks"])
p("T04", "A span ends exactly once and is immutable afterwards",
  "However many threads end a span, exactly one end takes effect: its end time is recorded once and its processors are notified once. After a span has ended, no call on it changes its name, status, attributes, events, links or end time, and what was exported does not change later. A change made to a span before it is ended is contained in what is exported, and changes made concurrently by several threads are all kept, with every event and attribute appearing whole.",
  ["schedules", "histories"], "all operation sequences up to a depth on one span and all preemption-bounded interleavings of 2-3 threads mutating and ending one span",
  "Tests check single-threaded double end; the check-then-act windows between mutators and end need exhaustive schedules.",
  [SDK + "trace/__init__.py"], [("per-span lock and end-time check", SDK + "trace/__init__.py:Span")],
  [("end time", "None while recording", "Span._end_time")], ["SpanProcessor.on_end argument", "ReadableSpan"])
p("T05", "Span limits bound attributes, events and links and count what they drop",
  "For any sequence of operations a span holds at most the configured number of attributes, events and links, and each event or link at most its configured number of attributes; setting an existing attribute key replaces its value without counting as a drop. Over the limit the oldest entries are evicted and the reported dropped counts equal exactly what was given minus what was kept. String values, including strings in sequences, are truncated to the configured length, and limits come from explicit arguments, then span-specific, then general environment settings, then the defaults.",
  ["histories", "configurations"], "all operation sequences up to a depth with limits 0-3/unset over colliding keys, and all small combinations of limit configuration sources",
  "Tests exercise each limit once with one insertion pattern; eviction order, re-setting and counting interact over histories.",
  [SDK + "trace/__init__.py", SDK + "util/__init__.py", API + "attributes/__init__.py"], [("bounded attribute map", API + "attributes/__init__.py:BoundedAttributes"), ("bounded list", SDK + "util/__init__.py:BoundedList"), ("limit resolution", SDK + "trace/__init__.py:SpanLimits")],
  [], ["ReadableSpan attributes/events/links/dropped_*"])
p("T06", "Span status and exceptions follow the OpenTelemetry precedence rules",
  "Once a span's status is OK no later status replaces it, setting it to unset never takes effect, a description is kept only for errors, and otherwise the last status set wins. Leaving a span's scope through an exception records that exception as an event with its type, message and stack trace and sets an error status exactly when those behaviours are enabled, re-raises the same exception, and ends the span exactly when asked to. Current-span scoping restores the previously current span on every exit path, for plain, nested, decorated and asynchronous use.",
  ["histories", "inputs", "programs"], "all sequences of status/exception/end operations up to a depth and all flag combinations of scope use, with exceptions, nesting depth up to 3 and sync/async decorators",
  "Tests sample individual transitions; the rules are about every order of statuses and every combination of flags.",
  [SDK + "trace/__init__.py", API + "trace/__init__.py", API + "trace/status.py"], [("set_status precedence", SDK + "trace/__init__.py:Span.set_status"), ("use_span", API + "trace/__init__.py:use_span")],
  [], ["ReadableSpan.status/events"])
p("T07", "New spans inherit trace identity and obey the sampler's decision",
  "A span started under a valid parent has the parent's trace id, a fresh span id and that parent recorded; without a valid parent it starts a new trace, and the parent is taken from the given context or else from the current one. The sampler is asked exactly once per span with the parent context, trace id, name, kind, attributes and links, and its decision alone determines whether the span records, whether the sampled flag is set, which attributes and trace state it starts with, and whether processors see it. Identifiers are never zero, always fit their 16 and 8 byte sizes.",
  ["inputs", "histories"], "all combinations of parent kind (none, local/remote, sampled/not, invalid), context passing style and sampler decision, for chains of spans up to depth 3, and all scripted random sources including zero values",
  "Tests sample a few parent/sampler pairs; the product of parent kinds, explicit/implicit context and decisions is not enumerated.",
  [SDK + "trace/__init__.py", SDK + "trace/id_generator.py", API + "trace/span.py"], [("start_span", SDK + "trace/__init__.py:Tracer.start_span"), ("id generator", SDK + "trace/id_generator.py:RandomIdGenerator")],
  [], ["span context", "sampler arguments"])
p("T08", "Built-in samplers are deterministic, consistent and monotone",
  "The trace-id-ratio sampler decides from the trace id alone: it always samples at ratio 1, never at 0, agrees for every span of one trace, and any trace sampled at a ratio is sampled at every larger ratio, with exactly the configured fraction of the id space sampled. The parent-based sampler delegates on exactly the five cases (no parent, remote or local parent, sampled or not) to the configured sampler. Every decision that drops a span carries no attributes to it, decisions propagate the parent's trace state, and invalid ratios are rejected; environment-selected samplers behave as the named sampler with the given argument.",
  ["inputs", "configurations"], "all sampler compositions over a small set, all parent kinds and boundary trace ids for an enumerated set of ratios",
  "Tests check a handful of ratios and ids; monotonicity and exact boundary are statements over all ids and ratios.",
  [SDK + "trace/sampling.py"], [("bound computation", SDK + "trace/sampling.py:TraceIdRatioBased"), ("delegation", SDK + "trace/sampling.py:ParentBased")],
  [], ["SamplingResult"])
p("T09", "Span contexts are immutable values, carried unchanged by non-recording spans",
  "A span context is valid exactly when both its ids are non-zero and fit their 128 and 64 bits; it keeps the ids, remoteness, flags and trace state it was made with whatever is done to it, equals exactly the contexts with the same fields, and copying or pickling it gives an equal one. Ids format as exactly 32 and 16 lower-case hexadecimal digits. A non-recording span carries its context unchanged and ignores, without raising, every operation on it. The span of a context, given or current, is the one last set in it or in a context it derives from, else the invalid span, and setting a span leaves the context it is derived from alone.",
  ["inputs", "histories"], "all combinations of boundary ids, flags and trace states, and all sequences up to a depth of operations on non-recording spans and of setting, attaching and detaching spans in contexts",
  "Tests look at single contexts and one or two operations.",
  [API + "trace/span.py", API + "trace/propagation/__init__.py"], [("value type", API + "trace/span.py:SpanContext"), ("inert span", API + "trace/span.py:NonRecordingSpan"), ("span of a context", API + "trace/propagation/__init__.py:get_current_span")],
  [], ["SpanContext fields", "get_current_span"])
p("T10", "A span records exactly what it was started with, however it is started",
  "However a span is started (by itself, as the current span, around a function or a coroutine), what its processors are given at its start and what is exported has exactly the name, kind, attributes, parent and links it was started with, except for links that carry nothing (no valid context, attributes or trace state), under the scope of its tracer and the resource of its provider. Start, event and end times are the ones given, zero included, and otherwise the present. The flags given at the start decide whether an exception leaving the span's scope is recorded, sets an error status with its description and ends the span; the exception always comes out unchanged.",
  ["inputs", "programs", "configurations"], "all combinations over small value sets of the arguments for each form of starting, of the exception flags, of pairs of tracer scopes over two providers, and of explicit and implicit times",
  "Tests use one form with one or two arguments at a time.",
  [SDK + "trace/__init__.py", API + "trace/__init__.py", API + "util/_decorator.py"], [("span creation", SDK + "trace/__init__.py:Tracer.start_span"), ("scoping", API + "trace/__init__.py:use_span"), ("decorators", API + "util/_decorator.py")],
  [], ["SpanProcessor callbacks", "exported span"])
p("A01", "Attributes accept only valid values, copy them and never raise",
  "Wherever attributes are accepted (spans, events, links, resources, scopes, log records), a value is kept only if it is a string, boolean, number or a homogeneous sequence of these (bytes are decoded as UTF-8, None elements are allowed in sequences), under a non-empty string key; anything else is dropped without raising and without disturbing other attributes. Values are stored as given, sequences as immutable copies, so that changing the caller's objects afterwards never changes recorded telemetry. Bounded attribute collections compare, iterate and count like the mapping they represent, and immutable ones reject modification.",
  ["inputs", "histories"], "all values over an alphabet of types, sequences up to length 3 of mixed types, keys of all kinds, at every attribute-accepting entry point, plus all operation sequences on attribute collections",
  "Tests list a few valid and invalid values at one entry point; the rule is for all type mixtures at all entry points.",
  [API + "attributes/__init__.py", SDK + "trace/__init__.py"], [("value cleaning", API + "attributes/__init__.py:_clean_attribute"), ("bounded map", API + "attributes/__init__.py:BoundedAttributes")],
  [], ["recorded attributes"])
# ------------------------------------------------------------------ logs
p("L01", "Batched log records are delivered exactly once; flush and shutdown drain them",
  "With a batching log processor, every record emitted while it runs is handed to the exporter exactly once while no more than the queue capacity is waiting, in non-empty batches no larger than configured, in order per emitting thread, never in overlapping export calls, whatever the exporter returns or raises. A flush reporting success means everything emitted before it was exported, one that cannot finish within its timeout reports failure, and none waits out its timeout merely because the processor is shut down meanwhile; neither flush nor shutdown waits for the next scheduled export; shutdown exports everything emitted before it, shuts the exporter down exactly once after the last export, and nothing is exported afterwards. No combination of concurrent emit, flush and shutdown deadlocks, raises or leaves the worker running.",
  ["schedules", "fault_sequences"], "all interleavings (preemption-bounded) of emitting, flushing and shutting-down threads with the worker and timer expiries, for succeeding/failing/raising exporters",
  "Tests use sleeps and a few schedules; loss and hangs depend on specific interleavings.",
  [SDK + "_logs/_internal/export/__init__.py"], [("worker/queue/condition", SDK + "_logs/_internal/export/__init__.py:BatchLogRecordProcessor")],
  [("queue", "records not yet exported", "BatchLogRecordProcessor._queue")], ["LogExporter.export arguments"])
p("L02", "Log records carry the application's data, severity and trace context intact",
  "A record logged through the standard logging bridge reaches every log processor exactly once with the formatted message, the severity mapped by the standard table, the user's extra fields, source location and exception details as attributes, the creation timestamp, and the trace id, span id and flags of the span current when it was logged. Log record limits bound attributes and truncate values with exact dropped counts; events emitted through the event API are delivered likewise with their name and default severity. Every log processor registered sees each emitted record, flush succeeds only if every processor's did, and shutdown reaches all.",
  ["inputs", "histories"], "all levels 0-60 and the mapping boundaries, all argument/extra/exception shapes over an alphabet, span states, limits, and processor compositions with failing members",
  "Tests sample a few levels and records.",
  [SDK + "_logs/_internal/__init__.py", SDK + "_events/__init__.py"], [("record translation", SDK + "_logs/_internal/__init__.py:LoggingHandler"), ("processor fan-out", SDK + "_logs/_internal/__init__.py:SynchronousMultiLogRecordProcessor")],
  [], ["LogRecordProcessor.emit argument"])
# ------------------------------------------------------------------ fork
p("F01", "A forked child exports its own telemetry: no deadlock, no loss, no duplicates",
  "If the process forks at any moment while batching or concurrent span and log processors, the standard logging bridge or a periodic metric reader are active, in the child spans and log records finished after the fork are exported exactly once and periodic collection runs, while data queued before the fork is not exported again by the child. Recording, creating meters and instruments, flush and shutdown in the child terminate whatever the parent's other threads were doing at the fork.",
  ["schedules", "crash_points"], "a fork at every scheduling point of the parent's other threads (preemption-bounded), followed by child activity, flush and shutdown",
  "Tests fork once at a quiescent moment; deadlock depends on which lock another thread held at the instant of the fork.",
  [SDK + "trace/export/__init__.py", SDK + "_logs/_internal/export/__init__.py", SDK + "metrics/_internal/export/__init__.py"],
  [("at-fork re-initialisation", SDK + "trace/export/__init__.py:_at_fork_reinit"), ("at-fork re-initialisation (logs)", SDK + "_logs/_internal/export/__init__.py:_at_fork_reinit"), ("at-fork re-initialisation (metrics)", SDK + "metrics/_internal/export/__init__.py:_at_fork_reinit")],
  [], ["exporter calls in the child"])
# ------------------------------------------------------------------ context & propagation
p("C01", "Context values are immutable and scoped to their thread or task",
  "Setting a value yields a new context and never changes an existing one; keys created separately never collide. Attaching makes a context current for that thread or asynchronous task only, and detaching with the token restores exactly what was current before, for any nesting; a mistaken detach never raises to the application; naming an unknown context implementation in the environment falls back to the default. Work running in other threads or tasks never observes or disturbs it.",
  ["histories", "schedules", "programs"], "all operation sequences up to a depth of set/attach/detach over several contexts, and all interleavings of two threads or two asynchronous tasks doing so",
  "Tests run fixed sequences and one interleaving of tasks.",
  [API + "context/__init__.py", API + "context/context.py", API + "context/contextvars_context.py"], [("context variables", API + "context/contextvars_context.py"), ("immutable mapping", API + "context/context.py:Context")],
  [], ["get_current/get_value"])
p("C02", "W3C trace context survives inject/extract and malformed headers are ignored",
  "Any valid span context injected into a carrier and extracted again yields the same trace id, span id, sampled flag and trace state, marked as remote. An absent or malformed trace-parent header (wrong lengths, alphabets, reserved version, all-zero ids) leaves the given context unchanged and never raises; headers of future versions are accepted as far as the format allows. Nothing is injected when there is no valid span context, and every carrier key used is declared in the propagator's field set.",
  ["inputs"], "all single-character and structural mutations of valid headers, boundary ids and flags, all small trace states, several carrier shapes",
  "Tests list a dozen headers.",
  [API + "trace/propagation/tracecontext.py", API + "propagators/textmap.py"], [("header format", API + "trace/propagation/tracecontext.py")],
  [], ["carrier contents", "extracted span context"])
p("C03", "Trace state stays within W3C rules under every operation",
  "A trace state never holds an invalid key or value, a duplicate key, or more than 32 entries; adding puts the entry first, updating moves it to the front, deleting removes it, and no operation changes the trace state it is called on. Serialising and parsing a trace state returns the same entries in the same order (spaces at the very ends of the header belong to the carrier). Parsing arbitrary header strings never raises, keeps valid members in order, and ignores blank ones; an invalid header yields an empty trace state rather than a partly wrong one.",
  ["histories", "inputs"], "all operation sequences up to a depth over valid and invalid keys/values including the 32-entry boundary, and all header strings over a small alphabet of members and separators",
  "Tests check individual operations.",
  [API + "trace/span.py", API + "util/re.py"], [("TraceState", API + "trace/span.py:TraceState")], [], ["TraceState items/header"])
p("C04", "Baggage is immutable per context and round-trips through the W3C header",
  "Setting, removing and clearing baggage return new contexts, leave other contexts and other entries untouched, and reads give exactly what was set. Injecting and extracting baggage reproduces every entry whose key and value can be represented, including values with spaces, separators, percent signs and non-ASCII text. Malformed, oversized or excess header entries are skipped without raising and without losing valid entries within the limits, and baggage received is added to the given context without disturbing the rest of it.",
  ["histories", "inputs"], "all operation sequences up to a depth over colliding names and nested contexts; all values over an alphabet of special characters; limits on entry count, entry size and header size at their boundaries",
  "Tests check single examples per rule.",
  [API + "baggage/__init__.py", API + "baggage/propagation/__init__.py"], [("immutable baggage mapping", API + "baggage/__init__.py"), ("header codec and limits", API + "baggage/propagation/__init__.py")], [], ["get_all", "carrier contents"])
p("C05", "B3 and Jaeger propagation round-trips and ignores malformed input",
  "For the B3 single-header, B3 multi-header and Jaeger formats, any valid span context injected and extracted again yields the same trace id, span id and sampled flag as a remote parent, and Jaeger baggage entries survive as well. Sampling and debug markers in all documented spellings are understood, 64-bit trace ids are widened, and either B3 form is recognised on extraction. Missing or malformed ids never raise and never put an invalid span context in place of what the given context held.",
  ["inputs"], "all combinations of header presence, id shapes (short, long, zero, non-hex, empty), sampling and debug spellings, both formats, plus boundary ids",
  "Tests sample some header combinations.",
  ["propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py", "propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py"],
  [("B3 codec", "propagators/b3/__init__.py"), ("Jaeger codec", "propagators/jaeger/__init__.py")], [], ["carrier contents", "extracted span context"])
p("C06", "Composite propagation applies every configured propagator in order",
  "A composite propagator injects with every member in order and extracts by passing each member's resulting context to the next, so a later member sees and may override earlier results; its field set is the union of its members'. The global propagator used by the convenience functions is the one last set, or the one selected by the environment in the order listed, and an unknown name is an error rather than being silently ignored.",
  ["programs", "configurations"], "all ordered compositions of up to 3 recording and real propagators, and all small values of the selecting environment variable",
  "Tests use one or two fixed compositions.",
  [API + "propagators/composite.py", API + "propagate/__init__.py"], [("composition", API + "propagators/composite.py:CompositePropagator"), ("environment selection", API + "propagate/__init__.py")], [], ["carrier contents", "context"])
# ------------------------------------------------------------------ metrics
p("M01", "Sums conserve measurements across collections, readers and temporalities",
  "For any history of additions and collections, what a reader's counters and up-down counters report accounts for every valid measurement exactly once: a delta reader's points sum to the total recorded since its previous collection, a cumulative reader's points equal the total since start, separately for each distinct attribute set and regardless of attribute order. Collecting through one reader never changes what another reports. Negative additions to monotonic counters change nothing, cumulative start times never move, delta intervals abut without gap or overlap, and a delta reader reports nothing for attribute sets without new measurements.",
  ["histories", "configurations"], "all sequences up to a depth of add/collect over two instruments, two attribute sets, two readers, all temporality assignments",
  "Tests run fixed sequences with one reader.",
  [SDK + "metrics/_internal/aggregation.py", SDK + "metrics/_internal/_view_instrument_match.py", SDK + "metrics/_internal/metric_reader_storage.py"],
  [("sum aggregation", SDK + "metrics/_internal/aggregation.py:_SumAggregation"), ("per-reader storages", SDK + "metrics/_internal/measurement_consumer.py")], [], ["MetricReader._receive_metrics"])
p("M02", "Explicit-bucket histograms count every measurement in the right bucket",
  "For any history of recordings and collections a histogram point's count equals the number of measurements it covers and the total of its bucket counts, its sum, minimum and maximum are those of the measurements, and each measurement lies in the bucket whose bounds enclose it (upper bound inclusive). Delta points cover exactly the measurements since the reader's previous collection, cumulative points all of them, per attribute set, with minimum and maximum over the same interval. Boundaries come from the view, else the instrument's advice, else the defaults, for each instrument independently; negative recordings are ignored.",
  ["histories", "inputs", "configurations"], "all sequences up to a depth of record/collect over values at and around every boundary, both temporalities, several boundary sources and several instruments per provider",
  "Tests use a few values; boundary inclusion, delta/cumulative conversion and boundary selection across instruments are not enumerated.",
  [SDK + "metrics/_internal/aggregation.py"], [("bucketing", SDK + "metrics/_internal/aggregation.py:_ExplicitBucketHistogramAggregation")], [], ["HistogramDataPoint"])
p("M03", "Exponential histograms never lose, misplace or over-spread measurements",
  "For any history of recordings and collections an exponential histogram point accounts for every measurement it covers exactly once: its zero count plus its positive and negative bucket counts equal its count, and every measurement lies in the bucket whose bounds at the reported scale enclose it (up to floating-point rounding at a bound; subnormal magnitudes count as the smallest normal one); a measurement that is not a number is ignored. It never uses more than the configured number of buckets on a side nor a larger scale than configured, and its scale is only lowered when the data requires it. Sum, minimum and maximum match the measurements; delta and cumulative points cover exactly their interval's measurements.",
  ["histories", "inputs"], "all sequences up to a depth over an alphabet of values spanning subnormal to maximal magnitudes, both signs, zero and powers of two and their neighbours, several size and scale limits, both temporalities",
  "Tests check selected sequences; merging and rescaling interact over orders of values.",
  [SDK + "metrics/_internal/aggregation.py", SDK + "metrics/_internal/exponential_histogram/buckets.py", SDK + "metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py", SDK + "metrics/_internal/exponential_histogram/mapping/exponent_mapping.py"],
  [("rescaling and merging", SDK + "metrics/_internal/aggregation.py:_ExponentialBucketHistogramAggregation"), ("circular buckets", SDK + "metrics/_internal/exponential_histogram/buckets.py")], [], ["ExponentialHistogramDataPoint"])
p("M04", "Observable instruments report exactly what their callbacks observed",
  "Each collection runs every observable instrument's callbacks exactly once per reader collection, and the points reported are derived from that collection's observations alone: cumulative sums equal the observed values, delta sums equal the difference from the same reader's previous observation, gauges equal the last observed value, per attribute set, and an attribute set not observed is not reported. A callback that raises affects neither the other instruments nor later collections, and generator callbacks are advanced once per collection. A collection that fails because it ran out of time does not corrupt what later collections report.",
  ["histories", "fault_sequences"], "all scripts of observed values/absent/raising over up to 3-4 collections, two readers, all temporalities, timeouts at each instrument",
  "Tests use simple callbacks with one or two collections.",
  [SDK + "metrics/_internal/measurement_consumer.py", SDK + "metrics/_internal/instrument.py", SDK + "metrics/_internal/aggregation.py"],
  [("callback loop", SDK + "metrics/_internal/measurement_consumer.py:collect"), ("temporality conversion", SDK + "metrics/_internal/aggregation.py")], [], ["MetricReader._receive_metrics"])
p("M05", "Concurrent recording and collecting loses and double-counts nothing",
  "When threads record measurements while other threads collect through the same or different readers, every measurement whose recording finished before the final collection is reported exactly once by delta readers in total and is contained in the final cumulative report, for counters, up-down counters, histograms, exponential histograms and gauges (whose last value wins), including the first measurement ever made for an instrument or attribute set. Every point is internally consistent (a histogram's count equals its bucket total), and no call raises or deadlocks.",
  ["schedules"], "all preemption-bounded interleavings of 2-3 threads recording (same and different attribute sets, first use) and collecting through one or two readers",
  "Tests run threads free and assert totals once; races need exhaustive schedules.",
  [SDK + "metrics/_internal/aggregation.py", SDK + "metrics/_internal/_view_instrument_match.py", SDK + "metrics/_internal/metric_reader_storage.py", SDK + "metrics/_internal/measurement_consumer.py"],
  [("aggregation locks", SDK + "metrics/_internal/aggregation.py"), ("storage locks", SDK + "metrics/_internal/metric_reader_storage.py")], [], ["MetricReader._receive_metrics"])
p("M06", "Views select, rename, filter and aggregate exactly the instruments they match",
  "An instrument's measurements appear in one stream for each view matching it by name pattern, type, unit and scope, or in one default stream if none matches; each stream uses the view's name, description, attribute filter and aggregation, falling back to the instrument's own and the reader's defaults. Filtering attributes merges the measurements of attribute sets that become equal without losing any, and a drop aggregation reports nothing. Streams of different instruments are never mixed up, and invalid view definitions are rejected at construction.",
  ["configurations", "inputs"], "all sets of up to 2 views over a small lattice of criteria and stream settings, against instruments of every kind in two scopes",
  "Tests check views one at a time.",
  [SDK + "metrics/_internal/view.py", SDK + "metrics/_internal/_view_instrument_match.py", SDK + "metrics/_internal/metric_reader_storage.py"],
  [("matching", SDK + "metrics/_internal/view.py:View"), ("attribute filter", SDK + "metrics/_internal/_view_instrument_match.py")], [], ["exported metrics"])
p("M07", "Meters and instruments have one identity, also under concurrent creation",
  "Asking for a meter with the same name, version, schema and attributes, from any number of threads, yields one shared meter, and creating the same instrument again yields the existing one so that all measurements land in one stream; a differing unit, kind or description makes a distinct instrument, and conflicting bucket advice for one instrument is reported. Instrument names and units are validated by the specification's syntax, and an invalid one never corrupts the meter. Concurrent creation never raises, loses an instrument or splits its measurements.",
  ["schedules", "inputs", "histories"], "all preemption-bounded interleavings of 2-3 threads getting meters, creating instruments and collecting; all creation sequences up to a depth; all names over a character alphabet up to a length",
  "Tests create instruments sequentially.",
  [SDK + "metrics/_internal/__init__.py", API + "metrics/_internal/__init__.py", API + "metrics/_internal/instrument.py"],
  [("instrument registry", API + "metrics/_internal/__init__.py:Meter._register_instrument"), ("meter cache", SDK + "metrics/_internal/__init__.py:MeterProvider.get_meter")], [], ["exported metrics"])
p("M08", "The periodic metric reader keeps exporting and drains on shutdown",
  "The periodic reader collects and exports once per interval, never in overlapping export calls, and keeps doing so after any collection or export failure. Shutdown performs a final collection and export covering every measurement recorded before it, then shuts the exporter down exactly once, terminates without deadlock, and nothing is exported afterwards, and gives up a stuck export once its timeout has passed; flushing exports everything recorded before it. Provider-level flush and shutdown reach every reader even if one of them fails, shutting down twice is harmless, and after shutdown new instruments are inert.",
  ["schedules", "fault_sequences"], "all preemption-bounded interleavings of ticker, recording, flushing and shutdown threads; exporters that fail or raise at each call; readers that fail at each operation",
  "Tests use wall-clock intervals and single faults.",
  [SDK + "metrics/_internal/export/__init__.py", SDK + "metrics/_internal/__init__.py"],
  [("ticker thread", SDK + "metrics/_internal/export/__init__.py:PeriodicExportingMetricReader"), ("provider shutdown", SDK + "metrics/_internal/__init__.py:MeterProvider")], [], ["MetricExporter calls"])
p("M09", "Exemplars are genuine measurements with their own trace context",
  "Every exemplar reported on a point corresponds to one actual measurement of that point's interval and attribute set, with that measurement's value, time, trace id, span id and exactly the attributes the view filtered out. Reservoirs never exceed their size, histogram reservoirs keep for each bucket a measurement belonging to that bucket, and a collected exemplar is not reported again by a delta collection. The exemplar filter alone decides eligibility: always, never, or only inside sampled spans.",
  ["histories", "inputs"], "all sequences up to a depth of measurements (with/without sampled span, different attributes, every random replacement choice) and collections, for both reservoir kinds and all filters",
  "Tests exercise reservoirs with a few offers and uncontrolled randomness.",
  [SDK + "metrics/_internal/exemplar/exemplar_reservoir.py", SDK + "metrics/_internal/exemplar/exemplar_filter.py", SDK + "metrics/_internal/aggregation.py"],
  [("reservoirs", SDK + "metrics/_internal/exemplar/exemplar_reservoir.py")], [], ["point exemplars"])
p("M10", "A metric reader serves one provider, by its own temporality and aggregation",
  "Every stream a reader reports has the temporality and the (suitable) aggregation the reader prefers for that kind of instrument, cumulative and the kind's default where it says nothing, independently for each kind and whatever other readers of the provider prefer; invalid preferences are rejected at construction. A reader belongs to at most one provider: registering it again, in the same or another provider and also by several threads at once, is refused, exactly one registration takes effect, and the reader goes on reporting the provider that has it and no other. A reader without a provider collects nothing and does not raise.",
  ["configurations", "histories", "schedules"], "all assignments of temporalities to the seven kinds, all pairs of kinds and aggregations, all sequences up to a depth of providers over three readers, and all preemption-bounded interleavings of two or three threads registering",
  "Tests check one kind at a time and no concurrent registration.",
  [SDK + "metrics/_internal/export/__init__.py", SDK + "metrics/_internal/__init__.py", SDK + "metrics/_internal/aggregation.py"], [("preferences", SDK + "metrics/_internal/export/__init__.py:MetricReader"), ("registry of readers", SDK + "metrics/_internal/__init__.py:MeterProvider")],
  [("registry", "readers that have a provider", "MeterProvider._all_metric_readers")], ["metrics data", "construction failures"])
# ------------------------------------------------------------------ API level
p("G01", "Global providers are set once and early handles become live",
  "For traces, metrics, logs and events, at most one global provider ever takes effect however many threads set one, and every later attempt is refused; a provider the environment names is the global one from the first use on unless the application has set its own before. Tracers, meters, instruments, loggers and event loggers obtained from the global API before a provider was set start delivering to it once it is set, with the name, version, schema and attributes they were requested with, whatever the interleaving of obtaining, creating, using and setting. Before that, and without an SDK, all calls are harmless no-ops that still propagate the active span context.",
  ["schedules", "histories"], "all sequences up to a depth of get/create/use/set for the four signals and all preemption-bounded interleavings of handle creation with provider setting",
  "Tests set the provider once in a fixed order.",
  [API + "trace/__init__.py", API + "metrics/_internal/__init__.py", API + "_logs/_internal/__init__.py", API + "_events/__init__.py", API + "util/_once.py"],
  [("set-once guard", API + "util/_once.py:Once"), ("proxies", API + "metrics/_internal/__init__.py:_ProxyMeterProvider")], [], ["telemetry delivered to the provider"])
p("G02", "Recording telemetry never raises into the application",
  "Calls an application makes while recording telemetry (starting, mutating and ending spans, adding events and links, recording measurements, emitting logs, injecting and extracting context, attaching and detaching) do not raise for unsuitable names, attribute keys, attribute values, timestamps, log arguments or repeated use, nor when the SDK is disabled or shut down; unusable input is dropped or ignored and the next valid call works as usual. Failures of exporters and of metric callbacks are contained in the SDK.",
  ["inputs", "histories"], "all single calls and all pairs of calls of the recording API over an alphabet of unsuitable arguments, in live, ended, shut-down and no-op states, each followed by a valid call",
  "Tests cover particular bad arguments.",
  [SDK + "trace/__init__.py", SDK + "metrics/_internal/instrument.py", API + "trace/span.py", SDK + "_logs/_internal/__init__.py"],
  [("argument validation", SDK + "trace/__init__.py"), ("attribute cleaning", API + "attributes/__init__.py")], [], ["exceptions", "subsequent telemetry"])
p("H01", "The global error handler gives each exception to its registered handlers",
  "An exception leaving a block guarded by the global error handler is given, itself and exactly once, to every registered handler whose class derives from the exception's class and to no other; a handler that fails, at construction or while handling, or that cannot be loaded, is logged and keeps neither the other handlers from being called nor lets anything out of the block. The default handler logs the exception exactly once if, and only if, no registered handler handled it. The exception is not raised any further, a block that ends normally calls no handler, and nothing of one use affects a later, enclosing or enclosed one.",
  ["configurations", "histories", "fault_sequences"], "all ordered sets of up to 3 registered handlers over a small exception hierarchy, working, raising, failing to construct or to load, for every exception class, and all sequences and nestings of up to 3 (thorough: 4) guarded blocks",
  "Tests register one or two mocked handlers for one exception.",
  [SDK + "error_handler/__init__.py"], [("dispatch", SDK + "error_handler/__init__.py:GlobalErrorHandler.__exit__")], [], ["handler calls", "log records"])
# ------------------------------------------------------------------ exporters
p("E01", "OTLP encoding preserves every field of every span, metric point and log record",
  "Encoding telemetry for OTLP and decoding the result gives back each span, metric point and log record exactly once, under its own resource and instrumentation scope, with identifiers, parent, flags, kind, names, times, status, events, links, dropped counts, trace state, values, bucket layouts, exemplars, temporality and attributes of every supported type and nesting unchanged (None is not a supported attribute value). One unsupported attribute value or log body never affects other data, and items of different resources or scopes are never merged or mixed.",
  ["inputs"], "all combinations over a small lattice of field values (presence, boundary numbers, every attribute type, nesting) and all groupings of up to 3 items over 2 resources and 2 scopes, decoded by an independent reader of the wire message",
  "Tests compare a few golden messages.",
  [COMMON + "_internal/__init__.py", COMMON + "_internal/trace_encoder/__init__.py", COMMON + "_internal/metrics_encoder/__init__.py", COMMON + "_internal/_log_encoder/__init__.py"],
  [("encoders", COMMON + "_internal")], [], ["protobuf messages"])
p("E02", "OTLP exporters retry transient failures only, and stop when told",
  "For every sequence of server answers an OTLP exporter (gRPC and HTTP; spans, metrics and logs) sends the same payload again after a retryable answer, with increasing bounded delays or the delay the server asked for, until success, a non-retryable answer or its retry limit, and reports success if and only if the server accepted the payload. It never sends again after success or a permanent failure, reports failure without sending once shut down, and never raises for a server answer. Shutdown lets an export in progress finish, never breaks it, and configured headers, endpoint, compression and timeout are applied to every request.",
  ["fault_sequences", "schedules", "configurations"], "all sequences of answers up to the retry limit over every status class for the six exporters under virtual time, and all preemption-bounded interleavings of export with shutdown",
  "Tests try one or two answers each.",
  [GRPC + "exporter.py", HTTP + "trace_exporter/__init__.py", HTTP + "metric_exporter/__init__.py", HTTP + "_log_exporter/__init__.py", COMMON + "_internal/__init__.py"],
  [("retry loop", GRPC + "exporter.py:OTLPExporterMixin._export"), ("HTTP retry loop", HTTP + "trace_exporter/__init__.py"), ("backoff", COMMON + "_internal/__init__.py:_create_exp_backoff_generator")], [], ["requests sent", "export result"])
p("E03", "Splitting a metric batch preserves every data point exactly once",
  "When the OTLP metric exporter splits data to respect a maximum batch size, the batches together contain every data point exactly once, in order, each under its original resource, scope, metric name, unit, description and temporality; every batch holds at least one and at most the maximum number of points. No batch carries a part without points, a batch that fails does not keep the others from being sent, and the export succeeds only if every batch does.",
  ["inputs", "fault_sequences"], "all small shapes of resources x scopes x metrics x points (0-3 each) of every metric kind with every maximum 1..total, and all per-batch outcomes",
  "Tests cover five fixed shapes.",
  [GRPC + "metric_exporter/__init__.py"], [("splitter", GRPC + "metric_exporter/__init__.py:OTLPMetricExporter._split_metrics_data")], [], ["export requests"])
p("E04", "Prometheus exposition matches the collected metrics",
  "Each scrape of the Prometheus reader performs a fresh collection and exposes every current point exactly once, with a valid sample identity that is unique as far as names and labels stay distinct once sanitised, cumulative bucket counts that end in the total count, correct sums, units, types and label values, and the resource information where configured. Names and label keys are sanitised to valid ones, points whose label keys collide are kept with their values joined rather than lost, and metrics whose kind cannot be represented do not prevent the others. Scrapes, flushes and other collections, in any order and concurrently, give the same exposition.",
  ["histories", "inputs", "schedules"], "all sequences up to a depth of record/collect/scrape, all names/units/label keys over a character alphabet, all metric kinds with small shapes, and interleavings of two scrapes",
  "Tests compare some expositions after one scrape.",
  [X + "prometheus/src/opentelemetry/exporter/prometheus/__init__.py", X + "prometheus/src/opentelemetry/exporter/prometheus/_mapping.py"],
  [("custom collector", X + "prometheus/src/opentelemetry/exporter/prometheus/__init__.py:_CustomCollector"), ("name mapping", X + "prometheus/src/opentelemetry/exporter/prometheus/_mapping.py")], [], ["scrape output"])
p("E05", "Zipkin encodings represent every span faithfully",
  "In each supported Zipkin encoding (JSON v1, JSON v2, protobuf) every exported span appears once with its ids, parent, name, kind, times in microseconds, status, attributes as tags within the configured length, events as annotations and the service of its batch. Sequences and other types are rendered as documented strings, non-representable values are skipped alone, and the exporter reports success exactly when the server accepted the spans and refuses once shut down.",
  ["inputs", "fault_sequences"], "all combinations over a small lattice of span fields, tag value types and length limits for the three encodings, and every server status class",
  "Tests compare golden encodings of a few spans.",
  [X + "zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py", X + "zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py", X + "zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/v2/__init__.py"],
  [("encoders", X + "zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py")], [], ["encoded payloads"])
# ------------------------------------------------------------------ resources & configuration
p("R01", "Resources merge deterministically and keep what they were given",
  "Merging resources gives the union of their attributes with the updating resource's values winning, the only or agreeing schema address, and a defined result on conflicting schemas, and changes neither operand; merging is associative where schemas agree and the empty resource is neutral. A created resource contains the default telemetry attributes, environment-supplied attributes and service name, and explicit ones, in increasing precedence, and always has a service name. Detectors that raise or take too long are skipped without affecting the others unless told to raise, and merge in the order given; the built-in process, operating-system and host detectors describe the process they run in.",
  ["inputs", "configurations", "fault_sequences"], "all pairs and triples of resources over a small lattice, all small environment strings, all ordered lists of up to 3 well-behaved/raising/slow detectors",
  "Tests check individual merges.",
  [SDK + "resources/__init__.py"], [("merge", SDK + "resources/__init__.py:Resource.merge"), ("detector aggregation", SDK + "resources/__init__.py:get_aggregated_resources")], [], ["resource attributes"])
p("K01", "Environment configuration selects exactly what it names",
  "Exporter, sampler, id generator and protocol names in the environment select exactly those components for each signal, in order and with defaults where unset, and unknown names are reported rather than silently replaced by something else, except that an unusable sampler falls back to the default. Batching, limit, interval, header, endpoint, transport security, compression, temporality and timeout settings take effect with explicit arguments first, signal-specific variables next and general variables last; malformed batching and interval values and sampling ratios fall back to the default without preventing the rest of the configuration, and malformed span limits are reported. Disabling the SDK silences every signal. Header strings are parsed into exactly the valid pairs they contain.",
  ["configurations", "inputs"], "all combinations over small value sets of the relevant environment variables and arguments, and all header strings over a small token alphabet",
  "Tests check one variable at a time.",
  [SDK + "_configuration/__init__.py", API + "util/re.py", SDK + "trace/export/__init__.py"], [("component selection", SDK + "_configuration/__init__.py"), ("header parsing", API + "util/re.py:parse_env_headers")], [], ["constructed components"])
# ------------------------------------------------------------------ shims
p("S01", "The OpenTracing shim preserves spans, scopes, references and carriers",
  "Driving the OpenTracing shim with any sequence of span and scope operations (scopes closed in the order opened, child_of or references but not both) produces the corresponding OpenTelemetry spans, each exported once: tags become attributes, logs events, an exception leaving a scope an error status, and names and explicit times are kept. The parent is the given child_of or the first valid reference, every valid reference being a link; without either it is the active span, native or shim, unless that is ignored. Activating and closing scopes makes exactly the right span active, for the shim and for OpenTelemetry, and restores the previous one. Baggage items are inherited by children, and span contexts and baggage injected and extracted through the text formats survive; other formats are refused.",
  ["histories", "inputs"], "all sequences up to a depth of start/activate/tag/log/finish/close operations over nested scopes, all reference combinations, and propagation formats",
  "Tests drive fixed scenarios.",
  ["shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"], [("TracerShim/ScopeManagerShim", "opentelemetry/shim/opentracing_shim/__init__.py")], [], ["exported spans"])
p("S02", "OpenCensus bridging translates spans both ways without loss",
  "Spans created and ended in order through the OpenCensus shim become OpenTelemetry spans with the same nesting, names, attributes, annotations, message events at their (UTC) times, status and propagated trace context, interoperating with native spans as parents and children; each is exported once, and the current span of OpenTelemetry and of OpenCensus is the right one throughout. Installing and uninstalling the shim decides where spans of existing and new tracers go. The OpenCensus exporter translates every span's ids, parent, name, trace state, times, attributes, events, links and numeric status into the OpenCensus message without loss under the spans' service name, and reports failure exactly when the call failed.",
  ["histories", "inputs"], "all nestings up to depth 3 of shim and native spans with small operation sequences, and all combinations over a small lattice of span fields for the exporter",
  "Tests check fixed examples.",
  ["shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py", "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py", X + "opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py"],
  [("shim tracer/span", "opentelemetry/shim/opencensus"), ("translation", "opentelemetry/exporter/opencensus/trace_exporter/__init__.py")], [], ["exported spans", "OpenCensus messages"])
p("X01", "Exports run with instrumentation suppressed and leave the context alone",
  "Every call of a span, log or metric exporter made by the SDK's processors and readers, synchronous or in the background, runs in a context in which automatic instrumentation is suppressed, so that an exporter never traces itself. Whatever the exporter returns, raises or attaches, the application's current context (and what other processors see) is afterwards exactly what it was before, synchronous exporters see the application's own context values, and suppression never remains in force for the application.",
  ["histories", "fault_sequences"], "all sequences up to a depth of span, log, metric, flush and idle operations over each pipeline and combinations of pipelines, with exporters that succeed, fail, raise or leave a context attached, in ambient contexts with and without suppression",
  "Tests check a suppressed flag in one exporter call; they do not compare the context before and after each operation or with misbehaving exporters.",
  [SDK + "trace/export/__init__.py", SDK + "_logs/_internal/export/__init__.py", SDK + "metrics/_internal/export/__init__.py", API + "context/__init__.py"],
  [("attach/detach around exports", SDK + "trace/export/__init__.py:SimpleSpanProcessor.on_end"), ("logs", SDK + "_logs/_internal/export/__init__.py"), ("metrics", SDK + "metrics/_internal/export/__init__.py:PeriodicExportingMetricReader._receive_metrics")], [], ["the context inside exporter calls", "get_current()"])
p("X02", "Telemetry recorded before the process exits normally is exported",
  "When a process ends normally and its providers were created with shutdown_on_exit (the default), every span ended, log record emitted and measurement recorded until then, including by exit handlers registered after the provider, reaches every exporter, exactly once for spans and logs and in a final collection for metrics, through synchronous, batching and concurrent processors and periodic readers (also those without an interval). Each exporter is shut down exactly once, no exit handler raises, a failing exporter of one provider does not keep another provider from exporting, and a provider created with shutdown_on_exit=False is left alone.",
  ["histories", "crash_points"], "all sequences up to a depth of record, flush, idle and shutdown operations followed by interpreter exit, for each kind of provider and processor and pairs of providers, with exit handlers registered before and after the provider",
  "Tests call shutdown themselves; the state of threads, executors and the order of exit handlers at interpreter exit is not reached.",
  [SDK + "trace/__init__.py", SDK + "_logs/_internal/__init__.py", SDK + "metrics/_internal/__init__.py", SDK + "metrics/_internal/export/__init__.py"],
  [("exit handlers", SDK + "trace/__init__.py:TracerProvider"), ("exit handlers (logs)", SDK + "_logs/_internal/__init__.py:LoggerProvider"), ("exit handlers (metrics)", SDK + "metrics/_internal/__init__.py:MeterProvider")], [], ["exporter calls until the process has ended"])
p("D01", "Console, JSON and in-memory outputs reproduce the telemetry they are given",
  "The console exporters write one parseable JSON document per span, log record or metrics collection, in order, flushing the stream, whose fields are exactly the given ids, parents, names, kinds, times, statuses, attributes, events, links, severities, bodies, resources, scopes and points. The in-memory exporters and reader return exactly what was exported and not cleared, in order, as snapshots that later exports do not change, and refuse data after shutdown, also when several threads use them at once.",
  ["inputs", "histories", "schedules"], "all combinations over a lattice of span, log and metric fields; all sequences up to a depth of export, read, clear and shutdown operations; all preemption-bounded interleavings of threads doing so",
  "Tests compare a few documents and use one thread.",
  [SDK + "trace/__init__.py", SDK + "trace/export/__init__.py", SDK + "trace/export/in_memory_span_exporter.py", SDK + "_logs/_internal/__init__.py", SDK + "_logs/_internal/export/__init__.py", SDK + "_logs/_internal/export/in_memory_log_exporter.py", SDK + "metrics/_internal/point.py", SDK + "metrics/_internal/export/__init__.py"],
  [("span JSON", SDK + "trace/__init__.py:ReadableSpan.to_json"), ("log JSON", SDK + "_logs/_internal/__init__.py:LogRecord.to_json"), ("metrics JSON", SDK + "metrics/_internal/point.py"), ("in-memory stores", SDK + "trace/export/in_memory_span_exporter.py")], [], ["the written text", "the returned spans, logs and metrics"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for q in P:
    for f in q["anchors"]["files"]:
        if not os.path.exists("/repo/" + f):
            print("missing anchor", q["id"], f)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
