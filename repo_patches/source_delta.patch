From 137130227d17d3c6ef387ce9049cf6750b516a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 01/72] fix: TraceState.update must not discard a full trace
 state

Updating a full TraceState with a key it does not contain built a list
of 33 entries, which the constructor rejects by returning an empty
TraceState. Return the unchanged TraceState, as documented.
---
 opentelemetry-api/src/opentelemetry/trace/span.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentelemetry-api/src/opentelemetry/trace/span.py b/opentelemetry-api/src/opentelemetry/trace/span.py
index 6e54dfc..f1b4bdc 100644
--- a/opentelemetry-api/src/opentelemetry/trace/span.py
+++ b/opentelemetry-api/src/opentelemetry/trace/span.py
@@ -331,6 +331,9 @@ class TraceState(typing.Mapping[str, str]):
             return self
         prev_state = self._dict.copy()
         prev_state.pop(key, None)
+        if len(prev_state) >= _TRACECONTEXT_MAXIMUM_TRACESTATE_KEYS:
+            _logger.warning("There can't be more than 32 key/value pairs.")
+            return self
         new_state = [(key, value), *prev_state.items()]
         return TraceState(new_state)
 
-- 
2.43.0


From 410d69dcf69188cde917c47993855cdc3cb6b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 02/72] fix: do not inject an invalid span context into W3C
 trace context headers

Only the INVALID_SPAN_CONTEXT constant was skipped, so a span context
with just one zero id, or zero ids with trace flags, was injected as a
malformed traceparent header.
---
 .../src/opentelemetry/trace/propagation/tracecontext.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
index af16a08..12180bc 100644
--- a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
+++ b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
@@ -98,7 +98,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
         """
         span = trace.get_current_span(context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
         traceparent_string = f"00-{format_trace_id(span_context.trace_id)}-{format_span_id(span_context.span_id)}-{span_context.trace_flags:02x}"
         setter.set(carrier, self._TRACEPARENT_HEADER_NAME, traceparent_string)
-- 
2.43.0


From a12449051ec1c158b8e0adad670a14cc721bc72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 03/72] fix: keep encoded edge whitespace of baggage names and
 values

Whitespace was stripped after URL-decoding, so an injected value with
leading or trailing whitespace came back changed. Only the optional
whitespace of the header itself is to be removed.
---
 .../src/opentelemetry/baggage/propagation/__init__.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
index 49fb378..2923ff4 100644
--- a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
@@ -93,8 +93,8 @@ class W3CBaggagePropagator(textmap.TextMapPropagator):
                 _logger.warning("Invalid baggage entry: `%s`", entry)
                 continue
 
-            name = unquote_plus(name).strip()
-            value = unquote_plus(value).strip()
+            name = unquote_plus(name.strip())
+            value = unquote_plus(value.strip())
 
             context = set_baggage(
                 name,
-- 
2.43.0


From 53fec3e66609a8aac0fdb1f18b842cec5558a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 04/72] fix: Jaeger baggage survives an inject/extract round
 trip

Every occurrence of the uberctx- prefix was removed from a baggage key,
and encoded leading and trailing whitespace of values was lost.
---
 .../src/opentelemetry/propagators/jaeger/__init__.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 6b6eb8f..8194538 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -121,8 +121,8 @@ class JaegerPropagator(TextMapPropagator):
         for key in baggage_keys:
             value = _extract_first_element(getter.get(carrier, key))
             context = baggage.set_baggage(
-                key.replace(self.BAGGAGE_PREFIX, ""),
-                urllib.parse.unquote(value).strip(),
+                key[len(self.BAGGAGE_PREFIX) :],
+                urllib.parse.unquote(value.strip()),
                 context=context,
             )
         return context
-- 
2.43.0


From 9069026b4f994e8b9a5232ebd10702ab77fb911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 05/72] fix: do not inject an invalid span context into B3 and
 Jaeger headers

---
 .../src/opentelemetry/propagators/b3/__init__.py              | 4 ++--
 .../src/opentelemetry/propagators/jaeger/__init__.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 1bbc361..875e9cf 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -136,7 +136,7 @@ class B3MultiFormat(TextMapPropagator):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
@@ -175,7 +175,7 @@ class B3SingleFormat(B3MultiFormat):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 8194538..ce049a3 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -77,7 +77,7 @@ class JaegerPropagator(TextMapPropagator):
     ) -> None:
         span = trace.get_current_span(context=context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         # Non-recording spans do not have a parent
-- 
2.43.0


From a5dc2f520244e3753114e3bd676c84cdd4ecf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 06/72] fix: extracting invalid B3 or Jaeger ids leaves the
 context unchanged

All-zero B3 ids and out-of-range Jaeger ids replaced the span of the
given context by one with an invalid span context.
---
 .../opentelemetry/propagators/b3/__init__.py  |  6 ++++++
 .../propagators/jaeger/__init__.py            | 21 ++++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 875e9cf..601b069 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -105,6 +105,12 @@ class B3MultiFormat(TextMapPropagator):
 
         trace_id = int(trace_id, 16)
         span_id = int(span_id, 16)
+        if (
+            trace_id == trace.INVALID_TRACE_ID
+            or span_id == trace.INVALID_SPAN_ID
+        ):
+            return context
+
         options = 0
         # The b3 spec provides no defined behavior for both sample and
         # flag values set. Since the setting of at least one implies
diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index ce049a3..d93d133 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -53,21 +53,18 @@ class JaegerPropagator(TextMapPropagator):
         context = self._extract_baggage(getter, carrier, context)
 
         trace_id, span_id, flags = _parse_trace_id_header(header)
-        if (
-            trace_id == trace.INVALID_TRACE_ID
-            or span_id == trace.INVALID_SPAN_ID
-        ):
+        span_context = trace.SpanContext(
+            trace_id=trace_id,
+            span_id=span_id,
+            is_remote=True,
+            trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
+        )
+        if not span_context.is_valid:
             return context
 
-        span = trace.NonRecordingSpan(
-            trace.SpanContext(
-                trace_id=trace_id,
-                span_id=span_id,
-                is_remote=True,
-                trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
-            )
+        return trace.set_span_in_context(
+            trace.NonRecordingSpan(span_context), context
         )
-        return trace.set_span_in_context(span, context)
 
     def inject(
         self,
-- 
2.43.0


From ce74126c17133b4c8c2f0ba04786fa3a090cd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 07/72] fix: starting a span must not modify the links it is
 given

The attributes of the caller's Link objects were replaced in place, so
starting another span with the same link reset the dropped attribute
count of (and could truncate) the link already recorded on, and even
exported with, the first span.
---
 .../src/opentelemetry/sdk/trace/__init__.py      | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 3ac4580..c83b393 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -829,13 +829,17 @@ class Span(trace_api.Span, ReadableSpan):
         valid_links = []
         for link in links:
             if link and _is_valid_link(link.context, link.attributes):
-                # pylint: disable=protected-access
-                link._attributes = BoundedAttributes(
-                    self._limits.max_link_attributes,
-                    link.attributes,
-                    max_value_len=self._limits.max_attribute_length,
+                # the caller's link may be shared with other spans
+                valid_links.append(
+                    trace_api.Link(
+                        context=link.context,
+                        attributes=BoundedAttributes(
+                            self._limits.max_link_attributes,
+                            link.attributes,
+                            max_value_len=self._limits.max_attribute_length,
+                        ),
+                    )
                 )
-                valid_links.append(link)
 
         return BoundedList.from_seq(self._limits.max_links, valid_links)
 
-- 
2.43.0


From 2ec4023a970500cd7e1622f8bb1c9d92fed290a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 08/72] fix: an out-of-range OTEL_TRACES_SAMPLER_ARG falls back
 to the default ratio

It made TracerProvider() raise ValueError; unparsable values already
fell back to a ratio of 1.0.
---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
index fb6990a..95a6ce1 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
@@ -436,10 +436,12 @@ def _get_from_env_or_default() -> Sampler:
     if trace_sampler in ("traceidratio", "parentbased_traceidratio"):
         try:
             rate = float(os.getenv(OTEL_TRACES_SAMPLER_ARG))
+            return _KNOWN_SAMPLERS[trace_sampler](rate)
         except (ValueError, TypeError):
-            _logger.warning("Could not convert TRACES_SAMPLER_ARG to float.")
-            rate = 1.0
-        return _KNOWN_SAMPLERS[trace_sampler](rate)
+            _logger.warning(
+                "Could not convert TRACES_SAMPLER_ARG to a valid ratio."
+            )
+            return _KNOWN_SAMPLERS[trace_sampler](1.0)
 
     return _KNOWN_SAMPLERS[trace_sampler]
 
-- 
2.43.0


From 2e3f45c76839b88cf7c9ef9406a71077adb06d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 09/72] fix: report dropped log attributes when none could be
 kept

With a limit of 0 the attribute collection is empty, hence falsy, and
dropped_attributes reported 0.
---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 302ca1e..29d189d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -250,7 +250,7 @@ class LogRecord(APILogRecord):
 
     @property
     def dropped_attributes(self) -> int:
-        if self.attributes:
+        if isinstance(self.attributes, BoundedAttributes):
             return self.attributes.dropped
         return 0
 
-- 
2.43.0


From 65f349cc7366e7a317087c23590dd84ebce95002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:41 +0000
Subject: [PATCH 10/72] fix: LogRecord.to_json without a timestamp raised
 TypeError

The timestamp of a log record is optional. With the console exporter
one such record made its whole batch disappear.
---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 29d189d..53a320c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -230,7 +230,11 @@ class LogRecord(APILogRecord):
                     dict(self.attributes) if bool(self.attributes) else None
                 ),
                 "dropped_attributes": self.dropped_attributes,
-                "timestamp": ns_to_iso_str(self.timestamp),
+                "timestamp": (
+                    ns_to_iso_str(self.timestamp)
+                    if self.timestamp is not None
+                    else None
+                ),
                 "observed_timestamp": ns_to_iso_str(self.observed_timestamp),
                 "trace_id": (
                     f"0x{format_trace_id(self.trace_id)}"
-- 
2.43.0


From 5f1ed7a74db68d09d2b85b05f90e4f1e3a34acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 11/72] fix: encode log records without trace context or
 severity for OTLP

trace_id, span_id, trace_flags and severity_number of a LogRecord are
optional; one record without them made encoding raise, which lost the
whole batch.
---
 .../proto/common/_internal/_log_encoder/__init__.py   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 9cd4484..e2c9944 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -40,26 +40,29 @@ def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
 def _encode_log(log_data: LogData) -> PB2LogRecord:
     span_id = (
         None
-        if log_data.log_record.span_id == 0
+        if not log_data.log_record.span_id
         else _encode_span_id(log_data.log_record.span_id)
     )
     trace_id = (
         None
-        if log_data.log_record.trace_id == 0
+        if not log_data.log_record.trace_id
         else _encode_trace_id(log_data.log_record.trace_id)
     )
+    severity_number = log_data.log_record.severity_number
     body = log_data.log_record.body
     return PB2LogRecord(
         time_unix_nano=log_data.log_record.timestamp,
         observed_time_unix_nano=log_data.log_record.observed_timestamp,
         span_id=span_id,
         trace_id=trace_id,
-        flags=int(log_data.log_record.trace_flags),
+        flags=int(log_data.log_record.trace_flags or 0),
         body=_encode_value(body, allow_null=True),
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-        severity_number=log_data.log_record.severity_number.value,
+        severity_number=(
+            None if severity_number is None else severity_number.value
+        ),
     )
 
 
-- 
2.43.0


From 691c59bd0ce0abd41659d3a25be61f09cea90ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 12/72] fix: copy and validate the attributes of measurements

They were kept by reference, so a caller reusing its dictionary moved
measurements already recorded, and sequence values raised TypeError.
---
 .../sdk/metrics/_internal/instrument.py       | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index b01578f..db1c3b9 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -21,6 +21,7 @@ from typing import Generator, Iterable, List, Sequence, Union
 
 # This kind of import is needed to avoid Sphinx errors.
 import opentelemetry.sdk.metrics
+from opentelemetry.attributes import _clean_attribute
 from opentelemetry.context import Context, get_current
 from opentelemetry.metrics import CallbackT
 from opentelemetry.metrics import Counter as APICounter
@@ -38,10 +39,25 @@ from opentelemetry.metrics._internal.instrument import (
 )
 from opentelemetry.sdk.metrics._internal.measurement import Measurement
 from opentelemetry.sdk.util.instrumentation import InstrumentationScope
+from opentelemetry.util.types import Attributes
 
 _logger = getLogger(__name__)
 
 
+def _clean_attributes(attributes: Attributes) -> Attributes:
+    """Copies attributes, which the caller may change later on, without those
+    that can not be represented."""
+    if not attributes:
+        return attributes
+
+    clean_attributes = {}
+    for key, value in attributes.items():
+        value = _clean_attribute(key, value, None)
+        if value is not None:
+            clean_attributes[key] = value
+    return clean_attributes
+
+
 _ERROR_MESSAGE = (
     "Expected ASCII string of maximum length 63 characters but got {}"
 )
@@ -143,7 +159,9 @@ class _Asynchronous:
                         time_unix_nano=time_ns(),
                         instrument=self,
                         context=api_measurement.context or get_current(),
-                        attributes=api_measurement.attributes,
+                        attributes=_clean_attributes(
+                            api_measurement.attributes
+                        ),
                     )
             except Exception:  # pylint: disable=broad-exception-caught
                 _logger.exception(
@@ -175,7 +193,7 @@ class Counter(_Synchronous, APICounter):
                 time_unix_nano,
                 self,
                 context or get_current(),
-                attributes,
+                _clean_attributes(attributes),
             )
         )
 
@@ -199,7 +217,7 @@ class UpDownCounter(_Synchronous, APIUpDownCounter):
                 time_unix_nano,
                 self,
                 context or get_current(),
-                attributes,
+                _clean_attributes(attributes),
             )
         )
 
@@ -267,7 +285,7 @@ class Histogram(_Synchronous, APIHistogram):
                 time_unix_nano,
                 self,
                 context or get_current(),
-                attributes,
+                _clean_attributes(attributes),
             )
         )
 
@@ -291,7 +309,7 @@ class Gauge(_Synchronous, APIGauge):
                 time_unix_nano,
                 self,
                 context or get_current(),
-                attributes,
+                _clean_attributes(attributes),
             )
         )
 
-- 
2.43.0


From 8095babc53e07306f723cab153888e61842b4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 13/72] fix: explicit bucket aggregation must not share
 advisory boundaries

An ExplicitBucketHistogramAggregation without boundaries kept those of the
first instrument it was used for, and raised AttributeError for instruments
other than histograms.
---
 .../sdk/metrics/_internal/aggregation.py           | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 8443d95..7a43f21 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1387,10 +1387,14 @@ class ExplicitBucketHistogramAggregation(Aggregation):
                 AggregationTemporality.CUMULATIVE
             )
 
-        if self._boundaries is None:
-            self._boundaries = (
-                instrument._advisory.explicit_bucket_boundaries
-                or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
+        # This object may be shared by several instruments, each one has its own
+        # advisory boundaries.
+        boundaries = self._boundaries
+        if boundaries is None and isinstance(instrument, Histogram):
+            boundaries = instrument._advisory.explicit_bucket_boundaries
+        if boundaries is None:
+            boundaries = (
+                _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
             )
 
         return _ExplicitBucketHistogramAggregation(
@@ -1398,7 +1402,7 @@ class ExplicitBucketHistogramAggregation(Aggregation):
             instrument_aggregation_temporality,
             start_time_unix_nano,
             reservoir_factory(_ExplicitBucketHistogramAggregation),
-            self._boundaries,
+            boundaries,
             self._record_min_max,
         )
 
-- 
2.43.0


From d792c7ac18c0937efc25c97a82c17415382ec4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 14/72] fix: zero measurements must not lower the scale of
 exponential histograms

A collection of zeros only reported scale 0, even above the maximum scale,
and a cumulative histogram kept that scale for all later measurements.
---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py     | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 7a43f21..d61ed65 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -731,8 +731,7 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             if measurement_value == 0:
                 self._zero_count += 1
 
-                if self._count == self._zero_count:
-                    self._scale = 0
+                self._scale = self._mapping.scale
 
                 return
 
-- 
2.43.0


From f54d746eb9703502026490f8b6fde13f4d66d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 15/72] fix: keep the index of a measurement consistent when
 rescaling

The logarithm mapping may round a value next to a power of two up; mapping it
again at the new scale did not, so the value did not fit in the buckets that
had been rescaled for it and these were corrupted.
---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index d61ed65..0a2fc02 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -784,7 +784,8 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                     self._mapping.scale - scale_change
                 )
 
-                index = self._mapping.map_to_index(measurement_value)
+                # Mapping the value again may round differently and not fit.
+                index >>= scale_change
 
             self._scale = self._mapping.scale
 
-- 
2.43.0


From 0383d6fbee6c0aff4b525e821a558d988e5d0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 16/72] fix: merge exponential histogram buckets into empty
 ones

A cumulative exponential histogram that had only collected measurements of
one sign, or zeros, raised an exception or reported too wide a range when
measurements of the other kind were merged later on.
---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 0a2fc02..1fbe036 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1155,6 +1155,12 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
 
             index = current_index >> current_change
 
+            if previous_buckets.counts == [0]:
+                # There is nothing in these buckets yet, as in aggregate.
+                previous_buckets.index_start = index
+                previous_buckets.index_end = index
+                previous_buckets.index_base = index
+
             if index < previous_buckets.index_start:
                 span = previous_buckets.index_end - index
 
-- 
2.43.0


From 5e0f0d2a9d1150a0012098878520e2d1aee1a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 17/72] fix: a collection that times out must not leave
 observations behind

The observations made before the timeout were aggregated and added to those
of the next collection.
---
 .../metrics/_internal/measurement_consumer.py | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index c651033..432a754 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -113,6 +113,8 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
 
             default_timeout_ns = 10000 * 1e6
 
+            observations = []
+
             for async_instrument in self._async_instruments:
                 remaining_time = deadline_ns - time_ns()
 
@@ -127,18 +129,23 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
                         "Timed out while executing callback"
                     )
 
-                for measurement in measurements:
-                    should_sample_exemplar = (
-                        self._sdk_config.exemplar_filter.should_sample(
-                            measurement.value,
-                            measurement.time_unix_nano,
-                            measurement.attributes,
-                            measurement.context,
-                        )
-                    )
-                    metric_reader_storage.consume_measurement(
-                        measurement, should_sample_exemplar
+                observations.extend(measurements)
+
+            # Nothing is aggregated before all the callbacks have finished in
+            # time, what a failed collection observed must not be reported by
+            # the next one.
+            for measurement in observations:
+                should_sample_exemplar = (
+                    self._sdk_config.exemplar_filter.should_sample(
+                        measurement.value,
+                        measurement.time_unix_nano,
+                        measurement.attributes,
+                        measurement.context,
                     )
+                )
+                metric_reader_storage.consume_measurement(
+                    measurement, should_sample_exemplar
+                )
 
             result = self._reader_storages[metric_reader].collect()
 
-- 
2.43.0


From 4e7c24864758534a05db759e4df976bcb3af5301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 18/72] fix: views select instruments by name regardless of
 case

Instruments keep their name in lower case, so that a view naming an instrument
exactly as it was created did not match it.
---
 .../src/opentelemetry/sdk/metrics/_internal/view.py          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
index b3fa029..6cc8bb8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
@@ -170,7 +170,10 @@ class View:
                 return False
 
         if self._instrument_name is not None:
-            if not fnmatch(instrument.name, self._instrument_name):
+            # instrument names are not case sensitive
+            if not fnmatch(
+                instrument.name.lower(), self._instrument_name.lower()
+            ):
                 return False
 
         if self._instrument_unit is not None:
-- 
2.43.0


From d774bdf72fdc1833f08cf7a5509f46217fac2d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 19/72] fix: do not apply exponential histogram views to
 observable instruments

Like those with explicit buckets they are semantic errors, but the instrument
was silently dropped.
---
 .../sdk/metrics/_internal/metric_reader_storage.py         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
index f512181..c8e00fb 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
@@ -29,6 +29,7 @@ from opentelemetry.sdk.metrics._internal._view_instrument_match import (
 from opentelemetry.sdk.metrics._internal.aggregation import (
     Aggregation,
     ExplicitBucketHistogramAggregation,
+    ExponentialBucketHistogramAggregation,
     _DropAggregation,
     _ExplicitBucketHistogramAggregation,
     _ExponentialBucketHistogramAggregation,
@@ -301,7 +302,11 @@ class MetricReaderStorage:
 
         # pylint: disable=protected-access
         if isinstance(instrument, Asynchronous) and isinstance(
-            view._aggregation, ExplicitBucketHistogramAggregation
+            view._aggregation,
+            (
+                ExplicitBucketHistogramAggregation,
+                ExponentialBucketHistogramAggregation,
+            ),
         ):
             _logger.warning(
                 "View %s and instrument %s will produce "
-- 
2.43.0


From 52bd96b488e02c9ee95d1f70316f2628f96fa635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 20/72] fix: use the empty context given with a measurement

An empty context is false, so that the current one was used instead and
exemplars got the trace context of a span they do not belong to.
---
 .../sdk/metrics/_internal/instrument.py            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index db1c3b9..fd3cd9d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -158,7 +158,11 @@ class _Asynchronous:
                         api_measurement.value,
                         time_unix_nano=time_ns(),
                         instrument=self,
-                        context=api_measurement.context or get_current(),
+                        context=(
+                            get_current()
+                            if api_measurement.context is None
+                            else api_measurement.context
+                        ),
                         attributes=_clean_attributes(
                             api_measurement.attributes
                         ),
@@ -192,7 +196,7 @@ class Counter(_Synchronous, APICounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                get_current() if context is None else context,
                 _clean_attributes(attributes),
             )
         )
@@ -216,7 +220,7 @@ class UpDownCounter(_Synchronous, APIUpDownCounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                get_current() if context is None else context,
                 _clean_attributes(attributes),
             )
         )
@@ -284,7 +288,7 @@ class Histogram(_Synchronous, APIHistogram):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                get_current() if context is None else context,
                 _clean_attributes(attributes),
             )
         )
@@ -308,7 +312,7 @@ class Gauge(_Synchronous, APIGauge):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                get_current() if context is None else context,
                 _clean_attributes(attributes),
             )
         )
-- 
2.43.0


From 46b3c6885398a7e9f6698de156410b05df60727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 21/72] fix: an exemplar must not keep the trace context of the
 one it replaces

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 22d1ee9..c683570 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -114,6 +114,9 @@ class ExemplarBucket:
             span_context = span.get_span_context()
             self.__span_id = span_context.span_id
             self.__trace_id = span_context.trace_id
+        else:
+            self.__span_id = None
+            self.__trace_id = None
 
         self.__offered = True
 
-- 
2.43.0


From 8b2cb84378d4f57bdc5d9e7a876d0e2af0774325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 22/72] fix: offer exemplars under the aggregation lock so
 concurrent recordings and collections cannot tear them or raise

---
 .../sdk/metrics/_internal/aggregation.py            | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 1fbe036..7f7db27 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -193,7 +193,7 @@ class _SumAggregation(_Aggregation[Sum]):
 
             self._value = self._value + measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -418,7 +418,7 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
         with self._lock:
             self._value = measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -433,8 +433,7 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
                 return None
             value = self._value
             self._value = None
-
-        exemplars = self._collect_exemplars()
+            exemplars = self._collect_exemplars()
 
         return NumberDataPoint(
             attributes=self._attributes,
@@ -524,7 +523,7 @@ class _ExplicitBucketHistogramAggregation(_Aggregation[HistogramPoint]):
 
             self._value[bisect_left(self._boundaries, measurement_value)] += 1
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -733,6 +732,8 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
 
                 self._scale = self._mapping.scale
 
+                self._sample_exemplar(measurement, should_sample_exemplar)
+
                 return
 
             if measurement_value > 0:
@@ -819,7 +820,7 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             # in _ExplicitBucketHistogramAggregation.aggregate
             value.increment_bucket(bucket_index)
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
-- 
2.43.0


From 0eb86086823f4ba99b810be54eb9881652a0b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 23/72] fix: create each instrument atomically so concurrent or
 previously failed creations do not raise KeyError

---
 .../sdk/metrics/_internal/__init__.py         | 111 ++++++++++++------
 1 file changed, 77 insertions(+), 34 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index faa0959..05e6dc9 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -89,6 +89,21 @@ class Meter(APIMeter):
         self._instrument_id_instrument = {}
         self._instrument_id_instrument_lock = Lock()
 
+    def _store_instrument(self, instrument_id, instrument):
+        # The first instrument stored is the one every caller gets.
+        with self._instrument_id_instrument_lock:
+            return self._instrument_id_instrument.setdefault(
+                instrument_id, instrument
+            )
+
+    def _store_asynchronous_instrument(self, instrument_id, instrument):
+        stored = self._store_instrument(instrument_id, instrument)
+        if stored is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return stored
+
     def create_counter(self, name, unit="", description="") -> APICounter:
         status = self._register_instrument(name, _Counter, unit, description)
 
@@ -104,8 +119,14 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # None if the instrument is being created by another thread, or
+            # could not be created because its definition is invalid.
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _Counter(
             name,
@@ -115,9 +136,7 @@ class Meter(APIMeter):
             description,
         )
 
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_instrument(status.instrument_id, instrument)
 
     def create_up_down_counter(
         self, name, unit="", description=""
@@ -138,8 +157,14 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # None if the instrument is being created by another thread, or
+            # could not be created because its definition is invalid.
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _UpDownCounter(
             name,
@@ -149,9 +174,7 @@ class Meter(APIMeter):
             description,
         )
 
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_instrument(status.instrument_id, instrument)
 
     def create_observable_counter(
         self,
@@ -176,8 +199,14 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # None if the instrument is being created by another thread, or
+            # could not be created because its definition is invalid.
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _ObservableCounter(
             name,
@@ -188,11 +217,9 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_asynchronous_instrument(
+            status.instrument_id, instrument
+        )
 
     def create_histogram(
         self,
@@ -243,8 +270,14 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # None if the instrument is being created by another thread, or
+            # could not be created because its definition is invalid.
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _Histogram(
             name,
@@ -254,9 +287,7 @@ class Meter(APIMeter):
             description,
             explicit_bucket_boundaries_advisory,
         )
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_instrument(status.instrument_id, instrument)
 
     def create_gauge(self, name, unit="", description="") -> APIGauge:
         status = self._register_instrument(name, _Gauge, unit, description)
@@ -273,8 +304,14 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # None if the instrument is being created by another thread, or
+            # could not be created because its definition is invalid.
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _Gauge(
             name,
@@ -284,9 +321,7 @@ class Meter(APIMeter):
             description,
         )
 
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_instrument(status.instrument_id, instrument)
 
     def create_observable_gauge(
         self, name, callbacks=None, unit="", description=""
@@ -307,8 +342,14 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # None if the instrument is being created by another thread, or
+            # could not be created because its definition is invalid.
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _ObservableGauge(
             name,
@@ -319,11 +360,9 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_asynchronous_instrument(
+            status.instrument_id, instrument
+        )
 
     def create_observable_up_down_counter(
         self, name, callbacks=None, unit="", description=""
@@ -344,8 +383,14 @@ class Meter(APIMeter):
                 status,
             )
         if status.already_registered:
+            # None if the instrument is being created by another thread, or
+            # could not be created because its definition is invalid.
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                instrument = self._instrument_id_instrument.get(
+                    status.instrument_id
+                )
+            if instrument is not None:
+                return instrument
 
         instrument = _ObservableUpDownCounter(
             name,
@@ -356,11 +401,9 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
-        with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+        return self._store_asynchronous_instrument(
+            status.instrument_id, instrument
+        )
 
 
 def _get_exemplar_filter(exemplar_filter: str) -> ExemplarFilter:
-- 
2.43.0


From e66ebadd049373ae20a0b82f5eb72fc8158b4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 24/72] fix: instrument identity must not depend on commas in
 units and descriptions

---
 .../src/opentelemetry/metrics/_internal/__init__.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 2319d8d..e53c3e3 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -252,8 +252,9 @@ class Meter(ABC):
         the registered instrument advisory.
         """
 
-        instrument_id = ",".join(
-            [name.strip().lower(), type_.__name__, unit, description]
+        # The parts may contain any separator, so they cannot just be joined.
+        instrument_id = repr(
+            (name.strip().lower(), type_.__name__, unit, description)
         )
 
         already_registered = False
-- 
2.43.0


From b7dc0883da11df7c184720d30e2c1042525b1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 25/72] fix: keep the periodic metric reader running when a
 collection fails

---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 52c6833..b2cf371 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -528,6 +528,11 @@ class PeriodicExportingMetricReader(MetricReader):
                     interval_secs,
                     exc_info=True,
                 )
+            except Exception:  # pylint: disable=broad-exception-caught
+                _logger.exception(
+                    "Metric collection failed. Will try again after %s seconds",
+                    interval_secs,
+                )
         # one last collection below before shutting down completely
         try:
             self.collect(timeout_millis=self._export_interval_millis)
-- 
2.43.0


From ec9621df24410b3cf622fe03e29675bc54b4a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 26/72] fix: periodic metric reader flush and shutdown cover
 collections in progress; nothing is exported after shutdown

---
 .../sdk/metrics/_internal/export/__init__.py  | 40 ++++++++++++++-----
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index b2cf371..0bc047b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -17,11 +17,12 @@ import math
 import os
 import weakref
 from abc import ABC, abstractmethod
+from contextlib import nullcontext
 from enum import Enum
 from logging import getLogger
 from os import environ, linesep
 from sys import stdout
-from threading import Event, Lock, RLock, Thread
+from threading import Event, RLock, Thread
 from time import time_ns
 from typing import IO, Callable, Iterable, Optional
 
@@ -212,6 +213,10 @@ class MetricReader(ABC):
     .. automethod:: _receive_metrics
     """
 
+    # Subclasses may set this to a lock to keep a collection and the handling
+    # of its result together.
+    _collect_guard = nullcontext()
+
     def __init__(
         self,
         preferred_temporality: dict[type, AggregationTemporality]
@@ -337,13 +342,14 @@ class MetricReader(ABC):
             )
             return
 
-        metrics = self._collect(self, timeout_millis=timeout_millis)
+        with self._collect_guard:
+            metrics = self._collect(self, timeout_millis=timeout_millis)
 
-        if metrics is not None:
-            self._receive_metrics(
-                metrics,
-                timeout_millis=timeout_millis,
-            )
+            if metrics is not None:
+                self._receive_metrics(
+                    metrics,
+                    timeout_millis=timeout_millis,
+                )
 
     @final
     def _set_collect_callback(
@@ -458,7 +464,12 @@ class PeriodicExportingMetricReader(MetricReader):
         # This lock is held whenever calling self._exporter.export() to prevent concurrent
         # execution of MetricExporter.export()
         # https://github.com/open-telemetry/opentelemetry-specification/blob/main/specification/metrics/sdk.md#exportbatch
-        self._export_lock = Lock()
+        # Held from the start of a collection to the end of its export, so that
+        # a flush or shutdown does not return while another thread has
+        # collected measurements that are not exported yet.
+        self._export_lock = RLock()
+        self._collect_guard = self._export_lock
+        self._exporter_shutdown = False
 
         self._exporter = exporter
         if export_interval_millis is None:
@@ -552,12 +563,16 @@ class PeriodicExportingMetricReader(MetricReader):
         # pylint: disable=broad-exception-caught,invalid-name
         try:
             with self._export_lock:
+                if self._exporter_shutdown:
+                    _logger.warning("Exporter already shutdown, ignoring batch")
+                    return
                 self._exporter.export(
                     metrics_data, timeout_millis=timeout_millis
                 )
         except Exception:
             _logger.exception("Exception while exporting metrics")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
         deadline_ns = time_ns() + timeout_millis * 10**6
@@ -573,6 +588,13 @@ class PeriodicExportingMetricReader(MetricReader):
         self._shutdown_event.set()
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
+        # Let an export in progress finish, and start no other one.
+        locked = self._export_lock.acquire(
+            timeout=max(0, (deadline_ns - time_ns()) / 10**9)
+        )
+        self._exporter_shutdown = True
+        if locked:
+            self._export_lock.release()
         self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
-- 
2.43.0


From 69f45a5cfe7b801ef04060ad83c367c3f9aa1917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 27/72] fix: renew the metric SDK's locks and the periodic
 reader's state in a forked child

---
 .../metrics/_internal/_view_instrument_match.py |  5 +++++
 .../sdk/metrics/_internal/export/__init__.py    | 16 +++++++++++++---
 .../metrics/_internal/measurement_consumer.py   | 17 +++++++++++++++++
 .../metrics/_internal/metric_reader_storage.py  |  8 ++++++++
 4 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index be81d70..afde746 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -87,6 +87,11 @@ class _ViewInstrumentMatch:
 
         return result
 
+    def _at_fork_reinit(self) -> None:
+        self._lock = Lock()
+        for aggregation in self._attributes_aggregation.values():
+            aggregation._lock = Lock()
+
     # pylint: disable=protected-access
     def consume_measurement(
         self, measurement: Measurement, should_sample_exemplar: bool = True
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 0bc047b..12ae671 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -511,9 +511,12 @@ class PeriodicExportingMetricReader(MetricReader):
             if hasattr(os, "register_at_fork"):
                 weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
 
-                os.register_at_fork(
-                    after_in_child=lambda: weak_at_fork()()  # pylint: disable=unnecessary-lambda, protected-access
-                )
+                def at_fork_reinit():
+                    method = weak_at_fork()
+                    if method is not None:
+                        method()
+
+                os.register_at_fork(after_in_child=at_fork_reinit)
         elif self._export_interval_millis <= 0:
             raise ValueError(
                 f"interval value {self._export_interval_millis} is invalid \
@@ -521,6 +524,13 @@ class PeriodicExportingMetricReader(MetricReader):
             )
 
     def _at_fork_reinit(self):
+        # Another thread of the parent may have held these at the fork.
+        self._export_lock = RLock()
+        self._collect_guard = self._export_lock
+        self._shutdown_event = Event()
+        if self._shutdown:
+            self._shutdown_event.set()
+            return
         self._daemon_thread = Thread(
             name="OtelPeriodicExportingMetricReader",
             target=self._ticker,
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index 432a754..590d8ca 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -14,6 +14,8 @@
 
 # pylint: disable=unused-import
 
+import os
+import weakref
 from abc import ABC, abstractmethod
 from threading import Lock
 from time import time_ns
@@ -76,6 +78,21 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
         self._async_instruments: List[
             "opentelemetry.sdk.metrics._internal.instrument._Asynchronous"
         ] = []
+        if hasattr(os, "register_at_fork"):
+            weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
+
+            def at_fork_reinit():
+                method = weak_at_fork()
+                if method is not None:
+                    method()
+
+            os.register_at_fork(after_in_child=at_fork_reinit)
+
+    def _at_fork_reinit(self) -> None:
+        # Another thread of the parent may have held the locks at the fork.
+        self._lock = Lock()
+        for reader_storage in self._reader_storages.values():
+            reader_storage._at_fork_reinit()
 
     def consume_measurement(self, measurement: Measurement) -> None:
         should_sample_exemplar = (
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
index c8e00fb..faaacb0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
@@ -76,6 +76,14 @@ class MetricReaderStorage:
         self._instrument_class_temporality = instrument_class_temporality
         self._instrument_class_aggregation = instrument_class_aggregation
 
+    def _at_fork_reinit(self) -> None:
+        self._lock = RLock()
+        for (
+            view_instrument_matches
+        ) in self._instrument_view_instrument_matches.values():
+            for view_instrument_match in view_instrument_matches:
+                view_instrument_match._at_fork_reinit()
+
     def _get_or_init_view_instrument_match(
         self, instrument: Instrument
     ) -> List[_ViewInstrumentMatch]:
-- 
2.43.0


From 192c7c2b6c893207325ab569c9bf24ff247bc307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 28/72] fix: a lock held at the fork no longer blocks Once in
 the child

---
 opentelemetry-api/src/opentelemetry/util/_once.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/opentelemetry-api/src/opentelemetry/util/_once.py b/opentelemetry-api/src/opentelemetry/util/_once.py
index c0cee43..2a4070a 100644
--- a/opentelemetry-api/src/opentelemetry/util/_once.py
+++ b/opentelemetry-api/src/opentelemetry/util/_once.py
@@ -12,8 +12,10 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import os
 from threading import Lock
 from typing import Callable
+from weakref import WeakMethod
 
 
 class Once:
@@ -25,6 +27,16 @@ class Once:
     def __init__(self) -> None:
         self._lock = Lock()
         self._done = False
+        if hasattr(os, "register_at_fork"):
+            weak_at_fork = WeakMethod(self._at_fork_reinit)
+            os.register_at_fork(
+                after_in_child=lambda: (weak_at_fork() or (lambda: None))()
+            )
+
+    def _at_fork_reinit(self) -> None:
+        # The lock may have been held by a thread that does not exist in the
+        # child, in which case it would never be released.
+        self._lock = Lock()
 
     def do_once(self, func: Callable[[], None]) -> bool:
         """Execute ``func`` if it hasn't been executed or return.
-- 
2.43.0


From c2ec6b7a5ccc15d77fedaffc448533c9eb12a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 29/72] fix: EventLoggerProvider.force_flush reports the result
 of the flush

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index ae16302..1180c7d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -86,4 +86,4 @@ class EventLoggerProvider(APIEventLoggerProvider):
         self._logger_provider.shutdown()
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
-        self._logger_provider.force_flush(timeout_millis)
+        return self._logger_provider.force_flush(timeout_millis)
-- 
2.43.0


From ea64acaa11e1f6444e0b2d797de7388e87e63903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 30/72] fix: NoOpTracer propagates the span context of the
 parent

---
 opentelemetry-api/src/opentelemetry/trace/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/__init__.py b/opentelemetry-api/src/opentelemetry/trace/__init__.py
index 73087e9..b3ff0a6 100644
--- a/opentelemetry-api/src/opentelemetry/trace/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/trace/__init__.py
@@ -469,7 +469,12 @@ class NoOpTracer(Tracer):
         record_exception: bool = True,
         set_status_on_exception: bool = True,
     ) -> "Span":
-        return INVALID_SPAN
+        # There is nothing to record but the span context of the parent still
+        # has to be propagated.
+        parent_span = get_current_span(context)
+        if isinstance(parent_span, NonRecordingSpan):
+            return parent_span
+        return NonRecordingSpan(parent_span.get_span_context())
 
     @_agnosticcontextmanager
     def start_as_current_span(
@@ -484,7 +489,8 @@ class NoOpTracer(Tracer):
         set_status_on_exception: bool = True,
         end_on_exit: bool = True,
     ) -> Iterator["Span"]:
-        yield INVALID_SPAN
+        with use_span(self.start_span(name, context)) as span:
+            yield span
 
 
 @deprecated(version="1.9.0", reason="You should use NoOpTracer")  # type: ignore
-- 
2.43.0


From 124af12d0cd32743c1b080fa1e1b4e6d93036b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 31/72] fix: proxy meters keep the instrumentation scope
 attributes they were requested with

---
 .../metrics/_internal/__init__.py             | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index e53c3e3..525e842 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -151,6 +151,18 @@ class NoOpMeterProvider(MeterProvider):
         return NoOpMeter(name, version=version, schema_url=schema_url)
 
 
+def _get_real_meter(
+    meter_provider: MeterProvider,
+    name: str,
+    version: Optional[str],
+    schema_url: Optional[str],
+    attributes: Optional[Attributes],
+) -> "Meter":
+    if attributes is None:
+        return meter_provider.get_meter(name, version, schema_url)
+    return meter_provider.get_meter(name, version, schema_url, attributes)
+
+
 class _ProxyMeterProvider(MeterProvider):
     def __init__(self) -> None:
         self._lock = Lock()
@@ -166,11 +178,20 @@ class _ProxyMeterProvider(MeterProvider):
     ) -> "Meter":
         with self._lock:
             if self._real_meter_provider is not None:
-                return self._real_meter_provider.get_meter(
-                    name, version, schema_url
+                return _get_real_meter(
+                    self._real_meter_provider,
+                    name,
+                    version,
+                    schema_url,
+                    attributes,
                 )
 
-            meter = _ProxyMeter(name, version=version, schema_url=schema_url)
+            meter = _ProxyMeter(
+                name,
+                version=version,
+                schema_url=schema_url,
+                attributes=attributes,
+            )
             self._meters.append(meter)
             return meter
 
@@ -506,8 +527,10 @@ class _ProxyMeter(Meter):
         name: str,
         version: Optional[str] = None,
         schema_url: Optional[str] = None,
+        attributes: Optional[Attributes] = None,
     ) -> None:
         super().__init__(name, version=version, schema_url=schema_url)
+        self._attributes = attributes
         self._lock = Lock()
         self._instruments: List[_ProxyInstrumentT] = []
         self._real_meter: Optional[Meter] = None
@@ -518,8 +541,12 @@ class _ProxyMeter(Meter):
         Creates a real backing meter for this instance and notifies all created
         instruments so they can create real backing instruments.
         """
-        real_meter = meter_provider.get_meter(
-            self._name, self._version, self._schema_url
+        real_meter = _get_real_meter(
+            meter_provider,
+            self._name,
+            self._version,
+            self._schema_url,
+            self._attributes,
         )
 
         with self._lock:
-- 
2.43.0


From 21ede4aae9fc11fb1d4ac82fb868165e25986737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 32/72] fix: an invalid early instrument no longer keeps
 set_meter_provider from taking effect

---
 .../src/opentelemetry/metrics/_internal/__init__.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 525e842..9c8783c 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -554,7 +554,12 @@ class _ProxyMeter(Meter):
             # notify all proxy instruments of the new meter so they can create
             # real instruments to back themselves
             for instrument in self._instruments:
-                instrument.on_meter_set(real_meter)
+                # An instrument the real meter refuses must not prevent the
+                # provider and the other instruments from being set.
+                try:
+                    instrument.on_meter_set(real_meter)
+                except Exception:  # pylint: disable=broad-exception-caught
+                    _logger.exception("Failed to create instrument")
 
     def create_counter(
         self,
-- 
2.43.0


From 02cd9e2530bc10906c5d1cac79bdb0f545a1b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 33/72] fix: LoggingHandler raised AttributeError before a
 logger provider was set

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 53a320c..eae7b22 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -548,7 +548,7 @@ class LoggingHandler(logging.Handler):
             severity_text=level_name,
             severity_number=severity_number,
             body=body,
-            resource=logger.resource,
+            resource=getattr(logger, "resource", None),
             attributes=attributes,
         )
 
-- 
2.43.0


From 22a8079beee8bd20aca01d9208379da6756c429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 34/72] fix: a log record that cannot be formatted no longer
 raises into the application

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index eae7b22..13f18b8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -560,7 +560,13 @@ class LoggingHandler(logging.Handler):
         """
         logger = get_logger(record.name, logger_provider=self._logger_provider)
         if not isinstance(logger, NoOpLogger):
-            logger.emit(self._translate(record))
+            try:
+                log_record = self._translate(record)
+            except Exception:  # pylint: disable=broad-exception-caught
+                # e.g. arguments that do not fit the format string
+                self.handleError(record)
+                return
+            logger.emit(log_record)
 
     def flush(self) -> None:
         """
-- 
2.43.0


From 3eb07549a357927232bac0e773c846ed3d120cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 35/72] fix: injecting baggage with an unencodable character
 raised UnicodeEncodeError

---
 .../src/opentelemetry/baggage/propagation/__init__.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
index 2923ff4..91401ce 100644
--- a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
@@ -133,7 +133,9 @@ class W3CBaggagePropagator(textmap.TextMapPropagator):
 
 def _format_baggage(baggage_entries: Mapping[str, object]) -> str:
     return ",".join(
-        quote_plus(str(key)) + "=" + quote_plus(str(value))
+        quote_plus(str(key), errors="replace")
+        + "="
+        + quote_plus(str(value), errors="replace")
         for key, value in baggage_entries.items()
     )
 
-- 
2.43.0


From cf16ae51f47a19fc371f801eab636767a2201fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 36/72] fix: OTLP span links lost their trace state

---
 .../otlp/proto/common/_internal/trace_encoder/__init__.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
index 388d229..dbedbce 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
@@ -14,7 +14,7 @@
 
 import logging
 from collections import defaultdict
-from typing import List, Optional, Sequence
+from typing import List, Mapping, Optional, Sequence
 
 from opentelemetry.exporter.otlp.proto.common._internal import (
     _encode_attributes,
@@ -159,6 +159,7 @@ def _encode_links(links: Sequence[Link]) -> Sequence[PB2SPan.Link]:
             encoded_link = PB2SPan.Link(
                 trace_id=_encode_trace_id(link.context.trace_id),
                 span_id=_encode_span_id(link.context.span_id),
+                trace_state=_encode_trace_state(link.context.trace_state),
                 attributes=_encode_attributes(link.attributes),
                 dropped_attributes_count=link.dropped_attributes,
                 flags=_span_flags(link.context),
@@ -179,7 +180,7 @@ def _encode_status(status: Status) -> Optional[PB2Status]:
 
 def _encode_trace_state(trace_state: TraceState) -> Optional[str]:
     pb2_trace_state = None
-    if trace_state is not None:
+    if isinstance(trace_state, Mapping):
         pb2_trace_state = ",".join(
             [f"{key}={value}" for key, value in (trace_state.items())]
         )
-- 
2.43.0


From d63b3b2c7cd4c639c451508a3a2bb5f6fa1fc40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 37/72] fix: a log body without OTLP representation no longer
 loses its batch

---
 .../common/_internal/_log_encoder/__init__.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index e2c9944..9fc7c4c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 from collections import defaultdict
-from typing import List, Sequence
+from typing import Any, List, Optional, Sequence
 
 from opentelemetry.exporter.otlp.proto.common._internal import (
     _encode_attributes,
@@ -25,6 +25,7 @@ from opentelemetry.exporter.otlp.proto.common._internal import (
 from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import (
     ExportLogsServiceRequest,
 )
+from opentelemetry.proto.common.v1.common_pb2 import AnyValue as PB2AnyValue
 from opentelemetry.proto.logs.v1.logs_pb2 import LogRecord as PB2LogRecord
 from opentelemetry.proto.logs.v1.logs_pb2 import (
     ResourceLogs,
@@ -37,6 +38,20 @@ def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
     return ExportLogsServiceRequest(resource_logs=_encode_resource_logs(batch))
 
 
+def _encode_body(body: Any) -> Optional[PB2AnyValue]:
+    # pylint: disable=broad-exception-caught
+    try:
+        return _encode_value(body, allow_null=True)
+    except Exception:
+        # A body that has no OTLP representation is sent as text, it must not
+        # prevent the other records of the batch from being exported.
+        try:
+            text = str(body)
+        except Exception:
+            return None
+        return _encode_value(text.encode("utf-8", "replace").decode("utf-8"))
+
+
 def _encode_log(log_data: LogData) -> PB2LogRecord:
     span_id = (
         None
@@ -56,7 +71,7 @@ def _encode_log(log_data: LogData) -> PB2LogRecord:
         span_id=span_id,
         trace_id=trace_id,
         flags=int(log_data.log_record.trace_flags or 0),
-        body=_encode_value(body, allow_null=True),
+        body=_encode_body(body),
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-- 
2.43.0


From b7891b0bbf2a9ec637037804bc23860c345b4401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 38/72] fix: unusable retry information made the OTLP gRPC
 exporters raise

---
 .../exporter/otlp/proto/grpc/exporter.py       | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 4be75c5..d7bd95c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -35,6 +35,7 @@ from typing import Sequence as TypingSequence
 from urllib.parse import urlparse
 
 from deprecated import deprecated
+from google.protobuf.message import DecodeError
 from google.rpc.error_details_pb2 import RetryInfo
 
 from grpc import (
@@ -318,11 +319,18 @@ class OTLPExporterMixin(
                         )
                         if retry_info_bin is not None:
                             retry_info = RetryInfo()
-                            retry_info.ParseFromString(retry_info_bin)
-                            delay = (
-                                retry_info.retry_delay.seconds
-                                + retry_info.retry_delay.nanos / 1.0e9
-                            )
+                            try:
+                                retry_info.ParseFromString(retry_info_bin)
+                            except DecodeError:
+                                logger.warning(
+                                    "Ignoring malformed retry information"
+                                )
+                            else:
+                                delay = max(
+                                    0,
+                                    retry_info.retry_delay.seconds
+                                    + retry_info.retry_delay.nanos / 1.0e9,
+                                )
 
                         logger.warning(
                             (
-- 
2.43.0


From 04d436320fed7b46726d75f2c640beca6da78562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 39/72] fix: OTLP gRPC export and shutdown raised when they met

---
 .../opentelemetry/exporter/otlp/proto/grpc/exporter.py   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index d7bd95c..b82e5c3 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -295,6 +295,10 @@ class OTLPExporterMixin(
                 return self._result.FAILURE
 
             with self._export_lock:
+                if self._shutdown:
+                    # shut down while waiting for another export
+                    return self._result.FAILURE
+
                 try:
                     self._client.Export(
                         request=self._translate_data(data),
@@ -365,10 +369,11 @@ class OTLPExporterMixin(
             logger.warning("Exporter already shutdown, ignoring call")
             return
         # wait for the last export if any
-        self._export_lock.acquire(timeout=timeout_millis / 1e3)
+        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)
         self._shutdown = True
         self._channel.close()
-        self._export_lock.release()
+        if acquired:
+            self._export_lock.release()
 
     @property
     @abstractmethod
-- 
2.43.0


From b949e8642010d1adeb94e76acba0a80534acc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 40/72] fix: the OTLP HTTP metric exporter kept sending after
 shutdown

---
 .../otlp/proto/http/metric_exporter/__init__.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 00f429e..971892a 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -160,6 +160,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
             self._session.headers.update(
                 {"Content-Encoding": self._compression.value}
             )
+        self._shutdown = False
 
         self._common_configuration(
             preferred_temporality, preferred_aggregation
@@ -197,6 +198,12 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         timeout_millis: float = 10_000,
         **kwargs,
     ) -> MetricExportResult:
+        # After the call to Shutdown subsequent calls to Export are
+        # not allowed and should return a Failure result.
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring batch")
+            return MetricExportResult.FAILURE
+
         serialized_data = encode_metrics(metrics_data)
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
@@ -226,7 +233,11 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         return MetricExportResult.FAILURE
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
-        pass
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring call")
+            return
+        self._session.close()
+        self._shutdown = True
 
     @property
     def _exporting(self) -> str:
-- 
2.43.0


From 0da408317e30a5f5338c9723120a6782b02fcd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 41/72] fix: OTLP HTTP exporters kept retrying after shutdown

---
 .../exporter/otlp/proto/http/_log_exporter/__init__.py          | 2 +-
 .../exporter/otlp/proto/http/metric_exporter/__init__.py        | 2 +-
 .../exporter/otlp/proto/http/trace_exporter/__init__.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 21b8773..2f7cf9c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -161,7 +161,7 @@ class OTLPLogExporter(LogExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return LogExportResult.FAILURE
 
             resp = self._export(serialized_data)
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 971892a..8350234 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -208,7 +208,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return MetricExportResult.FAILURE
 
             resp = self._export(serialized_data.SerializeToString())
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index 7bcf4b4..8fde7ad 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -153,7 +153,7 @@ class OTLPSpanExporter(SpanExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return SpanExportResult.FAILURE
 
             resp = self._export(serialized_data)
-- 
2.43.0


From 41ce14e4d2405939d2dd12c45cd4e15fc6023a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 42/72] fix: an exponential histogram made every Prometheus
 scrape fail

---
 .../src/opentelemetry/exporter/prometheus/__init__.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 475cfb1..bea306e 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -230,6 +230,12 @@ class _CustomCollector:
 
             per_metric_family_ids = []
 
+            if not isinstance(metric.data, (Sum, Gauge, Histogram)):
+                _logger.warning(
+                    "Unsupported metric data. %s", type(metric.data)
+                )
+                continue
+
             metric_name = sanitize_full_name(metric.name)
             metric_description = metric.description or ""
             metric_unit = map_unit(metric.unit)
@@ -358,10 +364,6 @@ class _CustomCollector:
                         ),
                         sum_value=value["sum"],
                     )
-                else:
-                    _logger.warning(
-                        "Unsupported metric data. %s", type(metric.data)
-                    )
 
     # pylint: disable=no-self-use
     def _check_value(self, value: Union[int, float, str, Sequence]) -> str:
-- 
2.43.0


From 0464428165d3277c97a288a44142c00a1665cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 43/72] fix: Prometheus scrapes repeated metrics after a flush
 and could miss them when concurrent

---
 .../exporter/prometheus/__init__.py           | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index bea306e..7ba8086 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -67,6 +67,7 @@ from itertools import chain
 from json import dumps
 from logging import getLogger
 from os import environ
+from threading import Lock
 from typing import Deque, Dict, Iterable, Sequence, Tuple, Union
 
 from prometheus_client import start_http_server
@@ -169,7 +170,8 @@ class _CustomCollector:
 
     def __init__(self, disable_target_info: bool = False):
         self._callback = None
-        self._metrics_datas: Deque[MetricsData] = deque()
+        self._lock = Lock()
+        self._metrics_datas: Deque[MetricsData] = deque(maxlen=1)
         self._disable_target_info = disable_target_info
         self._target_info = None
 
@@ -183,16 +185,22 @@ class _CustomCollector:
         Collect is invoked every time a ``prometheus.Gatherer`` is run
         for example when the HTTP endpoint is invoked by Prometheus.
         """
-        if self._callback is not None:
-            self._callback()
+        with self._lock:
+            if self._callback is not None:
+                # What flushes and other collections left here is superseded
+                # by this collection.
+                self._metrics_datas.clear()
+                self._callback()
+            metrics_datas = list(self._metrics_datas)
+            self._metrics_datas.clear()
 
         metric_family_id_metric_family = {}
 
-        if len(self._metrics_datas):
+        if metrics_datas:
             if not self._disable_target_info:
                 if self._target_info is None:
                     attributes: Attributes = {}
-                    for res in self._metrics_datas[0].resource_metrics:
+                    for res in metrics_datas[0].resource_metrics:
                         attributes = {**attributes, **res.resource.attributes}
 
                     self._target_info = self._create_info_metric(
@@ -202,9 +210,9 @@ class _CustomCollector:
                     self._target_info
                 )
 
-        while self._metrics_datas:
+        for metrics_data in metrics_datas:
             self._translate_to_prometheus(
-                self._metrics_datas.popleft(), metric_family_id_metric_family
+                metrics_data, metric_family_id_metric_family
             )
 
             if metric_family_id_metric_family:
-- 
2.43.0


From 9c44fb6348c77c2e3ed1dc091a6bec3e520ed9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 44/72] fix: Prometheus labels whose sanitized keys collide
 lost values

---
 .../exporter/prometheus/__init__.py           | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 7ba8086..4a45b58 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -249,12 +249,9 @@ class _CustomCollector:
             metric_unit = map_unit(metric.unit)
 
             for number_data_point in metric.data.data_points:
-                label_keys = []
-                label_values = []
-
-                for key, value in sorted(number_data_point.attributes.items()):
-                    label_keys.append(sanitize_attribute(key))
-                    label_values.append(self._check_value(value))
+                labels = self._create_labels(number_data_point.attributes)
+                label_keys = list(labels.keys())
+                label_values = list(labels.values())
 
                 per_metric_family_ids.append(
                     "|".join(
@@ -380,15 +377,23 @@ class _CustomCollector:
             return dumps(value, default=str)
         return str(value)
 
+    def _create_labels(self, attributes: Attributes) -> Dict[str, str]:
+        """Create labels with valid keys, values of colliding keys are joined"""
+        labels: Dict[str, str] = {}
+        for key, value in sorted(attributes.items()):
+            label_key = sanitize_attribute(key)
+            label_value = self._check_value(value)
+            if label_key in labels:
+                label_value = f"{labels[label_key]};{label_value}"
+            labels[label_key] = label_value
+        return labels
+
     def _create_info_metric(
         self, name: str, description: str, attributes: Dict[str, str]
     ) -> InfoMetricFamily:
         """Create an Info Metric Family with list of attributes"""
         # sanitize the attribute names according to Prometheus rule
-        attributes = {
-            sanitize_attribute(key): self._check_value(value)
-            for key, value in attributes.items()
-        }
+        attributes = self._create_labels(attributes)
         info = InfoMetricFamily(name, description, labels=attributes)
         info.add_metric(labels=list(attributes.keys()), value=attributes)
         return info
-- 
2.43.0


From b141136ca97b9f2a8d87a6166b764a4f99dcddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 45/72] fix: the Zipkin JSON v1 exporter failed without a tag
 length limit

---
 .../src/opentelemetry/exporter/zipkin/json/v1/__init__.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
index c44a2dd..5014c21 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
@@ -27,7 +27,11 @@ class V1Encoder(Encoder):
     ) -> List[Dict]:
         binary_annotations = []
         for tag_key, tag_value in self._extract_tags_from_span(span).items():
-            if isinstance(tag_value, str) and self.max_tag_value_length > 0:
+            if (
+                isinstance(tag_value, str)
+                and self.max_tag_value_length is not None
+                and self.max_tag_value_length > 0
+            ):
                 tag_value = tag_value[: self.max_tag_value_length]
             binary_annotations.append(
                 {
-- 
2.43.0


From fb19d18805c8f8b6ebf099894095459d22870e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 46/72] fix: merge resource detectors in the configured order

---
 .../opentelemetry/sdk/resources/__init__.py   | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 752b906..f175a48 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -189,14 +189,19 @@ class Resource:
         if not attributes:
             attributes = {}
 
-        otel_experimental_resource_detectors = {"otel"}.union(
-            {
-                otel_experimental_resource_detector.strip()
-                for otel_experimental_resource_detector in environ.get(
-                    OTEL_EXPERIMENTAL_RESOURCE_DETECTORS, ""
-                ).split(",")
-                if otel_experimental_resource_detector
-            }
+        # A dict keeps the configured order, which decides which detector wins
+        # when several provide the same attribute.
+        otel_experimental_resource_detectors = dict.fromkeys(
+            [
+                "otel",
+                *(
+                    otel_experimental_resource_detector.strip()
+                    for otel_experimental_resource_detector in environ.get(
+                        OTEL_EXPERIMENTAL_RESOURCE_DETECTORS, ""
+                    ).split(",")
+                    if otel_experimental_resource_detector.strip()
+                ),
+            ]
         )
 
         resource_detectors: List[ResourceDetector] = []
-- 
2.43.0


From d6e095d18c79d99358152ec4fe05edb9cd526d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 47/72] fix: always give a created resource a service name

---
 opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index f175a48..ab5646c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -238,7 +238,9 @@ class Resource:
             if process_executable_name:
                 default_service_name += ":" + process_executable_name
             resource = resource.merge(
-                Resource({SERVICE_NAME: default_service_name}, schema_url)
+                Resource(
+                    {SERVICE_NAME: default_service_name}, resource.schema_url
+                )
             )
         return resource
 
-- 
2.43.0


From 4893c798ed100bd207290c596872e5ac8a9afc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 48/72] fix: do not let slow resource detectors starve others

---
 .../src/opentelemetry/sdk/resources/__init__.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index ab5646c..28e722b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -518,7 +518,11 @@ def get_aggregated_resources(
     """
     detectors_merged_resource = initial_resource or Resource.create()
 
-    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as executor:
+    # One worker per detector, so that slow detectors do not use up the time
+    # of those queued behind them.
+    with concurrent.futures.ThreadPoolExecutor(
+        max_workers=max(len(detectors), 1)
+    ) as executor:
         futures = [executor.submit(detector.detect) for detector in detectors]
         for detector_ind, future in enumerate(futures):
             detector = detectors[detector_ind]
-- 
2.43.0


From 496ff75307be658462becf6f9f2726b5ff21b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 49/72] fix: ignore blanks around the configured sampler name

---
 .../src/opentelemetry/sdk/_configuration/__init__.py        | 1 +
 opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py   | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
index c1852ed..a7753df 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
@@ -320,6 +320,7 @@ def _import_sampler_factory(sampler_name: str) -> Callable[[str], Sampler]:
 def _import_sampler(sampler_name: str) -> Sampler | None:
     if not sampler_name:
         return None
+    sampler_name = sampler_name.strip()
     try:
         sampler_factory = _import_sampler_factory(sampler_name)
         arg = None
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
index 95a6ce1..8ff9dae 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
@@ -426,9 +426,9 @@ _KNOWN_SAMPLERS = {
 
 
 def _get_from_env_or_default() -> Sampler:
-    trace_sampler = os.getenv(
-        OTEL_TRACES_SAMPLER, "parentbased_always_on"
-    ).lower()
+    trace_sampler = (
+        os.getenv(OTEL_TRACES_SAMPLER, "parentbased_always_on").strip().lower()
+    )
     if trace_sampler not in _KNOWN_SAMPLERS:
         _logger.warning("Couldn't recognize sampler %s.", trace_sampler)
         trace_sampler = "parentbased_always_on"
-- 
2.43.0


From 20c101c24a46506a3191f44addfa28be3439e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 50/72] fix: the OpenTracing shim did not see spans activated
 natively

---
 .../shim/opentracing_shim/__init__.py             | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 8f4935e..8eb0981 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -497,12 +497,15 @@ class ScopeManagerShim(ScopeManager):
         if span.get_span_context() == INVALID_SPAN_CONTEXT:
             return None
 
-        try:
-            return get_value(_SHIM_KEY)
-        except KeyError:
-            span_context = SpanContextShim(span.get_span_context())
-            wrapped_span = SpanShim(self._tracer, span_context, span)
-            return ScopeShim(self, span=wrapped_span)
+        # The span may have been activated without the shim, possibly inside
+        # of a scope of the shim.
+        scope = get_value(_SHIM_KEY)
+        if scope is not None and scope.span.unwrap() is span:
+            return scope
+
+        span_context = SpanContextShim(span.get_span_context())
+        wrapped_span = SpanShim(self._tracer, span_context, span)
+        return ScopeShim(self, span=wrapped_span)
 
     @property
     def tracer(self) -> "TracerShim":
-- 
2.43.0


From 3503bc70366b06e972afb260f1501c82c239ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 51/72] fix: OpenTracing shim parents: ignore_active_span and
 references

---
 .../shim/opentracing_shim/__init__.py         | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 8eb0981..65b5270 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -597,14 +597,6 @@ class TracerShim(Tracer):
             :class:`ScopeManagerShim`.
         """
 
-        current_span = get_current_span()
-
-        if (
-            child_of is None
-            and current_span.get_span_context() is not INVALID_SPAN_CONTEXT
-        ):
-            child_of = SpanShim(None, None, current_span)
-
         span = self.start_span(
             operation_name=operation_name,
             child_of=child_of,
@@ -649,8 +641,14 @@ class TracerShim(Tracer):
             An already-started :class:`SpanShim` instance.
         """
 
+        valid_links = []
+        if references:
+            for ref in references:
+                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
+                    valid_links.append(Link(ref.referenced_context.unwrap()))
+
         # Use active span as parent when no explicit parent is specified.
-        if not ignore_active_span and not child_of:
+        if not ignore_active_span and not child_of and not valid_links:
             child_of = self.active_span
 
         # Use the specified parent or the active span if possible. Otherwise,
@@ -659,12 +657,6 @@ class TracerShim(Tracer):
         if isinstance(parent, OtelSpanContext):
             parent = NonRecordingSpan(parent)
 
-        valid_links = []
-        if references:
-            for ref in references:
-                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
-                    valid_links.append(Link(ref.referenced_context.unwrap()))
-
         if valid_links and parent is None:
             parent = NonRecordingSpan(valid_links[0].context)
 
-- 
2.43.0


From ce966aa8e891ce97cf4844b4a3e5aa08e755f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 52/72] fix: ignore OpenTracing references without a context

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 65b5270..cf3fe4f 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -644,7 +644,12 @@ class TracerShim(Tracer):
         valid_links = []
         if references:
             for ref in references:
-                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
+                # References without a context must be ignored.
+                if (
+                    ref.referenced_context is not None
+                    and ref.referenced_context.unwrap()
+                    is not INVALID_SPAN_CONTEXT
+                ):
                     valid_links.append(Link(ref.referenced_context.unwrap()))
 
         # Use active span as parent when no explicit parent is specified.
-- 
2.43.0


From a2e44b190ec1ff77e0ce99b01b2f55be57cf0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 53/72] fix: keep the OpenTracing span that is activated

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index cf3fe4f..77472fb 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -474,7 +474,8 @@ class ScopeManagerShim(ScopeManager):
         """
 
         span_cm = use_span(span.unwrap(), end_on_exit=finish_on_close)
-        return ScopeShim.from_context_manager(self, span_cm=span_cm)
+        span_cm.__enter__()  # pylint: disable=unnecessary-dunder-call
+        return ScopeShim(self, span, span_cm)
 
     @property
     def active(self) -> "ScopeShim":
-- 
2.43.0


From bec37e941a39443f1cbd02b7dec7627c34c4e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 54/72] fix: OpenTracing extraction does not depend on the
 active span

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 77472fb..303524d 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -743,7 +743,9 @@ class TracerShim(Tracer):
             raise UnsupportedFormatException
 
         propagator = get_global_textmap()
-        ctx = propagator.extract(carrier)
+        # Nothing but the carrier decides what is extracted, not even the
+        # currently active span.
+        ctx = propagator.extract(carrier, context=Context())
         span = get_current_span(ctx)
         if span is not None:
             otel_context = span.get_span_context()
-- 
2.43.0


From 66d534576551bd5c916c89b4c790b1079af6c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 55/72] fix: carry baggage through the OpenTracing shim

---
 .../shim/opentracing_shim/__init__.py         | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 303524d..989c4d7 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -101,7 +101,7 @@ from opentracing import (
     UnsupportedFormatException,
 )
 
-from opentelemetry.baggage import get_baggage, set_baggage
+from opentelemetry.baggage import get_all, get_baggage, set_baggage
 from opentelemetry.context import (
     Context,
     attach,
@@ -181,6 +181,10 @@ class SpanContextShim(SpanContext):
 
         return self._baggage
 
+    def _add_baggage(self, source: Context) -> None:
+        for key, value in get_all(source).items():
+            self._baggage = set_baggage(key, value, context=self._baggage)
+
 
 class SpanShim(Span):
     """Wraps a :class:`opentelemetry.trace.Span` object.
@@ -643,6 +647,7 @@ class TracerShim(Tracer):
         """
 
         valid_links = []
+        parent_baggage = []
         if references:
             for ref in references:
                 # References without a context must be ignored.
@@ -652,6 +657,7 @@ class TracerShim(Tracer):
                     is not INVALID_SPAN_CONTEXT
                 ):
                     valid_links.append(Link(ref.referenced_context.unwrap()))
+                    parent_baggage.append(ref.referenced_context.baggage)
 
         # Use active span as parent when no explicit parent is specified.
         if not ignore_active_span and not child_of and not valid_links:
@@ -660,6 +666,10 @@ class TracerShim(Tracer):
         # Use the specified parent or the active span if possible. Otherwise,
         # use a `None` parent, which triggers the creation of a new trace.
         parent = child_of.unwrap() if child_of else None
+        if isinstance(child_of, SpanShim):
+            parent_baggage.append(child_of.context.baggage)
+        elif isinstance(child_of, SpanContextShim):
+            parent_baggage.append(child_of.baggage)
         if isinstance(parent, OtelSpanContext):
             parent = NonRecordingSpan(parent)
 
@@ -684,6 +694,9 @@ class TracerShim(Tracer):
         )
 
         context = SpanContextShim(span.get_span_context())
+        # Children and followers inherit baggage.
+        for baggage in parent_baggage:
+            context._add_baggage(baggage)  # pylint: disable=protected-access
         return SpanShim(self, context, span)
 
     def inject(self, span_context, format: object, carrier: object):
@@ -715,6 +728,11 @@ class TracerShim(Tracer):
             span = NonRecordingSpan(span)
 
         ctx = set_span_in_context(span)
+        if isinstance(span_context, SpanShim):
+            span_context = span_context.context
+        if isinstance(span_context, SpanContextShim):
+            for key, value in get_all(span_context.baggage).items():
+                ctx = set_baggage(key, value, context=ctx)
         propagator.inject(carrier, context=ctx)
 
     def extract(self, format: object, carrier: object):
@@ -752,4 +770,6 @@ class TracerShim(Tracer):
         else:
             otel_context = INVALID_SPAN_CONTEXT
 
-        return SpanContextShim(otel_context)
+        span_context = SpanContextShim(otel_context)
+        span_context._add_baggage(ctx)  # pylint: disable=protected-access
+        return span_context
-- 
2.43.0


From 80b9fba023376bb9bfc63c6446e80b7772b81383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 56/72] fix: read OpenCensus message event times as UTC

---
 .../src/opentelemetry/shim/opencensus/_shim_span.py    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
index 2012035..450af3f 100644
--- a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
+++ b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 import logging
-from datetime import datetime
+from datetime import datetime, timezone
 from typing import TYPE_CHECKING
 
 import wrapt
@@ -53,9 +53,11 @@ def _opencensus_time_to_nanos(timestamp: str) -> int:
     # https://github.com/census-instrumentation/opencensus-python/blob/c38c71b9285e71de94d0185ff3c5bf65ee163345/opencensus/common/utils/__init__.py#L76
     #
     # datetime.fromisoformat() does not work with the added "Z" until python 3.11
-    seconds_float = datetime.strptime(
-        timestamp, "%Y-%m-%dT%H:%M:%S.%fZ"
-    ).timestamp()
+    seconds_float = (
+        datetime.strptime(timestamp, "%Y-%m-%dT%H:%M:%S.%fZ")
+        .replace(tzinfo=timezone.utc)
+        .timestamp()
+    )
     return round(seconds_float * 1e9)
 
 
-- 
2.43.0


From 8a2f76ce64313e3106d844960e53c26d23b758c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 57/72] fix: show span times of zero in JSON

---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index c83b393..34cc203 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -489,11 +489,11 @@ class ReadableSpan:
             parent_id = f"0x{trace_api.format_span_id(self.parent.span_id)}"
 
         start_time = None
-        if self._start_time:
+        if self._start_time is not None:
             start_time = util.ns_to_iso_str(self._start_time)
 
         end_time = None
-        if self._end_time:
+        if self._end_time is not None:
             end_time = util.ns_to_iso_str(self._end_time)
 
         status = {
-- 
2.43.0


From ded214a6dae903d41244129bba34c25c8b063cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 58/72] fix: show log bodies with bytes in JSON

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 13f18b8..99bb8cf 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -15,6 +15,7 @@ from __future__ import annotations
 
 import abc
 import atexit
+import base64
 import concurrent.futures
 import json
 import logging
@@ -163,6 +164,15 @@ _UnsetLogLimits = LogLimits(
 )
 
 
+class _BytesEncoder(json.JSONEncoder):
+    """Shows bytes, which a log body may contain, as a base64 string."""
+
+    def default(self, o):
+        if isinstance(o, bytes):
+            return base64.b64encode(o).decode("ascii")
+        return super().default(o)
+
+
 class LogRecord(APILogRecord):
     """A LogRecord instance represents an event being logged.
 
@@ -250,6 +260,7 @@ class LogRecord(APILogRecord):
                 "resource": json.loads(self.resource.to_json()),
             },
             indent=indent,
+            cls=_BytesEncoder,
         )
 
     @property
-- 
2.43.0


From 3cdf2fffb29fea77cc8c9c7483407d83f0d73b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 59/72] fix: show any logged object in JSON

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 99bb8cf..7ac42bd 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -164,13 +164,14 @@ _UnsetLogLimits = LogLimits(
 )
 
 
-class _BytesEncoder(json.JSONEncoder):
-    """Shows bytes, which a log body may contain, as a base64 string."""
+class _BodyEncoder(json.JSONEncoder):
+    """Shows what a log body may contain beyond JSON: bytes as a base64 string
+    and, since any object can be logged, others by their string."""
 
     def default(self, o):
         if isinstance(o, bytes):
             return base64.b64encode(o).decode("ascii")
-        return super().default(o)
+        return str(o)
 
 
 class LogRecord(APILogRecord):
@@ -260,7 +261,7 @@ class LogRecord(APILogRecord):
                 "resource": json.loads(self.resource.to_json()),
             },
             indent=indent,
-            cls=_BytesEncoder,
+            cls=_BodyEncoder,
         )
 
     @property
-- 
2.43.0


From 156f0b3238c5fd3164121eacbbb5d61445d0ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 60/72] fix: concurrent processors lost their data at exit

---
 .../sdk/_logs/_internal/__init__.py            | 18 ++++++++++++++++--
 .../src/opentelemetry/sdk/trace/__init__.py    | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 7ac42bd..a4f995e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -397,6 +397,20 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         with self._lock:
             self._log_record_processors += (log_record_processor,)
 
+    def _submit(
+        self, func: Callable[..., Any], *args: Any, **kwargs: Any
+    ) -> concurrent.futures.Future:
+        try:
+            return self._executor.submit(func, *args, **kwargs)
+        except RuntimeError:
+            # executors accept no more work while the interpreter shuts down
+            future: concurrent.futures.Future = concurrent.futures.Future()
+            try:
+                future.set_result(func(*args, **kwargs))
+            except Exception as error:  # pylint: disable=broad-exception-caught
+                future.set_exception(error)
+            return future
+
     def _submit_and_wait(
         self,
         func: Callable[[LogRecordProcessor], Callable[..., None]],
@@ -405,7 +419,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
     ):
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(func(lp), *args, **kwargs)
+            future = self._submit(func(lp), *args, **kwargs)
             futures.append(future)
         for future in futures:
             future.result()
@@ -429,7 +443,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         """
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(lp.force_flush, timeout_millis)
+            future = self._submit(lp.force_flush, timeout_millis)
             futures.append(future)
 
         done_futures, not_done_futures = concurrent.futures.wait(
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 34cc203..5f359a0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -232,6 +232,20 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         with self._lock:
             self._span_processors += (span_processor,)
 
+    def _submit(
+        self, func: Callable[..., Any], *args: Any, **kwargs: Any
+    ) -> concurrent.futures.Future:
+        try:
+            return self._executor.submit(func, *args, **kwargs)
+        except RuntimeError:
+            # executors accept no more work while the interpreter shuts down
+            future: concurrent.futures.Future = concurrent.futures.Future()
+            try:
+                future.set_result(func(*args, **kwargs))
+            except Exception as error:  # pylint: disable=broad-exception-caught
+                future.set_exception(error)
+            return future
+
     def _submit_and_await(
         self,
         func: Callable[[SpanProcessor], Callable[..., None]],
@@ -240,7 +254,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
     ):
         futures = []
         for sp in self._span_processors:
-            future = self._executor.submit(func(sp), *args, **kwargs)
+            future = self._submit(func(sp), *args, **kwargs)
             futures.append(future)
         for future in futures:
             future.result()
@@ -274,7 +288,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         """
         futures = []
         for sp in self._span_processors:  # type: SpanProcessor
-            future = self._executor.submit(sp.force_flush, timeout_millis)
+            future = self._submit(sp.force_flush, timeout_millis)
             futures.append(future)
 
         timeout_sec = timeout_millis / 1e3
-- 
2.43.0


From c34e1bb625774303df0435eeb598ba59d82c6a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 61/72] fix: collect a last time when a reader without interval
 is shut down

---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 12ae671..3c19083 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -598,6 +598,12 @@ class PeriodicExportingMetricReader(MetricReader):
         self._shutdown_event.set()
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
+        else:
+            # no thread does the last collection
+            try:
+                self.collect(timeout_millis=timeout_millis)
+            except Exception:  # pylint: disable=broad-exception-caught
+                _logger.exception("Metric collection failed.")
         # Let an export in progress finish, and start no other one.
         locked = self._export_lock.acquire(
             timeout=max(0, (deadline_ns - time_ns()) / 10**9)
-- 
2.43.0


From 745894317561af84a3c1739764c6b7987bd50cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 62/72] fix: renew the threads of concurrent processors in a
 forked child

---
 .../sdk/_logs/_internal/__init__.py           | 20 +++++++++++++++++++
 .../src/opentelemetry/sdk/trace/__init__.py   | 20 +++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index a4f995e..c1bcc1a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -19,9 +19,11 @@ import base64
 import concurrent.futures
 import json
 import logging
+import os
 import threading
 import traceback
 import warnings
+import weakref
 from os import environ
 from threading import Lock
 from time import time_ns
@@ -387,9 +389,27 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         # iterating through it on "emit".
         self._log_record_processors = ()  # type: Tuple[LogRecordProcessor, ...]
         self._lock = threading.Lock()
+        self._max_workers = max_workers
         self._executor = concurrent.futures.ThreadPoolExecutor(
             max_workers=max_workers
         )
+        if hasattr(os, "register_at_fork"):
+            weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
+
+            def at_fork_reinit():
+                method = weak_at_fork()
+                if method is not None:
+                    method()
+
+            os.register_at_fork(after_in_child=at_fork_reinit)
+
+    def _at_fork_reinit(self) -> None:
+        # The threads of the executor do not exist in the child and another
+        # thread of the parent may have held the lock at the fork.
+        self._lock = threading.Lock()
+        self._executor = concurrent.futures.ThreadPoolExecutor(
+            max_workers=self._max_workers
+        )
 
     def add_log_record_processor(
         self, log_record_processor: LogRecordProcessor
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 5f359a0..9b98e0b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -18,9 +18,11 @@ import atexit
 import concurrent.futures
 import json
 import logging
+import os
 import threading
 import traceback
 import typing
+import weakref
 from os import environ
 from time import time_ns
 from types import MappingProxyType, TracebackType
@@ -223,9 +225,27 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         # iterating through it on "on_start" and "on_end".
         self._span_processors = ()  # type: Tuple[SpanProcessor, ...]
         self._lock = threading.Lock()
+        self._num_threads = num_threads
         self._executor = concurrent.futures.ThreadPoolExecutor(
             max_workers=num_threads
         )
+        if hasattr(os, "register_at_fork"):
+            weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
+
+            def at_fork_reinit():
+                method = weak_at_fork()
+                if method is not None:
+                    method()
+
+            os.register_at_fork(after_in_child=at_fork_reinit)
+
+    def _at_fork_reinit(self) -> None:
+        # The threads of the executor do not exist in the child and another
+        # thread of the parent may have held the lock at the fork.
+        self._lock = threading.Lock()
+        self._executor = concurrent.futures.ThreadPoolExecutor(
+            max_workers=self._num_threads
+        )
 
     def add_span_processor(self, span_processor: SpanProcessor) -> None:
         """Adds a SpanProcessor to the list handled by this instance."""
-- 
2.43.0


From 6e1fac01ac20d785cc64b63a86a96c794a17c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 63/72] fix: renew the locks of a reader without interval in a
 forked child

---
 .../sdk/metrics/_internal/export/__init__.py  | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 3c19083..1973695 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -508,20 +508,20 @@ class PeriodicExportingMetricReader(MetricReader):
                 daemon=True,
             )
             self._daemon_thread.start()
-            if hasattr(os, "register_at_fork"):
-                weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
-
-                def at_fork_reinit():
-                    method = weak_at_fork()
-                    if method is not None:
-                        method()
-
-                os.register_at_fork(after_in_child=at_fork_reinit)
         elif self._export_interval_millis <= 0:
             raise ValueError(
                 f"interval value {self._export_interval_millis} is invalid \
                 and needs to be larger than zero."
             )
+        if hasattr(os, "register_at_fork"):
+            weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
+
+            def at_fork_reinit():
+                method = weak_at_fork()
+                if method is not None:
+                    method()
+
+            os.register_at_fork(after_in_child=at_fork_reinit)
 
     def _at_fork_reinit(self):
         # Another thread of the parent may have held these at the fork.
@@ -531,6 +531,8 @@ class PeriodicExportingMetricReader(MetricReader):
         if self._shutdown:
             self._shutdown_event.set()
             return
+        if self._daemon_thread is None:
+            return
         self._daemon_thread = Thread(
             name="OtelPeriodicExportingMetricReader",
             target=self._ticker,
-- 
2.43.0


From 673bb774ab0d08a862b42d78c0c77177c840c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 64/72] fix: renew the lock of a logger provider in a forked
 child

---
 .../opentelemetry/sdk/_logs/_internal/__init__.py   | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index c1bcc1a..5c93424 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -679,6 +679,19 @@ class LoggerProvider(APILoggerProvider):
             self._at_exit_handler = atexit.register(self.shutdown)
         self._logger_cache = {}
         self._logger_cache_lock = Lock()
+        if hasattr(os, "register_at_fork"):
+            weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
+
+            def at_fork_reinit():
+                method = weak_at_fork()
+                if method is not None:
+                    method()
+
+            os.register_at_fork(after_in_child=at_fork_reinit)
+
+    def _at_fork_reinit(self) -> None:
+        # Another thread of the parent may have held the lock at the fork.
+        self._logger_cache_lock = Lock()
 
     @property
     def resource(self):
-- 
2.43.0


From 63ba8c90ac3883c7a0c8c70ff0ab95ad56e563a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 65/72] fix: renew the locks for creating instruments in a
 forked child

---
 .../sdk/metrics/_internal/__init__.py         | 25 +++++++++++++++++++
 .../exponential_histogram/mapping/__init__.py | 17 +++++++++++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index 05e6dc9..f0550a6 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import os
 import weakref
 from atexit import register, unregister
 from logging import getLogger
@@ -71,6 +72,18 @@ from opentelemetry.util.types import (
 _logger = getLogger(__name__)
 
 
+def _call_after_fork_in_child(method) -> None:
+    if hasattr(os, "register_at_fork"):
+        weak_method = weakref.WeakMethod(method)
+
+        def call_method():
+            strong_method = weak_method()
+            if strong_method is not None:
+                strong_method()
+
+        os.register_at_fork(after_in_child=call_method)
+
+
 class Meter(APIMeter):
     """See `opentelemetry.metrics.Meter`."""
 
@@ -88,6 +101,12 @@ class Meter(APIMeter):
         self._measurement_consumer = measurement_consumer
         self._instrument_id_instrument = {}
         self._instrument_id_instrument_lock = Lock()
+        _call_after_fork_in_child(self._at_fork_reinit)
+
+    def _at_fork_reinit(self) -> None:
+        # Another thread of the parent may have held the locks at the fork.
+        self._instrument_ids_lock = Lock()
+        self._instrument_id_instrument_lock = Lock()
 
     def _store_instrument(self, instrument_id, instrument):
         # The first instrument stored is the one every caller gets.
@@ -464,6 +483,7 @@ class MeterProvider(APIMeterProvider):
     ):
         self._lock = Lock()
         self._meter_lock = Lock()
+        _call_after_fork_in_child(self._at_fork_reinit)
         self._atexit_handler = None
         if resource is None:
             resource = Resource.create({})
@@ -506,6 +526,11 @@ class MeterProvider(APIMeterProvider):
                 self._measurement_consumer.collect
             )
 
+    def _at_fork_reinit(self) -> None:
+        # Another thread of the parent may have held the locks at the fork.
+        self._lock = Lock()
+        self._meter_lock = Lock()
+
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         deadline_ns = time_ns() + timeout_millis * 10**6
 
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py
index 387b1d1..3ca7a7a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py
@@ -12,7 +12,9 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import os
 from abc import ABC, abstractmethod
+from threading import Lock
 
 
 class Mapping(ABC):
@@ -20,6 +22,16 @@ class Mapping(ABC):
     Parent class for `LogarithmMapping` and `ExponentialMapping`.
     """
 
+    def __init_subclass__(cls, **kwargs) -> None:
+        super().__init_subclass__(**kwargs)
+        if hasattr(os, "register_at_fork"):
+            os.register_at_fork(after_in_child=cls._at_fork_reinit)
+
+    @classmethod
+    def _at_fork_reinit(cls) -> None:
+        # Another thread of the parent may have held the lock at the fork.
+        cls._mappings_lock = Lock()
+
     # pylint: disable=no-member
     def __new__(cls, scale: int):
         with cls._mappings_lock:
@@ -29,8 +41,9 @@ class Mapping(ABC):
             # classes having the same instance of cls._mappings and
             # cls._mappings_lock.
             if scale not in cls._mappings:
-                cls._mappings[scale] = super().__new__(cls)
-                cls._mappings[scale]._init(scale)
+                mapping = super().__new__(cls)
+                mapping._init(scale)
+                cls._mappings[scale] = mapping
 
         return cls._mappings[scale]
 
-- 
2.43.0


From f5670fe1e846618b935e624964aa785a7216bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 66/72] fix: keep metrics of repeated resources and scopes when
 encoding OTLP

---
 .../_internal/metrics_encoder/__init__.py     | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/metrics_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/metrics_encoder/__init__.py
index 4a809cd..37de9d5 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/metrics_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/metrics_encoder/__init__.py
@@ -211,22 +211,19 @@ def encode_metrics(data: MetricsData) -> ExportMetricsServiceRequest:
 
 def _encode_resource_metrics(resource_metrics, resource_metrics_dict):
     resource = resource_metrics.resource
-    # It is safe to assume that each entry in data.resource_metrics is
-    # associated with an unique resource.
-    scope_metrics_dict = {}
-    resource_metrics_dict[resource] = scope_metrics_dict
+    # Several entries in data.resource_metrics may be associated with equal
+    # resources.
+    scope_metrics_dict = resource_metrics_dict.setdefault(resource, {})
     for scope_metrics in resource_metrics.scope_metrics:
         instrumentation_scope = scope_metrics.scope
 
-        # The SDK groups metrics in instrumentation scopes already so
-        # there is no need to check for existing instrumentation scopes
-        # here.
-        pb2_scope_metrics = pb2.ScopeMetrics(
-            scope=_encode_instrumentation_scope(instrumentation_scope),
-            schema_url=instrumentation_scope.schema_url,
-        )
-
-        scope_metrics_dict[instrumentation_scope] = pb2_scope_metrics
+        pb2_scope_metrics = scope_metrics_dict.get(instrumentation_scope)
+        if pb2_scope_metrics is None:
+            pb2_scope_metrics = pb2.ScopeMetrics(
+                scope=_encode_instrumentation_scope(instrumentation_scope),
+                schema_url=instrumentation_scope.schema_url,
+            )
+            scope_metrics_dict[instrumentation_scope] = pb2_scope_metrics
 
         for metric in scope_metrics.metrics:
             pb2_metric = pb2.Metric(
-- 
2.43.0


From 3b1c274af3bc1872ad9f5949ce29ef6c73816692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 67/72] fix: keep an error handler that cannot be loaded from
 raising into the application

---
 .../opentelemetry/sdk/error_handler/__init__.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py
index 3e0e778..d112af7 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py
@@ -120,9 +120,20 @@ class GlobalErrorHandler:
         )
 
         for error_handler_entry_point in error_handler_entry_points:
-            error_handler_class = error_handler_entry_point.load()
-
-            if issubclass(error_handler_class, exc_value.__class__):
+            try:
+                error_handler_class = error_handler_entry_point.load()
+                handles = issubclass(error_handler_class, exc_value.__class__)
+
+            # pylint: disable=broad-exception-caught
+            except Exception as loading_error:
+                logger.exception(
+                    "%s error while loading error handler %s",
+                    loading_error.__class__.__name__,
+                    error_handler_entry_point.name,
+                )
+                continue
+
+            if handles:
                 try:
                     error_handler_class()._handle(exc_value)
                     plugin_handled = True
-- 
2.43.0


From c434701da35f21018a3e960b49906a809afa7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 68/72] fix: batch processors' force_flush could wait in vain
 for a worker that a concurrent shutdown had ended

---
 .../src/opentelemetry/sdk/_logs/_internal/export/__init__.py   | 3 +++
 .../src/opentelemetry/sdk/trace/export/__init__.py             | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 434dc74..fdd4df8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -370,6 +370,9 @@ class BatchLogRecordProcessor(LogRecordProcessor):
             return True
 
         with self._condition:
+            # the worker thread serves no request made after shutdown
+            if self._shutdown:
+                return True
             flush_request = self._get_or_create_flush_request()
             self._condition.notify_all()
 
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 47d1769..58ec2aa 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -385,6 +385,9 @@ class BatchSpanProcessor(SpanProcessor):
             return True
 
         with self.condition:
+            # the worker thread serves no request made after shutdown
+            if self.done:
+                return True
             flush_request = self._get_or_create_flush_request()
             # signal the worker thread to flush and wait for it to finish
             self.condition.notify_all()
-- 
2.43.0


From 0a434e366e1d6821a0fb80392d8884b31a7776f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 69/72] fix: a flush that meets a shutdown waits until the
 queue is drained

---
 .../sdk/_logs/_internal/export/__init__.py          | 13 +++++++++++--
 .../src/opentelemetry/sdk/trace/export/__init__.py  | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index fdd4df8..97cb4f5 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -212,6 +212,7 @@ class BatchLogRecordProcessor(LogRecordProcessor):
         )
         self._condition = threading.Condition(threading.Lock())
         self._shutdown = False
+        self._worker_finished = False
         self._flush_request = None
         self._log_records = [None] * self._max_export_batch_size
         self._worker_thread.start()
@@ -275,6 +276,14 @@ class BatchLogRecordProcessor(LogRecordProcessor):
         self._notify_flush_request_finished(flush_request)
         self._notify_flush_request_finished(shutdown_flush_request)
 
+        # flush requests may have come while the queue was drained, later
+        # ones have nothing left to wait for
+        with self._condition:
+            self._worker_finished = True
+            late_flush_request = self._get_and_unset_flush_request()
+        self._drain_queue()
+        self._notify_flush_request_finished(late_flush_request)
+
     def _export(self, flush_request: Optional[_FlushRequest] = None):
         """Exports logs considering the given flush_request.
 
@@ -370,8 +379,8 @@ class BatchLogRecordProcessor(LogRecordProcessor):
             return True
 
         with self._condition:
-            # the worker thread serves no request made after shutdown
-            if self._shutdown:
+            # the worker thread drained the queue and serves no more requests
+            if self._worker_finished:
                 return True
             flush_request = self._get_or_create_flush_request()
             self._condition.notify_all()
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 58ec2aa..202ff71 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -194,6 +194,7 @@ class BatchSpanProcessor(SpanProcessor):
         self.max_queue_size = max_queue_size
         self.export_timeout_millis = export_timeout_millis
         self.done = False
+        self._worker_finished = False
         # flag that indicates that spans are being dropped
         self._spans_dropped = False
         # precallocated list to send spans to exporter
@@ -285,6 +286,14 @@ class BatchSpanProcessor(SpanProcessor):
         self._notify_flush_request_finished(flush_request)
         self._notify_flush_request_finished(shutdown_flush_request)
 
+        # flush requests may have come while the queue was drained, later
+        # ones have nothing left to wait for
+        with self.condition:
+            self._worker_finished = True
+            late_flush_request = self._get_and_unset_flush_request()
+        self._drain_queue()
+        self._notify_flush_request_finished(late_flush_request)
+
     def _get_and_unset_flush_request(
         self,
     ) -> typing.Optional[_FlushRequest]:
@@ -385,8 +394,8 @@ class BatchSpanProcessor(SpanProcessor):
             return True
 
         with self.condition:
-            # the worker thread serves no request made after shutdown
-            if self.done:
+            # the worker thread drained the queue and serves no more requests
+            if self._worker_finished:
                 return True
             flush_request = self._get_or_create_flush_request()
             # signal the worker thread to flush and wait for it to finish
-- 
2.43.0


From 4340a20df65539093704cfd31041539ff252e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 70/72] fix: bound the wait for a stuck export in the shutdown
 of a reader without interval

---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 1973695..c914e16 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -600,12 +600,14 @@ class PeriodicExportingMetricReader(MetricReader):
         self._shutdown_event.set()
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
-        else:
-            # no thread does the last collection
+        # no thread does the last collection
+        elif self._export_lock.acquire(timeout=timeout_millis / 10**3):
             try:
                 self.collect(timeout_millis=timeout_millis)
             except Exception:  # pylint: disable=broad-exception-caught
                 _logger.exception("Metric collection failed.")
+            finally:
+                self._export_lock.release()
         # Let an export in progress finish, and start no other one.
         locked = self._export_lock.acquire(
             timeout=max(0, (deadline_ns - time_ns()) / 10**9)
-- 
2.43.0


From ae53763146d1cb313d3a2384da344f16e6be4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:05 +0000
Subject: [PATCH 71/72] fix: ignore NaN in exponential histograms instead of
 raising into the application

---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 7f7db27..e42ddaf 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -19,7 +19,7 @@ from bisect import bisect_left
 from enum import IntEnum
 from functools import partial
 from logging import getLogger
-from math import inf
+from math import inf, isnan
 from threading import Lock
 from typing import (
     Callable,
@@ -712,6 +712,10 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
     ) -> None:
         # pylint: disable=too-many-branches,too-many-statements, too-many-locals
 
+        if isnan(measurement.value):
+            # NaN belongs to no bucket.
+            return
+
         with self._lock:
             if self._value_positive is None:
                 self._value_positive = Buckets()
-- 
2.43.0


From 30a9cc0eabfb98ce65917e55d2652c62e36be1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:15 +0000
Subject: [PATCH 72/72] fix: treat an instrument without unit or description as
 one with empty ones

---
 .../src/opentelemetry/metrics/_internal/__init__.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 9c8783c..f930f56 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -275,7 +275,12 @@ class Meter(ABC):
 
         # The parts may contain any separator, so they cannot just be joined.
         instrument_id = repr(
-            (name.strip().lower(), type_.__name__, unit, description)
+            (
+                name.strip().lower(),
+                type_.__name__,
+                unit or "",
+                description or "",
+            )
         )
 
         already_registered = False
-- 
2.43.0

