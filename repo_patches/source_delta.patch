From f8c5a3c077372688c87ababee5c2c3088094d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 01/54] fix: exponential histogram overflow when values span
 more than i32::MAX bins

---
 .../src/metrics/internal/exponential_histogram.rs              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
index 1a280a8..fc284db 100644
--- a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
@@ -155,7 +155,8 @@ fn scale_change(max_size: i32, bin: i32, start_bin: i32, length: i32) -> u32 {
     }
 
     let mut count = 0u32;
-    while high - low >= max_size {
+    // `high - low` may exceed `i32::MAX` at high scales
+    while i64::from(high) - i64::from(low) >= i64::from(max_size) {
         low >>= 1;
         high >>= 1;
         count += 1;
-- 
2.43.0


From e1e5b6f6036b19241fc84f81abb5219b4e29274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 02/54] fix: report each attribute set once and always under
 its canonical ordering

ValueMap stores a tracker under the provided and the sorted attributes and
collection reported whichever entry hash iteration met first, so observable
delta sums looked up a different previous value from one collection to the
next and reported wrong deltas.
---
 opentelemetry-sdk/src/metrics/internal/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index 9ca9de2..e73e755 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -6,7 +6,7 @@ mod precomputed_sum;
 mod sum;
 
 use core::fmt;
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::mem::swap;
 use std::ops::{Add, AddAssign, DerefMut, Sub};
 use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};
@@ -170,9 +170,8 @@ where
             return;
         };
 
-        let mut seen = HashSet::new();
         for (attrs, tracker) in trackers.iter() {
-            if seen.insert(Arc::as_ptr(tracker)) {
+            if is_sorted_and_deduped(attrs) {
                 dest.push(map_fn(attrs.clone(), tracker));
             }
         }
@@ -201,9 +200,8 @@ where
                 return;
             }
 
-            let mut seen = HashSet::new();
             for (attrs, tracker) in trackers_collect.drain() {
-                if seen.insert(Arc::as_ptr(&tracker)) {
+                if is_sorted_and_deduped(&attrs) {
                     dest.push(map_fn(attrs, tracker.clone_and_reset(&self.config)));
                 }
             }
@@ -232,6 +230,13 @@ fn sort_and_dedup(attributes: &[KeyValue]) -> Vec<KeyValue> {
     sorted
 }
 
+/// Trackers are stored under the attributes in the provided order and under the
+/// sorted, de-duplicated ones. Only the latter identifies the attribute set: it
+/// is present exactly once for each tracker and doesn't vary between collections.
+fn is_sorted_and_deduped(attributes: &[KeyValue]) -> bool {
+    attributes.windows(2).all(|w| w[0].key < w[1].key)
+}
+
 /// Marks a type that can have a value added and retrieved atomically. Required since
 /// different types have different backing atomic mechanisms
 pub(crate) trait AtomicTracker<T>: Sync + Send + 'static {
-- 
2.43.0


From f7d560e27c31384ef19927663128baceb410f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 03/54] fix: views renaming one instrument to names differing
 only in case counted it twice

---
 opentelemetry-sdk/src/metrics/pipeline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 05d2861..347750e 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -273,7 +273,9 @@ where
             };
             matched = true;
 
-            let id = self.inst_id(kind, &stream);
+            // Aggregators are cached by their normalized id.
+            let mut id = self.inst_id(kind, &stream);
+            id.normalize();
             if seen.contains(&id) {
                 continue; // This aggregator has already been added
             }
-- 
2.43.0


From 386e3602f0e5601cadc20a1f75ce4c1549c10995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 04/54] fix: a matching view dropped the instrument's own
 boundaries and cardinality limit

The advisory bucket boundaries and the cardinality limit an instrument is
created with apply unless the view sets an aggregation or a limit itself.
---
 opentelemetry-sdk/src/metrics/pipeline.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 347750e..2c436da 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -267,12 +267,23 @@ where
         // The cache will return the same Aggregator instance. Use stream ids to de duplicate.
         let mut seen = HashSet::new();
         for v in &self.pipeline.views {
-            let stream = match v.match_inst(&inst) {
+            let mut stream = match v.match_inst(&inst) {
                 Some(stream) => stream,
                 None => continue,
             };
             matched = true;
 
+            // What the view leaves unset stays as requested by the instrument.
+            stream.cardinality_limit = stream.cardinality_limit.or(cardinality_limit);
+            if let (None | Some(Aggregation::Default), Some(boundaries)) =
+                (&stream.aggregation, boundaries)
+            {
+                stream.aggregation = Some(Aggregation::ExplicitBucketHistogram {
+                    boundaries: boundaries.to_vec(),
+                    record_min_max: true,
+                });
+            }
+
             // Aggregators are cached by their normalized id.
             let mut id = self.inst_id(kind, &stream);
             id.normalize();
-- 
2.43.0


From 57d510694c0f403d3bba8d4148fa3a9436981b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 05/54] fix: with several readers each reported what callbacks
 observed for another reader's collection

Every pipeline invoked the callbacks of observable instruments with an
observer writing into the aggregators of all pipelines, so a reader's
collection also contained sets only observed when another reader was
collected. Register each callback with a per-pipeline observer.
---
 opentelemetry-sdk/src/metrics/meter.rs    | 91 ++++++++++++++---------
 opentelemetry-sdk/src/metrics/pipeline.rs | 19 ++---
 2 files changed, 64 insertions(+), 46 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/meter.rs b/opentelemetry-sdk/src/metrics/meter.rs
index 3950cbc..657a8ab 100644
--- a/opentelemetry-sdk/src/metrics/meter.rs
+++ b/opentelemetry-sdk/src/metrics/meter.rs
@@ -4,9 +4,9 @@ use std::{borrow::Cow, sync::Arc};
 
 use opentelemetry::{
     metrics::{
-        AsyncInstrumentBuilder, Counter, Gauge, Histogram, HistogramBuilder, InstrumentBuilder,
-        InstrumentProvider, ObservableCounter, ObservableGauge, ObservableUpDownCounter,
-        UpDownCounter,
+        AsyncInstrumentBuilder, Callback, Counter, Gauge, Histogram, HistogramBuilder,
+        InstrumentBuilder, InstrumentProvider, ObservableCounter, ObservableGauge,
+        ObservableUpDownCounter, UpDownCounter,
     },
     otel_error, InstrumentationScope,
 };
@@ -14,7 +14,7 @@ use opentelemetry::{
 use crate::metrics::{
     error::{MetricError, MetricResult},
     instrument::{Instrument, InstrumentKind, Observable, ResolvedMeasures},
-    internal::{self, Number},
+    internal::{Measure, Number},
     pipeline::{Pipelines, Resolver},
 };
 
@@ -133,7 +133,7 @@ impl SdkMeter {
             return ObservableCounter::new();
         }
 
-        match resolver.measures(
+        match resolver.measures_by_pipeline(
             InstrumentKind::ObservableCounter,
             builder.name.clone(),
             builder.description,
@@ -142,7 +142,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -152,13 +152,7 @@ impl SdkMeter {
                     return ObservableCounter::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
-
-                for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
-                }
+                self.register_callbacks(ms, builder.callbacks);
 
                 ObservableCounter::new()
             }
@@ -193,7 +187,7 @@ impl SdkMeter {
             return ObservableUpDownCounter::new();
         }
 
-        match resolver.measures(
+        match resolver.measures_by_pipeline(
             InstrumentKind::ObservableUpDownCounter,
             builder.name.clone(),
             builder.description,
@@ -202,7 +196,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -212,13 +206,7 @@ impl SdkMeter {
                     return ObservableUpDownCounter::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
-
-                for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
-                }
+                self.register_callbacks(ms, builder.callbacks);
 
                 ObservableUpDownCounter::new()
             }
@@ -253,7 +241,7 @@ impl SdkMeter {
             return ObservableGauge::new();
         }
 
-        match resolver.measures(
+        match resolver.measures_by_pipeline(
             InstrumentKind::ObservableGauge,
             builder.name.clone(),
             builder.description,
@@ -262,7 +250,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -272,13 +260,7 @@ impl SdkMeter {
                     return ObservableGauge::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
-
-                for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
-                }
+                self.register_callbacks(ms, builder.callbacks);
 
                 ObservableGauge::new()
             }
@@ -294,6 +276,33 @@ impl SdkMeter {
         }
     }
 
+    /// Registers the callbacks of an observable instrument with every pipeline.
+    ///
+    /// A pipeline invokes them when it is collected, so what they observe then is
+    /// recorded for that pipeline only.
+    fn register_callbacks<T>(
+        &self,
+        measures_by_pipeline: Vec<Vec<Arc<dyn Measure<T>>>>,
+        callbacks: Vec<Callback<T>>,
+    ) where
+        T: Number,
+    {
+        let observables: Vec<_> = measures_by_pipeline
+            .into_iter()
+            .map(|measures| Arc::new(Observable::new(measures)))
+            .collect();
+
+        for callback in callbacks {
+            let callback = Arc::new(callback);
+            self.pipes
+                .register_callback(observables.iter().map(|observable| {
+                    let callback = Arc::clone(&callback);
+                    let observable = Arc::clone(observable);
+                    move || callback(observable.as_ref())
+                }));
+        }
+    }
+
     fn create_updown_counter<T>(
         &self,
         builder: InstrumentBuilder<'_, UpDownCounter<T>>,
@@ -663,14 +672,21 @@ where
         boundaries: Option<Vec<f64>>,
         cardinality_limit: Option<usize>,
     ) -> MetricResult<ResolvedMeasures<T>> {
-        let aggregators =
-            self.measures(kind, name, description, unit, boundaries, cardinality_limit)?;
+        let aggregators = self.measures_by_pipeline(
+            kind,
+            name,
+            description,
+            unit,
+            boundaries,
+            cardinality_limit,
+        )?;
         Ok(ResolvedMeasures {
-            measures: aggregators,
+            measures: aggregators.into_iter().flatten().collect(),
         })
     }
 
-    fn measures(
+    /// The measures of an instrument, in the order of the pipelines they belong to.
+    fn measures_by_pipeline(
         &self,
         kind: InstrumentKind,
         name: Cow<'static, str>,
@@ -678,7 +694,7 @@ where
         unit: Option<Cow<'static, str>>,
         boundaries: Option<Vec<f64>>,
         cardinality_limit: Option<usize>,
-    ) -> MetricResult<Vec<Arc<dyn internal::Measure<T>>>> {
+    ) -> MetricResult<Vec<Vec<Arc<dyn Measure<T>>>>> {
         let inst = Instrument {
             name,
             description: description.unwrap_or_default(),
@@ -687,7 +703,8 @@ where
             scope: self.meter.scope.clone(),
         };
 
-        self.resolve.measures(inst, boundaries, cardinality_limit)
+        self.resolve
+            .measures_by_pipeline(inst, boundaries, cardinality_limit)
     }
 }
 
diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 2c436da..73dc3a0 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -666,13 +666,13 @@ impl Pipelines {
         Pipelines(pipes)
     }
 
-    pub(crate) fn register_callback<F>(&self, callback: F)
+    /// Registers one callback with each pipeline, given in the order of the pipelines.
+    pub(crate) fn register_callback<F>(&self, callbacks: impl IntoIterator<Item = F>)
     where
         F: Fn() + Send + Sync + 'static,
     {
-        let cb = Arc::new(callback);
-        for pipe in &self.0 {
-            pipe.add_callback(cb.clone())
+        for (pipe, callback) in self.0.iter().zip(callbacks) {
+            pipe.add_callback(Arc::new(callback))
         }
     }
 
@@ -735,24 +735,25 @@ where
         Resolver { inserters }
     }
 
-    /// The measures that must be updated by the instrument defined by key.
-    pub(crate) fn measures(
+    /// The measures that must be updated by the instrument defined by key, for each
+    /// pipeline in order.
+    pub(crate) fn measures_by_pipeline(
         &self,
         id: Instrument,
         boundaries: Option<Vec<f64>>,
         cardinality_limit: Option<usize>,
-    ) -> MetricResult<Vec<Arc<dyn internal::Measure<T>>>> {
+    ) -> MetricResult<Vec<Vec<Arc<dyn internal::Measure<T>>>>> {
         let (mut measures, mut errs) = (vec![], vec![]);
 
         for inserter in &self.inserters {
             match inserter.instrument(id.clone(), boundaries.as_deref(), cardinality_limit) {
-                Ok(ms) => measures.extend(ms),
+                Ok(ms) => measures.push(ms),
                 Err(err) => errs.push(err),
             }
         }
 
         if errs.is_empty() {
-            if measures.is_empty() {
+            if measures.iter().all(Vec::is_empty) {
                 // TODO: Emit internal log that measurements from the instrument
                 // are being dropped due to view configuration
             }
-- 
2.43.0


From 3edac42c31c71ae3eb6ea62f3db8e3fef97050c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 06/54] fix: batch log processor counted a record only after
 sending it, so the worker could subtract it first and the counter underflowed

---
 .../src/logs/batch_log_processor.rs             | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 7f37914..633857f 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -154,6 +154,9 @@ impl Debug for BatchLogProcessor {
 
 impl LogProcessor for BatchLogProcessor {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
+        // Count the log record before sending it: once sent, the worker thread
+        // can export it and subtract it from the current batch size.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self
             .logs_sender
             .try_send(Box::new((record.clone(), instrumentation.clone())));
@@ -162,11 +165,9 @@ impl LogProcessor for BatchLogProcessor {
         match result {
             Ok(_) => {
                 // Successfully sent the log record to the data channel.
-                // Increment the current batch size and check if it has reached
-                // the max export batch size.
-                if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1
-                    >= self.max_export_batch_size
-                {
+                // Check if the current batch size has reached the max export
+                // batch size.
+                if batch_size >= self.max_export_batch_size {
                     // Check if the a control message for exporting logs is
                     // already sent to the worker thread. If not, send a control
                     // message to export logs. `export_log_message_sent` is set
@@ -202,6 +203,7 @@ impl LogProcessor for BatchLogProcessor {
                 }
             }
             Err(mpsc::TrySendError::Full(_)) => {
+                self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
                 // Increment dropped logs count. The first time we have to drop
                 // a log, emit a warning.
                 if self.dropped_logs_count.fetch_add(1, Ordering::Relaxed) == 0 {
@@ -210,6 +212,7 @@ impl LogProcessor for BatchLogProcessor {
                 }
             }
             Err(mpsc::TrySendError::Disconnected(_)) => {
+                self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
                 // Given background thread is the only receiver, and it's
                 // disconnected, it indicates the thread is shutdown
                 otel_warn!(
@@ -382,6 +385,10 @@ impl BatchLogProcessor {
                         }
 
                         let count_of_logs = logs.len(); // Count of logs that will be exported
+                        if count_of_logs == 0 {
+                            // What is left to reach the target has been counted but not sent yet.
+                            break;
+                        }
                         total_exported_logs += count_of_logs;
 
                         result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
-- 
2.43.0


From 404acd18028636876d8060b3b885294a28f7147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 07/54] fix: batch span processor counted refused spans, and
 sent spans only after the worker could subtract them

---
 opentelemetry-sdk/src/trace/span_processor.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 595099e..cf32ee5 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -522,20 +522,24 @@ impl SpanProcessor for BatchSpanProcessor {
             );
             return;
         }
+        // Count the span before sending it: once sent, the worker thread can
+        // export it and subtract it from the current batch size.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self.span_sender.try_send(span);
 
         if result.is_err() {
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
             // Increment dropped span count. The first time we have to drop a span,
             // emit a warning.
             if self.dropped_span_count.fetch_add(1, Ordering::Relaxed) == 0 {
                 otel_warn!(name: "BatchSpanProcessor.SpanDroppingStarted",
                     message = "BatchSpanProcessor dropped a Span due to queue full/internal errors. No further internal log will be emitted for further drops until Shutdown. During Shutdown time, a log will be emitted with exact count of total Spans dropped.");
             }
+            return;
         }
         // At this point, sending the span to the data channel was successful.
-        // Increment the current batch size and check if it has reached the max export batch size.
-        if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1 >= self.max_export_batch_size
-        {
+        // Check if the current batch size has reached the max export batch size.
+        if batch_size >= self.max_export_batch_size {
             // Check if the a control message for exporting spans is already sent to the worker thread.
             // If not, send a control message to export spans.
             // `export_span_message_sent` is set to false ONLY when the worker thread has processed the control message.
-- 
2.43.0


From 7f60adc8ce7af083d4c0f035514a19a482a7cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 08/54] fix: batch span processor flush and shutdown left every
 span beyond the first batch unexported

---
 opentelemetry-sdk/src/trace/span_processor.rs | 37 +++++++++++++------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index cf32ee5..a865a52 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -445,8 +445,9 @@ impl BatchSpanProcessor {
         }
     }
 
-    // This method gets upto `max_export_batch_size` amount of spans from the channel and exports them.
-    // It returns the result of the export operation.
+    // This method gets all the spans that are in the channel when it is called and exports
+    // them in batches of upto `max_export_batch_size` amount of spans.
+    // It returns the first error of the export operations.
     // It expects the span vec to be empty when it's called.
     #[inline]
     fn get_spans_and_export<E>(
@@ -460,19 +461,31 @@ impl BatchSpanProcessor {
     where
         E: SpanExporter + Send + Sync + 'static,
     {
-        // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
-        while let Ok(span) = spans_receiver.try_recv() {
-            spans.push(span);
-            if spans.len() == config.max_export_batch_size {
-                break;
+        // Spans added while exporting are left for a later export.
+        let target = current_batch_size.load(Ordering::Relaxed);
+        let mut total_exported_spans = 0;
+        let mut result = OTelSdkResult::Ok(());
+
+        loop {
+            // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
+            while let Ok(span) = spans_receiver.try_recv() {
+                spans.push(span);
+                if spans.len() == config.max_export_batch_size {
+                    break;
+                }
             }
-        }
 
-        let count_of_spans = spans.len(); // Count of spans that will be exported
-        let result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            let count_of_spans = spans.len(); // Count of spans that will be exported
+            total_exported_spans += count_of_spans;
+            let batch_result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
 
-        current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
-        result
+            current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
+            result = result.and(batch_result);
+
+            if count_of_spans == 0 || total_exported_spans >= target {
+                return result;
+            }
+        }
     }
 
     #[allow(clippy::vec_box)]
-- 
2.43.0


From 2603c0e69c58521602558716e3c261ae34379216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 09/54] fix: batch span processor never shut its exporter down

---
 opentelemetry-sdk/src/trace/span_processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index a865a52..c6309ae 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -373,6 +373,7 @@ impl BatchSpanProcessor {
                                     &current_batch_size,
                                     &config,
                                 );
+                                let result = result.and(exporter.shutdown());
                                 let _ = sender.send(result);
 
                                 otel_debug!(
-- 
2.43.0


From 934147968e13a1a2c6e5bc9c786b1ad876785b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 10/54] fix: children of an active but invalid span were given
 its zero trace id

---
 opentelemetry-sdk/src/trace/tracer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/tracer.rs b/opentelemetry-sdk/src/trace/tracer.rs
index 40e55fd..ecae7f2 100644
--- a/opentelemetry-sdk/src/trace/tracer.rs
+++ b/opentelemetry-sdk/src/trace/tracer.rs
@@ -213,7 +213,11 @@ impl opentelemetry::trace::Tracer for SdkTracer {
         };
 
         // Build context for sampling decision
-        if let Some(sc) = parent_span.as_ref().map(|parent| parent.span_context()) {
+        if let Some(sc) = parent_span
+            .as_ref()
+            .map(|parent| parent.span_context())
+            .filter(|sc| sc.is_valid())
+        {
             trace_id = sc.trace_id();
             psc = sc;
         } else {
-- 
2.43.0


From b0f9b363f948ef99c8ffc4b49dffab1f44da791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 11/54] fix: span processors were told about the start of spans
 that are not recording

---
 opentelemetry-sdk/src/trace/tracer.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/tracer.rs b/opentelemetry-sdk/src/trace/tracer.rs
index ecae7f2..6dbc35d 100644
--- a/opentelemetry-sdk/src/trace/tracer.rs
+++ b/opentelemetry-sdk/src/trace/tracer.rs
@@ -13,7 +13,10 @@ use crate::trace::{
     IdGenerator, ShouldSample, SpanEvents, SpanLimits, SpanLinks,
 };
 use opentelemetry::{
-    trace::{SamplingDecision, SpanBuilder, SpanContext, SpanKind, TraceContextExt, TraceFlags},
+    trace::{
+        SamplingDecision, Span as _, SpanBuilder, SpanContext, SpanKind, TraceContextExt,
+        TraceFlags,
+    },
     Context, InstrumentationScope, KeyValue,
 };
 use std::fmt;
@@ -285,9 +288,11 @@ impl opentelemetry::trace::Tracer for SdkTracer {
             }
         };
 
-        // Call `on_start` for all processors
-        for processor in provider.span_processors() {
-            processor.on_start(&mut span, parent_cx)
+        // Call `on_start` for all processors, which only see recording spans
+        if span.is_recording() {
+            for processor in provider.span_processors() {
+                processor.on_start(&mut span, parent_cx)
+            }
         }
 
         span
-- 
2.43.0


From aa2354928608815f097f9a41cb8105a6e944e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 12/54] fix: a context dropped by its guard could not use the
 context API (its span's processors panicked)

---
 opentelemetry/src/context.rs | 56 ++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/opentelemetry/src/context.rs b/opentelemetry/src/context.rs
index ecad94d..357176d 100644
--- a/opentelemetry/src/context.rs
+++ b/opentelemetry/src/context.rs
@@ -324,7 +324,16 @@ impl Context {
     /// assert_eq!(Context::current().get::<ValueA>(), None);
     /// ```
     pub fn attach(self) -> ContextGuard {
-        let cx_id = CURRENT_CONTEXT.with(|cx| cx.borrow_mut().push(self));
+        let cx_id = CURRENT_CONTEXT.with(|stack| {
+            if stack.borrow().is_full() {
+                // `self` is dropped, which can run user code, and so is the
+                // logging below, so the stack must not be borrowed here.
+                ContextStack::log_overflow();
+                ContextStack::MAX_POS
+            } else {
+                stack.borrow_mut().push(self)
+            }
+        });
 
         ContextGuard {
             cx_pos: cx_id,
@@ -464,7 +473,11 @@ impl Drop for ContextGuard {
     fn drop(&mut self) {
         let id = self.cx_pos;
         if id > ContextStack::BASE_POS && id < ContextStack::MAX_POS {
-            CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+            let popped =
+                CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+            // Dropping the context can run user code (e.g. when it ends a span),
+            // which must be able to use the stack.
+            drop(popped);
         }
     }
 }
@@ -531,19 +544,31 @@ impl ContextStack {
             next_id as u16
         } else {
             // This is an overflow, log it and ignore it.
-            otel_warn!(
-                name: "Context.AttachFailed",
-                message = format!("Too many contexts. Max limit is {}. \
-                  Context::current() remains unchanged as this attach failed. \
-                  Dropping the returned ContextGuard will have no impact on Context::current().",
-                  ContextStack::MAX_POS)
-            );
+            Self::log_overflow();
             ContextStack::MAX_POS
         }
     }
 
+    /// Is there no room for another context?
+    #[inline(always)]
+    fn is_full(&self) -> bool {
+        self.stack.len() + 1 >= ContextStack::MAX_POS.into()
+    }
+
+    fn log_overflow() {
+        otel_warn!(
+            name: "Context.AttachFailed",
+            message = format!("Too many contexts. Max limit is {}. \
+              Context::current() remains unchanged as this attach failed. \
+              Dropping the returned ContextGuard will have no impact on Context::current().",
+              ContextStack::MAX_POS)
+        );
+    }
+
+    /// Removes the context at the given position and returns it, so that it can
+    /// be dropped when the stack is no longer borrowed.
     #[inline(always)]
-    fn pop_id(&mut self, pos: u16) {
+    fn pop_id(&mut self, pos: u16) -> Option<Context> {
         if pos == ContextStack::BASE_POS || pos == ContextStack::MAX_POS {
             // The empty context is always at the bottom of the [`ContextStack`]
             // and cannot be popped, and the overflow position is invalid, so do
@@ -557,7 +582,7 @@ impl ContextStack {
                     "Attempted to pop the overflow position which is not allowed"
                 }
             );
-            return;
+            return None;
         }
         let len: u16 = self.stack.len() as u16;
         // Are we at the top of the [`ContextStack`]?
@@ -569,8 +594,9 @@ impl ContextStack {
             // Restore the previous context. This will always happen since the
             // empty context is always at the bottom of the stack if the
             // [`ContextStack`] is not empty.
-            if let Some(Some(next_cx)) = self.stack.pop() {
-                self.current_cx = next_cx;
+            match self.stack.pop() {
+                Some(Some(next_cx)) => Some(std::mem::replace(&mut self.current_cx, next_cx)),
+                _ => None,
             }
         } else {
             // This is an out of order pop.
@@ -582,10 +608,10 @@ impl ContextStack {
                     stack_length = len,
                     message = "Attempted to pop beyond the end of the context stack"
                 );
-                return;
+                return None;
             }
             // Clear out the entry at the given id.
-            _ = self.stack[pos as usize].take();
+            self.stack[pos as usize].take()
         }
     }
 
-- 
2.43.0


From 1142d5255882dd6ee0163f361533299c68e70a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 13/54] fix: the context API panicked when used while the
 thread's locals are destroyed

---
 opentelemetry/src/context.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/opentelemetry/src/context.rs b/opentelemetry/src/context.rs
index 357176d..31e73c8 100644
--- a/opentelemetry/src/context.rs
+++ b/opentelemetry/src/context.rs
@@ -143,7 +143,13 @@ impl Context {
     /// Note: This function will panic if you attempt to attach another context
     /// while the current one is still borrowed.
     pub fn map_current<T>(f: impl FnOnce(&Context) -> T) -> T {
-        CURRENT_CONTEXT.with(|cx| cx.borrow().map_current_cx(f))
+        let mut f = Some(f);
+        let mut call_once = |cx: &Context| f.take().expect("called only once")(cx);
+        match CURRENT_CONTEXT.try_with(|stack| stack.borrow().map_current_cx(&mut call_once)) {
+            Ok(value) => value,
+            // The thread is exiting and its stack of contexts is gone already.
+            Err(_) => call_once(&Context::default()),
+        }
     }
 
     /// Returns a clone of the current thread's context with the given value.
@@ -324,16 +330,19 @@ impl Context {
     /// assert_eq!(Context::current().get::<ValueA>(), None);
     /// ```
     pub fn attach(self) -> ContextGuard {
-        let cx_id = CURRENT_CONTEXT.with(|stack| {
-            if stack.borrow().is_full() {
-                // `self` is dropped, which can run user code, and so is the
-                // logging below, so the stack must not be borrowed here.
-                ContextStack::log_overflow();
-                ContextStack::MAX_POS
-            } else {
-                stack.borrow_mut().push(self)
-            }
-        });
+        let cx_id = CURRENT_CONTEXT
+            .try_with(|stack| {
+                if stack.borrow().is_full() {
+                    // `self` is dropped, which can run user code, and so is the
+                    // logging below, so the stack must not be borrowed here.
+                    ContextStack::log_overflow();
+                    ContextStack::MAX_POS
+                } else {
+                    stack.borrow_mut().push(self)
+                }
+            })
+            // The thread is exiting and its stack of contexts is gone already.
+            .unwrap_or(ContextStack::MAX_POS);
 
         ContextGuard {
             cx_pos: cx_id,
@@ -474,7 +483,7 @@ impl Drop for ContextGuard {
         let id = self.cx_pos;
         if id > ContextStack::BASE_POS && id < ContextStack::MAX_POS {
             let popped =
-                CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+                CURRENT_CONTEXT.try_with(|context_stack| context_stack.borrow_mut().pop_id(id));
             // Dropping the context can run user code (e.g. when it ends a span),
             // which must be able to use the stack.
             drop(popped);
-- 
2.43.0


From e1301f2a29eb405910c4808981bde0e0af26d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 14/54] fix: the simple span processor exported without
 suppressing telemetry, deadlocking on spans of its exporter

---
 opentelemetry-sdk/src/trace/span_processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index c6309ae..8f41b23 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -134,6 +134,7 @@ impl<T: SpanExporter> SpanProcessor for SimpleSpanProcessor<T> {
             return;
         }
 
+        let _suppress_guard = Context::enter_telemetry_suppressed_scope();
         let result = self
             .exporter
             .lock()
-- 
2.43.0


From ef162e9b5efdc97b9285db81f56830c7a3ebfd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 15/54] fix: a flush or shutdown racing the end of an async
 batch processor's worker never returned

---
 .../logs/log_processor_with_async_runtime.rs  | 16 +++++++--
 opentelemetry-sdk/src/runtime.rs              | 35 ++++++++++++++++++-
 .../span_processor_with_async_runtime.rs      | 16 +++++++--
 3 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
index 961fa99..005b0b7 100644
--- a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
@@ -17,7 +17,10 @@ use std::{
 
 use super::{BatchConfig, LogProcessor};
 #[cfg(feature = "experimental_async_runtime")]
-use crate::runtime::{to_interval_stream, RuntimeChannel, TrySend};
+use crate::runtime::{
+    block_on_response, to_interval_stream, worker_ended_channel, RuntimeChannel, TrySend,
+    WorkerEnded,
+};
 use futures_channel::oneshot;
 use futures_util::{
     future::{self, Either},
@@ -43,6 +46,9 @@ enum BatchMessage {
 pub struct BatchLogProcessor<R: RuntimeChannel> {
     message_sender: R::Sender<BatchMessage>,
 
+    // Resolves once the worker task has ended.
+    worker_ended: WorkerEnded,
+
     // Track dropped logs - we'll log this at shutdown
     dropped_logs_count: AtomicUsize,
 
@@ -82,7 +88,7 @@ impl<R: RuntimeChannel> LogProcessor for BatchLogProcessor<R> {
             .try_send(BatchMessage::Flush(Some(res_sender)))
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))?;
 
-        futures_executor::block_on(res_receiver)
+        block_on_response(res_receiver, &self.worker_ended)
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))
             .and_then(std::convert::identity)
     }
@@ -103,7 +109,7 @@ impl<R: RuntimeChannel> LogProcessor for BatchLogProcessor<R> {
             .try_send(BatchMessage::Shutdown(res_sender))
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))?;
 
-        futures_executor::block_on(res_receiver)
+        block_on_response(res_receiver, &self.worker_ended)
             .map_err(|err| OTelSdkError::InternalFailure(format!("{:?}", err)))
             .and_then(std::convert::identity)
     }
@@ -124,9 +130,12 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
         let (message_sender, message_receiver) =
             runtime.batch_message_channel(config.max_queue_size);
         let inner_runtime = runtime.clone();
+        let (ended_sender, worker_ended) = worker_ended_channel();
 
         // Spawn worker process via user-defined spawn function.
         runtime.spawn(async move {
+            // Dropped when the worker ends, however it ends.
+            let _ended_sender = ended_sender;
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
@@ -208,6 +217,7 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
         // Return batch processor with link to worker
         BatchLogProcessor {
             message_sender,
+            worker_ended,
             dropped_logs_count: AtomicUsize::new(0),
             max_queue_size: config.max_queue_size,
         }
diff --git a/opentelemetry-sdk/src/runtime.rs b/opentelemetry-sdk/src/runtime.rs
index f82ac59..a0f6d5d 100644
--- a/opentelemetry-sdk/src/runtime.rs
+++ b/opentelemetry-sdk/src/runtime.rs
@@ -5,7 +5,12 @@
 //!
 //! [Tokio]: https://crates.io/crates/tokio
 
-use futures_util::stream::{unfold, Stream};
+use futures_channel::oneshot;
+use futures_util::{
+    future::{self, Either, Shared},
+    stream::{unfold, Stream},
+    FutureExt as _,
+};
 use std::{fmt::Debug, future::Future, time::Duration};
 use thiserror::Error;
 
@@ -57,6 +62,34 @@ pub(crate) fn to_interval_stream<T: Runtime>(
     })
 }
 
+/// Resolves once the worker task holding the other half has ended.
+#[allow(dead_code)]
+pub(crate) type WorkerEnded = Shared<oneshot::Receiver<()>>;
+
+/// A value for a worker task to own until it ends, and a future of that end.
+#[allow(dead_code)]
+pub(crate) fn worker_ended_channel() -> (oneshot::Sender<()>, WorkerEnded) {
+    let (sender, receiver) = oneshot::channel();
+    (sender, receiver.shared())
+}
+
+/// Waits for the worker's response.
+///
+/// A message sent while the worker ends can be left in its channel, neither answered nor dropped
+/// as long as the channel has senders. So this also stops waiting when the worker has ended.
+#[allow(dead_code)]
+pub(crate) fn block_on_response<T>(
+    response: oneshot::Receiver<T>,
+    worker_ended: &WorkerEnded,
+) -> Result<T, oneshot::Canceled> {
+    match futures_executor::block_on(future::select(response, worker_ended.clone())) {
+        Either::Left((response, _)) => response,
+        Either::Right((_, mut response)) => {
+            response.try_recv().and_then(|r| r.ok_or(oneshot::Canceled))
+        }
+    }
+}
+
 /// Runtime implementation, which works with Tokio's multi thread runtime.
 #[cfg(all(feature = "experimental_async_runtime", feature = "rt-tokio"))]
 #[cfg_attr(
diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index cb4d2fc..a822c58 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -1,6 +1,9 @@
 use crate::error::{OTelSdkError, OTelSdkResult};
 use crate::resource::Resource;
-use crate::runtime::{to_interval_stream, RuntimeChannel, TrySend};
+use crate::runtime::{
+    block_on_response, to_interval_stream, worker_ended_channel, RuntimeChannel, TrySend,
+    WorkerEnded,
+};
 use crate::trace::BatchConfig;
 use crate::trace::Span;
 use crate::trace::SpanProcessor;
@@ -82,6 +85,9 @@ use std::sync::Arc;
 pub struct BatchSpanProcessor<R: RuntimeChannel> {
     message_sender: R::Sender<BatchMessage>,
 
+    // Resolves once the worker task has ended.
+    worker_ended: WorkerEnded,
+
     // Track dropped spans
     dropped_spans_count: AtomicUsize,
 
@@ -128,7 +134,7 @@ impl<R: RuntimeChannel> SpanProcessor for BatchSpanProcessor<R> {
                 OTelSdkError::InternalFailure(format!("Failed to send flush message: {}", err))
             })?;
 
-        futures_executor::block_on(res_receiver).map_err(|err| {
+        block_on_response(res_receiver, &self.worker_ended).map_err(|err| {
             OTelSdkError::InternalFailure(format!("Flush response channel error: {}", err))
         })?
     }
@@ -152,7 +158,7 @@ impl<R: RuntimeChannel> SpanProcessor for BatchSpanProcessor<R> {
                 OTelSdkError::InternalFailure(format!("Failed to send shutdown message: {}", err))
             })?;
 
-        futures_executor::block_on(res_receiver).map_err(|err| {
+        block_on_response(res_receiver, &self.worker_ended).map_err(|err| {
             OTelSdkError::InternalFailure(format!("Shutdown response channel error: {}", err))
         })?
     }
@@ -352,8 +358,11 @@ impl<R: RuntimeChannel> BatchSpanProcessor<R> {
         let max_queue_size = config.max_queue_size;
 
         let inner_runtime = runtime.clone();
+        let (ended_sender, worker_ended) = worker_ended_channel();
         // Spawn worker process via user-defined spawn function.
         runtime.spawn(async move {
+            // Dropped when the worker ends, however it ends.
+            let _ended_sender = ended_sender;
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
@@ -376,6 +385,7 @@ impl<R: RuntimeChannel> BatchSpanProcessor<R> {
         // Return batch processor with link to worker
         BatchSpanProcessor {
             message_sender,
+            worker_ended,
             dropped_spans_count: AtomicUsize::new(0),
             max_queue_size,
         }
-- 
2.43.0


From d3ae2dd92a4ba38eb8e4e733949310da427cf442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 16/54] fix: an error status could not replace one whose
 description sorts later

---
 opentelemetry-sdk/src/trace/span.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span.rs b/opentelemetry-sdk/src/trace/span.rs
index 9cb8b88..28c082b 100644
--- a/opentelemetry-sdk/src/trace/span.rs
+++ b/opentelemetry-sdk/src/trace/span.rs
@@ -151,9 +151,11 @@ impl opentelemetry::trace::Span for Span {
     fn set_status(&mut self, status: Status) {
         self.with_data(|data| {
             // check if we should update the status
-            // These values form a total order: Ok > Error > Unset.
-            if status > data.status {
-                data.status = status;
+            // These values form a total order: Ok > Error > Unset. Among errors the last one wins,
+            // whatever their descriptions.
+            match (&data.status, &status) {
+                (Status::Ok, _) | (_, Status::Unset) => {}
+                _ => data.status = status,
             }
         });
     }
-- 
2.43.0


From d682c48ec169861b997ff66be2a7811e16e8430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 17/54] fix: parent-based sampler dropped its root sampler's
 attributes and trace state

---
 opentelemetry-sdk/src/trace/sampler.rs | 45 +++++++++++---------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler.rs b/opentelemetry-sdk/src/trace/sampler.rs
index f33eb6a..2939174 100644
--- a/opentelemetry-sdk/src/trace/sampler.rs
+++ b/opentelemetry-sdk/src/trace/sampler.rs
@@ -177,32 +177,25 @@ impl ShouldSample for Sampler {
             Sampler::AlwaysOn => SamplingDecision::RecordAndSample,
             // Never sample the trace
             Sampler::AlwaysOff => SamplingDecision::Drop,
-            // The parent decision if sampled; otherwise the decision of delegate_sampler
-            Sampler::ParentBased(delegate_sampler) => parent_context
-                .filter(|cx| cx.has_active_span())
-                .map_or_else(
-                    || {
-                        delegate_sampler
-                            .should_sample(
-                                parent_context,
-                                trace_id,
-                                name,
-                                span_kind,
-                                attributes,
-                                links,
-                            )
-                            .decision
-                    },
-                    |ctx| {
-                        let span = ctx.span();
-                        let parent_span_context = span.span_context();
-                        if parent_span_context.is_sampled() {
-                            SamplingDecision::RecordAndSample
-                        } else {
-                            SamplingDecision::Drop
-                        }
-                    },
-                ),
+            // The parent decision if there is one; otherwise the result of delegate_sampler
+            Sampler::ParentBased(delegate_sampler) => {
+                match parent_context.filter(|cx| cx.has_active_span()) {
+                    None => {
+                        return delegate_sampler.should_sample(
+                            parent_context,
+                            trace_id,
+                            name,
+                            span_kind,
+                            attributes,
+                            links,
+                        );
+                    }
+                    Some(cx) if cx.span().span_context().is_sampled() => {
+                        SamplingDecision::RecordAndSample
+                    }
+                    Some(_) => SamplingDecision::Drop,
+                }
+            }
             // Probabilistically sample the trace.
             Sampler::TraceIdRatioBased(prob) => sample_based_on_probability(prob, trace_id),
             #[cfg(feature = "jaeger_remote_sampler")]
-- 
2.43.0


From 5f6da5e942eb08dcce5cb96ced719354a44a19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 18/54] fix: Baggage accounting after remove, and clearing
 baggage in a context

with_cleared_baggage stored a value of the wrong type, so that the baggage
stayed, and remove did not give back the size of what it removed.
---
 opentelemetry/src/baggage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/baggage.rs b/opentelemetry/src/baggage.rs
index f38d817..4b4ce0a 100644
--- a/opentelemetry/src/baggage.rs
+++ b/opentelemetry/src/baggage.rs
@@ -208,7 +208,10 @@ impl Baggage {
     /// Removes a name from the baggage, returning the value
     /// corresponding to the name if the pair was previously in the map.
     pub fn remove<K: AsRef<str>>(&mut self, key: K) -> Option<(StringValue, BaggageMetadata)> {
-        self.inner.remove(key.as_ref())
+        let (key, (value, metadata)) = self.inner.remove_entry(key.as_ref())?;
+        self.kv_content_len -=
+            key_value_metadata_bytes_size(key.as_str(), value.as_str(), metadata.as_str());
+        Some((value, metadata))
     }
 
     /// Returns the number of attributes for this baggage
@@ -412,7 +415,7 @@ impl BaggageExt for Context {
     }
 
     fn with_cleared_baggage(&self) -> Self {
-        self.with_value(Baggage::new())
+        self.with_value(BaggageContextValue(Baggage::new()))
     }
 
     fn baggage(&self) -> &Baggage {
-- 
2.43.0


From 799077dcd25c748150bbe6144c0d28889ecaa6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 19/54] fix: TraceState validation, parsing and deletion

Empty keys, over-long system ids and values outside printable ASCII were
accepted, values starting with '=' were altered instead of refused, optional
whitespace and empty members made the header unusable, and deleting a key
left its duplicates.
---
 opentelemetry/src/trace/span_context.rs | 27 +++++++++++++++----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index 95863cd..aa96e21 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -22,7 +22,7 @@ impl TraceState {
     ///
     /// [W3 Spec]: https://www.w3.org/TR/trace-context/#key
     fn valid_key(key: &str) -> bool {
-        if key.len() > 256 {
+        if key.is_empty() || key.len() > 256 {
             return false;
         }
 
@@ -36,7 +36,7 @@ impl TraceState {
             if i == 0 && (!b.is_ascii_lowercase() && !b.is_ascii_digit()) {
                 return false;
             } else if b == b'@' {
-                if vendor_start.is_some() || i + 14 < key.len() {
+                if vendor_start.is_some() || i + 15 < key.len() || i + 1 == key.len() {
                     return false;
                 }
                 vendor_start = Some(i);
@@ -58,7 +58,10 @@ impl TraceState {
             return false;
         }
 
-        !(value.contains(',') || value.contains('='))
+        !value.ends_with(' ')
+            && value
+                .bytes()
+                .all(|b| (b' '..=b'~').contains(&b) && b != b',' && b != b'=')
     }
 
     /// Creates a new `TraceState` from the given key-value collection.
@@ -162,8 +165,9 @@ impl TraceState {
     fn delete_from_deque(&self, key: &str) -> TraceState {
         let mut owned = self.clone();
         if let Some(kvs) = owned.0.as_mut() {
-            if let Some(index) = kvs.iter().position(|x| x.0 == key) {
-                kvs.remove(index);
+            kvs.retain(|x| x.0 != key);
+            if kvs.is_empty() {
+                owned.0 = None;
             }
         }
         owned
@@ -197,13 +201,14 @@ impl FromStr for TraceState {
         let mut key_value_pairs: Vec<(String, String)> = Vec::with_capacity(list_members.len());
 
         for list_member in list_members {
-            match list_member.find('=') {
+            // Members can be surrounded by whitespace and can be empty.
+            let list_member = list_member.trim_matches([' ', '\t']);
+            if list_member.is_empty() {
+                continue;
+            }
+            match list_member.split_once('=') {
                 None => return Err(TraceStateError::List(list_member.to_string())),
-                Some(separator_index) => {
-                    let (key, value) = list_member.split_at(separator_index);
-                    key_value_pairs
-                        .push((key.to_string(), value.trim_start_matches('=').to_string()));
-                }
+                Some((key, value)) => key_value_pairs.push((key.to_string(), value.to_string())),
             }
         }
 
-- 
2.43.0


From 54c6992abdbcb91b141873cd99a900dbf27c0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 20/54] fix: check the lengths and characters of traceparent
 fields

Fields of any length were accepted, including signs and upper case hex in
the version and flags, while the valid flags 03 were refused.
---
 .../src/propagation/trace_context.rs          | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/trace_context.rs b/opentelemetry-sdk/src/propagation/trace_context.rs
index 2a6d53e..edc70d0 100644
--- a/opentelemetry-sdk/src/propagation/trace_context.rs
+++ b/opentelemetry-sdk/src/propagation/trace_context.rs
@@ -68,33 +68,38 @@ impl TraceContextPropagator {
             return Err(());
         }
 
-        // Ensure version is within range, for version 0 there must be 4 parts.
-        let version = u8::from_str_radix(parts[0], 16).map_err(|_| ())?;
-        if version > MAX_VERSION || version == 0 && parts.len() != 4 {
+        // Ensure the fields are lowercase hex of the right length.
+        let is_lower_hex = |field: &str, len: usize| {
+            field.len() == len
+                && field
+                    .bytes()
+                    .all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b))
+        };
+        if !is_lower_hex(parts[0], 2)
+            || !is_lower_hex(parts[1], 32)
+            || !is_lower_hex(parts[2], 16)
+            || !is_lower_hex(parts[3], 2)
+        {
             return Err(());
         }
 
-        // Ensure trace id is lowercase
-        if parts[1].chars().any(|c| c.is_ascii_uppercase()) {
+        // Ensure version is within range, for version 0 there must be 4 parts.
+        let version = u8::from_str_radix(parts[0], 16).map_err(|_| ())?;
+        if version > MAX_VERSION || version == 0 && parts.len() != 4 {
             return Err(());
         }
 
         // Parse trace id section
         let trace_id = TraceId::from_hex(parts[1]).map_err(|_| ())?;
 
-        // Ensure span id is lowercase
-        if parts[2].chars().any(|c| c.is_ascii_uppercase()) {
-            return Err(());
-        }
-
         // Parse span id section
         let span_id = SpanId::from_hex(parts[2]).map_err(|_| ())?;
 
         // Parse trace flags section
         let opts = u8::from_str_radix(parts[3], 16).map_err(|_| ())?;
 
-        // Ensure opts are valid for version 0
-        if version == 0 && opts > 2 {
+        // Ensure opts are valid for version 0: the sampled and random flags
+        if version == 0 && opts > 3 {
             return Err(());
         }
 
-- 
2.43.0


From b6048c4ca06aecd4359e4e6c9326175628e6791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 21/54] fix: BaggagePropagator round trip of '%', '=', '\' and
 whitespace

Percent signs were not encoded, values with '=' were cut, whitespace in
values was lost, metadata could break the header, and a header nothing can
be parsed from removed the baggage of the context.
---
 opentelemetry-sdk/src/propagation/baggage.rs | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/baggage.rs b/opentelemetry-sdk/src/propagation/baggage.rs
index 78bb81a..157ba7f 100644
--- a/opentelemetry-sdk/src/propagation/baggage.rs
+++ b/opentelemetry-sdk/src/propagation/baggage.rs
@@ -1,5 +1,5 @@
 use opentelemetry::{
-    baggage::{BaggageExt, KeyValueMetadata},
+    baggage::{Baggage, BaggageExt, KeyValueMetadata},
     otel_warn,
     propagation::{text_map_propagator::FieldIter, Extractor, Injector, TextMapPropagator},
     Context,
@@ -9,7 +9,9 @@ use std::iter;
 use std::sync::OnceLock;
 
 static BAGGAGE_HEADER: &str = "baggage";
-const FRAGMENT: &AsciiSet = &CONTROLS.add(b' ').add(b'"').add(b';').add(b',').add(b'=');
+// What cannot be part of the metadata, whose properties are separated by `;`.
+const METADATA: &AsciiSet = &CONTROLS.add(b' ').add(b'"').add(b',').add(b'\\').add(b'%');
+const FRAGMENT: &AsciiSet = &METADATA.add(b';').add(b'=');
 
 // TODO Replace this with LazyLock once it is stable.
 static BAGGAGE_FIELDS: OnceLock<[String; 1]> = OnceLock::new();
@@ -87,9 +89,9 @@ impl TextMapPropagator for BaggagePropagator {
                     let metadata_prefix = if metadata_str.is_empty() { "" } else { ";" };
                     utf8_percent_encode(name.as_str().trim(), FRAGMENT)
                         .chain(iter::once("="))
-                        .chain(utf8_percent_encode(value.as_str().trim(), FRAGMENT))
+                        .chain(utf8_percent_encode(value.as_str(), FRAGMENT))
                         .chain(iter::once(metadata_prefix))
-                        .chain(iter::once(metadata_str))
+                        .chain(utf8_percent_encode(metadata_str, METADATA))
                         .collect()
                 })
                 .collect::<Vec<String>>()
@@ -107,10 +109,9 @@ impl TextMapPropagator for BaggagePropagator {
                     .collect::<Vec<&str>>()
                     .split_first()
                 {
-                    let mut iter = name_and_value.split('=');
-                    if let (Some(name), Some(value)) = (iter.next(), iter.next()) {
-                        let decode_name = percent_decode_str(name).decode_utf8();
-                        let decode_value = percent_decode_str(value).decode_utf8();
+                    if let Some((name, value)) = name_and_value.split_once('=') {
+                        let decode_name = percent_decode_str(name.trim()).decode_utf8();
+                        let decode_value = percent_decode_str(value.trim()).decode_utf8();
 
                         if let (Ok(name), Ok(value)) = (decode_name, decode_value) {
                             // Here we don't store the first ; into baggage since it should be treated
@@ -123,8 +124,8 @@ impl TextMapPropagator for BaggagePropagator {
                                 .join(";"); // join with ; because we deleted all ; when calling split above
 
                             Some(KeyValueMetadata::new(
-                                name.trim().to_owned(),
-                                value.trim().to_string(),
+                                name.into_owned(),
+                                value.into_owned(),
                                 decoded_props.as_str(),
                             ))
                         } else {
@@ -151,6 +152,11 @@ impl TextMapPropagator for BaggagePropagator {
                     None
                 }
             });
+            let baggage: Baggage = baggage.collect();
+            if baggage.is_empty() {
+                // Nothing could be parsed: keep what the context has.
+                return cx.clone();
+            }
             cx.with_baggage(baggage)
         } else {
             cx.clone()
-- 
2.43.0


From e0f7c2a14711934a9f216d2ab4c188aed51da8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 22/54] fix: resource service name precedence and detected
 schema URLs

service.name of OTEL_RESOURCE_ATTRIBUTES replaced the one of
OTEL_SERVICE_NAME, and the schema URL of a detected resource was lost.
---
 opentelemetry-sdk/src/resource/mod.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-sdk/src/resource/mod.rs b/opentelemetry-sdk/src/resource/mod.rs
index bf6f43d..53eabb9 100644
--- a/opentelemetry-sdk/src/resource/mod.rs
+++ b/opentelemetry-sdk/src/resource/mod.rs
@@ -62,9 +62,10 @@ impl Resource {
     pub fn builder() -> ResourceBuilder {
         ResourceBuilder {
             resource: Self::from_detectors(&[
-                Box::new(SdkProvidedResourceDetector),
                 Box::new(TelemetryResourceDetector),
                 Box::new(EnvResourceDetector::new()),
+                // Last, as `OTEL_SERVICE_NAME` has priority over `OTEL_RESOURCE_ATTRIBUTES`.
+                Box::new(SdkProvidedResourceDetector),
             ]),
         }
     }
@@ -141,14 +142,7 @@ impl Resource {
     fn from_detectors(detectors: &[Box<dyn ResourceDetector>]) -> Self {
         let mut resource = Resource::empty();
         for detector in detectors {
-            let detected_res = detector.detect();
-            // This call ensures that if the Arc is not uniquely owned,
-            // the data is cloned before modification, preserving safety.
-            // If the Arc is uniquely owned, it simply returns a mutable reference to the data.
-            let inner = Arc::make_mut(&mut resource.inner);
-            for (key, value) in detected_res.into_iter() {
-                inner.attrs.insert(Key::new(key.clone()), value.clone());
-            }
+            resource = resource.merge(&detector.detect());
         }
 
         resource
-- 
2.43.0


From 0f49217538d1150d235d592a8a23840a4f2270af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 23/54] fix: hash KeyValues with 0.0 and -0.0 alike, as they
 are equal

---
 opentelemetry/src/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry/src/common.rs b/opentelemetry/src/common.rs
index 4fb32ef..406439e 100644
--- a/opentelemetry/src/common.rs
+++ b/opentelemetry/src/common.rs
@@ -425,7 +425,8 @@ impl Eq for F64Hashable {}
 
 impl Hash for F64Hashable {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.to_bits().hash(state);
+        // `-0.0` equals `0.0`, so both have to hash the same.
+        (self.0 + 0.0).to_bits().hash(state);
     }
 }
 
-- 
2.43.0


From 6a78258ef6dc33fd12314344c2e92935a185f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 24/54] fix: Jaeger propagator attached invalid ids and
 accepted signs

It also declared an untrimmed header name as its field, and did not decode
lower case %3a.
---
 .../src/propagator.rs                           | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-jaeger-propagator/src/propagator.rs b/opentelemetry-jaeger-propagator/src/propagator.rs
index dfbbf3b..cb317ac 100644
--- a/opentelemetry-jaeger-propagator/src/propagator.rs
+++ b/opentelemetry-jaeger-propagator/src/propagator.rs
@@ -67,7 +67,7 @@ impl Propagator {
         Propagator {
             baggage_prefix: custom_baggage_prefix.trim(),
             header_name: custom_header_name.trim(),
-            fields: [custom_header_name.to_owned()],
+            fields: [custom_header_name.trim().to_owned()],
         }
     }
 
@@ -76,7 +76,7 @@ impl Propagator {
         let mut header_value = Cow::from(extractor.get(self.header_name).unwrap_or(""));
         // if there is no :, it means header_value could be encoded as url, try decode first
         if !header_value.contains(':') {
-            header_value = Cow::from(header_value.replace("%3A", ":"));
+            header_value = Cow::from(header_value.replace("%3A", ":").replace("%3a", ":"));
         }
 
         let parts = header_value.split_terminator(':').collect::<Vec<&str>>();
@@ -96,7 +96,9 @@ impl Propagator {
             self.extract_trace_flags(parts[3]),
             self.extract_trace_state(extractor),
         ) {
-            (Ok(trace_id), Ok(span_id), Ok(flags), Ok(state)) => {
+            (Ok(trace_id), Ok(span_id), Ok(flags), Ok(state))
+                if trace_id != TraceId::INVALID && span_id != SpanId::INVALID =>
+            {
                 Some(SpanContext::new(trace_id, span_id, flags, true, state))
             }
             _ => {
@@ -112,7 +114,8 @@ impl Propagator {
 
     /// Extract trace id from the header.
     fn extract_trace_id(&self, trace_id: &str) -> Result<TraceId, ()> {
-        if trace_id.len() > 32 {
+        // `from_hex` would accept a sign
+        if trace_id.len() > 32 || trace_id.starts_with('+') {
             return Err(());
         }
 
@@ -123,9 +126,9 @@ impl Propagator {
     fn extract_span_id(&self, span_id: &str) -> Result<SpanId, ()> {
         match span_id.len() {
             // exact 16
-            16 => SpanId::from_hex(span_id).map_err(|_| ()),
+            16 if !span_id.starts_with('+') => SpanId::from_hex(span_id).map_err(|_| ()),
             // more than 16 is invalid
-            17.. => Err(()),
+            16.. => Err(()),
             // less than 16 will result in padding on left
             _ => {
                 let padded = format!("{span_id:0>16}");
@@ -141,7 +144,7 @@ impl Propagator {
     /// Third bit is not used.
     /// Fourth bit is firehose flag, which is not supported in OT now.
     fn extract_trace_flags(&self, flag: &str) -> Result<TraceFlags, ()> {
-        if flag.len() > 2 {
+        if flag.len() > 2 || flag.starts_with('+') {
             return Err(());
         }
         let flag = u8::from_str(flag).map_err(|_| ())?;
-- 
2.43.0


From 2d83fcc65983199c4bab712d9a660a8957499e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 25/54] fix: B3 propagator wrote undeclared headers and lost
 the debug state

The single header encoding wrote the multiple headers too, a propagator with
multiple headers could not read the debug state of a single header, and ids
could have a sign.
---
 opentelemetry-zipkin/src/propagator/mod.rs | 29 ++++++++++++++--------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/opentelemetry-zipkin/src/propagator/mod.rs b/opentelemetry-zipkin/src/propagator/mod.rs
index c91d0cd..4fca9d1 100644
--- a/opentelemetry-zipkin/src/propagator/mod.rs
+++ b/opentelemetry-zipkin/src/propagator/mod.rs
@@ -107,7 +107,10 @@ impl Propagator {
     /// Extract trace id from hex encoded &str value.
     fn extract_trace_id(&self, trace_id: &str) -> Result<TraceId, ()> {
         // Only allow lower case hex string
-        if trace_id.to_lowercase() != trace_id || (trace_id.len() != 16 && trace_id.len() != 32) {
+        if trace_id.to_lowercase() != trace_id
+            || trace_id.starts_with('+')
+            || (trace_id.len() != 16 && trace_id.len() != 32)
+        {
             Err(())
         } else {
             TraceId::from_hex(trace_id).map_err(|_| ())
@@ -117,7 +120,7 @@ impl Propagator {
     /// Extract span id from hex encoded &str value.
     fn extract_span_id(&self, span_id: &str) -> Result<SpanId, ()> {
         // Only allow lower case hex string
-        if span_id.to_lowercase() != span_id || span_id.len() != 16 {
+        if span_id.to_lowercase() != span_id || span_id.starts_with('+') || span_id.len() != 16 {
             Err(())
         } else {
             SpanId::from_hex(span_id).map_err(|_| ())
@@ -127,14 +130,18 @@ impl Propagator {
     /// Extract sampled state from encoded &str value
     /// For legacy support and  being lenient to other tracing implementations we
     /// allow "true" and "false" as inputs for interop purposes.
-    fn extract_sampled_state(&self, sampled: &str) -> Result<TraceFlags, ()> {
+    ///
+    /// Only the single header can hold "d" for debug, the multiple headers have one for it.
+    fn extract_sampled_state(
+        &self,
+        sampled: &str,
+        is_single_header: bool,
+    ) -> Result<TraceFlags, ()> {
         match sampled {
             "0" | "false" => Ok(TraceFlags::default()),
             "1" => Ok(TraceFlags::SAMPLED),
-            "true" if !self.inject_encoding.support(&B3Encoding::SingleHeader) => {
-                Ok(TraceFlags::SAMPLED)
-            }
-            "d" if self.inject_encoding.support(&B3Encoding::SingleHeader) => Ok(TRACE_FLAG_DEBUG),
+            "true" if !is_single_header => Ok(TraceFlags::SAMPLED),
+            "d" if is_single_header => Ok(TRACE_FLAG_DEBUG),
             _ => Err(()),
         }
     }
@@ -159,7 +166,7 @@ impl Propagator {
         let trace_id = self.extract_trace_id(parts[0])?;
         let span_id = self.extract_span_id(parts[1])?;
         let trace_flags = if parts.len() > 2 {
-            self.extract_sampled_state(parts[2])?
+            self.extract_sampled_state(parts[2], true)?
         } else {
             TRACE_FLAG_DEFERRED
         };
@@ -202,7 +209,7 @@ impl Propagator {
         } else if let Some(sampled) = sampled_opt {
             // if debug is not set and X-B3-Sampled is not set, then deferred
             // if sample value is invalid, then return empty context.
-            self.extract_sampled_state(sampled)?
+            self.extract_sampled_state(sampled, false)?
         } else {
             TRACE_FLAG_DEFERRED
         };
@@ -243,7 +250,7 @@ impl TextMapPropagator for Propagator {
                 injector.set(B3_SINGLE_HEADER, value);
             }
             if self.inject_encoding.support(&B3Encoding::MultipleHeader)
-                || self.inject_encoding.support(&B3Encoding::UnSpecified)
+                || matches!(self.inject_encoding, B3Encoding::UnSpecified)
             {
                 // if inject_encoding is Unspecified, default to use MultipleHeader
                 injector.set(B3_TRACE_ID_HEADER, span_context.trace_id().to_string());
@@ -262,7 +269,7 @@ impl TextMapPropagator for Propagator {
                 injector.set(B3_SINGLE_HEADER, flag.to_string())
             }
             if self.inject_encoding.support(&B3Encoding::MultipleHeader)
-                || self.inject_encoding.support(&B3Encoding::UnSpecified)
+                || matches!(self.inject_encoding, B3Encoding::UnSpecified)
             {
                 injector.set(B3_SAMPLED_HEADER, flag.to_string())
             }
-- 
2.43.0


From f1c30a2ef423201ec41847c0f8427dde0c3511df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 26/54] fix: X-B3-Flags: 0 hid the sampled header

---
 opentelemetry-zipkin/src/propagator/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-zipkin/src/propagator/mod.rs b/opentelemetry-zipkin/src/propagator/mod.rs
index 4fca9d1..cf51efb 100644
--- a/opentelemetry-zipkin/src/propagator/mod.rs
+++ b/opentelemetry-zipkin/src/propagator/mod.rs
@@ -146,9 +146,9 @@ impl Propagator {
         }
     }
 
+    /// Extract the debug flag, any value but "1" means that it isn't set.
     fn extract_debug_flag(&self, debug: &str) -> Result<TraceFlags, ()> {
         match debug {
-            "0" => Ok(TraceFlags::default()),
             "1" => Ok(TRACE_FLAG_DEBUG | TraceFlags::SAMPLED), // debug implies sampled
             _ => Err(()),
         }
-- 
2.43.0


From 2756c4d0755f41e12a7f3e24d6e86ffa0804e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 27/54] fix: no-op text map propagator keeps the given context
 when extracting

---
 opentelemetry/src/trace/noop.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/trace/noop.rs b/opentelemetry/src/trace/noop.rs
index ffb4717..3aa22d0 100644
--- a/opentelemetry/src/trace/noop.rs
+++ b/opentelemetry/src/trace/noop.rs
@@ -151,8 +151,8 @@ impl TextMapPropagator for NoopTextMapPropagator {
         // ignored
     }
 
-    fn extract_with_context(&self, _cx: &Context, _extractor: &dyn Extractor) -> Context {
-        Context::current()
+    fn extract_with_context(&self, cx: &Context, _extractor: &dyn Extractor) -> Context {
+        cx.clone()
     }
 
     fn fields(&self) -> FieldIter<'_> {
-- 
2.43.0


From 7e1d2614c9f78d619544b89ec56506cb480dddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 28/54] fix: OTLP HTTP metrics exporter reports unsuccessful
 status codes as errors

---
 opentelemetry-otlp/src/exporter/http/metrics.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-otlp/src/exporter/http/metrics.rs b/opentelemetry-otlp/src/exporter/http/metrics.rs
index 1503368..2776361 100644
--- a/opentelemetry-otlp/src/exporter/http/metrics.rs
+++ b/opentelemetry-otlp/src/exporter/http/metrics.rs
@@ -33,11 +33,21 @@ impl MetricsClient for OtlpHttpClient {
             request.headers_mut().insert(k.clone(), v.clone());
         }
 
+        let request_uri = request.uri().to_string();
         otel_debug!(name: "HttpMetricsClient.CallingExport");
-        client
+        let response = client
             .send_bytes(request)
             .await
             .map_err(|e| OTelSdkError::InternalFailure(format!("{e:?}")))?;
+        if !response.status().is_success() {
+            let error = format!(
+                "OpenTelemetry metrics export failed. Url: {}, Status Code: {}, Response: {:?}",
+                request_uri,
+                response.status().as_u16(),
+                response.body()
+            );
+            return Err(OTelSdkError::InternalFailure(error));
+        }
 
         Ok(())
     }
-- 
2.43.0


From 04a9a844762b6f171b41f608952443c6a601dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 29/54] fix: OTLP spans carry the schema URL of their scope,
 not of the resource

---
 opentelemetry-proto/src/transform/trace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/transform/trace.rs b/opentelemetry-proto/src/transform/trace.rs
index 636296f..a423ec6 100644
--- a/opentelemetry-proto/src/transform/trace.rs
+++ b/opentelemetry-proto/src/transform/trace.rs
@@ -169,7 +169,10 @@ pub mod tonic {
             .into_iter()
             .map(|(instrumentation, span_records)| ScopeSpans {
                 scope: Some((instrumentation, None).into()),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
                 spans: span_records
                     .into_iter()
                     .map(|span_data| span_data.clone().into())
-- 
2.43.0


From 53a5e638294ef4f273a3ba13c05f8f309e165038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 30/54] fix: OTLP log records keep the version, attributes and
 schema URL of their scope

---
 opentelemetry-proto/src/transform/logs.rs | 35 +++++++++++------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/opentelemetry-proto/src/transform/logs.rs b/opentelemetry-proto/src/transform/logs.rs
index f1a992f..d3c0a31 100644
--- a/opentelemetry-proto/src/transform/logs.rs
+++ b/opentelemetry-proto/src/transform/logs.rs
@@ -168,41 +168,38 @@ pub mod tonic {
         logs: LogBatch<'_>,
         resource: &ResourceAttributesWithSchema,
     ) -> Vec<ResourceLogs> {
-        // Group logs by target or instrumentation name
+        // Group logs by target and instrumentation scope
         let scope_map = logs.iter().fold(
             HashMap::new(),
             |mut scope_map: HashMap<
-                Cow<'static, str>,
-                Vec<(
-                    &opentelemetry_sdk::logs::SdkLogRecord,
+                (
+                    Option<&Cow<'static, str>>,
                     &opentelemetry::InstrumentationScope,
-                )>,
+                ),
+                Vec<&opentelemetry_sdk::logs::SdkLogRecord>,
             >,
              (log_record, instrumentation)| {
-                let key = log_record
-                    .target()
-                    .cloned()
-                    .unwrap_or_else(|| Cow::Owned(instrumentation.name().to_owned()));
                 scope_map
-                    .entry(key)
+                    .entry((log_record.target(), instrumentation))
                     .or_default()
-                    .push((log_record, instrumentation));
+                    .push(log_record);
                 scope_map
             },
         );
 
         let scope_logs = scope_map
             .into_iter()
-            .map(|(key, log_data)| ScopeLogs {
+            .map(|((target, instrumentation), log_records)| ScopeLogs {
+                // the target, when set, takes the place of the scope
                 scope: Some(InstrumentationScope::from((
-                    log_data.first().unwrap().1,
-                    Some(key.into_owned().into()),
+                    instrumentation,
+                    target.cloned(),
                 ))),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
-                log_records: log_data
-                    .into_iter()
-                    .map(|(log_record, _)| log_record.into())
-                    .collect(),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
+                log_records: log_records.into_iter().map(Into::into).collect(),
             })
             .collect();
 
-- 
2.43.0


From 52fbbd8c958880dd01758740d2f7533251a0a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 31/54] fix: an empty OTLP endpoint uses the default address

---
 opentelemetry-otlp/src/exporter/http/mod.rs  |  4 +++-
 opentelemetry-otlp/src/exporter/tonic/mod.rs | 25 ++++++++++++--------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index ead431a..5054b5a 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -365,7 +365,8 @@ fn resolve_http_endpoint(
     provided_endpoint: Option<&str>,
 ) -> Result<Uri, ExporterBuildError> {
     // programmatic configuration overrides any value set via environment variables
-    if let Some(provider_endpoint) = provided_endpoint {
+    // an empty endpoint counts as not set
+    if let Some(provider_endpoint) = provided_endpoint.filter(|s| !s.is_empty()) {
         provider_endpoint
             .parse()
             .map_err(|er: http::uri::InvalidUri| {
@@ -379,6 +380,7 @@ fn resolve_http_endpoint(
         Ok(endpoint)
     } else if let Some(endpoint) = env::var(OTEL_EXPORTER_OTLP_ENDPOINT)
         .ok()
+        .filter(|s| !s.is_empty())
         .and_then(|s| build_endpoint_uri(&s, signal_endpoint_path).ok())
     {
         // if signal env var is not set, then we check if the OTEL_EXPORTER_OTLP_ENDPOINT env var is set
diff --git a/opentelemetry-otlp/src/exporter/tonic/mod.rs b/opentelemetry-otlp/src/exporter/tonic/mod.rs
index 948b605..4074768 100644
--- a/opentelemetry-otlp/src/exporter/tonic/mod.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/mod.rs
@@ -224,16 +224,21 @@ impl TonicExporterBuilder {
         // so we won't append one for default grpc endpoints
         // If users for some reason want to use a custom path, they can use env var or builder to pass it
         //
-        // programmatic configuration overrides any value set via environment variables
-        if let Some(endpoint) = provided_endpoint {
-            endpoint
-        } else if let Ok(endpoint) = env::var(default_endpoint_var) {
-            endpoint
-        } else if let Ok(endpoint) = env::var(OTEL_EXPORTER_OTLP_ENDPOINT) {
-            endpoint
-        } else {
-            OTEL_EXPORTER_OTLP_GRPC_ENDPOINT_DEFAULT.to_string()
-        }
+        // programmatic configuration overrides any value set via environment variables,
+        // an empty endpoint counts as not set
+        provided_endpoint
+            .filter(|s| !s.is_empty())
+            .or_else(|| {
+                env::var(default_endpoint_var)
+                    .ok()
+                    .filter(|s| !s.is_empty())
+            })
+            .or_else(|| {
+                env::var(OTEL_EXPORTER_OTLP_ENDPOINT)
+                    .ok()
+                    .filter(|s| !s.is_empty())
+            })
+            .unwrap_or_else(|| OTEL_EXPORTER_OTLP_GRPC_ENDPOINT_DEFAULT.to_string())
     }
 
     fn resolve_compression(
-- 
2.43.0


From 8b9de0e094b8a7294e1de87ccc7c8ddfd534a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 32/54] fix: OTLP HTTP headers set in code override defaults
 whatever their case

---
 opentelemetry-otlp/src/exporter/http/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index 5054b5a..08cf861 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -449,6 +449,8 @@ impl<B: HasHttpConfig> WithHttpConfig for B {
             .headers
             .get_or_insert(HashMap::new());
         headers.into_iter().for_each(|(key, value)| {
+            // header names are case-insensitive
+            http_client_headers.retain(|existing, _| !existing.eq_ignore_ascii_case(&key));
             http_client_headers.insert(key, super::url_decode(&value).unwrap_or(value));
         });
         self
-- 
2.43.0


From 70573325161a9435a5432c70ef45b1d409c03961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 33/54] fix: OTLP span exporter and gRPC log exporter stop
 exporting once shut down

---
 opentelemetry-otlp/src/exporter/tonic/logs.rs | 45 +++++++++++--------
 .../src/exporter/tonic/metrics.rs             |  4 +-
 opentelemetry-otlp/src/span.rs                |  9 ++++
 3 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/tonic/logs.rs b/opentelemetry-otlp/src/exporter/tonic/logs.rs
index cbcf528..ade325c 100644
--- a/opentelemetry-otlp/src/exporter/tonic/logs.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/logs.rs
@@ -1,11 +1,12 @@
 use core::fmt;
+use std::sync::Mutex;
+
 use opentelemetry::otel_debug;
 use opentelemetry_proto::tonic::collector::logs::v1::{
     logs_service_client::LogsServiceClient, ExportLogsServiceRequest,
 };
 use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
 use opentelemetry_sdk::logs::{LogBatch, LogExporter};
-use tokio::sync::Mutex;
 use tonic::{codegen::CompressionEncoding, service::Interceptor, transport::Channel, Request};
 
 use opentelemetry_proto::transform::logs::tonic::group_logs_by_resource_and_scope;
@@ -57,17 +58,21 @@ impl TonicLogsClient {
 
 impl LogExporter for TonicLogsClient {
     async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
-        let (mut client, metadata, extensions) = match self.inner.lock().await.as_mut() {
-            Some(inner) => {
-                let (m, e, _) = inner
-                    .interceptor
-                    .call(Request::new(()))
-                    .map_err(|e| OTelSdkError::InternalFailure(format!("error: {:?}", e)))?
-                    .into_parts();
-                (inner.client.clone(), m, e)
-            }
-            None => return Err(OTelSdkError::AlreadyShutdown),
-        };
+        let (mut client, metadata, extensions) = self
+            .inner
+            .lock()
+            .map_err(|e| OTelSdkError::InternalFailure(format!("Failed to acquire lock: {e:?}")))
+            .and_then(|mut inner| match &mut *inner {
+                Some(inner) => {
+                    let (m, e, _) = inner
+                        .interceptor
+                        .call(Request::new(()))
+                        .map_err(|e| OTelSdkError::InternalFailure(format!("error: {:?}", e)))?
+                        .into_parts();
+                    Ok((inner.client.clone(), m, e))
+                }
+                None => Err(OTelSdkError::AlreadyShutdown),
+            })?;
 
         let resource_logs = group_logs_by_resource_and_scope(batch, &self.resource);
 
@@ -85,13 +90,15 @@ impl LogExporter for TonicLogsClient {
     }
 
     fn shutdown(&self) -> OTelSdkResult {
-        // TODO: Implement actual shutdown
-        // Due to the use of tokio::sync::Mutex to guard
-        // the inner client, we need to await the call to lock the mutex
-        // and that requires async runtime.
-        // It is possible to fix this by using
-        // a dedicated thread just to handle shutdown.
-        // But for now, we just return Ok.
+        let mut inner = self
+            .inner
+            .lock()
+            .map_err(|e| OTelSdkError::InternalFailure(format!("Failed to acquire lock: {e}")))?;
+
+        if inner.take().is_none() {
+            return Err(OTelSdkError::AlreadyShutdown);
+        }
+
         Ok(())
     }
 
diff --git a/opentelemetry-otlp/src/exporter/tonic/metrics.rs b/opentelemetry-otlp/src/exporter/tonic/metrics.rs
index 2e5eb9d..0c4edf6 100644
--- a/opentelemetry-otlp/src/exporter/tonic/metrics.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/metrics.rs
@@ -70,9 +70,7 @@ impl MetricsClient for TonicMetricsClient {
                         .into_parts();
                     Ok((inner.client.clone(), m, e))
                 }
-                None => Err(OTelSdkError::InternalFailure(
-                    "exporter is already shut down".into(),
-                )),
+                None => Err(OTelSdkError::AlreadyShutdown),
             })?;
 
         otel_debug!(name: "TonicsMetricsClient.CallingExport");
diff --git a/opentelemetry-otlp/src/span.rs b/opentelemetry-otlp/src/span.rs
index 81c2ced..56e62e4 100644
--- a/opentelemetry-otlp/src/span.rs
+++ b/opentelemetry-otlp/src/span.rs
@@ -151,6 +151,15 @@ impl opentelemetry_sdk::trace::SpanExporter for SpanExporter {
         }
     }
 
+    fn shutdown(&mut self) -> OTelSdkResult {
+        match &mut self.client {
+            #[cfg(feature = "grpc-tonic")]
+            SupportedTransportClient::Tonic(client) => client.shutdown(),
+            #[cfg(any(feature = "http-proto", feature = "http-json"))]
+            SupportedTransportClient::Http(client) => client.shutdown(),
+        }
+    }
+
     fn set_resource(&mut self, resource: &opentelemetry_sdk::Resource) {
         match &mut self.client {
             #[cfg(feature = "grpc-tonic")]
-- 
2.43.0


From cf4b31b28b91caecaff2ff795bc186cfce163c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 34/54] fix: HyperClient's timeout covers reading the response
 body

---
 opentelemetry-http/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-http/src/lib.rs b/opentelemetry-http/src/lib.rs
index 301979f..2f5dae9 100644
--- a/opentelemetry-http/src/lib.rs
+++ b/opentelemetry-http/src/lib.rs
@@ -179,13 +179,18 @@ pub mod hyper {
                     .headers_mut()
                     .insert(http::header::AUTHORIZATION, authorization.clone());
             }
-            let mut response = time::timeout(self.timeout, self.inner.request(request)).await??;
-            let headers = std::mem::take(response.headers_mut());
-
-            let mut http_response = Response::builder()
-                .status(response.status())
-                .body(response.into_body().collect().await?.to_bytes())?;
-            *http_response.headers_mut() = headers;
+            // the timeout covers the whole exchange, including the response's body
+            let http_response = time::timeout(self.timeout, async {
+                let mut response = self.inner.request(request).await?;
+                let headers = std::mem::take(response.headers_mut());
+
+                let mut http_response = Response::builder()
+                    .status(response.status())
+                    .body(response.into_body().collect().await?.to_bytes())?;
+                *http_response.headers_mut() = headers;
+                Ok::<_, HttpError>(http_response)
+            })
+            .await??;
 
             Ok(http_response.error_for_status()?)
         }
-- 
2.43.0


From e693f89f00f6552285306949110ec906fe851a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 35/54] fix: Jaeger remote sampler's rate limit neither starves
 under frequent use nor doubles its burst

---
 .../trace/sampler/jaeger_remote/rate_limit.rs | 47 +++++++++----------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
index 3f11e5d..7734783 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
@@ -32,36 +32,31 @@ impl LeakyBucket {
     where
         F: Fn() -> SystemTime,
     {
+        // refill first: time spent with a full bucket must not count later
+        let cur_time = now();
+        match cur_time.duration_since(self.last_time) {
+            Ok(dur) => {
+                self.last_time = cur_time;
+                self.available = f64::min(
+                    dur.as_secs_f64() * self.span_per_sec + self.available,
+                    self.bucket_size,
+                );
+            }
+            Err(err) => {
+                otel_debug!(
+                    name: "JaegerRemoteSampler.LeakyBucket.ClockAdjustment",
+                    message = "Jaeger remote sampler detected a rewind in system clock",
+                    reason = format!("{:?}", err),
+                );
+                return true;
+            }
+        }
+
         if self.available >= 1.0 {
             self.available -= 1.0;
             true
         } else {
-            let cur_time = now();
-            let elapsed = cur_time.duration_since(self.last_time);
-            match elapsed {
-                Ok(dur) => {
-                    self.last_time = cur_time;
-                    self.available = f64::min(
-                        dur.as_secs() as f64 * self.span_per_sec + self.available,
-                        self.bucket_size,
-                    );
-
-                    if self.available >= 1.0 {
-                        self.available -= 1.0;
-                        true
-                    } else {
-                        false
-                    }
-                }
-                Err(err) => {
-                    otel_debug!(
-                        name: "JaegerRemoteSampler.LeakyBucket.ClockAdjustment",
-                        message = "Jaeger remote sampler detected a rewind in system clock",
-                        reason = format!("{:?}", err),
-                    );
-                    true
-                }
-            }
+            false
         }
     }
 }
-- 
2.43.0


From 44220ab716a1e604be28b03be68a0a2c49138f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 36/54] fix: Jaeger remote sampler keeps its strategy when a
 response holds none

---
 .../sampler/jaeger_remote/sampling_strategy.rs      | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
index 0f1fd43..d9f6749 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
@@ -92,11 +92,14 @@ impl Inner {
                                 rate_limiting_sampling,
                                 probabilistic_sampling,
                                 _,
-                            ) => self.init_strategy(
-                                operation_sampling,
-                                rate_limiting_sampling,
-                                probabilistic_sampling,
-                            ),
+                            ) => self
+                                .init_strategy(
+                                    operation_sampling,
+                                    rate_limiting_sampling,
+                                    probabilistic_sampling,
+                                )
+                                // an invalid response keeps the previous strategy
+                                .or(Some(old_strategy)),
                         }
                     }
                     None => self.init_strategy(
-- 
2.43.0


From b3c79220cd9e7eea77707e1fcb2cd7d5cb8e2098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 37/54] fix: Jaeger remote sampler accepts the RATE_LIMITING
 strategy type

---
 opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs
index 4b28a69..f2e3c3d 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs
@@ -79,7 +79,7 @@ pub(crate) struct SamplingStrategyParameters {
 
 /// See description of the SamplingStrategyResponse.strategyType field.
 #[derive(serde::Serialize, serde::Deserialize, PartialOrd, PartialEq)]
-#[serde(rename_all = "UPPERCASE")]
+#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
 pub(crate) enum SamplingStrategyType {
     Probabilistic,
     RateLimiting,
-- 
2.43.0


From 5b4779678fe63de64d241c3734d25b8091071e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 38/54] fix: Jaeger remote sampler stops fetching once dropped

---
 .../src/trace/sampler/jaeger_remote/sampler.rs       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
index 7f6ce1d..bf902a5 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
@@ -9,7 +9,7 @@ use opentelemetry::trace::{Link, SamplingResult, SpanKind, TraceId};
 use opentelemetry::{otel_warn, Context, KeyValue};
 use opentelemetry_http::HttpClient;
 use std::str::FromStr;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::Duration;
 
 const DEFAULT_REMOTE_SAMPLER_ENDPOINT: &str = "http://localhost:5778/sampling";
@@ -168,7 +168,8 @@ impl JaegerRemoteSampler {
         };
         Self::run_update_task(
             runtime,
-            sampler.inner.clone(),
+            // the task must not keep the sampler alive
+            Arc::downgrade(&sampler.inner),
             update_timeout,
             client,
             shutdown_rx,
@@ -180,7 +181,7 @@ impl JaegerRemoteSampler {
     // start a updating thread/task
     fn run_update_task<C, R>(
         runtime: R,
-        strategy: Arc<Inner>,
+        strategy: Weak<Inner>,
         update_timeout: Duration,
         client: C,
         shutdown: futures_channel::mpsc::Receiver<()>,
@@ -204,7 +205,10 @@ impl JaegerRemoteSampler {
                     // poll next available configuration or shutdown
                     // send request
                     match Self::request_new_strategy(&client, endpoint.clone()).await {
-                        Ok(remote_strategy_resp) => strategy.update(remote_strategy_resp),
+                        Ok(remote_strategy_resp) => match strategy.upgrade() {
+                            Some(strategy) => strategy.update(remote_strategy_resp),
+                            None => break,
+                        },
                         Err(err_msg) => {
                             otel_warn!(
                                 name: "JaegerRemoteSampler.FailedToFetchStrategy",
-- 
2.43.0


From 6b1f732122d13cd1cc12f0015b091f9f32f9f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 39/54] fix: OTLP-JSON keeps NaN and infinite attribute values

---
 opentelemetry-proto/src/proto.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/proto.rs b/opentelemetry-proto/src/proto.rs
index 13a28ce..db07c02 100644
--- a/opentelemetry-proto/src/proto.rs
+++ b/opentelemetry-proto/src/proto.rs
@@ -61,6 +61,17 @@ pub(crate) mod serializers {
                 map.serialize_entry("bytesValue", &base64::encode(b));
                 map.end()
             }
+            Some(Value::DoubleValue(d)) if !d.is_finite() => {
+                // JSON numbers cannot express these, the protobuf JSON mapping uses strings
+                let name = match (d.is_nan(), d.is_sign_negative()) {
+                    (true, _) => "NaN",
+                    (false, false) => "Infinity",
+                    (false, true) => "-Infinity",
+                };
+                let mut map = serializer.serialize_map(Some(1))?;
+                map.serialize_entry("doubleValue", name)?;
+                map.end()
+            }
             Some(value) => value.serialize(serializer),
             None => serializer.serialize_none(),
         }
@@ -91,6 +102,25 @@ pub(crate) mod serializers {
             }
         }
 
+        #[derive(Deserialize)]
+        #[serde(untagged)]
+        enum StringOrDouble {
+            Double(f64),
+            String(String),
+        }
+
+        impl StringOrDouble {
+            fn get_double<'de, V>(&self) -> Result<f64, V::Error>
+            where
+                V: de::MapAccess<'de>,
+            {
+                match self {
+                    Self::Double(val) => Ok(*val),
+                    Self::String(val) => val.parse::<f64>().map_err(de::Error::custom),
+                }
+            }
+        }
+
         impl<'de> de::Visitor<'de> for ValueVisitor {
             type Value = Option<Value>;
 
@@ -120,7 +150,7 @@ pub(crate) mod serializers {
                             value = Some(any_value::Value::IntValue(int_value));
                         }
                         "doubleValue" => {
-                            let d = map.next_value()?;
+                            let d = map.next_value::<StringOrDouble>()?.get_double::<V>()?;
                             value = Some(any_value::Value::DoubleValue(d));
                         }
                         "arrayValue" => {
-- 
2.43.0


From 7ab43ab5cdce3d205a45918b36b5ab0cecf28a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 40/54] fix: OTLP HTTP and Zipkin exporters report redirected
 exports that lose their body as errors

---
 opentelemetry-otlp/src/exporter/http/mod.rs | 23 +++++++++++++++++++++
 opentelemetry-zipkin/src/exporter/mod.rs    | 12 +++++++++++
 2 files changed, 35 insertions(+)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index 08cf861..b4aee23 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -100,6 +100,27 @@ impl Default for HttpExporterBuilder {
     }
 }
 
+/// A 301, 302 or 303 redirect turns the request into a GET without its body. Following one would
+/// report success although nothing was delivered.
+#[cfg(any(
+    all(
+        not(feature = "hyper-client"),
+        not(feature = "reqwest-blocking-client"),
+        feature = "reqwest-client"
+    ),
+    all(
+        not(feature = "hyper-client"),
+        not(feature = "reqwest-client"),
+        feature = "reqwest-blocking-client"
+    )
+))]
+fn redirect_policy() -> reqwest::redirect::Policy {
+    reqwest::redirect::Policy::custom(|attempt| match attempt.status().as_u16() {
+        301..=303 => attempt.stop(),
+        _ => reqwest::redirect::Policy::default().redirect(attempt),
+    })
+}
+
 impl HttpExporterBuilder {
     fn build_client(
         &mut self,
@@ -139,6 +160,7 @@ impl HttpExporterBuilder {
                 http_client = Some(Arc::new(
                     reqwest::Client::builder()
                         .timeout(timeout)
+                        .redirect(redirect_policy())
                         .build()
                         .unwrap_or_default(),
                 ) as Arc<dyn HttpClient>);
@@ -154,6 +176,7 @@ impl HttpExporterBuilder {
                     std::thread::spawn(move || {
                         reqwest::blocking::Client::builder()
                             .timeout(timeout_clone)
+                            .redirect(redirect_policy())
                             .build()
                             .unwrap_or_else(|_| reqwest::blocking::Client::new())
                     })
diff --git a/opentelemetry-zipkin/src/exporter/mod.rs b/opentelemetry-zipkin/src/exporter/mod.rs
index 46c665e..a41e0f1 100644
--- a/opentelemetry-zipkin/src/exporter/mod.rs
+++ b/opentelemetry-zipkin/src/exporter/mod.rs
@@ -39,6 +39,16 @@ pub struct ZipkinExporterBuilder {
     client: Option<Arc<dyn HttpClient>>,
 }
 
+/// A 301, 302 or 303 redirect turns the request into a GET without its body. Following one would
+/// report success although nothing was delivered.
+#[cfg(any(feature = "reqwest-blocking-client", feature = "reqwest-client"))]
+fn redirect_policy() -> reqwest::redirect::Policy {
+    reqwest::redirect::Policy::custom(|attempt| match attempt.status().as_u16() {
+        301..=303 => attempt.stop(),
+        _ => reqwest::redirect::Policy::default().redirect(attempt),
+    })
+}
+
 impl Default for ZipkinExporterBuilder {
     fn default() -> Self {
         #[cfg(any(feature = "reqwest-blocking-client", feature = "reqwest-client"))]
@@ -49,6 +59,7 @@ impl Default for ZipkinExporterBuilder {
             client: Some(Arc::new(
                 reqwest::blocking::Client::builder()
                     .timeout(timeout)
+                    .redirect(redirect_policy())
                     .build()
                     .unwrap_or_else(|_| reqwest::blocking::Client::new()),
             )),
@@ -56,6 +67,7 @@ impl Default for ZipkinExporterBuilder {
             client: Some(Arc::new(
                 reqwest::Client::builder()
                     .timeout(timeout)
+                    .redirect(redirect_policy())
                     .build()
                     .unwrap_or_else(|_| reqwest::Client::new()),
             )),
-- 
2.43.0


From 9d1741136370e10b9449cc349744afdf22f7d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 41/54] fix: OTLP gRPC exporters send their User-Agent

tonic drops a user-agent found in the request metadata; it has to be given to the endpoint.
---
 opentelemetry-otlp/src/exporter/tonic/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opentelemetry-otlp/src/exporter/tonic/mod.rs b/opentelemetry-otlp/src/exporter/tonic/mod.rs
index 4074768..ebe9dd1 100644
--- a/opentelemetry-otlp/src/exporter/tonic/mod.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/mod.rs
@@ -162,6 +162,9 @@ impl TonicExporterBuilder {
             headers_from_env,
         );
 
+        // tonic never sends a user-agent found in the metadata, only the one of its endpoint
+        let user_agent = metadata.as_ref().get(http::header::USER_AGENT).cloned();
+
         let add_metadata = move |mut req: tonic::Request<()>| {
             for key_and_value in metadata.iter() {
                 match key_and_value {
@@ -198,6 +201,12 @@ impl TonicExporterBuilder {
 
         let endpoint = Channel::from_shared(endpoint)
             .map_err(|op| ExporterBuildError::InvalidUri(endpoint_clone.clone(), op.to_string()))?;
+        let endpoint = match user_agent {
+            Some(user_agent) => endpoint
+                .user_agent(user_agent)
+                .map_err(|er| ExporterBuildError::InternalFailure(er.to_string()))?,
+            None => endpoint,
+        };
         let timeout = resolve_timeout(signal_timeout_var, config.timeout.as_ref());
 
         #[cfg(feature = "tls")]
-- 
2.43.0


From 2901d9776ff399bf213276c146f1712ff751f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 42/54] fix: Prometheus metric names hold ASCII characters only

---
 opentelemetry-prometheus/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-prometheus/src/utils.rs b/opentelemetry-prometheus/src/utils.rs
index a18c2bc..af780e1 100644
--- a/opentelemetry-prometheus/src/utils.rs
+++ b/opentelemetry-prometheus/src/utils.rs
@@ -110,7 +110,7 @@ pub(crate) fn sanitize_name(s: &Cow<'static, str>) -> Cow<'static, str> {
             true
         } else {
             // keep checking
-            !c.is_alphanumeric() && *c != '_' && *c != ':'
+            !c.is_ascii_alphanumeric() && *c != '_' && *c != ':'
         }
     }) {
         // up to `replace_idx` have been validated, convert the rest
-- 
2.43.0


From 672f927bb944d29cd43d878993022ea455bf5961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 43/54] fix: attribute keys become valid Prometheus label names

---
 opentelemetry-prometheus/src/utils.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-prometheus/src/utils.rs b/opentelemetry-prometheus/src/utils.rs
index af780e1..00166fb 100644
--- a/opentelemetry-prometheus/src/utils.rs
+++ b/opentelemetry-prometheus/src/utils.rs
@@ -134,14 +134,14 @@ pub(crate) fn sanitize_name(s: &Cow<'static, str>) -> Cow<'static, str> {
 }
 
 pub(crate) fn sanitize_prom_kv(s: &str) -> String {
-    s.chars()
-        .map(|c| {
-            if c.is_ascii_alphanumeric() || c == ':' {
-                c
-            } else {
-                '_'
-            }
-        })
+    // label names match `[a-zA-Z_][a-zA-Z0-9_]*`
+    let prefix = s.starts_with(|c: char| c.is_ascii_digit()).then_some('_');
+    prefix
+        .into_iter()
+        .chain(
+            s.chars()
+                .map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }),
+        )
         .collect()
 }
 
-- 
2.43.0


From a5acdbf4f4255b29ebd0cf92a5cc3ea774b65818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 44/54] fix: the Prometheus namespace is sanitized like metric
 names

---
 opentelemetry-prometheus/src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-prometheus/src/config.rs b/opentelemetry-prometheus/src/config.rs
index cec975e..4b45f4f 100644
--- a/opentelemetry-prometheus/src/config.rs
+++ b/opentelemetry-prometheus/src/config.rs
@@ -3,7 +3,7 @@ use once_cell::sync::OnceCell;
 use opentelemetry_sdk::metrics::{ManualReaderBuilder, MetricError, MetricResult};
 use std::sync::{Arc, Mutex};
 
-use crate::{Collector, PrometheusExporter, ResourceSelector};
+use crate::{utils, Collector, PrometheusExporter, ResourceSelector};
 
 /// [PrometheusExporter] configuration options
 #[derive(Default)]
@@ -81,7 +81,7 @@ impl ExporterBuilder {
     /// Metrics such as `target_info` and `otel_scope_info` are not prefixed since
     /// these have special behavior based on their name.
     pub fn with_namespace(mut self, namespace: impl Into<String>) -> Self {
-        let mut namespace = namespace.into();
+        let mut namespace = utils::sanitize_name(&namespace.into().into()).into_owned();
 
         // namespace and metric names should be separated with an underscore,
         // adds a trailing underscore if there is not one already.
-- 
2.43.0


From 88b0a92f6019934a1d756d00139b116732191dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 45/54] fix: selected resource attributes stay on metrics
 without scope info

---
 opentelemetry-prometheus/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-prometheus/src/lib.rs b/opentelemetry-prometheus/src/lib.rs
index 3ec3879..34ceec6 100644
--- a/opentelemetry-prometheus/src/lib.rs
+++ b/opentelemetry-prometheus/src/lib.rs
@@ -321,7 +321,7 @@ impl prometheus::core::Collector for Collector {
             .get_or_init(|| self.resource_selector.select(&metrics.resource));
 
         for scope_metrics in metrics.scope_metrics {
-            let scope_labels = if !self.disable_scope_info {
+            let mut scope_labels = if !self.disable_scope_info {
                 if scope_metrics.scope.attributes().count() > 0 {
                     let scope_info = inner
                         .scope_infos
@@ -342,14 +342,11 @@ impl prometheus::core::Collector for Collector {
                     l_version.set_value(version.to_string());
                     labels.push(l_version);
                 }
-
-                if !resource_labels.is_empty() {
-                    labels.extend(resource_labels.iter().cloned());
-                }
                 labels
             } else {
                 Vec::new()
             };
+            scope_labels.extend(resource_labels.iter().cloned());
 
             for metrics in scope_metrics.metrics {
                 let (metric_type, name) = match self.metric_type_and_name(&metrics) {
-- 
2.43.0


From 5e129cbe3bc37f330bd6d44c243115c6f6399bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 46/54] fix: labels colliding with scope and resource labels
 are joined

---
 opentelemetry-prometheus/src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-prometheus/src/lib.rs b/opentelemetry-prometheus/src/lib.rs
index 34ceec6..bbcc117 100644
--- a/opentelemetry-prometheus/src/lib.rs
+++ b/opentelemetry-prometheus/src/lib.rs
@@ -2,9 +2,9 @@
 //!
 //! <div class="warning">
 //! <strong>Warning: This crate is no longer recommended for use.</strong><br><br>
-//! Development of the Prometheus exporter has been discontinued. See the related 
+//! Development of the Prometheus exporter has been discontinued. See the related
 //! [issue](https://github.com/open-telemetry/opentelemetry-rust/issues/2451).
-//! This crate depends on the unmaintained `protobuf` crate and has unresolved 
+//! This crate depends on the unmaintained `protobuf` crate and has unresolved
 //! security vulnerabilities. Version 0.29 will be the final release.
 //!
 //! For Prometheus integration, we strongly recommend using the [OTLP] exporter instead.
@@ -414,8 +414,15 @@ fn get_attrs(kvs: &mut dyn Iterator<Item = (&Key, &Value)>, extra: &[LabelPair])
         res.push(lp);
     }
 
-    if !extra.is_empty() {
-        res.extend(&mut extra.iter().cloned());
+    // a label name must not occur twice
+    for label in extra {
+        match res.iter_mut().find(|l| l.name() == label.name()) {
+            Some(l) => {
+                let joined = format!("{};{}", l.value(), label.value());
+                l.set_value(joined);
+            }
+            None => res.push(label.clone()),
+        }
     }
 
     res
@@ -580,10 +587,7 @@ fn create_info_metric(
     g.set_value(1.0);
 
     let mut m = prometheus::proto::Metric::default();
-    m.set_label(get_attrs(
-        &mut resource.iter(),
-        &[],
-    ));
+    m.set_label(get_attrs(&mut resource.iter(), &[]));
     m.set_gauge(g);
 
     let mut mf = MetricFamily::default();
-- 
2.43.0


From 6070213f6ed66a62d6aabc0f6d6c3bce0c439700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 47/54] fix: an observable callback creating an instrument
 deadlocked

The pipeline was locked while callbacks ran, and creating an instrument
adds to the pipeline. Collections are serialised by a lock of their own.
---
 opentelemetry-sdk/src/metrics/pipeline.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 73dc3a0..89e0f8b 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -39,6 +39,8 @@ pub struct Pipeline {
     reader: Box<dyn MetricReader>,
     views: Vec<Arc<dyn View>>,
     inner: Mutex<PipelineInner>,
+    /// Held for the whole of a collection, so that collections do not overlap.
+    collection: Mutex<()>,
 }
 
 impl fmt::Debug for Pipeline {
@@ -101,19 +103,27 @@ impl Pipeline {
 impl SdkProducer for Pipeline {
     /// Returns aggregated metrics from a single collection.
     fn produce(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
-        let inner = self
+        let lock_failed = || OTelSdkError::InternalFailure("Failed to lock pipeline".into());
+        let _collection = self.collection.lock().map_err(|_| lock_failed())?;
+
+        // Callbacks are user code and may create instruments, which adds to `inner`:
+        // it must not be locked while they run.
+        let callbacks = self
             .inner
             .lock()
-            .map_err(|_| OTelSdkError::InternalFailure("Failed to lock pipeline".into()))?;
+            .map_err(|_| lock_failed())?
+            .callbacks
+            .clone();
         otel_debug!(
             name: "MeterProviderInvokingObservableCallbacks",
-            count =  inner.callbacks.len(),
+            count =  callbacks.len(),
         );
-        for cb in &inner.callbacks {
+        for cb in &callbacks {
             // TODO consider parallel callbacks.
             cb();
         }
 
+        let inner = self.inner.lock().map_err(|_| lock_failed())?;
         rm.resource = self.resource.clone();
         if inner.aggregations.len() > rm.scope_metrics.len() {
             rm.scope_metrics
@@ -658,6 +668,7 @@ impl Pipelines {
                 reader: r,
                 views: views.clone(),
                 inner: Default::default(),
+                collection: Default::default(),
             });
             p.reader.register_pipeline(Arc::downgrade(&p));
             pipes.push(p);
-- 
2.43.0


From dab288017e1e8c89de176471ddd0aa38ba6ea32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 48/54] fix: replacing a global meter provider or propagator
 dropped the old one under the lock

Dropping a meter provider shuts it down, and its exporters, callbacks and
processors may use the global one: they deadlocked.
---
 opentelemetry/src/global/metrics.rs     | 10 +++++++---
 opentelemetry/src/global/propagation.rs |  9 +++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/opentelemetry/src/global/metrics.rs b/opentelemetry/src/global/metrics.rs
index 450ba2d..ba318f5 100644
--- a/opentelemetry/src/global/metrics.rs
+++ b/opentelemetry/src/global/metrics.rs
@@ -23,9 +23,13 @@ where
     P: metrics::MeterProvider + Send + Sync + 'static,
 {
     // Try to set the global meter provider. If the RwLock is poisoned, we'll log an error.
-    let mut global_provider = global_meter_provider().write();
-    if let Ok(ref mut provider) = global_provider {
-        **provider = Arc::new(new_provider);
+    let previous = global_meter_provider()
+        .write()
+        .map(|mut provider| std::mem::replace(&mut *provider, Arc::new(new_provider)))
+        .ok();
+    // The lock is released by now: dropping the previous provider may shut it down,
+    // which runs exporters and callbacks that may use the global provider.
+    if previous.is_some() {
         otel_info!(name: "MeterProvider.GlobalSet", message = "Global meter provider is set. Meters can now be created using global::meter() or global::meter_with_scope().");
     } else {
         otel_error!(name: "MeterProvider.GlobalSetFailed", message = "Setting global meter provider failed. Meters created using global::meter() or global::meter_with_scope() will not function. Report this issue in OpenTelemetry repo.");
diff --git a/opentelemetry/src/global/propagation.rs b/opentelemetry/src/global/propagation.rs
index 4a8a296..3aaf556 100644
--- a/opentelemetry/src/global/propagation.rs
+++ b/opentelemetry/src/global/propagation.rs
@@ -23,9 +23,14 @@ fn default_text_map_propagator() -> &'static NoopTextMapPropagator {
 
 /// Sets the given [`TextMapPropagator`] propagator as the current global propagator.
 pub fn set_text_map_propagator<P: TextMapPropagator + Send + Sync + 'static>(propagator: P) {
-    let _lock = global_text_map_propagator()
+    // The previous propagator is dropped once the lock is released, as its `Drop` may use
+    // the global propagator.
+    let _previous = global_text_map_propagator()
         .write()
-        .map(|mut global_propagator| *global_propagator = Box::new(propagator));
+        .map(|mut global_propagator| {
+            std::mem::replace(&mut *global_propagator, Box::new(propagator))
+        })
+        .ok();
 }
 
 /// Executes a closure with a reference to the current global [`TextMapPropagator`] propagator.
-- 
2.43.0


From fecc0dd470b612543d474aefaf185e820c3ea26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 49/54] fix: starting a span ran samplers and processors while
 the current context was borrowed

A processor, sampler, exporter or propagator attaching a context there
panicked, as did ending the active span in get_active_span.
---
 opentelemetry/src/propagation/text_map_propagator.rs | 4 ++--
 opentelemetry/src/trace/context.rs                   | 4 +++-
 opentelemetry/src/trace/tracer.rs                    | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/opentelemetry/src/propagation/text_map_propagator.rs b/opentelemetry/src/propagation/text_map_propagator.rs
index c078e49..4c45d5b 100644
--- a/opentelemetry/src/propagation/text_map_propagator.rs
+++ b/opentelemetry/src/propagation/text_map_propagator.rs
@@ -24,7 +24,7 @@ pub trait TextMapPropagator: Debug {
     /// [`Context`]: crate::Context
     /// [`Injector`]: crate::propagation::Injector
     fn inject(&self, injector: &mut dyn Injector) {
-        Context::map_current(|cx| self.inject_context(cx, injector))
+        self.inject_context(&Context::current(), injector)
     }
 
     /// Properly encodes the values of the [`Context`] and injects them into the
@@ -41,7 +41,7 @@ pub trait TextMapPropagator: Debug {
     /// [`Context`]: crate::Context
     /// [`Injector`]: crate::propagation::Extractor
     fn extract(&self, extractor: &dyn Extractor) -> Context {
-        Context::map_current(|cx| self.extract_with_context(cx, extractor))
+        self.extract_with_context(&Context::current(), extractor)
     }
 
     /// Retrieves encoded data using the provided [`Extractor`]. If no data for this
diff --git a/opentelemetry/src/trace/context.rs b/opentelemetry/src/trace/context.rs
index b293362..b2bd354 100644
--- a/opentelemetry/src/trace/context.rs
+++ b/opentelemetry/src/trace/context.rs
@@ -363,5 +363,7 @@ pub fn get_active_span<F, T>(f: F) -> T
 where
     F: FnOnce(SpanRef<'_>) -> T,
 {
-    Context::map_current(|cx| f(cx.span()))
+    // `f` may end the span, whose processors may use the context: do not run it while the
+    // current context is borrowed.
+    f(Context::current().span())
 }
diff --git a/opentelemetry/src/trace/tracer.rs b/opentelemetry/src/trace/tracer.rs
index 5e2274f..e39850a 100644
--- a/opentelemetry/src/trace/tracer.rs
+++ b/opentelemetry/src/trace/tracer.rs
@@ -135,7 +135,7 @@ pub trait Tracer {
     where
         T: Into<Cow<'static, str>>,
     {
-        Context::map_current(|cx| self.start_with_context(name, cx))
+        self.start_with_context(name, &Context::current())
     }
 
     /// Starts a new [`Span`] with a given context.
@@ -168,7 +168,7 @@ pub trait Tracer {
 
     /// Start a [`Span`] from a [`SpanBuilder`].
     fn build(&self, builder: SpanBuilder) -> Self::Span {
-        Context::map_current(|cx| self.build_with_context(builder, cx))
+        self.build_with_context(builder, &Context::current())
     }
 
     /// Start a span from a [`SpanBuilder`] with a parent context.
@@ -372,7 +372,7 @@ impl SpanBuilder {
 
     /// Builds a span with the given tracer from this configuration.
     pub fn start<T: Tracer>(self, tracer: &T) -> T::Span {
-        Context::map_current(|cx| tracer.build_with_context(self, cx))
+        tracer.build_with_context(self, &Context::current())
     }
 
     /// Builds a span with the given tracer from this configuration and parent.
-- 
2.43.0


From 86815d79042628a49a8b93d6a1771514993ceabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:43 +0000
Subject: [PATCH 50/54] fix: integer sums of histograms and precomputed deltas
 panicked on overflow in debug builds

They now wrap around like sums do.
---
 .../metrics/internal/exponential_histogram.rs |  2 +-
 .../src/metrics/internal/histogram.rs         |  2 +-
 opentelemetry-sdk/src/metrics/internal/mod.rs | 31 +++++++++++++++++++
 .../src/metrics/internal/precomputed_sum.rs   |  2 +-
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
index fc284db..eeee1d5 100644
--- a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
@@ -59,7 +59,7 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
         if v > self.max {
             self.max = v;
         }
-        self.sum += v;
+        self.sum = self.sum.wrapping_add(v);
 
         let abs_v = v.into_float().abs();
 
diff --git a/opentelemetry-sdk/src/metrics/internal/histogram.rs b/opentelemetry-sdk/src/metrics/internal/histogram.rs
index a085ec8..88b2851 100644
--- a/opentelemetry-sdk/src/metrics/internal/histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/histogram.rs
@@ -25,7 +25,7 @@ where
     fn update(&self, (value, index): (T, usize)) {
         let mut buckets = self.lock().unwrap_or_else(|err| err.into_inner());
 
-        buckets.total += value;
+        buckets.total = buckets.total.wrapping_add(value);
         buckets.count += 1;
         buckets.counts[index] += 1;
         if value < buckets.min {
diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index e73e755..ffb0bc2 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -280,6 +280,13 @@ pub(crate) trait Number:
     fn max() -> Self;
 
     fn into_float(self) -> f64;
+
+    /// Addition that wraps around on overflow (for integers), as adding to an
+    /// [`AtomicTracker`] does.
+    fn wrapping_add(self, other: Self) -> Self;
+
+    /// Subtraction that wraps around on overflow (for integers).
+    fn wrapping_sub(self, other: Self) -> Self;
 }
 
 impl Number for i64 {
@@ -295,6 +302,14 @@ impl Number for i64 {
         // May have precision loss at high values
         self as f64
     }
+
+    fn wrapping_add(self, other: Self) -> Self {
+        i64::wrapping_add(self, other)
+    }
+
+    fn wrapping_sub(self, other: Self) -> Self {
+        i64::wrapping_sub(self, other)
+    }
 }
 impl Number for u64 {
     fn min() -> Self {
@@ -309,6 +324,14 @@ impl Number for u64 {
         // May have precision loss at high values
         self as f64
     }
+
+    fn wrapping_add(self, other: Self) -> Self {
+        u64::wrapping_add(self, other)
+    }
+
+    fn wrapping_sub(self, other: Self) -> Self {
+        u64::wrapping_sub(self, other)
+    }
 }
 impl Number for f64 {
     fn min() -> Self {
@@ -322,6 +345,14 @@ impl Number for f64 {
     fn into_float(self) -> f64 {
         self
     }
+
+    fn wrapping_add(self, other: Self) -> Self {
+        self + other
+    }
+
+    fn wrapping_sub(self, other: Self) -> Self {
+        self - other
+    }
 }
 
 impl AggregatedMetricsAccess for i64 {
diff --git a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
index fc372de..eec18f3 100644
--- a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
+++ b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
@@ -72,7 +72,7 @@ impl<T: Number> PrecomputedSum<T> {
             .collect_and_reset(&mut s_data.data_points, |attributes, aggr| {
                 let value = aggr.value.get_value();
                 new_reported.insert(attributes.clone(), value);
-                let delta = value - *reported.get(&attributes).unwrap_or(&T::default());
+                let delta = value.wrapping_sub(*reported.get(&attributes).unwrap_or(&T::default()));
                 SumDataPoint {
                     attributes,
                     value: delta,
-- 
2.43.0


From 2fb9f669d46924fa56d9d281fe197ff5ab490f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 51/54] fix: simple processors panicked on threads running a
 futures_executor future

futures_executor::block_on refuses to be nested: telemetry recorded inside
an application's block_on could not be exported, nor flushed by the
async-runtime processors and reader.
---
 .../src/logs/concurrent_log_processor.rs      |  2 +-
 .../src/logs/simple_log_processor.rs          |  2 +-
 .../periodic_reader_with_async_runtime.rs     |  4 +--
 opentelemetry-sdk/src/runtime.rs              |  2 +-
 opentelemetry-sdk/src/trace/span_processor.rs |  2 +-
 opentelemetry-sdk/src/util.rs                 | 33 +++++++++++++++++++
 6 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/concurrent_log_processor.rs b/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
index d77a0cc..0b08e4c 100644
--- a/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
@@ -27,7 +27,7 @@ impl<T: LogExporter> SimpleConcurrentLogProcessor<T> {
 impl<T: LogExporter> LogProcessor for SimpleConcurrentLogProcessor<T> {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
         let log_tuple = &[(record as &SdkLogRecord, instrumentation)];
-        let result = futures_executor::block_on(self.exporter.export(LogBatch::new(log_tuple)));
+        let result = crate::util::block_on(self.exporter.export(LogBatch::new(log_tuple)));
         if let Err(err) = result {
             otel_info!(
                 name: "SimpleConcurrentLogProcessor.Emit.ExportError",
diff --git a/opentelemetry-sdk/src/logs/simple_log_processor.rs b/opentelemetry-sdk/src/logs/simple_log_processor.rs
index 5cbda69..55a8fe4 100644
--- a/opentelemetry-sdk/src/logs/simple_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/simple_log_processor.rs
@@ -92,7 +92,7 @@ impl<T: LogExporter> LogProcessor for SimpleLogProcessor<T> {
             .map_err(|_| OTelSdkError::InternalFailure("SimpleLogProcessor mutex poison".into()))
             .and_then(|exporter| {
                 let log_tuple = &[(record as &SdkLogRecord, instrumentation)];
-                futures_executor::block_on(exporter.export(LogBatch::new(log_tuple)))
+                crate::util::block_on(exporter.export(LogBatch::new(log_tuple)))
             });
         // Handle errors with specific static names
         match result {
diff --git a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
index 03e0230..0817f77 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
@@ -393,7 +393,7 @@ impl<E: PushMetricExporter> MetricReader for PeriodicReader<E> {
 
         drop(inner); // don't hold lock when blocking on future
 
-        futures_executor::block_on(receiver)
+        crate::util::block_on(receiver)
             .map_err(|err| OTelSdkError::InternalFailure(err.to_string()))
             .and_then(|res| res)
     }
@@ -414,7 +414,7 @@ impl<E: PushMetricExporter> MetricReader for PeriodicReader<E> {
             .map_err(|e| OTelSdkError::InternalFailure(e.to_string()))?;
         drop(inner); // don't hold lock when blocking on future
 
-        let shutdown_result = futures_executor::block_on(receiver)
+        let shutdown_result = crate::util::block_on(receiver)
             .map_err(|err| OTelSdkError::InternalFailure(err.to_string()))?;
 
         // Acquire the lock again to set the shutdown flag
diff --git a/opentelemetry-sdk/src/runtime.rs b/opentelemetry-sdk/src/runtime.rs
index a0f6d5d..04b87b6 100644
--- a/opentelemetry-sdk/src/runtime.rs
+++ b/opentelemetry-sdk/src/runtime.rs
@@ -82,7 +82,7 @@ pub(crate) fn block_on_response<T>(
     response: oneshot::Receiver<T>,
     worker_ended: &WorkerEnded,
 ) -> Result<T, oneshot::Canceled> {
-    match futures_executor::block_on(future::select(response, worker_ended.clone())) {
+    match crate::util::block_on(future::select(response, worker_ended.clone())) {
         Either::Left((response, _)) => response,
         Either::Right((_, mut response)) => {
             response.try_recv().and_then(|r| r.ok_or(oneshot::Canceled))
diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 8f41b23..fef0e92 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -139,7 +139,7 @@ impl<T: SpanExporter> SpanProcessor for SimpleSpanProcessor<T> {
             .exporter
             .lock()
             .map_err(|_| OTelSdkError::InternalFailure("SimpleSpanProcessor mutex poison".into()))
-            .and_then(|exporter| futures_executor::block_on(exporter.export(vec![span])));
+            .and_then(|exporter| crate::util::block_on(exporter.export(vec![span])));
 
         if let Err(err) = result {
             // TODO: check error type, and log `error` only if the error is user-actionable, else log `debug`
diff --git a/opentelemetry-sdk/src/util.rs b/opentelemetry-sdk/src/util.rs
index adad9cc..cf72dce 100644
--- a/opentelemetry-sdk/src/util.rs
+++ b/opentelemetry-sdk/src/util.rs
@@ -1,5 +1,38 @@
 //! Internal utilities
 
+use std::{
+    future::Future,
+    pin::pin,
+    sync::Arc,
+    task::{Context, Poll, Wake, Waker},
+    thread::{self, Thread},
+};
+
+/// Runs a future to completion on the current thread, which sleeps while the future waits.
+///
+/// Unlike `futures_executor::block_on` this can be used on threads that are running a future
+/// with that executor already: telemetry is recorded inside of applications' futures too.
+#[allow(dead_code)]
+pub(crate) fn block_on<F: Future>(future: F) -> F::Output {
+    struct Unpark(Thread);
+
+    impl Wake for Unpark {
+        fn wake(self: Arc<Self>) {
+            self.0.unpark();
+        }
+    }
+
+    let mut future = pin!(future);
+    let waker = Waker::from(Arc::new(Unpark(thread::current())));
+    let mut cx = Context::from_waker(&waker);
+    loop {
+        match future.as_mut().poll(&mut cx) {
+            Poll::Ready(output) => return output,
+            Poll::Pending => thread::park(),
+        }
+    }
+}
+
 /// Helper which wraps `tokio::time::interval` and makes it return a stream
 #[cfg(any(feature = "rt-tokio", feature = "rt-tokio-current-thread"))]
 pub fn tokio_interval_stream(
-- 
2.43.0


From 640a7c6074af0a20d3b93fa8529146d36254f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 52/54] fix: batch log processor hid failed exports from
 flushes of several batches and from shutdown

---
 opentelemetry-sdk/src/logs/batch_log_processor.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 633857f..02be283 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -276,13 +276,13 @@ impl LogProcessor for BatchLogProcessor {
             Ok(_) => {
                 receiver
                     .recv_timeout(self.shutdown_timeout)
-                    .map(|_| {
+                    .map(|result| {
                         // join the background thread after receiving back the
                         // shutdown signal
                         if let Some(handle) = self.handle.lock().unwrap().take() {
                             handle.join().unwrap();
                         }
-                        OTelSdkResult::Ok(())
+                        result
                     })
                     .map_err(|err| match err {
                         RecvTimeoutError::Timeout => {
@@ -391,7 +391,8 @@ impl BatchLogProcessor {
                         }
                         total_exported_logs += count_of_logs;
 
-                        result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
+                        // Report the first error of the export operations.
+                        result = result.and(export_batch_sync(exporter, logs, last_export_time)); // This method clears the logs vec after exporting
 
                         current_batch_size.fetch_sub(count_of_logs, Ordering::Relaxed);
                     }
@@ -444,7 +445,7 @@ impl BatchLogProcessor {
                                 &current_batch_size,
                                 &config,
                             );
-                            let _ = exporter.shutdown();
+                            let result = result.and(exporter.shutdown());
                             let _ = sender.send(result);
 
                             otel_debug!(
-- 
2.43.0


From eed0358a9323f96dc66808c547d8b2d37cd6d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 53/54] fix: the concurrent log processor exported without
 suppressing telemetry

---
 opentelemetry-sdk/src/logs/concurrent_log_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/logs/concurrent_log_processor.rs b/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
index 0b08e4c..1ba3881 100644
--- a/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/concurrent_log_processor.rs
@@ -1,4 +1,4 @@
-use opentelemetry::{otel_info, InstrumentationScope};
+use opentelemetry::{otel_info, Context, InstrumentationScope};
 
 use crate::{error::OTelSdkResult, Resource};
 
@@ -26,6 +26,8 @@ impl<T: LogExporter> SimpleConcurrentLogProcessor<T> {
 
 impl<T: LogExporter> LogProcessor for SimpleConcurrentLogProcessor<T> {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
+        // telemetry the exporter generates must not come back to it
+        let _suppress_guard = Context::enter_telemetry_suppressed_scope();
         let log_tuple = &[(record as &SdkLogRecord, instrumentation)];
         let result = crate::util::block_on(self.exporter.export(LogBatch::new(log_tuple)));
         if let Err(err) = result {
-- 
2.43.0


From 93653534ef7c57767f93acab3ec666dc77ce9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:20 +0000
Subject: [PATCH 54/54] fix: the async batch log processor reports failed
 interval exports

---
 .../src/logs/log_processor_with_async_runtime.rs             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
index 005b0b7..82e380b 100644
--- a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
@@ -185,6 +185,11 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
                                     error = format!("{:?}", send_error),
                                 );
                             }
+                        } else if let Err(err) = result {
+                            otel_error!(
+                                name: "BatchLogProcessor.Flush.ExportError",
+                                error = format!("{}", err)
+                            );
                         }
                     }
                     // Stream has terminated or processor is shutdown, return to finish execution.
-- 
2.43.0

