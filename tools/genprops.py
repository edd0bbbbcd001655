#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
SM = "opentelemetry-sdk/src/metrics/"
ST = "opentelemetry-sdk/src/trace/"
SL = "opentelemetry-sdk/src/logs/"
A = "opentelemetry/src/"

p("M01", "Every measurement is aggregated exactly once under concurrency",
  "For counters, up-down counters and histograms recorded from any number of threads while readers collect, every measurement is counted exactly once per reader and under exactly the attribute set it was recorded with (or, beyond the cardinality limit, the overflow set): the sum over all delta collections, and the final cumulative collection, equal the recorded totals, also for histogram count, sum and bucket counts. No collection ever reports more than was recorded before it finished or (cumulatively) less than was recorded before it started, and each histogram point is internally consistent (count equals the sum of its bucket counts).",
  ["schedules", "inputs", "configurations"], "all interleavings of recording threads and collecting readers, all instruments/number types/temporalities, attribute sets given in any order",
  "tests run one or two fixed thread schedules and never collect concurrently with recording; lost or doubled updates need a specific interleaving between recording, map insertion and collection",
  [SM+"internal/mod.rs", SM+"internal/sum.rs", SM+"internal/histogram.rs", SM+"pipeline.rs"],
  [("ValueMap::measure / collect_and_reset", SM+"internal/mod.rs"), ("AtomicTracker", SM+"internal/mod.rs")],
  ["MetricReader::collect output"])
p("M02", "Synchronous aggregation equals a reference model over any history",
  "For any single-threaded history of measurements and collections, each counter, up-down counter, gauge and explicit-bucket histogram reports exactly the points a reference aggregation gives: one point per distinct attribute set (order of attributes irrelevant) with the exact sum, last value, or histogram count/sum/min/max/bucket counts (upper bounds inclusive). Cumulative readers keep reporting every set since start; delta readers report only sets recorded since their previous collection, starting again from nothing; monotonicity and temporality flags match the instrument and the reader's preference (delta, cumulative, low-memory).",
  ["histories", "inputs", "configurations"], "all histories of record/collect on every instrument kind and number type, all attribute values and orders, boundary values, all temporalities and boundaries",
  "tests sample a handful of fixed sequences; the state carried between collections depends on the whole history and on attribute order",
  [SM+"internal/", SM+"instrument.rs", SM+"pipeline.rs"],
  [("aggregate functions", SM+"internal/aggregate.rs"), ("sort_and_dedup", SM+"internal/mod.rs"), ("temporality_preference", SM+"instrument.rs")],
  ["MetricReader::collect output"])
p("M03", "Observable instruments report exactly what their callbacks observed",
  "At each collection every registered callback of an observable instrument runs exactly once per reader, also when collections overlap, and the reader reports for each attribute set observed in that collection the observed value: as is for gauges and cumulative sums, and as the difference from the value reported in the previous collection for delta sums (so the deltas of a continuously observed set always add up to its current value). Delta readers, and gauges of every reader, report no set that was not observed in that collection, and the order in which attributes are listed by the callback never matters.",
  ["histories", "inputs", "configurations"], "all sequences of callback outputs over collections, attribute orders, number types, temporalities, several readers",
  "tests use one or two attributes already in sorted order and two or three collections",
  [SM+"internal/precomputed_sum.rs", SM+"internal/last_value.rs", SM+"pipeline.rs", SM+"meter.rs"],
  [("PrecomputedSum::delta reported map", SM+"internal/precomputed_sum.rs"), ("Pipeline callbacks", SM+"pipeline.rs")],
  ["MetricReader::collect output"])
p("M04", "Exponential histograms place every value in a correct bucket",
  "For any sequence of finite values, an exponential-histogram point has count, sum, min and max equal to the recorded values, zero count plus bucket counts equal to count, at most the configured number of buckets per sign and a scale within the configured maximum, and every non-zero value lies in the bucket whose bounds (base^i, base^(i+1)] at the reported scale contain it. Scale only ever decreases while a stream keeps accumulating and non-finite values are ignored.",
  ["inputs", "histories", "configurations"], "all sequences of f64/u64 values (subnormals, extremes, exact powers of two, mixed signs), all max_size >= 2 / max_scale, delta and cumulative",
  "downscaling and bucket growth depend on the order and spread of values; tests use fixed lists",
  [SM+"internal/exponential_histogram.rs"],
  [("ExpoHistogramDataPoint::record", SM+"internal/exponential_histogram.rs"), ("ExpoBuckets::downscale", SM+"internal/exponential_histogram.rs")],
  ["MetricReader::collect output"])
p("M05", "The cardinality limit bounds points without losing measurements",
  "With cardinality limit L, an instrument never reports more than L attribute sets plus the set-less point and one overflow point marked otel.metric.overflow=true; sets admitted before the limit keep their own exact points, and every measurement of a set beyond the limit is added to the overflow point, so totals are conserved. Delta collection resets the budget, cumulative does not, and the default limit is 2000.",
  ["inputs", "histories", "schedules", "configurations"], "all numbers and orders of attribute sets around the limit, limits from 1, temporalities, concurrent first-time inserts",
  "tests check one count past the limit sequentially; admission races and interplay with collection and attribute order are not exercised",
  [SM+"internal/mod.rs", SM+"pipeline.rs", SM+"instrument.rs"],
  [("is_under_cardinality_limit", SM+"internal/mod.rs"), ("stream_overflow_attributes", SM+"internal/mod.rs")],
  ["MetricReader::collect output"])
p("M06", "Metric time windows chain without gaps or overlaps",
  "Every metric has start_time <= time; successive delta collections of a stream form contiguous windows (each start_time equals the previous collection's time), cumulative streams keep one constant start_time not later than the first collection while their time never decreases, and each collection's time lies between its start and end. This holds per reader for every aggregation kind, synchronous or observable, even when instruments are idle.",
  ["histories", "configurations"], "all histories of record/collect over several readers with different temporality",
  "tests do not check timestamps across collections",
  [SM+"internal/aggregate.rs", SM+"internal/sum.rs", SM+"internal/last_value.rs", SM+"internal/histogram.rs", SM+"internal/exponential_histogram.rs", SM+"internal/precomputed_sum.rs"],
  [("AggregateTimeInitiator", SM+"internal/aggregate.rs")], ["data::Sum/Gauge/Histogram start_time,time"])
p("M07", "Views transform exactly the streams they match",
  "An instrument produces one stream per matching view (default stream if none match), with the view's name, description, unit, aggregation and cardinality limit applied and everything else unchanged; a drop aggregation produces nothing. Matching is by the instrument's name ('*' any run, '?' one character), kind (synchronous or observable), unit and scope; a view that cannot mean anything (no criterion at all, a wildcard name with a new name, an invalid aggregation) applies to nothing. An attribute filter keeps only the allowed keys, merging the measurements of sets that become equal so totals are conserved; streams that become identical are reported once per collection.",
  ["configurations", "inputs"], "all combinations of views, wildcard patterns, instruments and attribute sets",
  "tests use a few hand-written views; pattern matching and filter merging quantify over all names/sets",
  [SM+"view.rs", SM+"pipeline.rs", SM+"instrument.rs"],
  [("new_view", SM+"view.rs"), ("Inserter::instrument", SM+"pipeline.rs"), ("AttributeSetFilter", SM+"internal/aggregate.rs")],
  ["MetricReader::collect output"])
p("M08", "Instrument and scope identity decides which measurements share a stream",
  "Within one meter provider, instruments created repeatedly with the same scope, name (ASCII case-insensitive), kind, unit and description feed a single stream reported exactly once under the first-seen name, while instruments differing in scope, kind, unit or description are reported separately with no measurement lost or mixed. Instruments with an invalid name (not [A-Za-z][A-Za-z0-9_.-/]{0,254}) or unit (longer than 63 or non-ASCII) or invalid histogram boundaries record nothing and never affect other instruments.",
  ["inputs", "histories", "schedules"], "all instrument descriptors and creation orders, concurrent creation from several threads",
  "tests cover a few duplicates sequentially",
  [SM+"meter.rs", SM+"pipeline.rs", SM+"meter_provider.rs"],
  [("InstrumentResolver / cache", SM+"meter.rs"), ("cached_aggregator", SM+"pipeline.rs"), ("validate_instrument_name", SM+"meter.rs")],
  ["MetricReader::collect output"])
p("M09", "Periodic reader delivers every measurement and honours its lifecycle",
  "Under a periodic reader, everything recorded before a force_flush or shutdown call is handed to the exporter before that call returns success, with delta exports adding up to exactly what was recorded and never two exports running at once. An export failure is returned from flush, the first shutdown runs one final export and shuts the exporter down exactly once, later flush/shutdown calls return an already-shutdown error without exporting, no export happens after shutdown, and dropping the last provider handle behaves as shutdown.",
  ["schedules", "histories", "fault_sequences", "configurations"], "all interleavings of recording, interval ticks, flush, shutdown and exporter delays/errors",
  "tests use an immediate in-memory exporter and single-threaded sequences",
  [SM+"periodic_reader.rs", SM+"meter_provider.rs", SM+"pipeline.rs"],
  [("PeriodicReaderInner", SM+"periodic_reader.rs"), ("SdkMeterProviderInner", SM+"meter_provider.rs")], ["PushMetricExporter calls"])
p("T01", "Batch span processor exports each accepted span exactly once",
  "Every sampled span ended on a batch span processor is exported exactly once unless it was refused because the queue already held max_queue_size spans or the processor was shut down; successful force_flush and shutdown return only after every span ended before the call was handed to the exporter, however many batches that takes. Batches hold at most max_export_batch_size spans, each thread's spans keep their order, exports never overlap, refused spans never disturb later batching, a flush or shutdown any of whose exports fails reports an error and still hands over the rest, and after shutdown nothing is exported and the exporter has been shut down once.",
  ["schedules", "histories", "fault_sequences", "configurations"], "all interleavings of ending threads, timer, flush and shutdown; queue/batch sizes including queue==batch, full queue, exporter errors and delays",
  "tests end a few spans on one thread against an instant exporter; loss and duplication need specific interleavings, queue-full histories or backlogs larger than a batch",
  [ST+"span_processor.rs"],
  [("BatchSpanProcessor::on_end / current_batch_size", ST+"span_processor.rs"), ("get_spans_and_export", ST+"span_processor.rs")], ["SpanExporter calls"])
p("T02", "An exported span is exactly the effect of its operations",
  "The span data each processor receives equals the sequential effect of the builder and span calls made before the first end: name, kind, attributes in order, events, links, instrumentation scope, start and end times, and the status (Ok is final, Unset never overrides a status already set, otherwise the last one set wins; description only on Error). A recording span is delivered to every processor, in registration order, once on start and once on end, whether it ends explicitly or by being dropped; operations after the end have no effect and is_recording turns false.",
  ["histories", "inputs", "schedules"], "all sequences of span operations, including repeated end, drop without end, sharing via contexts across threads",
  "tests check single operations; the guarantee quantifies over operation sequences and sharing",
  [ST+"span.rs", ST+"tracer.rs", A+"trace/context.rs"],
  [("Span::ensure_ended_and_exported", ST+"span.rs"), ("build_recording_span", ST+"tracer.rs")], ["SpanProcessor::on_start/on_end"])
p("T03", "Span limits cap collections and count what they drop",
  "For every span the exported attributes, events, links, attributes per event and attributes per link never exceed the configured limits, whether supplied through the builder, the sampler or the span; the first ones in order are kept and each dropped count equals the number offered minus the number kept. Limits of zero drop everything and spans of one provider never affect another's limits.",
  ["inputs", "histories", "configurations"], "all limit values (including 0) and all mixes of builder-supplied and later-added data",
  "tests use one limit value and one route each",
  [ST+"span.rs", ST+"tracer.rs", ST+"span_limit.rs", ST+"config.rs"],
  [("set_attribute limit", ST+"span.rs"), ("build_recording_span", ST+"tracer.rs")], ["SpanData"])
p("T04", "Sampling decisions are consistent and fully respected",
  "Ratio sampling depends only on the trace id, is monotone in the ratio (a trace sampled at ratio r is sampled at every larger ratio), keeps none at 0 and all at 1 and a close-to-r share of random ids, and parent-based sampling follows the sampled flag of the active parent span, remote or local, and its root sampler when there is none. The decision determines the outcome: dropped spans never record or reach processors, record-only spans reach processors unsampled but are never exported by batch or simple processors, sampled spans carry the sampled flag, and the sampler's attributes and trace state are applied to the span.",
  ["inputs", "configurations"], "all trace ids, ratios, parents and sampler combinations",
  "tests use statistical checks on few ratios and fixed parent cases",
  [ST+"sampler.rs", ST+"tracer.rs", ST+"span_processor.rs"],
  [("sample_based_on_probability", ST+"sampler.rs"), ("ParentBased", ST+"sampler.rs"), ("build_with_context", ST+"tracer.rs")], ["SpanData, span contexts"])
p("T05", "Spans form correct trees: parentage and identifiers are right",
  "A span started with a valid parent in its context gets the parent's trace id, records the parent's span id and inherits the trace state chosen by the sampler; with no valid parent it becomes the root of a fresh trace with a non-zero trace id. Span ids are non-zero and unique across threads, explicit ids given to the builder are used as is, and the span context visible through the API equals the exported one.",
  ["inputs", "schedules", "histories"], "all parent contexts (none, valid, invalid, remote, suppressed, non-recording), nesting shapes and threads",
  "tests check single parent-child pairs",
  [ST+"tracer.rs", ST+"id_generator/mod.rs", A+"trace/context.rs"],
  [("build_with_context", ST+"tracer.rs"), ("RandomIdGenerator", ST+"id_generator/mod.rs")], ["SpanData"])
p("X01", "Simple processors export synchronously, once and one at a time",
  "The simple span and log processors hand each sampled span (each log record) to their exporter exactly once, before the ending or emitting call returns, in per-thread order, and never run two exports of one processor at the same time. Exporter errors and panic-free failures do not lose later items; after shutdown nothing more is exported and the exporter was shut down.",
  ["schedules", "fault_sequences"], "all thread interleavings, exporter delays and errors",
  "tests are single threaded",
  [ST+"span_processor.rs", SL+"simple_log_processor.rs"],
  [("SimpleSpanProcessor", ST+"span_processor.rs"), ("SimpleLogProcessor", SL+"simple_log_processor.rs")], ["exporter calls"])
p("L01", "Batch log processor exports each accepted record exactly once",
  "Every log record emitted to a batch log processor is exported exactly once unless it was refused because the queue already held max_queue_size records or the processor was shut down; successful force_flush and shutdown return only after every record emitted before the call was handed to the exporter. Batches hold at most max_export_batch_size records, each thread's records keep their order, exports never overlap, every call terminates, a flush or shutdown any of whose exports fails reports an error and still hands over the rest, and after shutdown nothing is exported, the exporter has been shut down and further flush or shutdown calls return errors rather than success.",
  ["schedules", "histories", "fault_sequences", "configurations"], "all interleavings of emitters, timer, flush and shutdown; queue/batch sizes, exporter errors and delays",
  "tests emit a few records on one thread against an instant exporter",
  [SL+"batch_log_processor.rs"],
  [("BatchLogProcessor::emit / current_batch_size", SL+"batch_log_processor.rs"), ("get_logs_and_export", SL+"batch_log_processor.rs")], ["LogExporter calls"])
p("L02", "Log records reach every processor intact and trace-correlated",
  "A log record emitted through a logger reaches each processor in registration order carrying exactly the fields set on it (timestamps, severity, body, target, event name, and all attributes in insertion order however many), the logger's scope, an observed timestamp, and the trace and span ids and flags of the span active in the emitting context unless a trace context was set explicitly. Changes made by one processor are visible to the later ones and to no other record, enablement is true if any processor wants the record, and after shutdown the built-in processors export nothing and loggers obtained later deliver nothing.",
  ["inputs", "histories", "configurations"], "all records (0..many attributes, all AnyValue shapes), active-span situations and processor chains",
  "tests set a few attributes; inline-to-heap spill and mutation chains are only sampled",
  [SL+"record.rs", SL+"logger.rs", SL+"logger_provider.rs", "opentelemetry-sdk/src/growable_array.rs"],
  [("GrowableArray", "opentelemetry-sdk/src/growable_array.rs"), ("SdkLogger::emit", SL+"logger.rs")], ["LogProcessor::emit"])
p("L03", "Log appenders translate every event faithfully",
  "Each log-crate record and each tracing event that passes the bridge's enablement filter produces exactly one OpenTelemetry record with the matching severity number and text, target, body text, and one attribute per key-value with its type preserved (integers beyond i64 as decimal text); nothing is dropped, duplicated or reordered. The bridges add the active trace context and never panic on any value.",
  ["inputs"], "all levels, targets, messages and key-value types and magnitudes (including nested structures through serde)",
  "tests check one event per type",
  ["opentelemetry-appender-log/src/lib.rs", "opentelemetry-appender-tracing/src/layer.rs"],
  [("any_value::serialize", "opentelemetry-appender-log/src/lib.rs"), ("EventVisitor", "opentelemetry-appender-tracing/src/layer.rs")], ["LogProcessor::emit"])
p("A01", "Async-runtime batch processors and reader deliver exactly once",
  "The batch span and log processors and the periodic reader that run on an async runtime deliver every accepted item exactly once: after a successful force_flush or shutdown everything handed over earlier has been exported, batches never exceed the configured size, order per thread is kept, exports never exceed the configured concurrency, and an export exceeding the export timeout is reported as an error without blocking later exports; a flush or shutdown whose export fails reports it. After shutdown nothing is exported and the exporter is shut down.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings on multi-thread and current-thread tokio runtimes, exporter delays/errors/timeouts, batch and queue sizes",
  "tests use fixed small scenarios on one runtime",
  [ST+"span_processor_with_async_runtime.rs", SL+"log_processor_with_async_runtime.rs", SM+"periodic_reader_with_async_runtime.rs", "opentelemetry-sdk/src/runtime.rs"],
  [("BatchSpanProcessorInternal", ST+"span_processor_with_async_runtime.rs"), ("export_with_timeout", SL+"log_processor_with_async_runtime.rs")], ["exporter calls"])
p("C01", "The current context behaves as a per-thread stack of attachments",
  "On each thread the current context is the most recently attached context whose guard is still alive (the empty root context if none), whatever order guards are dropped in, at any nesting depth up to the supported maximum of 65535 (an attachment beyond it is ignored), and other threads are never affected. Contexts are immutable: deriving one with a value, span or baggage changes nothing else, lookups return the value set last for that type, and user code running while a guard or context is dropped may itself use the context API.",
  ["histories", "schedules"], "all sequences of attach, derive and (out-of-order) drop on any number of threads, depths up to and beyond 65535, drops that re-enter the API",
  "tests try a few drop orders; the guarantee is over all histories and re-entrancy",
  [A+"context.rs", A+"trace/context.rs"],
  [("ContextStack::push/pop_id", A+"context.rs"), ("ContextGuard", A+"context.rs")], ["Context::current()"])
p("C02", "Telemetry is suppressed inside exporters and suppressed scopes",
  "While telemetry suppression is active in the current context no span is recorded and no log record is delivered to processors, on the thread where it was entered only, and ending the scope restores the previous state exactly; contexts derived from a suppressed one stay suppressed. The SDK's background workers (batch span, batch log and periodic metric threads) and simple processors run their exporters under suppression, so telemetry produced by an exporter is never fed back into the pipeline.",
  ["histories", "schedules", "configurations"], "all nestings of suppression with spans, baggage and values, and all processors/readers whose exporter itself emits spans, logs and metrics",
  "tests cover single scopes; the no-feedback guarantee quantifies over processors and call paths (timer, flush, shutdown, size-triggered)",
  [A+"context.rs", ST+"span_processor.rs", SL+"batch_log_processor.rs", SL+"simple_log_processor.rs", SM+"periodic_reader.rs", ST+"tracer.rs", SL+"logger.rs"],
  [("enter_telemetry_suppressed_scope", A+"context.rs")], ["exporter calls"])
p("C03", "A context attached to a future or stream is current exactly while it is polled",
  "A future, stream or sink wrapped with a context sees that context as current during every poll (and every sink call), on whichever thread it is polled and however polls of many tasks interleave, and the polling thread's own current context is unchanged after each poll, including when the poll panics. Nested wrapped futures see the innermost context.",
  ["schedules", "histories"], "all interleavings of polls across tasks and threads, panicking polls, nested wrappers, streams and sinks",
  "tests poll one future to completion on one runtime",
  [A+"context/future_ext.rs", A+"context.rs"],
  [("WithContext::poll", A+"context/future_ext.rs")], ["Context::current() inside poll"])
p("P01", "W3C trace context is injected and extracted faithfully",
  "Injecting any valid span context and extracting it again yields the same trace id, span id, sampled flag and trace state, marked remote; an invalid span context injects nothing. Extraction of any headers never panics, accepts exactly well-formed traceparent values (2-32-16-2 lower-case hex fields, non-zero ids, version not ff, version 00 having nothing but perhaps a dash after the flags and no flags beyond the lowest two bits), and otherwise leaves the context unchanged; an unusable tracestate never discards a good traceparent.",
  ["inputs"], "all span contexts and all header strings",
  "tests use a table of examples",
  ["opentelemetry-sdk/src/propagation/trace_context.rs", A+"trace_context.rs", A+"trace/span_context.rs"],
  [("extract_span_context", "opentelemetry-sdk/src/propagation/trace_context.rs")], ["carrier contents, extracted SpanContext"])
p("P02", "TraceState is an ordered, validated, immutable list",
  "Inserting a key into a trace state puts it first with the new value and keeps the other entries in order, deleting removes just that key, and the original is never changed; lookups return the entry's value and keys and values that break the W3C grammar are rejected. Rendering a trace state as a header and parsing it back gives an equal trace state for any sequence of operations.",
  ["inputs", "histories"], "all sequences of insert/delete/parse with all keys and values",
  "tests use fixed examples",
  [A+"trace/span_context.rs"], [("TraceState", A+"trace/span_context.rs")], ["TraceState::get/header"])
p("P03", "Baggage is a bounded map with last-write-wins semantics",
  "After any sequence of inserts and removes a baggage holds exactly the last accepted value and metadata of each valid key, never more than 64 entries nor more than 8192 bytes in total, and an insert is refused only for an invalid key or because accepting it would exceed those limits given what the baggage holds at that moment. Setting baggage on a context affects that context only, and clearing it leaves none.",
  ["histories", "inputs"], "all sequences of insert/remove/clear with all keys, values, metadata and sizes around the limits",
  "tests fill the baggage once and never remove under pressure",
  [A+"baggage.rs"], [("Baggage::insert_with_metadata", A+"baggage.rs"), ("BaggageExt", A+"baggage.rs")], ["Baggage::get/iter/len"])
p("P04", "Baggage propagation round-trips every entry",
  "Injecting a context's baggage and extracting it from the same carrier yields exactly the same keys and values for every valid baggage, whatever characters the values contain, and the injected header is ASCII that other W3C baggage parsers split into the same entries. Extraction of arbitrary header text never panics, skips malformed members while keeping the well-formed ones, and leaves the rest of the context untouched.",
  ["inputs"], "all baggage contents (any Unicode value, percent signs, separators) and all header strings",
  "tests use a fixed table",
  ["opentelemetry-sdk/src/propagation/baggage.rs", A+"baggage.rs"],
  [("BaggagePropagator inject/extract", "opentelemetry-sdk/src/propagation/baggage.rs")], ["baggage header, extracted Baggage"])
p("P05", "B3 propagation round-trips in every encoding",
  "For every B3 encoding (single, multiple, both, unspecified) injecting a valid span context and extracting it with any B3 propagator yields the same trace id, span id and sampling state (sampled, not sampled, deferred; debug, which a lone single header conveys without the sampled bit), marked remote, and only header fields declared by the propagator are written. Extraction of any headers never panics; a malformed single header falls back to the multiple headers, and if nothing is valid the context is unchanged.",
  ["inputs", "configurations"], "all span contexts, encodings and header strings",
  "tests use tables of examples",
  ["opentelemetry-zipkin/src/propagator/mod.rs"], [("Propagator", "opentelemetry-zipkin/src/propagator/mod.rs")], ["carrier contents"])
p("P06", "Jaeger propagation round-trips and tolerates any header",
  "Injecting a valid span context with the Jaeger propagator (any custom header name or baggage prefix) and extracting it yields the same trace id, span id, sampled and debug state, marked remote; an invalid span context injects nothing. Short ids are left-padded, URL-encoded separators are accepted, any other malformed header leaves the context unchanged, and no header can cause a panic.",
  ["inputs", "configurations"], "all span contexts, header names, prefixes and header strings",
  "tests use tables of examples",
  ["opentelemetry-jaeger-propagator/src/propagator.rs"], [("Propagator", "opentelemetry-jaeger-propagator/src/propagator.rs")], ["carrier contents"])
p("P07", "Composite propagation and carriers lose nothing",
  "A composite propagator injects exactly the fields each member injects, in order, extracts by applying each member to the context left by the previous one, and declares exactly the union of its members' fields; the HashMap and HTTP header carriers return for any spelling of a key the last value set. The globally installed propagator behaves as the one installed last, and the default one does nothing.",
  ["configurations", "inputs", "schedules"], "all member lists, contexts, carriers and key spellings",
  "tests use one composition",
  [A+"propagation/composite.rs", A+"propagation/mod.rs", "opentelemetry-http/src/lib.rs", A+"global/propagation.rs"],
  [("TextMapCompositePropagator", A+"propagation/composite.rs"), ("HeaderInjector/HeaderExtractor", "opentelemetry-http/src/lib.rs")], ["carrier contents"])
p("R01", "Resources merge with the documented precedence",
  "A built resource contains exactly the union of the attributes supplied, later calls and detectors overriding earlier ones, environment resource attributes parsed as comma-separated key=value pairs with malformed pairs skipped, and service.name resolved in the order explicit, OTEL_SERVICE_NAME, OTEL_RESOURCE_ATTRIBUTES, unknown_service. Conflicting schema URLs cancel out, a single one is kept, and the resource given to a provider (merged over nothing else) is the one every exporter receives.",
  ["configurations", "inputs"], "all builder call sequences, detector lists and environment values",
  "tests check a few fixed environments",
  ["opentelemetry-sdk/src/resource/mod.rs", "opentelemetry-sdk/src/resource/env.rs"],
  [("Resource::merge", "opentelemetry-sdk/src/resource/mod.rs"), ("EnvResourceDetector", "opentelemetry-sdk/src/resource/env.rs")], ["Resource iteration, exporter set_resource"])
p("V01", "Provider shutdown reaches everything exactly once",
  "For tracer, logger and meter providers, the first shutdown reaches every registered processor or reader exactly once even if some fail, and reports a failure if any failed; every later shutdown, on any clone or thread, returns an already-shutdown error without calling them again, and of concurrent shutdowns exactly one wins. Force-flush reaches every processor and reports failures; spans started and loggers obtained afterwards, and instruments whenever obtained, are inert, dropping the last handle without shutdown shuts down once, and a manual reader whose provider was shut down reports an error instead of collecting.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of shutdown, flush, drop and telemetry calls on clones, with failing processors",
  "tests call shutdown once or twice sequentially",
  [ST+"provider.rs", SL+"logger_provider.rs", SM+"meter_provider.rs"],
  [("TracerProviderInner::shutdown", ST+"provider.rs"), ("LoggerProviderInner", SL+"logger_provider.rs"), ("SdkMeterProviderInner", SM+"meter_provider.rs")], ["processor calls"])
p("E01", "OTLP trace encoding preserves every span",
  "Converting any batch of spans to an OTLP trace request yields each span exactly once, in order within its scope, under the right resource and instrumentation scope (name, version, attributes, schema URL), with ids, parent, trace state, flags, kind, timestamps, attributes of every type, events, links, dropped counts and status equal to the original. The same request survives protobuf and OTLP-JSON encoding unchanged, and the z-pages messages carry what they hold of a span unchanged.",
  ["inputs"], "all span batches (many scopes sharing names, all value types, extreme timestamps, limits hit)",
  "tests convert one or two spans",
  ["opentelemetry-proto/src/transform/trace.rs", "opentelemetry-proto/src/transform/tracez.rs", "opentelemetry-proto/src/transform/common.rs", "opentelemetry-proto/src/proto.rs"],
  [("group_spans_by_resource_and_scope", "opentelemetry-proto/src/transform/trace.rs"), ("serializers", "opentelemetry-proto/src/proto.rs")], ["ExportTraceServiceRequest"])
p("E02", "OTLP metric encoding preserves every data point",
  "Converting any collected metrics to an OTLP metrics request preserves the resource, every scope, and every metric's name, description, unit, kind, temporality, monotonicity and data points with their attributes, times and exact values (integers within the signed 64-bit range, floats bit for bit, histogram and exponential-histogram counts, bounds, min, max, scale and offsets). The same request survives protobuf and OTLP-JSON encoding unchanged.",
  ["inputs"], "all collected metrics produced by the SDK",
  "no test converts histograms with all fields or checks many points",
  ["opentelemetry-proto/src/transform/metrics.rs", "opentelemetry-proto/src/proto.rs"],
  [("ExportMetricsServiceRequest::from", "opentelemetry-proto/src/transform/metrics.rs")], ["ExportMetricsServiceRequest"])
p("E03", "OTLP log encoding preserves every record and its scope",
  "Converting any batch of log records to an OTLP logs request yields each record exactly once, in order within its group, with severity, body and attributes of every (nested) type, event name, timestamps and trace correlation equal to the original and grouped under its target when set, otherwise under its full instrumentation scope (name, version, attributes, schema URL). The same request survives protobuf and OTLP-JSON encoding unchanged.",
  ["inputs"], "all log batches with any mix of targets and scopes",
  "tests convert one record per case",
  ["opentelemetry-proto/src/transform/logs.rs", "opentelemetry-proto/src/proto.rs"],
  [("group_logs_by_resource_and_scope", "opentelemetry-proto/src/transform/logs.rs")], ["ExportLogsServiceRequest"])
p("E04", "OTLP export results tell the truth",
  "For traces, metrics and logs over HTTP/protobuf, HTTP/JSON and gRPC, an export returns success if and only if the collector accepted the request, and the collector then received exactly one well-formed request with the data of that export; error statuses, refused or broken connections, malformed answers and answers slower than the timeout all return an error within bounded time. After shutdown an export returns an already-shutdown error and sends nothing; a further shutdown of a span or log exporter says so too.",
  ["fault_sequences", "inputs", "configurations"], "all collector behaviours (status codes, slow, closed, garbage) and payloads, with compression on gRPC",
  "tests need a real collector in Docker and are not run",
  ["opentelemetry-otlp/src/exporter/http/", "opentelemetry-otlp/src/exporter/tonic/", "opentelemetry-http/src/lib.rs"],
  [("OtlpHttpClient export", "opentelemetry-otlp/src/exporter/http/"), ("Tonic*Client export", "opentelemetry-otlp/src/exporter/tonic/")], ["requests seen by a loopback collector, export results"])
p("E05", "OTLP exporter configuration follows the documented precedence",
  "The endpoint, timeout and compression an OTLP exporter uses are those set in code, else the signal-specific environment variable, else the general one, else the default, where the HTTP general endpoint gets the per-signal path appended and signal-specific or in-code endpoints are used as is. Every request carries the headers set in code and those of the environment (a signal's variable replacing the general one; for a key given in both, the environment's value), the exporter's User-Agent unless overridden, and the credentials given to a hyper HTTP client. Environment headers are comma-separated key=value pairs with percent-decoded values, malformed pairs being skipped. A metrics exporter has the temporality last chosen on its builder, before or after the transport, and cumulative if none was.",
  ["configurations", "inputs"], "all combinations of code and environment settings for the three signals and two transports",
  "tests check helper functions with fixed values, never the requests sent",
  ["opentelemetry-otlp/src/exporter/mod.rs", "opentelemetry-otlp/src/exporter/http/mod.rs", "opentelemetry-otlp/src/exporter/tonic/mod.rs", "opentelemetry-otlp/src/metric.rs", "opentelemetry-http/src/lib.rs"],
  [("resolve_timeout / resolve_http_endpoint / resolve_endpoint", "opentelemetry-otlp/src/exporter/"), ("parse_header_string", "opentelemetry-otlp/src/exporter/mod.rs")], ["requests seen by a loopback collector"])
p("E06", "Zipkin export preserves every span",
  "Exporting any batch of spans to Zipkin sends one JSON array holding each span exactly once with its ids, parent, name, kind, start, duration, events as annotations (name and time), attributes as string tags, status tags and scope tags equal to the original, to the configured collector endpoint (an attribute `error` does not stand in for the error tag, and an attribute `span.kind` replaces the kind). The export succeeds if and only if the collector accepted it.",
  ["inputs", "fault_sequences"], "all span batches and collector answers",
  "tests convert one span per case",
  ["opentelemetry-zipkin/src/exporter/"], [("into_zipkin_span", "opentelemetry-zipkin/src/exporter/model/mod.rs"), ("uploader", "opentelemetry-zipkin/src/exporter/uploader.rs")], ["HTTP request body"])
p("E07", "A Prometheus scrape shows exactly the collected metrics",
  "Each scrape exposes every counter, up-down counter, gauge and explicit histogram point with its exact current value (histograms as cumulative buckets ending at the total count), correctly sanitised and suffixed names, labels carrying the point's attributes plus scope and selected resource labels, and valid exposition text; conflicting kinds under one name keep the first. Colliding label keys are joined rather than lost.",
  ["inputs", "histories", "configurations"], "all instruments, attribute keys/values and exporter options",
  "tests compare a few golden files",
  ["opentelemetry-prometheus/src/lib.rs", "opentelemetry-prometheus/src/utils.rs"],
  [("Collector::collect", "opentelemetry-prometheus/src/lib.rs")], ["prometheus::gather output"])
p("J01", "Jaeger remote sampling applies the strategy last received",
  "The Jaeger remote sampler uses its default sampler until a first strategy arrives and from then on exactly the strategy last successfully fetched: probabilistic with the given rate, per-operation with the operation's rate or the default rate, or rate limiting that admits up to the bucket size at once and thereafter about the given number of traces per second, neither more nor persistently less however often it is asked. Failed or malformed responses never change the decision rule to something else and never panic, every fetch asks the configured endpoint for the configured service (neither may be empty), and fetching stops once the sampler is dropped.",
  ["histories", "fault_sequences", "inputs"], "all sequences of strategy responses (including failures) and sampling requests over time",
  "tests check the bucket with a fixed fake clock and a few conversions",
  [ST+"sampler/jaeger_remote/"], [("LeakyBucket", ST+"sampler/jaeger_remote/rate_limit.rs"), ("Inner::update/should_sample", ST+"sampler/jaeger_remote/sampling_strategy.rs")], ["sampling decisions"])
p("K01", "Keys and values compare by content, whatever their storage",
  "Keys, string values and key-values built from static, owned or shared strings are equal, hash equally and order equally exactly when their content is the same, convert back to the same text, and equality is an equivalence relation consistent with hashing, so attribute sets with equal content always aggregate together. Converting any supported Rust value to an attribute or log value preserves its type and content, and a value reads back as the text of its content (an array as its items in order, comma-separated in square brackets, strings in double quotes).",
  ["inputs"], "all strings, numbers (including NaN and signed zero), arrays and nested log values in all storage forms",
  "tests compare a few constants",
  [A+"common.rs", A+"logs/record.rs"], [("OtelString", A+"common.rs"), ("KeyValue Hash/Eq", A+"common.rs")], ["==, Hash, Ord, Display"])
p("W01", "The SDK reports what it loses, truthfully",
  "Through its internal log (tracing events) the SDK reports every loss it causes or meets and no other: a batch processor that turns items away announces the first one once and, when it is shut down, the exact number turned away in its life, and one that lost nothing says nothing; every failed export of a batch processor or periodic reader is logged with the exporter's error or returned to the caller whose flush or shutdown it was; an instrument whose measurements will be ignored (invalid name, unit or boundaries) is named when it is created, a valid one is not; items given to a batch processor after shutdown and a failing shutdown of a dropped meter provider do not pass in silence.",
  ["schedules", "histories", "fault_sequences", "inputs"], "all queue sizes, loads, thread interleavings, export failures and instrument definitions",
  "tests read a private counter after one fixed overload and never look at what is reported",
  [ST+"span_processor.rs", ST+"span_processor_with_async_runtime.rs", "opentelemetry-sdk/src/logs/batch_log_processor.rs", "opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs", "opentelemetry-sdk/src/metrics/meter.rs", "opentelemetry-sdk/src/metrics/periodic_reader.rs"],
  [("BatchSpanProcessor::on_end / shutdown", ST+"span_processor.rs"), ("BatchLogProcessor::emit / shutdown", "opentelemetry-sdk/src/logs/batch_log_processor.rs"), ("create_counter and siblings", "opentelemetry-sdk/src/metrics/meter.rs")], ["tracing events of the SDK (feature internal-logs)"])
p("S01", "Concurrent use of the API and SDK is free of races, UB, deadlock and panics",
  "No sequence of public API calls, from any number of threads, on shared providers, tracers, spans, loggers, instruments, readers, processors, contexts and global state causes a data race, undefined behaviour, a memory leak of spans or records kept after shutdown, a deadlock or a panic inside the library. This includes telemetry calls racing with flush, shutdown and drop.",
  ["schedules", "histories"], "all interleavings of API calls across threads",
  "tests are mostly single threaded and run uninstrumented",
  ["opentelemetry/src/", "opentelemetry-sdk/src/"],
  [("locks and atomics throughout", "opentelemetry-sdk/src/")], ["Miri, ThreadSanitizer, panic and deadlock monitors"])
p("G01", "The global API delegates to whatever was installed last",
  "Telemetry made through the global functions reaches exactly the provider or propagator installed last: a handle obtained earlier (tracer, meter, instrument, open span) keeps working with the provider it came from, set_tracer_provider hands back the previous provider still working, and a replaced provider that no handle reaches any more is shut down exactly once while a reachable one is not. Concurrent installs and lookups behave as some order of them: a lookup never sees an installation older than the last one completed before it began. Before anything is installed, and with the no-op providers, every call is accepted without panicking or having an effect, and no-op spans carry their parent's span context on.",
  ["histories", "schedules"], "all sequences and interleavings of installs, lookups and use of handles, including handles that outlive several installations",
  "tests install one provider and look it up once",
  [A+"global/", A+"trace/noop.rs", A+"metrics/noop.rs"], [("set_tracer_provider", A+"global/trace.rs"), ("set_meter_provider", A+"global/metrics.rs"), ("set_text_map_propagator", A+"global/propagation.rs")], ["processors and readers behind each installed provider"])
p("U01", "SDK settings follow code over environment over default",
  "Batch processors (queue size, batch size, schedule delay, export timeout), periodic metric readers (interval, timeout), span limits and the default sampler take each setting from code when it was given there, else from its OTEL_* environment variable when that parses, else from the documented default; the batch size never exceeds the queue size. A variable that does not parse counts as absent and does not disturb other settings, variables of one signal do not affect another, and changing the environment after construction changes nothing.",
  ["configurations", "inputs"], "all combinations of code settings, well-formed and malformed variable values, over every processor and reader",
  "tests read back private configuration fields for a few values",
  [ST+"span_processor.rs", SL+"batch_log_processor.rs", SM+"periodic_reader.rs", ST+"config.rs"], [("BatchConfigBuilder::init_from_env_vars", ST+"span_processor.rs"), ("BatchConfigBuilder::init_from_env_vars", SL+"batch_log_processor.rs"), ("Config::default", ST+"config.rs"), ("PeriodicReaderBuilder::new", SM+"periodic_reader.rs")], ["batch sizes, queue refusals, export times, kept attributes, sampling decisions"])
p("D01", "Development exporters show exactly what they were given",
  "The in-memory exporters hold every exported span, log record and metric exactly as given, in export order and with its resource, clones share one store, snapshots are independent copies that only ever grow until reset, and reset (and, for spans and logs, shutdown) empties them; this holds under concurrent exports and snapshots. The stdout exporters print every exported item once, in order and complete (names, identifiers, times, status, attributes, events, links, bodies, values, buckets), each under its own export, the resource with the first export (metrics: every export), and print nothing and report already-shutdown after shutdown.",
  ["inputs", "histories", "schedules"], "all telemetry content and sequences of exports, snapshots, resets and shutdowns, from any number of threads",
  "tests use the in-memory exporters to test other code and never read the printed output",
  [ST+"in_memory_exporter.rs", SL+"in_memory_exporter.rs", SM+"in_memory_exporter.rs", "opentelemetry-stdout/src/"], [("InMemoryMetricExporter::clone_metrics", SM+"in_memory_exporter.rs"), ("print_spans", "opentelemetry-stdout/src/trace/exporter.rs"), ("print_logs", "opentelemetry-stdout/src/logs/exporter.rs"), ("print_metrics", "opentelemetry-stdout/src/metrics/exporter.rs")], ["get_finished_* / get_emitted_logs and captured standard output"])
p("F01", "Telemetry of cooperating services reaches the collector whole and linked",
  "Services that use the SDK's processors and readers with the OTLP exporter (HTTP or gRPC), pass context to one another through headers and shut down orderly hand every sampled span, every log record and every measurement to the collector exactly once, under their own resource. A request's spans form one tree across services and threads; a log record carries the ids of the span active when it was emitted; a trace sampled at its root is recorded by every parent-based service it reaches and one not sampled by none; trace state and baggage set before a call are seen unchanged by the service called. A collector that refuses some requests loses at most those: nothing is sent again and nothing else is held up or lost.",
  ["histories", "schedules", "configurations"], "all fleets (processors, transports, encodings, compressions, samplers, propagators), call graphs and thread schedules",
  "tests exercise each layer alone; the integration tests need a running collector and one process",
  ["opentelemetry-sdk/src/", "opentelemetry-otlp/src/", "opentelemetry-http/src/lib.rs", "opentelemetry-proto/src/transform/", "opentelemetry-zipkin/src/propagator/"], [("SdkTracer::build_with_context", ST+"tracer.rs"), ("SdkLogger::emit", SL+"logger.rs"), ("TraceContextPropagator", "opentelemetry-sdk/src/propagation/trace_context.rs"), ("HeaderInjector/HeaderExtractor", "opentelemetry-http/src/lib.rs")], ["requests received by a loopback collector"])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
