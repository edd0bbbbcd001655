//! User code that the SDK calls (callbacks, exporters, processors, samplers, views, readers) calling back
//! into the API, handles dropped in awkward places, and extreme values: each must end, without a panic.
use crate::chaos::NullM;
use hsdk::mlib::R;
use hsdk::plib::*;
use hsdk::*;
use opentelemetry::logs::{Logger as _, LoggerProvider as _};
use opentelemetry::metrics::{Meter, MeterProvider as _};
use opentelemetry::trace::{SamplingDecision, SamplingResult, Span as _, SpanContext, SpanKind, TraceContextExt as _, TraceId, TraceState, Tracer as _, TracerProvider as _};
use opentelemetry::{global, Context, InstrumentationScope, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLogger, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::*;
use opentelemetry_sdk::trace::{SdkTracerProvider, ShouldSample, Span, SpanData, SpanProcessor};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex, Weak};
use std::time::Duration;

type Flag = Arc<AtomicU64>;

// -- metrics
fn callback_builds(readers: usize) {
    let rs: Vec<R> = (0..readers).map(|_| R::new(Temporality::Cumulative)).collect();
    let mut b = SdkMeterProvider::builder();
    for r in &rs {
        b = b.with_reader(R(r.0.clone()));
    }
    let p = b.build();
    let m: Arc<Mutex<Option<Meter>>> = Arc::new(Mutex::new(Some(p.meter("lazy"))));
    let (m2, n) = (m.clone(), AtomicU64::new(0));
    p.meter("main")
        .u64_observable_gauge("g")
        .with_callback(move |o| {
            o.observe(1, &[]);
            let m = m2.lock().unwrap().clone().unwrap();
            let name = format!("made{}", n.fetch_add(1, SeqCst) % 8);
            m.u64_counter(name).build().add(1, &[]);
            m.i64_observable_gauge("made observable").with_callback(|o| o.observe(1, &[])).build();
        })
        .build();
    std::thread::scope(|s| {
        for r in &rs {
            s.spawn(move || {
                for _ in 0..20 {
                    let x = r.snap().expect("vh collect");
                    let g = x.mets.iter().any(|m| m.name == "g");
                    assert!(g, "vh: the gauge is missing from a collection");
                }
            });
        }
    });
    m.lock().unwrap().take();
}
fn callback_gets_meter() {
    let r = R::new(Temporality::Cumulative);
    let p = SdkMeterProvider::builder().with_reader(R(r.0.clone())).build();
    let p2 = Arc::new(Mutex::new(Some(p.clone())));
    let p3 = p2.clone();
    p.meter("main")
        .u64_observable_gauge("g")
        .with_callback(move |o| {
            o.observe(1, &[]);
            let p = p3.lock().unwrap().clone();
            let _ = p.map(|p| p.meter("another"));
        })
        .build();
    let _ = r.snap();
    let _ = r.snap();
    p2.lock().unwrap().take();
}
fn callback_uses_everything() {
    let r = R::new(Temporality::Delta);
    let p = SdkMeterProvider::builder().with_reader(R(r.0.clone())).build();
    let c = p.meter("main").u64_counter("existing").build();
    let tp = SdkTracerProvider::builder().with_simple_exporter(SpanExp(Default::default())).build();
    let lp = SdkLoggerProvider::builder().with_simple_exporter(LogExp(Default::default())).build();
    p.meter("main")
        .u64_observable_gauge("g")
        .with_callback(move |o| {
            c.add(1, &[]);
            tp.tracer("t").in_span("s", |_| o.observe(1, &[]));
            let l = lp.logger("l");
            l.emit(l.create_log_record());
        })
        .build();
    let _ = r.snap();
    let _ = r.snap();
}
fn view_uses_api() {
    let (r, r2) = (R::new(Temporality::Delta), R::new(Temporality::Delta));
    let other = SdkMeterProvider::builder().with_reader(R(r2.0.clone())).build();
    let p = SdkMeterProvider::builder()
        .with_reader(R(r.0.clone()))
        .with_view(move |i: &Instrument| {
            other.meter("x").u64_counter("views").build().add(1, &[KeyValue::new("of", i.name.to_string())]);
            None
        })
        .build();
    p.meter("m").u64_counter("c").build().add(1, &[]);
    let _ = r.snap();
}
#[derive(Debug)]
struct GlobalUser(Flag, &'static str);
impl GlobalUser {
    fn touch(&self) {
        let _ = global::tracer("t").start("s");
        global::meter("m").u64_counter("c").build().add(1, &[]);
        let _ = global::get_text_map_propagator(|p| p.fields().count());
        self.0.fetch_add(1, SeqCst);
    }
}
impl MetricReader for GlobalUser {
    fn register_pipeline(&self, _: Weak<Pipeline>) {}
    fn collect(&self, _: &mut ResourceMetrics) -> OTelSdkResult {
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        self.touch();
        Ok(())
    }
    fn temporality(&self, _: InstrumentKind) -> Temporality {
        Temporality::Cumulative
    }
}
impl SpanProcessor for GlobalUser {
    fn on_start(&self, _: &mut Span, _: &Context) {}
    fn on_end(&self, _: SpanData) {}
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.touch();
        Ok(())
    }
}
impl opentelemetry::propagation::TextMapPropagator for GlobalUser {
    fn inject_context(&self, _: &Context, _: &mut dyn opentelemetry::propagation::Injector) {}
    fn extract_with_context(&self, cx: &Context, _: &dyn opentelemetry::propagation::Extractor) -> Context {
        cx.clone()
    }
    fn fields(&self) -> opentelemetry::propagation::text_map_propagator::FieldIter<'_> {
        opentelemetry::propagation::text_map_propagator::FieldIter::new(&[])
    }
}
impl Drop for GlobalUser {
    fn drop(&mut self) {
        if self.1 == "propagator" {
            self.touch();
        }
    }
}
/// replacing a global: the old one is shut down as it goes, and its parts may use the globals
fn replace_global_meter() {
    let f = Flag::default();
    global::set_meter_provider(SdkMeterProvider::builder().with_reader(GlobalUser(f.clone(), "reader")).build());
    global::set_meter_provider(SdkMeterProvider::builder().build());
    assert_eq!(f.load(SeqCst), 1, "vh: the old provider was shut down");
}
fn replace_global_tracer() {
    let f = Flag::default();
    let _ = global::set_tracer_provider(SdkTracerProvider::builder().with_span_processor(GlobalUser(f.clone(), "processor")).build());
    let _ = global::set_tracer_provider(opentelemetry::trace::noop::NoopTracerProvider::new());
    assert_eq!(f.load(SeqCst), 1, "vh: the old provider was shut down");
}
fn replace_global_propagator() {
    let f = Flag::default();
    global::set_text_map_propagator(GlobalUser(f.clone(), "propagator"));
    global::set_text_map_propagator(opentelemetry_sdk::propagation::TraceContextPropagator::new());
    assert_eq!(f.load(SeqCst), 1, "vh: the old propagator was dropped");
}

// -- the last handle dropped by the pipeline's own exporter, on its own thread
fn last_handle_in_exporter(kind: &str) {
    let log = Arc::new(ExpLog::default());
    let slot: Arc<Mutex<Option<Box<dyn std::any::Any + Send>>>> = Default::default();
    let (s2, done) = (slot.clone(), Flag::default());
    let d2 = done.clone();
    *log.hook.lock().unwrap() = Some(Arc::new(move || {
        let x = s2.lock().unwrap().take();
        if x.is_some() {
            drop(x);
            d2.fetch_add(1, SeqCst);
        }
    }));
    match kind {
        "span" => {
            let p = SdkTracerProvider::builder().with_batch_exporter(SpanExp(log)).build();
            let mut s = p.tracer("t").start("s");
            let keep = p.clone();
            *slot.lock().unwrap() = Some(Box::new(p));
            s.end();
            drop(s);
            let _ = keep.force_flush();
            drop(keep);
        }
        "log" => {
            let p = SdkLoggerProvider::builder().with_batch_exporter(LogExp(log)).build();
            let l = p.logger("l");
            l.emit(l.create_log_record());
            drop(l);
            let keep = p.clone();
            *slot.lock().unwrap() = Some(Box::new(p));
            let _ = keep.force_flush();
            drop(keep);
        }
        _ => {
            #[derive(Debug)]
            struct M(Arc<ExpLog>);
            impl exporter::PushMetricExporter for M {
                async fn export(&self, _: &mut ResourceMetrics) -> OTelSdkResult {
                    let h = self.0.hook.lock().unwrap().clone();
                    h.unwrap()();
                    Ok(())
                }
                fn force_flush(&self) -> OTelSdkResult {
                    Ok(())
                }
                fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
                    Ok(())
                }
                fn temporality(&self) -> Temporality {
                    Temporality::Cumulative
                }
            }
            let p = SdkMeterProvider::builder().with_reader(PeriodicReader::builder(M(log)).with_interval(Duration::from_millis(5)).build()).build();
            p.meter("m").u64_counter("c").build().add(1, &[]);
            *slot.lock().unwrap() = Some(Box::new(p));
        }
    }
    assert!(eventually(25.0, || done.load(SeqCst) == 1), "vh: the exporter dropped the handle");
}

// -- traces
#[derive(Debug)]
struct Nosy(SdkTracerProvider);
thread_local!(static IN: Cell<bool> = const { Cell::new(false) });
fn once(f: impl FnOnce()) {
    if !IN.with(|i| i.replace(true)) {
        f();
        IN.with(|i| i.set(false));
    }
}
impl SpanProcessor for Nosy {
    fn on_start(&self, s: &mut Span, cx: &Context) {
        s.set_attribute(KeyValue::new("a", 1));
        cx.span().add_event("child", vec![]);
        let _ = s.exported_data();
        once(|| drop(self.0.tracer("other").start("from on_start")));
    }
    fn on_end(&self, _: SpanData) {
        Context::current().span().add_event("ended", vec![]);
        once(|| drop(self.0.tracer("other").start("from on_end")));
    }
    fn force_flush(&self) -> OTelSdkResult {
        once(|| drop(self.0.tracer("other").start("from flush")));
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        once(|| drop(self.0.tracer("other").start("from shutdown")));
        Ok(())
    }
}
#[derive(Debug, Clone)]
struct NosySampler(SdkTracerProvider);
impl ShouldSample for NosySampler {
    fn should_sample(&self, _: Option<&Context>, _: TraceId, _: &str, _: &SpanKind, _: &[KeyValue], _: &[opentelemetry::trace::Link]) -> SamplingResult {
        Context::current().span().add_event("sampling", vec![]);
        drop(self.0.tracer("other").start("from the sampler"));
        SamplingResult { decision: SamplingDecision::RecordAndSample, attributes: vec![], trace_state: TraceState::NONE }
    }
}
fn nosy_processor() {
    let other = SdkTracerProvider::builder().with_simple_exporter(SpanExp(Default::default())).build();
    let p = SdkTracerProvider::builder()
        .with_sampler(NosySampler(other.clone()))
        .with_span_processor(Nosy(other))
        .with_simple_exporter(SpanExp(Default::default()))
        .build();
    let t = p.tracer("t");
    t.in_span("a", |cx| {
        t.in_span("b", |_| cx.span().add_event("e", vec![]));
        let _: SpanContext = cx.span().span_context().clone();
    });
    let _ = p.force_flush();
    let _ = p.shutdown();
}
/// the processor uses the tracer of its own provider
fn own_tracer_processor() {
    #[derive(Debug, Default)]
    struct P(Mutex<Option<opentelemetry_sdk::trace::SdkTracer>>, AtomicBool);
    #[derive(Debug)]
    struct A(Arc<P>);
    impl SpanProcessor for A {
        fn on_start(&self, _: &mut Span, cx: &Context) {
            let t = self.0 .0.lock().unwrap().clone();
            once(|| drop(t.map(|t| t.start_with_context("inner", cx))));
        }
        fn on_end(&self, _: SpanData) {
            let t = self.0 .0.lock().unwrap().clone();
            once(|| drop(t.map(|t| t.start("inner"))));
        }
        fn force_flush(&self) -> OTelSdkResult {
            Ok(())
        }
        fn shutdown(&self) -> OTelSdkResult {
            self.0 .0.lock().unwrap().take();
            self.0 .1.store(true, SeqCst);
            Ok(())
        }
    }
    let st = Arc::new(P::default());
    let p = SdkTracerProvider::builder().with_span_processor(A(st.clone())).with_simple_exporter(SpanExp(Default::default())).build();
    *st.0.lock().unwrap() = Some(p.tracer("own"));
    let t = p.tracer("t");
    for _ in 0..20 {
        t.in_span("a", |_| drop(t.start("b")));
    }
    let _ = p.shutdown();
    drop(t.start("late"));
}
/// the exporter uses telemetry of all kinds, its own provider's included
fn chatty_exporter(batch: bool) {
    let log = Arc::new(ExpLog::default());
    let own: Arc<Mutex<Option<SdkTracerProvider>>> = Default::default();
    let lown: Arc<Mutex<Option<SdkLoggerProvider>>> = Default::default();
    let (o2, l2) = (own.clone(), lown.clone());
    *log.hook.lock().unwrap() = Some(Arc::new(move || {
        let p = o2.lock().unwrap().clone();
        if let Some(p) = p {
            p.tracer("inside").in_span("s", |cx| cx.span().add_event("e", vec![]));
        }
        let p = l2.lock().unwrap().clone();
        if let Some(p) = p {
            let l = p.logger("inside");
            l.emit(l.create_log_record());
        }
        global::tracer("g").in_span("s", |_| ());
    }));
    let b = SdkTracerProvider::builder();
    let lb = SdkLoggerProvider::builder();
    let (p, l) = if batch {
        (b.with_batch_exporter(SpanExp(log.clone())).build(), lb.with_batch_exporter(LogExp(log)).build())
    } else {
        (b.with_simple_exporter(SpanExp(log.clone())).build(), lb.with_simple_exporter(LogExp(log)).build())
    };
    *own.lock().unwrap() = Some(p.clone());
    *lown.lock().unwrap() = Some(l.clone());
    let lg = l.logger("x");
    for _ in 0..10 {
        p.tracer("t").in_span("a", |_| lg.emit(lg.create_log_record()));
    }
    let _ = (p.force_flush(), l.force_flush());
    let _ = (p.shutdown(), l.shutdown());
    own.lock().unwrap().take();
    lown.lock().unwrap().take();
}
fn nosy_log_processor() {
    #[derive(Debug, Default)]
    struct P(Arc<Mutex<Option<Arc<SdkLogger>>>>);
    impl LogProcessor for P {
        fn emit(&self, r: &mut SdkLogRecord, _: &InstrumentationScope) {
            use opentelemetry::logs::LogRecord as _;
            r.add_attribute("a", 1);
            let l = self.0.lock().unwrap().clone();
            once(|| {
                if let Some(l) = l {
                    l.emit(l.create_log_record())
                }
            });
        }
        fn force_flush(&self) -> OTelSdkResult {
            Ok(())
        }
        fn shutdown(&self) -> OTelSdkResult {
            self.0.lock().unwrap().take();
            Ok(())
        }
    }
    let s = Arc::new(Mutex::new(None));
    let p = SdkLoggerProvider::builder().with_log_processor(P(s.clone())).with_simple_exporter(LogExp(Default::default())).build();
    let l = Arc::new(p.logger("x"));
    *s.lock().unwrap() = Some(l.clone());
    for _ in 0..20 {
        l.emit(l.create_log_record());
    }
    let _ = p.force_flush();
    let _ = p.shutdown();
    l.emit(l.create_log_record());
}
/// a span that lives in the context it is ended from, closures that nest, guards dropped late
fn context_knots() {
    let p = SdkTracerProvider::builder().with_simple_exporter(SpanExp(Default::default())).build();
    let t = p.tracer("t");
    let cx = Context::current_with_span(t.start("a"));
    let g = cx.clone().attach();
    let cx2 = Context::current_with_span(t.start("b"));
    let g2 = cx2.attach();
    drop(cx);
    drop(g);
    Context::map_current(|c| c.span().add_event("inside map_current", vec![]));
    let s = t.start("c");
    opentelemetry::trace::get_active_span(|a| {
        a.add_event("x", vec![]);
        opentelemetry::trace::get_active_span(|b| b.add_event("y", vec![]));
    });
    drop(s);
    // ending the active span from within, with and without a parent
    opentelemetry::trace::get_active_span(|a| a.end());
    drop(g2);
    let in_block = || {
        let g = Context::current_with_span(t.start("d")).attach();
        opentelemetry::trace::get_active_span(|a| {
            t.start("inside").end();
            a.end()
        });
        drop(g);
    };
    in_block();
    // a chain of contexts, each kept by the span before it, goes in one drop
    let mut c = Context::new();
    for _ in 0..2000 {
        c = c.with_span(t.start("deep")).with_value(1u32);
    }
    drop(c);
}
/// thread ends with telemetry still going on in thread-locals
fn thread_exit() {
    let p = SdkTracerProvider::builder().with_simple_exporter(SpanExp(Default::default())).with_batch_exporter(SpanExp(Default::default())).build();
    struct AtExit(Mutex<Option<Box<dyn FnOnce() + Send>>>);
    impl Drop for AtExit {
        fn drop(&mut self) {
            if let Some(f) = self.0.lock().unwrap().take() {
                f()
            }
        }
    }
    thread_local!(static X: AtExit = const { AtExit(Mutex::new(None)) });
    for order in 0..4 {
        let p = p.clone();
        std::thread::spawn(move || {
            let put = |p: &SdkTracerProvider| {
                let (p, s) = (p.clone(), p.tracer("t").start("kept"));
                X.with(|x| {
                    *x.0.lock().unwrap() = Some(Box::new(move || {
                        drop(s);
                        p.tracer("t").in_span("at exit", |cx| cx.span().add_event("e", vec![]));
                        let _g = Context::current().attach();
                        let _h = Context::enter_telemetry_suppressed_scope();
                    }))
                });
            };
            if order & 1 == 0 {
                X.with(|_| ());
            }
            let g = Context::current_with_span(p.tracer("t").start("attached")).attach();
            put(&p);
            if order & 2 == 0 {
                std::mem::forget(g);
            }
        })
        .join()
        .expect("vh thread");
    }
    let _ = p.shutdown();
}

/// telemetry recorded and flushed within futures that the application blocks on, nested to any depth the
/// application's executor allows
fn inside_block_on() {
    let p = SdkTracerProvider::builder().with_simple_exporter(SpanExp(Default::default())).with_batch_exporter(SpanExp(Default::default())).build();
    let l = SdkLoggerProvider::builder()
        .with_simple_exporter(LogExp(Default::default()))
        .with_log_processor(opentelemetry_sdk::logs::concurrent_log_processor::SimpleConcurrentLogProcessor::new(LogExp(Default::default())))
        .with_batch_exporter(LogExp(Default::default()))
        .build();
    let m = SdkMeterProvider::builder().with_reader(PeriodicReader::builder(NullM).build()).build();
    let (tr, lg, c) = (p.tracer("t"), l.logger("l"), m.meter("m").u64_counter("c").build());
    futures_executor::block_on(async {
        tr.start("a").end();
        lg.emit(lg.create_log_record());
        c.add(1, &[]);
        let _ = (p.force_flush(), l.force_flush(), m.force_flush());
        let mut pool = futures_executor::LocalPool::new();
        let _ = &mut pool;
        tr.in_span("b", |cx| {
            cx.span().add_event("e", vec![]);
            lg.emit(lg.create_log_record());
        });
        let _ = (p.shutdown(), l.shutdown(), m.shutdown());
        tr.start("late").end();
    });
}
/// a processor that logs (through a simple pipeline) and a sampler that makes spans, while spans start
/// from every one of the ways to start one
fn start_under_processors() {
    let l = SdkLoggerProvider::builder().with_simple_exporter(LogExp(Default::default())).build();
    let inner = SdkTracerProvider::builder().with_simple_exporter(SpanExp(Default::default())).build();
    #[derive(Debug)]
    struct P(SdkLogger, opentelemetry_sdk::trace::SdkTracer);
    impl SpanProcessor for P {
        fn on_start(&self, _: &mut Span, _: &Context) {
            self.0.emit(self.0.create_log_record());
            self.1.in_span("from on_start", |_| ());
            let _g = Context::current().with_value(7u8).attach();
        }
        fn on_end(&self, _: SpanData) {
            self.0.emit(self.0.create_log_record());
            self.1.in_span("from on_end", |_| ());
        }
        fn force_flush(&self) -> OTelSdkResult {
            Ok(())
        }
        fn shutdown(&self) -> OTelSdkResult {
            Ok(())
        }
    }
    #[derive(Clone, Debug)]
    struct S(opentelemetry_sdk::trace::SdkTracer);
    impl ShouldSample for S {
        fn should_sample(&self, _: Option<&Context>, _: TraceId, _: &str, _: &SpanKind, _: &[KeyValue], _: &[opentelemetry::trace::Link]) -> SamplingResult {
            self.0.in_span("from sampler", |cx| cx.span().set_attribute(KeyValue::new("a", 1)));
            let _g = Context::new().attach();
            SamplingResult { decision: SamplingDecision::RecordAndSample, attributes: vec![], trace_state: TraceState::NONE }
        }
    }
    let p = SdkTracerProvider::builder().with_sampler(S(inner.tracer("i"))).with_span_processor(P(l.logger("l"), inner.tracer("i"))).build();
    let t = p.tracer("t");
    for _ in 0..20 {
        t.start("a").end();
        t.build(t.span_builder("b")).end();
        t.span_builder("c").start(&t).end();
        t.in_span("d", |cx| cx.span().end());
        t.start_with_context("e", &Context::current()).end();
        let g = opentelemetry::trace::mark_span_as_active(t.start("f"));
        opentelemetry::trace::get_active_span(|s| s.end());
        drop(g);
    }
    let _ = p.shutdown();
}

type Scenario = (&'static str, fn());
const SCEN: &[Scenario] = &[
    ("callback-builds-instruments", || callback_builds(1)),
    ("callback-builds-instruments-two-readers", || callback_builds(2)),
    ("callback-gets-meter", callback_gets_meter),
    ("callback-uses-telemetry", callback_uses_everything),
    ("view-uses-telemetry", view_uses_api),
    ("global-meter-provider-replaced", replace_global_meter),
    ("global-tracer-provider-replaced", replace_global_tracer),
    ("global-propagator-replaced", replace_global_propagator),
    ("last-handle-dropped-by-span-exporter", || last_handle_in_exporter("span")),
    ("last-handle-dropped-by-log-exporter", || last_handle_in_exporter("log")),
    ("last-handle-dropped-by-metric-exporter", || last_handle_in_exporter("metric")),
    ("processor-and-sampler-use-telemetry", nosy_processor),
    ("processor-uses-own-tracer", own_tracer_processor),
    ("simple-exporter-uses-telemetry", || chatty_exporter(false)),
    ("batch-exporter-uses-telemetry", || chatty_exporter(true)),
    ("log-processor-uses-own-logger", nosy_log_processor),
    ("context-knots", context_knots),
    ("inside-block-on", inside_block_on),
    ("start-under-processors", start_under_processors),
    ("thread-exit", thread_exit),
];

fn extremes(c: &Case, _: &mut Rng) {
    let n = c.idx;
    let t = [Temporality::Cumulative, Temporality::Delta][n as usize % 2];
    let r = R::new(t);
    let agg = [None, Some(Aggregation::Base2ExponentialHistogram { max_size: 160, max_scale: 20, record_min_max: true }), Some(Aggregation::ExplicitBucketHistogram { boundaries: vec![0.0, 1.0], record_min_max: true })][n as usize / 2 % 3].clone();
    let mut b = SdkMeterProvider::builder().with_reader(R(r.0.clone()));
    if let Some(a) = agg {
        b = b.with_view(move |i: &Instrument| i.name.starts_with("sync").then(|| Stream::new().aggregation(a.clone())));
    }
    let p = b.build();
    let m = p.meter("m");
    let (uc, ug, uh, iu, ig, fc, fu, fg, fh) = (
        m.u64_counter("sync.uc").build(),
        m.u64_gauge("sync.ug").build(),
        m.u64_histogram("sync.uh").build(),
        m.i64_up_down_counter("sync.iu").build(),
        m.i64_gauge("sync.ig").build(),
        m.f64_counter("sync.fc").build(),
        m.f64_up_down_counter("sync.fu").build(),
        m.f64_gauge("sync.fg").build(),
        m.f64_histogram("sync.fh").build(),
    );
    let cur: Arc<Mutex<(u64, i64, f64)>> = Default::default();
    let (c1, c2, c3) = (cur.clone(), cur.clone(), cur.clone());
    m.u64_observable_counter("oc").with_callback(move |o| o.observe(c1.lock().unwrap().0, &[])).build();
    m.i64_observable_up_down_counter("ou").with_callback(move |o| o.observe(c2.lock().unwrap().1, &[])).build();
    m.f64_observable_gauge("og").with_callback(move |o| o.observe(c3.lock().unwrap().2, &[])).build();
    let us = [u64::MAX, 0, u64::MAX, 1, u64::MAX / 2 + 1];
    let is = [i64::MAX, i64::MIN, -1, i64::MIN, i64::MAX, i64::MAX];
    let fs = [f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324, -0.0, f64::MIN, 1e300, 0.0];
    for round in 0..6 {
        for u in us {
            uc.add(u, &[]);
            ug.record(u, &[]);
            uh.record(u, &[]);
        }
        for i in is {
            iu.add(i, &[]);
            ig.record(i, &[]);
        }
        for f in fs {
            fc.add(f, &[]);
            fu.add(f, &[]);
            fg.record(f, &[]);
            fh.record(f, &[]);
        }
        *cur.lock().unwrap() = (us[round % us.len()], is[round % is.len()], fs[round]);
        let _ = r.snap();
        c.count("extremes.collections", 1);
    }
    c.seen(n, true);
}

pub fn run(ctx: &Ctx) {
    let n = SCEN.len() as u64;
    let rounds = if ctx.tier == Tier::Quick { 1 } else { 10 };
    ctx.enumerate("re-entrant", n * rounds, 6, |c, _| {
        let i = c.idx;
        let (name, f) = SCEN[(i % n) as usize];
        if std::env::var("VH_SCEN").is_ok_and(|x| x != name) {
            return;
        }
        let (tx, rx) = mpsc::channel();
        // globals are process-wide
        static G: Mutex<()> = Mutex::new(());
        let _g = name.starts_with("global").then(|| G.lock().unwrap_or_else(|e| e.into_inner()));
        std::thread::Builder::new().name(name.into()).spawn(move || tx.send(guarded(f))).unwrap();
        match rx.recv_timeout(Duration::from_secs(45)) {
            Ok(Ok(())) => {
                c.count("scenarios_ended", 1);
                c.seen(h64(&name), true);
            }
            Ok(Err((loc, msg))) if msg.contains("vh") || loc.contains("hs/") => {
                c.fail(&format!("wrong:{name}"), format!("{msg} at {loc}"));
            }
            Ok(Err((loc, msg))) => c.fail(&format!("panic:{name}"), format!("{msg} at {loc}")),
            Err(_) => c.fail(&format!("deadlock:{name}"), "no end within 45 s".to_string()),
        }
    });
    ctx.enumerate("extreme-values", 6, 2, extremes);
    ctx.require("scenarios_ended", 10);
    ctx.require("extremes.collections", 20);
    let _ = NullM;
}
