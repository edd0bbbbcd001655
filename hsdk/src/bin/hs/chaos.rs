//! Random API calls from many threads on one shared world of providers, spans, contexts and globals.
use hsdk::mlib::R;
use hsdk::perturb::Injector;
use hsdk::plib::*;
use hsdk::slib::{apply, apply_ref, rkind, rop, rstatus};
use hsdk::*;
use opentelemetry::baggage::BaggageExt as _;
use opentelemetry::context::FutureExt as _;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::metrics::{Counter, Gauge, Histogram, Meter, MeterProvider as _, UpDownCounter};
use opentelemetry::trace::{Span as _, TraceContextExt as _, Tracer as _, TracerProvider as _};
use opentelemetry::{global, Context, KeyValue, StringValue, Value};
use opentelemetry_sdk::logs::*;
use opentelemetry_sdk::metrics::{PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use opentelemetry_sdk::trace::{
    BatchConfigBuilder as SpanCfg, BatchSpanProcessor, Sampler, SdkTracerProvider, SimpleSpanProcessor, Span, SpanLimits,
};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex, Weak};
use std::time::Duration;

#[derive(Clone)]
enum Ins {
    C(Counter<u64>),
    U(UpDownCounter<f64>),
    G(Gauge<i64>),
    H(Histogram<f64>),
}
#[derive(Debug)]
pub struct NullM;
impl opentelemetry_sdk::metrics::exporter::PushMetricExporter for NullM {
    async fn export(&self, _: &mut opentelemetry_sdk::metrics::data::ResourceMetrics) -> opentelemetry_sdk::error::OTelSdkResult {
        std::thread::yield_now();
        Ok(())
    }
    fn force_flush(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Delta
    }
}
#[derive(Debug)]
struct Quiet;
impl opentelemetry_sdk::trace::SpanProcessor for Quiet {
    fn on_start(&self, s: &mut Span, cx: &Context) {
        s.set_attribute(KeyValue::new("q", cx.span().span_context().is_valid()));
    }
    fn on_end(&self, _: opentelemetry_sdk::trace::SpanData) {}
    fn force_flush(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
}
struct World {
    tp: SdkTracerProvider,
    lp: SdkLoggerProvider,
    mp: SdkMeterProvider,
    readers: Vec<R>,
    ctxs: Mutex<Vec<Context>>,
    spans: Mutex<Vec<Span>>,
    ins: Mutex<Vec<Ins>>,
    /// the meter callbacks may use; emptied at the end so that no cycle is the workload's own
    cbm: Arc<Mutex<Option<Meter>>>,
    pins: Mutex<Vec<(&'static str, Weak<str>)>>,
    n: AtomicU64,
    globals: bool,
    kinds: String,
}
impl World {
    fn pin(&self, what: &'static str) -> StringValue {
        let a: Arc<str> = format!("pin-{}", self.n.fetch_add(1, SeqCst)).into();
        self.pins.lock().unwrap().push((what, Arc::downgrade(&a)));
        StringValue::from(a)
    }
}
fn world(r: &mut Rng) -> World {
    let mut kinds = String::new();
    let q = |r: &mut Rng| *r.pick(&[1usize, 4, 32, 2048]);
    let d = |r: &mut Rng| Duration::from_millis(*r.pick(&[1u64, 5, 40, 5000]));
    let mut b = SdkTracerProvider::builder().with_sampler(match r.idx(4) {
        0 => Sampler::TraceIdRatioBased(0.5),
        1 => Sampler::ParentBased(Box::new(Sampler::TraceIdRatioBased(0.7))),
        _ => Sampler::AlwaysOn,
    });
    if r.chance(1, 3) {
        b = b.with_max_attributes_per_span(3).with_max_events_per_span(2).with_max_links_per_span(2);
    }
    for _ in 0..r.idx(4) {
        match r.idx(3) {
            0 => {
                kinds += "s";
                b = b.with_span_processor(SimpleSpanProcessor::new(SpanExp(Default::default())));
            }
            1 => {
                kinds += "b";
                let c = SpanCfg::default().with_max_queue_size(q(r)).with_max_export_batch_size(q(r)).with_scheduled_delay(d(r)).build();
                b = b.with_span_processor(BatchSpanProcessor::builder(SpanExp(Default::default())).with_batch_config(c).build());
            }
            _ => {
                kinds += "r";
                b = b.with_span_processor(Quiet);
            }
        }
    }
    let tp = b.build();
    kinds += "|";
    let mut b = SdkLoggerProvider::builder();
    for _ in 0..r.idx(4) {
        match r.idx(3) {
            0 => {
                kinds += "s";
                b = b.with_log_processor(SimpleLogProcessor::new(LogExp(Default::default())));
            }
            1 => {
                kinds += "c";
                b = b.with_log_processor(concurrent_log_processor::SimpleConcurrentLogProcessor::new(LogExp(Default::default())));
            }
            _ => {
                kinds += "b";
                let c = BatchConfigBuilder::default().with_max_queue_size(q(r)).with_max_export_batch_size(q(r)).with_scheduled_delay(d(r)).build();
                b = b.with_log_processor(BatchLogProcessor::builder(LogExp(Default::default())).with_batch_config(c).build());
            }
        }
    }
    let lp = b.build();
    kinds += "|";
    let mut b = SdkMeterProvider::builder();
    let mut readers = vec![];
    for _ in 0..r.idx(3) {
        let t = *r.pick(&[Temporality::Cumulative, Temporality::Delta, Temporality::LowMemory]);
        kinds += "m";
        let x = R::new(t);
        readers.push(R(x.0.clone()));
        b = b.with_reader(x);
    }
    if r.bool() {
        kinds += "p";
        b = b.with_reader(PeriodicReader::builder(NullM).with_interval(Duration::from_millis(*r.pick(&[1u64, 10, 5000]))).build());
    }
    let mp = b.build();
    let cbm = Arc::new(Mutex::new(Some(mp.meter("callbacks"))));
    World {
        tp,
        lp,
        mp,
        readers,
        ctxs: Default::default(),
        spans: Default::default(),
        ins: Default::default(),
        cbm,
        pins: Default::default(),
        n: AtomicU64::new(0),
        globals: false,
        kinds,
    }
}
fn kvs(w: &World, r: &mut Rng, what: &'static str) -> Vec<KeyValue> {
    (0..r.idx(4)).map(|i| if r.bool() { KeyValue::new(format!("k{i}"), Value::String(w.pin(what))) } else { KeyValue::new("n", r.below(3) as i64) }).collect()
}
const OPS: &[&str] = &[
    "span", "span-shared", "span-take", "cx-attach", "cx-span", "cx-drop", "log", "instrument", "record", "observable", "collect", "flush", "clones", "global", "propagate", "baggage", "suppress", "future", "provider-life",
];
fn step(c: &Case, w: &World, r: &mut Rng, depth: usize) {
    let op = r.idx(OPS.len());
    c.count(&format!("calls.{}", OPS[op]), 1);
    let lim = SpanLimits::default();
    match OPS[op] {
        "span" => {
            let t = w.tp.tracer(*r.pick(&["a", "b"]));
            let mut s = t.span_builder("s").with_kind(rkind(r)).with_attributes(kvs(w, r, "span")).start(&t);
            for _ in 0..r.idx(4) {
                apply(&mut s, rop(r, &lim, true), false);
            }
            s.add_event("e", kvs(w, r, "span-event"));
            match r.idx(3) {
                0 => s.end(),
                1 => s.set_status(rstatus(r)),
                _ => {}
            }
        }
        "span-shared" => {
            let t = w.tp.tracer("shared");
            let s = t.span_builder("s").with_attributes(kvs(w, r, "span")).start_with_context(&t, &Context::current());
            if r.bool() {
                w.ctxs.lock().unwrap().push(Context::current().with_span(s));
            } else {
                w.spans.lock().unwrap().push(s);
            }
        }
        "span-take" => {
            let x = {
                let mut l = w.spans.lock().unwrap();
                let n = l.len();
                (n > 0).then(|| l.swap_remove(r.idx(n)))
            };
            if let Some(mut s) = x {
                for _ in 0..r.idx(3) {
                    apply(&mut s, rop(r, &lim, true), false);
                }
                drop(s);
            }
        }
        "cx-attach" => {
            let cx = pick_cx(w, r);
            let _g = cx.attach();
            if depth < 3 {
                for _ in 0..r.idx(4) {
                    step(c, w, r, depth + 1);
                }
            }
        }
        "cx-span" => {
            let cx = pick_cx(w, r);
            for _ in 0..1 + r.idx(4) {
                apply_ref(&cx.span(), rop(r, &lim, true));
            }
            if r.chance(1, 3) {
                cx.span().end();
            }
        }
        "cx-drop" => {
            let x = {
                let mut l = w.ctxs.lock().unwrap();
                let n = l.len();
                (n > 0).then(|| l.swap_remove(r.idx(n)))
            };
            drop(x);
        }
        "log" => {
            let l = w.lp.logger(*r.pick(&["a", "b"]));
            let sev = *r.pick(&[Severity::Trace, Severity::Info, Severity::Error]);
            let _ = l.event_enabled(sev, "t", None);
            let mut x = l.create_log_record();
            x.set_severity_number(sev);
            x.set_body(AnyValue::String(w.pin("log")));
            for _ in 0..r.idx(4) {
                x.add_attribute("k", AnyValue::String(w.pin("log-attr")));
            }
            l.emit(x);
        }
        "instrument" => {
            let m = w.mp.meter(*r.pick(&["x", "y"]));
            let name = format!("i{}", r.below(6));
            let i = match r.idx(4) {
                0 => Ins::C(m.u64_counter(name).build()),
                1 => Ins::U(m.f64_up_down_counter(name).build()),
                2 => Ins::G(m.i64_gauge(name).build()),
                _ => Ins::H(m.f64_histogram(name).build()),
            };
            let mut l = w.ins.lock().unwrap();
            if l.len() < 40 {
                l.push(i);
            }
        }
        "record" => {
            let i = {
                let l = w.ins.lock().unwrap();
                let n = l.len();
                (n > 0).then(|| l[r.idx(n)].clone())
            };
            let a = kvs(w, r, "metric");
            match i {
                Some(Ins::C(x)) => x.add(r.below(9), &a),
                Some(Ins::U(x)) => x.add(r.f64_edge(true), &a),
                Some(Ins::G(x)) => x.record(r.i64_edge(), &a),
                Some(Ins::H(x)) => x.record(r.f64_edge(true), &a),
                None => {}
            }
        }
        "observable" => {
            let m = w.mp.meter("obs");
            let name = format!("o{}", r.below(6));
            let (kind, cbm, tr, lg) = (r.idx(5), w.cbm.clone(), w.tp.tracer("cb"), w.lp.logger("cb"));
            m.i64_observable_up_down_counter(name)
                .with_callback(move |o| {
                    o.observe(1, &[]);
                    match kind {
                        0 => tr.in_span("in callback", |cx| cx.span().add_event("e", vec![])),
                        1 => lg.emit(lg.create_log_record()),
                        2 => {
                            let m = cbm.lock().unwrap().clone();
                            if let Some(m) = m {
                                m.u64_counter("lazily").build().add(1, &[]);
                            }
                        }
                        3 => {
                            let _g = Context::current_with_value(7u8).attach();
                            o.observe(2, &[KeyValue::new("k", 1)]);
                        }
                        _ => {}
                    }
                })
                .build();
        }
        "collect" => {
            if !w.readers.is_empty() {
                let _ = r.pick(&w.readers).snap();
            }
        }
        "flush" if r.chance(1, 6) => match r.idx(3) {
            0 => drop(w.tp.force_flush()),
            1 => drop(w.lp.force_flush()),
            _ => drop(w.mp.force_flush()),
        },
        "clones" => {
            let (a, b, m) = (w.tp.clone(), w.lp.clone(), w.mp.clone());
            let t = a.tracer("c");
            drop(a);
            let _s = t.start("s");
            let l = b.logger("c");
            drop(b);
            l.emit(l.create_log_record());
            let c = m.meter("c").u64_counter("c").build();
            drop(m);
            c.add(1, &[]);
        }
        "global" => match r.idx(6) {
            0 if w.globals => drop(global::set_tracer_provider(w.tp.clone())),
            1 if w.globals => global::set_meter_provider(w.mp.clone()),
            2 => global::set_text_map_propagator(TraceContextPropagator::new()),
            3 => global::set_text_map_propagator(BaggagePropagator::new()),
            4 => {
                let t = global::tracer("g");
                t.in_span("g", |cx| cx.span().set_attribute(KeyValue::new("k", 1)));
            }
            _ => global::meter("g").u64_counter("g").build().add(1, &[]),
        },
        "propagate" => {
            let cx = pick_cx(w, r);
            let mut h: HashMap<String, String> = HashMap::new();
            global::get_text_map_propagator(|p| p.inject_context(&cx, &mut h));
            let _ = global::get_text_map_propagator(|p| p.extract_with_context(&cx, &h));
        }
        "baggage" => {
            let cx = Context::current_with_baggage(vec![KeyValue::new("a", Value::String(w.pin("baggage")))]);
            let _g = cx.clone().attach();
            let _ = Context::current().baggage().len();
            if r.chance(1, 4) {
                w.ctxs.lock().unwrap().push(cx);
            }
        }
        "suppress" => {
            let _g = Context::enter_telemetry_suppressed_scope();
            if depth < 3 {
                step(c, w, r, depth + 1);
            }
        }
        "future" => {
            let cx = pick_cx(w, r);
            let t = w.tp.tracer("f");
            let f = async move {
                let s = t.start("in future");
                Context::current().span().add_event("e", vec![]);
                drop(s);
            };
            futures_executor::block_on(f.with_context(cx));
        }
        "provider-life" if r.chance(1, 8) => {
            // a provider of its own, dropped in some order with what it made
            let p = SdkTracerProvider::builder().with_batch_exporter(SpanExp(Default::default())).build();
            let s = p.tracer("x").start("s");
            let l = SdkLoggerProvider::builder().with_batch_exporter(LogExp(Default::default())).build();
            let lg = l.logger("x");
            let m = SdkMeterProvider::builder().with_reader(PeriodicReader::builder(NullM).build()).build();
            let i = m.meter("x").u64_counter("c").build();
            i.add(1, &[]);
            lg.emit(lg.create_log_record());
            if r.bool() {
                drop(p);
                drop(l);
                drop(m);
                lg.emit(lg.create_log_record());
                i.add(1, &[]);
                drop(s);
            } else {
                drop((s, lg, i));
                if r.bool() {
                    let _ = p.shutdown();
                    let _ = l.shutdown();
                    let _ = m.shutdown();
                }
            }
        }
        _ => {}
    }
}
fn pick_cx(w: &World, r: &mut Rng) -> Context {
    let l = w.ctxs.lock().unwrap();
    let n = l.len();
    if n == 0 || r.chance(1, 6) {
        Context::current()
    } else {
        l[r.idx(n)].clone()
    }
}

fn case(c: &Case, r: &mut Rng, globals: bool) {
    let mut w = world(r);
    w.globals = globals;
    let threads = 2 + r.idx(5);
    let per = *r.pick(&[30usize, 120, 400]);
    // when, if at all, one of the threads shuts things down
    let down: Vec<(usize, usize, usize)> = (0..r.idx(4)).map(|_| (r.idx(threads), r.idx(per), r.idx(3))).collect();
    let bar = Barrier::new(threads);
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let results: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (w, bar, down, seed, c) = (&w, &bar, &down, seeds[t], &c);
                s.spawn(move || {
                    bar.wait();
                    guarded(|| {
                        watched("chaos", || {
                            let mut r = Rng::new(seed, t as u64);
                            for i in 0..per {
                                for d in down.iter().filter(|d| d.0 == t && d.1 == i) {
                                    match d.2 {
                                        0 => drop(w.tp.shutdown()),
                                        1 => drop(w.lp.shutdown()),
                                        _ => drop(w.mp.shutdown()),
                                    }
                                    c.count("shutdowns_during", 1);
                                }
                                step(c, w, &mut r, 0);
                            }
                        })
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for x in results {
        if let Err((loc, msg)) = x {
            c.fail(&format!("panic:{}", loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("")), format!("{msg} at {loc}; processors {}", w.kinds));
        }
    }
    // the end: everything the workload itself holds goes, then shutdown; nothing may be kept after it
    let fin = guarded(|| {
        watched("end", || {
            w.cbm.lock().unwrap().take();
            w.ctxs.lock().unwrap().clear();
            w.spans.lock().unwrap().clear();
            let _ = w.tp.shutdown();
            let _ = w.lp.shutdown();
        })
    });
    if let Err((loc, msg)) = fin {
        c.fail("panic:end", format!("{msg} at {loc}"));
        return;
    }
    let held = |w: &World, metric: bool| -> Vec<&'static str> {
        let mut v: Vec<&'static str> = w.pins.lock().unwrap().iter().filter(|p| (p.0 == "metric") == metric && p.1.strong_count() > 0).map(|p| p.0).collect();
        v.sort();
        v.dedup();
        v
    };
    // workers finish on their own threads
    eventually(5.0, || held(&w, false).is_empty());
    let h = held(&w, false);
    c.check(h.is_empty(), "kept-after-shutdown", || format!("still alive 5 s after both providers were shut down, with no user handles left: {h:?}; processors {}", w.kinds));
    let _ = w.mp.shutdown();
    if w.globals {
        global::set_tracer_provider(opentelemetry::trace::noop::NoopTracerProvider::new());
        global::set_meter_provider(SdkMeterProvider::builder().build());
    }
    let World { tp, lp, mp, readers, ins, pins, .. } = w;
    let any = [r.bool(), r.bool()];
    if any[0] {
        drop(readers);
        drop(mp);
        drop(ins);
    } else {
        drop(ins);
        drop(mp);
        drop(readers);
    }
    if any[1] {
        drop((tp, lp));
    } else {
        drop((lp, tp));
    }
    let left = || pins.lock().unwrap().iter().filter(|p| p.1.strong_count() > 0).count();
    eventually(5.0, || left() == 0);
    c.check(left() == 0, "kept-after-drop", || format!("{} of {} attribute strings alive after every provider, reader and instrument was dropped", left(), pins.lock().unwrap().len()));
    c.count("pins_followed", pins.lock().unwrap().len() as u64);
    c.count("threads", threads as u64);
    c.seen(h64(&(seeds, down, per)), true);
    c.sample(|| format!("{threads} threads x {per} calls"));
}
pub fn run(ctx: &Ctx) {
    {
        let _i = Injector::start(ctx.seed, 100);
        ctx.section("chaos-perturbed", 0.35, 2, 10, |c, r| case(c, r, false));
    }
    ctx.section("chaos", 0.35, 3, 10, |c, r| case(c, r, false));
    // the globals are process-wide, so one world at a time
    ctx.section("chaos-globals", 0.2, 1, 5, |c, r| case(c, r, true));
    ctx.count("preemptions_injected", perturb::PREEMPTIONS.load(SeqCst));
    for o in OPS {
        ctx.require(&format!("calls.{o}"), 200);
    }
    ctx.require("pins_followed", 1000);
    ctx.require("shutdowns_during", 5);
}
