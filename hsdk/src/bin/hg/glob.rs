//! G01: the global API delegates to whatever was installed last. Providers that log what
//! reaches them, compared with a register model (sequential) and with interval bounds
//! (concurrent installs and lookups).
use hsdk::mlib::R;
use hsdk::slib::*;
use hsdk::*;
use opentelemetry::metrics::{Counter, Meter, MeterProvider};
use opentelemetry::propagation::text_map_propagator::FieldIter;
use opentelemetry::propagation::{Extractor, Injector, TextMapPropagator};
use opentelemetry::trace::noop::{NoopTracer, NoopTracerProvider};
use opentelemetry::trace::{Span as _, Status, TraceContextExt as _, Tracer as _, TracerProvider as _};
use opentelemetry::{global, Context, InstrumentationScope, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, Pipeline, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock, Weak};
use std::time::Duration;

/// the no-op meter provider the API starts with
static FIRST: OnceLock<Arc<dyn MeterProvider + Send + Sync>> = OnceLock::new();
#[derive(Debug)]
struct Quiet;
impl MeterProvider for Quiet {
    fn meter_with_scope(&self, s: InstrumentationScope) -> Meter {
        FIRST.get().unwrap().meter_with_scope(s)
    }
}

pub fn run(ctx: &Ctx) {
    let _ = FIRST.set(global::meter_provider());
    ctx.require("initial_noop", 1);
    ctx.require("spans_delivered", 500);
    ctx.require("measurements_delivered", 300);
    ctx.require("installs", 300);
    ctx.require("old_handles_used", 200);
    ctx.require("replaced_shut_down", 50);
    ctx.require("concurrent_lookups", 3000);
    ctx.require("lookups_across_an_install", 50);
    ctx.require("noop_spans", 200);
    // the state of a fresh process comes first
    let fresh = AtomicBool::new(true);
    ctx.section("script", 0.4, 1, 60, |c, r| {
        if fresh.swap(false, SeqCst) {
            initial(c, r);
        }
        script(c, r)
    });
    ctx.section("noop", 0.1, 1, 60, noop);
    ctx.section("race", 0.25, 1, 20, race);
    let _inj = hsdk::perturb::Injector::start(ctx.seed, 100);
    ctx.section("race-perturbed", 0.25, 1, 20, race);
}

/// the calls any tracer must survive; returns the span's context
fn drive<T: opentelemetry::trace::Tracer>(c: &Case, r: &mut Rng, t: &T, what: &str)
where
    T::Span: Send + Sync + 'static,
{
    let tp = SdkTracerProvider::builder().build();
    let parent = if r.chance(1, 4) {
        Context::new()
    } else if r.chance(1, 4) {
        // a span that records
        Context::new().with_span(tp.tracer("x").start("parent"))
    } else { Context::new().with_remote_span_context(if r.bool() { valid_ctx(r) } else { rctx(r) }) };
    let want = parent.span().span_context().clone();
    let l = opentelemetry_sdk::trace::SpanLimits::default();
    let mut s = if r.bool() {
        let (b, _) = rbuilder(r, l, true);
        t.build_with_context(b, &parent)
    } else {
        t.start_with_context(r.text(5), &parent)
    };
    for _ in 0..r.idx(6) {
        c.check(*s.span_context() == want && !s.is_recording(), "noop-span", || format!("{what}: span context {:?}, recording {}, parent {want:?}", s.span_context(), s.is_recording()));
        let op = rop(r, &l, true);
        apply(&mut s, op, false);
    }
    s.set_status(Status::error("x"));
    c.check(*s.span_context() == want && !s.is_recording(), "noop-span", || format!("{what}: span context {:?}, recording {}, parent {want:?}", s.span_context(), s.is_recording()));
    drop(s);
    // the parent stays what a child of the current context would see
    let _g = parent.attach();
    let n = r.u64();
    let got = t.in_span("n", |cx| (cx.span().span_context().clone(), Context::current().span().span_context().clone(), n));
    c.check(got == (want.clone(), want.clone(), n), "noop-in-span", || format!("{what}: {got:?}, parent {want:?}"));
    c.count("noop_spans", 1);
    c.seen(h64(&format!("{want:?}")), true);
}
fn drive_meter(r: &mut Rng, m: &Meter) {
    let k = [KeyValue::new("k", 1i64)];
    m.u64_counter(r.text(4)).build().add(r.u64(), &k);
    m.f64_counter("").build().add(f64::NAN, &[]);
    m.i64_up_down_counter("a").build().add(i64::MIN, &k);
    m.f64_up_down_counter("a").build().add(-1.0, &k);
    m.f64_histogram("a").with_boundaries(vec![3.0, 1.0]).build().record(1.0, &k);
    m.u64_histogram("a").build().record(1, &k);
    m.i64_gauge("a").build().record(1, &k);
    m.u64_gauge("a").build().record(1, &k);
    m.f64_gauge("a").build().record(1.0, &k);
    let _a = m.u64_observable_counter("a").with_callback(|_| panic!("vh: a no-op instrument ran its callback")).build();
    let _b = m.f64_observable_gauge("a").with_callback(|_| panic!("vh: a no-op instrument ran its callback")).build();
    let _d = m.i64_observable_up_down_counter("a").with_callback(|_| panic!("vh: a no-op instrument ran its callback")).build();
    let _e = m.f64_observable_counter("").with_callback(|_| panic!("vh: a no-op instrument ran its callback")).build();
    let _f = m.f64_observable_up_down_counter("b").with_description("d").build();
    let _g = m.u64_observable_gauge("a").with_callback(|_| panic!("vh: a no-op instrument ran its callback")).build();
    let _h = m.i64_observable_gauge("a").with_unit("u").with_callback(|_| panic!("vh: a no-op instrument ran its callback")).build();
    m.u64_counter("").with_unit("u").with_description("d").build().add(1, &[]);
}
fn inject(f: impl Fn(&Context, &mut HashMap<String, String>)) -> HashMap<String, String> {
    let mut m = HashMap::new();
    f(&Context::new(), &mut m);
    m
}

fn initial(c: &Case, r: &mut Rng) {
    drive(c, r, &global::tracer("x"), "initial global tracer");
    drive(c, r, &global::tracer_provider().tracer("x"), "initial global tracer");
    drive(c, r, &global::tracer_with_scope(InstrumentationScope::builder("x").build()), "initial global tracer");
    drive_meter(r, &global::meter("x"));
    drive_meter(r, &global::meter_provider().meter("x"));
    drive_meter(r, &global::meter_with_scope(InstrumentationScope::builder("x").build()));
    let (m, f, kept) = global::get_text_map_propagator(|p| {
        let cx = Context::new().with_value(7u8);
        (inject(|cx, m| p.inject_context(cx, m)), p.fields().count(), p.extract_with_context(&cx, &HashMap::<String, String>::new()).get::<u8>().copied())
    });
    c.check(m.is_empty() && f == 0 && kept == Some(7), "initial-propagator", || format!("{m:?}, {f} fields, context value {kept:?}"));
    c.count("initial_noop", 1);
}

fn noop(c: &Case, r: &mut Rng) {
    drive(c, r, &NoopTracer::new(), "NoopTracer");
    let n = r.text(4);
    drive(c, r, &NoopTracerProvider::new().tracer(n), "NoopTracerProvider");
    drive_meter(r, &Quiet.meter("m"));
    // a no-op logger asks for nothing and takes anything
    use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
    let l = opentelemetry::logs::NoopLoggerProvider::new().logger(r.text(4));
    let mut rec = l.create_log_record();
    rec.set_body(AnyValue::Int(1));
    rec.add_attribute("k", 1i64);
    rec.add_attributes([("a", AnyValue::from(1.5)), ("b", AnyValue::from("x"))]);
    rec.set_event_name("e");
    rec.set_target("t");
    rec.set_timestamp(std::time::SystemTime::UNIX_EPOCH);
    rec.set_observed_timestamp(std::time::SystemTime::now());
    rec.set_severity_text("INFO");
    rec.set_severity_number(opentelemetry::logs::Severity::Info);
    rec.set_trace_context(opentelemetry::TraceId::from_bytes([1; 16]), opentelemetry::SpanId::from_bytes([1; 8]), None);
    c.check(!l.event_enabled(opentelemetry::logs::Severity::Error, "t", None), "noop-logger", || "a no-op logger reports an event enabled".into());
    l.emit(rec);
}

/// a propagator with an identity
#[derive(Debug)]
struct Tag(usize, Arc<AtomicUsize>);
impl TextMapPropagator for Tag {
    fn inject_context(&self, _cx: &Context, i: &mut dyn Injector) {
        i.set("tag", self.0.to_string());
    }
    fn extract_with_context(&self, cx: &Context, _e: &dyn Extractor) -> Context {
        cx.with_value(Mark(self.0))
    }
    fn fields(&self) -> FieldIter<'_> {
        FieldIter::new(&[])
    }
}
impl Drop for Tag {
    fn drop(&mut self) {
        self.1.fetch_add(1, SeqCst);
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Mark(usize);

/// a manual reader that counts its shutdowns
#[derive(Debug, Clone)]
struct CR(R, Arc<AtomicU64>);
impl MetricReader for CR {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, d: Duration) -> OTelSdkResult {
        self.1.fetch_add(1, SeqCst);
        self.0.shutdown_with_timeout(d)
    }
    fn temporality(&self, _k: InstrumentKind) -> Temporality {
        Temporality::Cumulative
    }
}

struct TP {
    /// None: a no-op provider
    log: Option<Arc<Mutex<Vec<PEv>>>>,
    keep: Option<SdkTracerProvider>,
    /// tracers, provider handles and the global slot that may still reach it
    refs: usize,
    want: Vec<(String, String)>,
}
struct MP {
    rd: Option<CR>,
    keep: Option<SdkMeterProvider>,
    installed: bool,
    handles: usize,
    want: HashMap<(String, String), u64>,
}

fn script(c: &Case, r: &mut Rng) {
    let mut trace = String::new();
    let mut tps: Vec<TP> = vec![];
    let mut mps: Vec<MP> = vec![];
    let mut props: Vec<Arc<AtomicUsize>> = vec![];
    // what an earlier case left in place is not part of the model
    let mut cur: (Option<usize>, Option<usize>, Option<usize>) = (None, None, None);
    let mut tracers: Vec<(usize, String, global::BoxedTracer)> = vec![];
    let mut gtps: Vec<(usize, global::GlobalTracerProvider)> = vec![];
    let mut counters: Vec<(usize, String, String, Counter<u64>)> = vec![];
    let mut spans: Vec<(usize, String, String, global::BoxedSpan)> = vec![];
    let mut n = 0u64;
    let names: [&'static str; 6] = ["a", "b", "", " padded ", "ünï", "a.b"];
    for _ in 0..8 + r.idx(40) {
        match r.below(12) {
            0 => {
                // a tracer provider
                let k = tps.len();
                let noop = r.chance(1, 6);
                let prev = if noop {
                    tps.push(TP { log: None, keep: None, refs: 1, want: vec![] });
                    global::set_tracer_provider(NoopTracerProvider::new())
                } else {
                    let log = Default::default();
                    let tp = SdkTracerProvider::builder().with_span_processor(Rec::new(k, &log)).with_sampler(Sampler::AlwaysOn).build();
                    let keep = r.bool().then(|| tp.clone());
                    let refs = 1;
                    tps.push(TP { log: Some(log), keep, refs, want: vec![] });
                    global::set_tracer_provider(tp)
                };
                trace += &format!(" set_tracer_provider({k}{})", if noop { ":noop" } else { "" });
                c.count("installs", 1);
                // the provider that was replaced is handed back, working
                if let Some(o) = cur.0 {
                    if r.bool() {
                        gtps.push((o, prev));
                    } else {
                        drop(prev);
                        tps[o].refs -= 1;
                    }
                }
                cur.0 = Some(k);
            }
            1 | 2 if cur.0.is_some() => {
                let k = cur.0.unwrap();
                let name = *r.pick(&names);
                let version = r.bool().then_some("1.2");
                let sc = match version {
                    Some(v) => InstrumentationScope::builder(name).with_version(v).with_attributes([KeyValue::new("s", 1i64)]).build(),
                    None => InstrumentationScope::builder(name).build(),
                };
                let t = match r.below(3) {
                    0 if version.is_none() => global::tracer(name),
                    1 => global::tracer_provider().tracer_with_scope(sc.clone()),
                    _ => global::tracer_with_scope(sc.clone()),
                };
                tps[k].refs += 1;
                trace += &format!(" tracer({k})");
                tracers.push((k, format!("{sc:?}"), t));
            }
            3 if cur.0.is_some() => {
                let k = cur.0.unwrap();
                tps[k].refs += 1;
                gtps.push((k, global::tracer_provider()));
                trace += &format!(" tracer_provider({k})");
            }
            4 if !tracers.is_empty() || !gtps.is_empty() => {
                // a span from any handle, however old
                let (k, sc, mut s) = if !gtps.is_empty() && (tracers.is_empty() || r.chance(1, 4)) {
                    let (k, g) = r.pick(&gtps);
                    let sc = InstrumentationScope::builder("viagtp").build();
                    n += 1;
                    (*k, format!("{sc:?}"), g.tracer_with_scope(sc).start(format!("s{n}")))
                } else {
                    let (k, sc, t) = r.pick(&tracers);
                    n += 1;
                    (*k, sc.clone(), t.start(format!("s{n}")))
                };
                if Some(k) != cur.0 {
                    c.count("old_handles_used", 1);
                }
                let shut = false;
                c.check(s.is_recording() == (tps[k].log.is_some() && !shut), "recording", || format!("span of provider {k} recording: {}; {trace}", s.is_recording()));
                trace += &format!(" span({k})");
                if r.chance(1, 4) {
                    tps[k].refs += 1;
                    spans.push((k, sc, format!("s{n}"), s));
                } else {
                    s.end();
                    tps[k].want.push((format!("s{n}"), sc));
                }
            }
            5 if !spans.is_empty() => {
                let i = r.idx(spans.len());
                let (k, sc, name, s) = spans.swap_remove(i);
                drop(s);
                trace += &format!(" end({k})");
                tps[k].want.push((name, sc));
                tps[k].refs -= 1;
            }
            6 => {
                let k = mps.len();
                if r.chance(1, 6) {
                    mps.push(MP { rd: None, keep: None, installed: true, handles: 0, want: HashMap::new() });
                    global::set_meter_provider(Quiet);
                } else {
                    let rd = CR(R::new(Temporality::Cumulative), Default::default());
                    let mp = SdkMeterProvider::builder().with_reader(rd.clone()).build();
                    let keep = r.bool().then(|| mp.clone());
                    mps.push(MP { rd: Some(rd), keep, installed: true, handles: 0, want: HashMap::new() });
                    global::set_meter_provider(mp);
                }
                trace += &format!(" set_meter_provider({k})");
                c.count("installs", 1);
                if let Some(o) = cur.1 {
                    mps[o].installed = false;
                }
                cur.1 = Some(k);
            }
            7 if cur.1.is_some() => {
                let k = cur.1.unwrap();
                let name = *r.pick(&names);
                let sc = match r.below(2) {
                    0 => InstrumentationScope::builder(name).build(),
                    _ => InstrumentationScope::builder(name).with_version("1.2").with_schema_url("u").build(),
                };
                let m = match r.below(3) {
                    0 if sc.version().is_none() => global::meter(name),
                    1 => global::meter_provider().meter_with_scope(sc.clone()),
                    _ => global::meter_with_scope(sc.clone()),
                };
                let iname = format!("i{}", r.below(3));
                mps[k].handles += 1;
                counters.push((k, format!("{}/{:?}", sc.name(), sc.version()), iname.clone(), m.u64_counter(iname).build()));
                trace += &format!(" counter({k})");
            }
            8 if !counters.is_empty() => {
                let (k, sc, i, h) = r.pick(&counters);
                let v = 1 + r.below(9);
                h.add(v, &[]);
                let live = mps[*k].installed || mps[*k].keep.is_some();
                if live {
                    *mps[*k].want.entry((sc.clone(), i.clone())).or_default() += v;
                }
                if Some(*k) != cur.1 {
                    c.count("old_handles_used", 1);
                }
                trace += &format!(" add({k})");
            }
            9 => {
                let k = props.len();
                let d: Arc<AtomicUsize> = Default::default();
                props.push(d.clone());
                global::set_text_map_propagator(Tag(k, d));
                if let Some(o) = cur.2 {
                    c.check(props[o].load(SeqCst) == 1, "propagator-dropped", || format!("replaced propagator {o} was dropped {} times; {trace}", props[o].load(SeqCst)));
                }
                cur.2 = Some(k);
                trace += &format!(" set_propagator({k})");
                c.count("installs", 1);
            }
            10 if cur.2.is_some() => {
                let k = cur.2.unwrap();
                let mut calls = 0;
                let got = global::get_text_map_propagator(|p| {
                    calls += 1;
                    (inject(|cx, m| p.inject_context(cx, m)), p.extract(&HashMap::<String, String>::new()).get::<Mark>().copied())
                });
                c.check(calls == 1, "propagator-calls", || format!("the closure ran {calls} times; {trace}"));
                c.check(got.0.get("tag") == Some(&k.to_string()) && got.1 == Some(Mark(k)), "propagator", || format!("propagator {k} is installed, the global one injects {:?} and extracts {:?}; {trace}", got.0, got.1));
                c.check(props[k].load(SeqCst) == 0, "propagator-dropped", || format!("the installed propagator was dropped; {trace}"));
            }
            11 => match r.below(5) {
                0 if !tracers.is_empty() => {
                    let i = r.idx(tracers.len());
                    let (k, ..) = tracers.swap_remove(i);
                    tps[k].refs -= 1;
                }
                1 if !gtps.is_empty() => {
                    let i = r.idx(gtps.len());
                    let (k, _) = gtps.swap_remove(i);
                    tps[k].refs -= 1;
                }
                2 if !counters.is_empty() => {
                    let i = r.idx(counters.len());
                    counters.swap_remove(i);
                }
                3 if !tps.is_empty() => {
                    let i = r.idx(tps.len());
                    tps[i].keep = None;
                }
                4 if !mps.is_empty() => {
                    let i = r.idx(mps.len());
                    mps[i].keep = None;
                }
                _ => {}
            },
            _ => {}
        }
        if !lifecycle(c, &tps, &mps, &trace) {
            return;
        }
    }
    deliveries(c, &tps, &mps, &trace);
    // leave nothing of this case behind
    spans.clear();
    tracers.clear();
    gtps.clear();
    counters.clear();
    drop(global::set_tracer_provider(NoopTracerProvider::new()));
    global::set_meter_provider(Quiet);
    for t in &mut tps {
        t.keep = None;
        t.refs = 0;
    }
    for m in &mut mps {
        m.keep = None;
        m.installed = false;
    }
    lifecycle(c, &tps, &mps, &format!("{trace} (everything dropped)"));
    let d = Arc::new(AtomicUsize::new(0));
    global::set_text_map_propagator(Tag(usize::MAX, d));
    if let Some(k) = cur.2 {
        c.check(props[k].load(SeqCst) == 1, "propagator-dropped", || format!("propagator {k} dropped {} times; {trace}", props[k].load(SeqCst)));
    }
    c.seen(h64(&trace), n > 0);
    c.sample(|| trace.clone());
}

/// an installed provider, or one a handle still reaches, lives; a replaced one with no
/// handle left is shut down
fn lifecycle(c: &Case, tps: &[TP], mps: &[MP], trace: &str) -> bool {
    for (k, t) in tps.iter().enumerate() {
        let Some(l) = &t.log else { continue };
        let n = l.lock().unwrap().iter().filter(|e| matches!(e, PEv::Shutdown(_))).count();
        let alive = t.refs > 0 || t.keep.is_some();
        if !c.check(n == !alive as usize, "tracer-provider-lifetime", || format!("tracer provider {k} ({} handles, kept {}) was shut down {n} times; {trace}", t.refs, t.keep.is_some())) {
            return false;
        }
        c.count("replaced_shut_down", n as u64);
    }
    for (k, m) in mps.iter().enumerate() {
        let Some(rd) = &m.rd else { continue };
        let n = rd.1.load(SeqCst);
        let alive = m.installed || m.keep.is_some();
        if !c.check(n == !alive as u64, "meter-provider-lifetime", || format!("meter provider {k} (installed {}, kept {}) was shut down {n} times; {trace}", m.installed, m.keep.is_some())) {
            return false;
        }
    }
    true
}

fn deliveries(c: &Case, tps: &[TP], mps: &[MP], trace: &str) {
    for (k, t) in tps.iter().enumerate() {
        let Some(l) = &t.log else { continue };
        let got: Vec<(String, String)> = l.lock().unwrap().iter().filter_map(|e| if let PEv::End(_, d) = e { Some((d.name.to_string(), format!("{:?}", d.instrumentation_scope))) } else { None }).collect();
        c.check(got == t.want, "spans", || format!("tracer provider {k} received {got:?}, its handles ended {:?}; {trace}", t.want));
        c.count("spans_delivered", got.len() as u64);
    }
    for (k, m) in mps.iter().enumerate() {
        let Some(rd) = &m.rd else { continue };
        if !(m.installed || m.keep.is_some()) {
            continue;
        }
        let mut got: HashMap<(String, String), u64> = HashMap::new();
        match rd.0.snap() {
            Ok(s) => {
                for x in &s.mets {
                    let p: Vec<&str> = x.scope.splitn(3, '/').collect();
                    let sc = format!("{}/{}", p[0], p.get(1).unwrap_or(&""));
                    for v in x.pts.values() {
                        if let hsdk::mlib::Pt::Num(hsdk::mlib::Num::U(v)) = v {
                            *got.entry((sc.clone(), x.name.clone())).or_default() += v;
                        }
                    }
                }
                let norm = |m: &HashMap<(String, String), u64>| {
                    let mut v: Vec<(String, String, u64)> = m.iter().map(|((a, b), n)| (a.clone(), b.clone(), *n)).collect();
                    v.sort();
                    v
                };
                c.check(norm(&got) == norm(&m.want), "measurements", || format!("meter provider {k} collected {:?}, its instruments recorded {:?}; {trace}", norm(&got), norm(&m.want)));
                c.count("measurements_delivered", m.want.values().sum());
            }
            Err(e) => c.fail("measurements", format!("meter provider {k} is installed or held, collecting fails: {e}; {trace}")),
        }
    }
}

thread_local!(static LAST: Cell<usize> = const { Cell::new(usize::MAX) });
/// a tracer / meter provider that tells which one was asked
#[derive(Debug, Clone)]
struct Who(usize);
impl opentelemetry::trace::TracerProvider for Who {
    type Tracer = NoopTracer;
    fn tracer_with_scope(&self, _s: InstrumentationScope) -> NoopTracer {
        LAST.with(|l| l.set(self.0));
        NoopTracer::new()
    }
}
impl MeterProvider for Who {
    fn meter_with_scope(&self, s: InstrumentationScope) -> Meter {
        LAST.with(|l| l.set(self.0));
        Quiet.meter_with_scope(s)
    }
}

/// lookups racing with installs: each must see an installation not older than the last
/// one completed before it began nor newer than the last one begun before it ended, and
/// no thread goes back in time
fn race(c: &Case, r: &mut Rng) {
    let kind = r.below(3);
    let installs = 3 + r.idx(40);
    let readers = 1 + r.idx(4);
    let (begun, done) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let drops: Vec<Arc<AtomicUsize>> = (0..=installs).map(|_| Default::default()).collect();
    let install = |k: usize| match kind {
        0 => drop(global::set_tracer_provider(Who(k))),
        1 => global::set_meter_provider(Who(k)),
        _ => global::set_text_map_propagator(Tag(k, drops[k].clone())),
    };
    let look = |r: &mut Rng| -> usize {
        LAST.with(|l| l.set(usize::MAX));
        match kind {
            0 => {
                let _ = if r.bool() { global::tracer("x") } else { global::tracer_provider().tracer("x") };
            }
            1 => {
                let _ = if r.bool() { global::meter("x") } else { global::meter_provider().meter("x") };
            }
            _ => return global::get_text_map_propagator(|p| inject(|cx, m| p.inject_context(cx, m))).get("tag").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX),
        }
        LAST.with(|l| l.get())
    };
    install(0);
    let trace = format!("kind {kind}, {installs} installs, {readers} readers");
    let pause = r.below(60);
    let seeds: Vec<u64> = (0..readers).map(|_| r.u64()).collect();
    std::thread::scope(|sc| {
        for s in seeds {
            let (begun, done, look, trace) = (&begun, &done, &look, &trace);
            sc.spawn(move || {
                let mut r = Rng::new(s, 3);
                let mut last = 0;
                let (mut n, mut moved) = (0u64, 0u64);
                loop {
                    let lo = done.load(SeqCst);
                    let got = look(&mut r);
                    let hi = begun.load(SeqCst);
                    if !c.check(got >= lo && got <= hi, "stale-global", || format!("a lookup saw installation {got}, {lo} had completed before it and {hi} had begun; {trace}")) {
                        return;
                    }
                    c.check(got >= last, "global-went-back", || format!("a thread saw installation {got} after {last}; {trace}"));
                    moved += (got != last) as u64;
                    last = got;
                    n += 1;
                    if lo == installs {
                        break;
                    }
                }
                c.count("concurrent_lookups", n);
                c.count("lookups_across_an_install", moved);
            });
        }
        for k in 1..=installs {
            begun.store(k, SeqCst);
            install(k);
            done.store(k, SeqCst);
            if pause > 0 {
                std::thread::sleep(Duration::from_micros(pause));
            }
        }
    });
    let _ = kind == 2 && c.check(drops.iter().take(installs).all(|d| d.load(SeqCst) == 1), "propagator-dropped", || format!("replaced propagators were dropped {:?} times; {trace}", drops.iter().map(|d| d.load(SeqCst)).collect::<Vec<_>>()));
    c.count("installs", installs as u64);
    c.seen(h64(&(c.id(), installs)), true);
}
