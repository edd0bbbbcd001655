//! C02: telemetry suppression.
use hsdk::llib::{LEv, RecL};
use hsdk::plib::*;
use hsdk::slib::{self, PEv, Rec};
use hsdk::*;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::trace::*;
use opentelemetry::{Context, ContextGuard, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::*;
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::{PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

pub fn run(ctx: &Ctx) {
    ctx.require("states_checked", 3000);
    ctx.require("suppressed_states", 500);
    ctx.require("restored_states", 500);
    ctx.require("exporter_calls", 200);
    ctx.require("telemetry_in_exporter", 500);
    ctx.section("scopes", 0.45, 4, 200, scopes);
    ctx.section("futures", 0.1, 2, 50, futures);
    ctx.section("exporters", 0.25, 4, 30, exporters);
    let _inj = hsdk::perturb::Injector::start(ctx.seed, 150);
    ctx.section("exporters-perturbed", 0.2, 3, 20, exporters);
}

struct Sinks {
    tp: SdkTracerProvider,
    lp: SdkLoggerProvider,
    spans: Arc<Mutex<Vec<PEv>>>,
    logs: Arc<Mutex<Vec<LEv>>>,
}
fn sinks() -> Sinks {
    let spans: Arc<Mutex<Vec<PEv>>> = Default::default();
    let logs: Arc<Mutex<Vec<LEv>>> = Default::default();
    Sinks {
        tp: SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn).with_span_processor(Rec::new(0, &spans)).build(),
        lp: SdkLoggerProvider::builder().with_log_processor(RecL::new(0, &logs)).build(),
        spans,
        logs,
    }
}
/// does telemetry made right now get through? None when the parts disagree
fn probe(s: &Sinks, r: &mut Rng, current: &Context) -> Result<bool, String> {
    let tracer = s.tp.tracer("t");
    let lg = s.lp.logger("l");
    s.spans.lock().unwrap().clear();
    s.logs.lock().unwrap().clear();
    let mut span = match r.below(3) {
        0 => tracer.start("x"),
        1 => tracer.build(SpanBuilder::from_name("x")),
        _ => tracer.build_with_context(SpanBuilder::from_name("x"), current),
    };
    let rec = span.is_recording();
    let valid = span.span_context().is_valid();
    span.end();
    let nstart = s.spans.lock().unwrap().iter().filter(|e| matches!(e, PEv::Start(..))).count();
    let nend = s.spans.lock().unwrap().iter().filter(|e| matches!(e, PEv::End(..))).count();
    let en = lg.event_enabled(Severity::Info, "t", None);
    let mut x = lg.create_log_record();
    x.set_body(AnyValue::Int(1));
    lg.emit(x);
    let nlog = s.logs.lock().unwrap().len();
    let in_span = tracer.in_span("y", |cx| cx.span().is_recording());
    let all = [rec, valid, nstart == 1, nend == 1, en, nlog == 1, in_span];
    let none = [!rec, nstart == 0, nend == 0, !en, nlog == 0, !in_span];
    if all.iter().all(|x| *x) {
        Ok(true)
    } else if none.iter().all(|x| *x) {
        Ok(false)
    } else {
        Err(format!("recording={rec} starts={nstart} ends={nend} enabled={en} logs={nlog} in_span={in_span}"))
    }
}

fn scopes(c: &Case, r: &mut Rng) {
    let s = sinks();
    let mut trace = String::new();
    // the stack of attachments on this thread: (id, suppressed, marker, guard)
    let mut stack: Vec<(u32, bool, u32, Option<ContextGuard>)> = vec![];
    let mut id = 0;
    #[derive(PartialEq, Debug)]
    struct Marker(u32);
    for _ in 0..4 + r.idx(24) {
        let (sup, mark) = stack.last().map_or((false, 0), |x| (x.1, x.2));
        id += 1;
        match r.below(10) {
            0 | 1 => {
                trace += " enter";
                stack.push((id, true, mark, Some(Context::enter_telemetry_suppressed_scope())));
            }
            2 => {
                let cx = Context::current_with_value(Marker(id));
                trace += " +value";
                stack.push((id, sup, id, Some(cx.attach())));
            }
            3 => {
                // every way of deriving a context keeps the state
                let cur = Context::current();
                let cx = match r.below(5) {
                    0 => cur.with_span(s.tp.tracer("t").start("d")),
                    1 => cur.with_remote_span_context(slib::valid_ctx(r)),
                    2 => cur.with_baggage(vec![KeyValue::new("a", "b")]),
                    3 => cur.with_value(3u8).with_value(4u16),
                    _ => Context::current_with_span(s.tp.tracer("t").start("d")),
                };
                trace += " +derived";
                stack.push((id, sup, mark, Some(cx.attach())));
            }
            4 => {
                let k = r.bool();
                let cx = if k { Context::current().with_telemetry_suppressed() } else { Context::new() };
                trace += if k { " +suppressed" } else { " +new" };
                stack.push((id, k, if k { mark } else { 0 }, Some(cx.attach())));
            }
            5 => {
                // the state belongs to this thread only
                let other = std::thread::spawn(|| Context::is_current_telemetry_suppressed()).join().unwrap();
                if !c.check(!other, "leaks-to-thread", || trace.clone()) {
                    return;
                }
                trace += " thread";
            }
            6 | 7 if !stack.is_empty() => {
                trace += " pop";
                stack.pop();
                c.count("restored_states", 1);
            }
            8 if stack.len() > 1 => {
                // out of order
                let k = r.idx(stack.len());
                trace += &format!(" drop@{k}");
                stack.remove(k);
                c.count("restored_states", 1);
            }
            _ => {
                // an explicitly given parent context decides for spans
                let cx = if r.bool() { Context::new().with_telemetry_suppressed().with_value(1u8) } else { Context::new() };
                let want = !cx.is_telemetry_suppressed();
                let got = s.tp.tracer("t").build_with_context(SpanBuilder::from_name("p"), &cx).is_recording();
                if !c.check(got == want, "explicit-parent", || format!("recording={got}, expected {want}; {trace}")) {
                    return;
                }
                trace += " parent";
            }
        }
        let (sup, mark) = stack.last().map_or((false, 0), |x| (x.1, x.2));
        let now = Context::is_current_telemetry_suppressed();
        let cur = Context::current();
        c.count("states_checked", 1);
        c.count("suppressed_states", sup as u64);
        if !c.check(now == sup && cur.is_telemetry_suppressed() == sup, "state", || format!("suppressed={now}, expected {sup}; {trace}")) {
            return;
        }
        let m = cur.get::<Marker>().map_or(0, |m| m.0);
        if !c.check(m == mark, "context-lost", || format!("marker {m}, expected {mark}; {trace}")) {
            return;
        }
        match probe(&s, r, &cur) {
            Ok(got) => {
                if !c.check(got != sup, "telemetry", || format!("telemetry passes={got} while suppressed={sup}; {trace}")) {
                    return;
                }
            }
            Err(e) => return c.fail("telemetry-mixed", format!("suppressed={sup}: {e}; {trace}")),
        }
    }
    while stack.pop().is_some() {
        let sup = stack.last().map_or(false, |x| x.1);
        c.check(Context::is_current_telemetry_suppressed() == sup, "state", || format!("unwinding; {trace}"));
    }
    c.seen(h64(&trace), trace.contains("enter") || trace.contains("suppressed"));
    c.sample(|| trace.clone());
}

/// suppression travels with a context attached to a future, and only with it
fn futures(c: &Case, r: &mut Rng) {
    use opentelemetry::trace::FutureExt as _;
    let s = sinks();
    let n = 2 + r.idx(4);
    let plan: Vec<bool> = (0..n).map(|_| r.bool()).collect();
    let futs: Vec<_> = plan
        .iter()
        .map(|sup| {
            let cx = if *sup { Context::new().with_telemetry_suppressed() } else { Context::new() };
            let s = &s;
            async move {
                let mut out = vec![];
                for _ in 0..3 {
                    out.push(s.tp.tracer("t").start("f").is_recording());
                    out.push(!Context::is_current_telemetry_suppressed());
                    tokio::task::yield_now().await;
                }
                out
            }
            .with_context(cx)
        })
        .collect();
    let _g = if r.bool() { Some(Context::enter_telemetry_suppressed_scope()) } else { None };
    let outs = futures_executor::block_on(futures_util::future::join_all(futs));
    for (sup, o) in plan.iter().zip(outs) {
        c.check(o.iter().all(|x| *x != *sup), "future-state", || format!("suppressed={sup}, passes={o:?}"));
    }
    c.check(Context::is_current_telemetry_suppressed() == _g.is_some(), "state", || "after futures".into());
    c.count("states_checked", n as u64);
    c.seen(h64(&plan), plan.contains(&true));
}

struct MExp {
    hook: Arc<dyn Fn() + Send + Sync>,
    calls: Arc<AtomicU64>,
}
impl PushMetricExporter for MExp {
    async fn export(&self, _m: &mut ResourceMetrics) -> OTelSdkResult {
        self.calls.fetch_add(1, SeqCst);
        (self.hook)();
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Delta
    }
}

/// pipelines whose exporters produce telemetry of their own through the same pipelines
fn exporters(c: &Case, r: &mut Rng) {
    let simple_span = r.bool();
    let simple_log = r.bool();
    let unlocked = simple_log && r.bool();
    let with_metrics = r.chance(2, 3);
    let sl = Arc::new(ExpLog::default());
    let ll = Arc::new(ExpLog::default());
    let cfg = Cfg { q: 64 + r.idx(64), b: 1 + r.idx(40), delay: Duration::from_millis(1 + r.below(20)), timeout: Duration::from_secs(5), conc: 1 };
    let mut tb = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn);
    tb = if simple_span {
        tb.with_simple_exporter(SpanExp(sl.clone()))
    } else {
        tb.with_span_processor(
            BatchSpanProcessor::builder(SpanExp(sl.clone()))
                .with_batch_config(opentelemetry_sdk::trace::BatchConfigBuilder::default().with_max_queue_size(cfg.q).with_max_export_batch_size(cfg.b).with_scheduled_delay(cfg.delay).build())
                .build(),
        )
    };
    let mut lb = SdkLoggerProvider::builder();
    lb = if unlocked {
        lb.with_log_processor(concurrent_log_processor::SimpleConcurrentLogProcessor::new(LogExp(ll.clone())))
    } else if simple_log {
        lb.with_simple_exporter(LogExp(ll.clone()))
    } else {
        lb.with_log_processor(
            BatchLogProcessor::builder(LogExp(ll.clone()))
                .with_batch_config(opentelemetry_sdk::logs::BatchConfigBuilder::default().with_max_queue_size(cfg.q).with_max_export_batch_size(cfg.b).with_scheduled_delay(cfg.delay).build())
                .build(),
        )
    };
    let tp = tb.build();
    let lp = lb.build();
    let tracer = tp.tracer("t");
    let logger = Arc::new(lp.logger("l"));
    let fed: Arc<AtomicU64> = Default::default();
    let recorded: Arc<AtomicU64> = Default::default();
    let hook: Arc<dyn Fn() + Send + Sync> = {
        let (tracer, logger, fed, recorded) = (tracer.clone(), logger.clone(), fed.clone(), recorded.clone());
        Arc::new(move || {
            // telemetry that does come back brings this hook back: not for ever
            thread_local!(static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
            struct Out;
            impl Drop for Out {
                fn drop(&mut self) {
                    DEPTH.set(DEPTH.get() - 1);
                }
            }
            DEPTH.set(DEPTH.get() + 1);
            let _out = Out;
            if DEPTH.get() > 3 {
                return;
            }
            for k in 0..2 {
                let mut s = tracer.span_builder("own").with_attributes(vec![KeyValue::new("id", -7i64)]).start(&tracer);
                if s.is_recording() {
                    recorded.fetch_add(1, SeqCst);
                }
                if k == 0 {
                    s.end();
                }
                drop(s);
                if logger.event_enabled(Severity::Error, "own", None) {
                    recorded.fetch_add(1, SeqCst);
                }
                let mut x = logger.create_log_record();
                x.set_body(AnyValue::Int(-7));
                logger.emit(x);
                fed.fetch_add(1, SeqCst);
            }
        })
    };
    *sl.hook.lock().unwrap() = Some(hook.clone());
    *ll.hook.lock().unwrap() = Some(hook.clone());
    let mcalls: Arc<AtomicU64> = Default::default();
    let mp = with_metrics.then(|| {
        let e = MExp { hook: hook.clone(), calls: mcalls.clone() };
        SdkMeterProvider::builder().with_reader(PeriodicReader::builder(e).with_interval(Duration::from_millis(1 + r.below(20))).build()).build()
    });
    let n = 5 + r.idx(50);
    let nt = 1 + r.idx(3);
    let bad = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let (tracer, logger, mp, bad) = (&tracer, &logger, &mp, &bad);
            let seed = r.u64();
            sc.spawn(move || {
                let mut r = Rng::new(seed, t as u64);
                let ctr = mp.as_ref().map(|m| m.meter("m").u64_counter("c").build());
                for k in 0..n {
                    let id = ((t as i64) << 32) | k as i64;
                    let mut s = tracer.span_builder("w").with_attributes(vec![KeyValue::new("id", id)]).start(tracer);
                    let mut x = logger.create_log_record();
                    x.set_body(AnyValue::Int(id));
                    watched("emit", || {
                        s.end();
                        logger.emit(x);
                    });
                    if let Some(c) = &ctr {
                        c.add(1, &[]);
                    }
                    // an exporter running on this thread must not leave it suppressed
                    if Context::is_current_telemetry_suppressed() {
                        bad.store(true, SeqCst);
                    }
                    if r.chance(1, 8) {
                        std::thread::sleep(Duration::from_micros(r.below(400)));
                    }
                }
            });
        }
    });
    let desc = format!("{}span {}log metrics={with_metrics} {cfg:?} {nt} threads x {n}", if simple_span { "simple" } else { "batch" }, if unlocked { "concurrent simple" } else if simple_log { "simple" } else { "batch" });
    watched("flush", || {
        let _ = tp.force_flush();
        let _ = lp.force_flush();
        if let Some(m) = &mp {
            let _ = m.force_flush();
        }
    });
    watched("shutdown", || {
        if let Some(m) = &mp {
            let _ = m.shutdown();
        }
        let _ = tp.shutdown();
        let _ = lp.shutdown();
    });
    static WAIT: OnceLock<()> = OnceLock::new();
    let _ = WAIT;
    c.check(!bad.load(SeqCst), "left-suppressed", || desc.clone());
    c.check(recorded.load(SeqCst) == 0, "recorded-in-exporter", || format!("{} spans / records were enabled inside an exporter; {desc}", recorded.load(SeqCst)));
    for (what, l) in [("span", &sl), ("log", &ll)] {
        let o = l.order.lock().unwrap();
        let own = o.iter().filter(|x| **x as i64 == -7).count();
        c.check(own == 0, "fed-back", || format!("{own} {what} items made inside exporters were exported; {desc}"));
        c.check(l.unsuppressed.load(SeqCst) == 0, "exporter-not-suppressed", || format!("{what} exporter ran without suppression {} times; {desc}", l.unsuppressed.load(SeqCst)));
        let mut v: Vec<u64> = o.iter().copied().filter(|x| *x as i64 != -7).collect();
        v.sort();
        v.dedup();
        // nothing of the workload is suppressed
        let all = nt * n;
        let simple = if what == "span" { simple_span } else { simple_log };
        if simple {
            c.check(v.len() == all, "workload-suppressed", || format!("{} of {all} {what}s exported; {desc}", v.len()));
        } else {
            c.check(v.len() >= all.min(cfg.q), "workload-suppressed", || format!("only {} of {all} {what}s exported; {desc}", v.len()));
        }
        c.count("exporter_calls", l.exports.load(SeqCst));
    }
    if with_metrics {
        c.check(mcalls.load(SeqCst) > 0, "metrics-not-exported", || desc.clone());
        c.count("exporter_calls", mcalls.load(SeqCst));
    }
    c.count("telemetry_in_exporter", fed.load(SeqCst));
    c.seen(h64(&(desc.clone(), sl.batches.lock().unwrap().clone(), ll.batches.lock().unwrap().clone(), mcalls.load(SeqCst))), true);
    c.sample(|| desc.clone());
}
