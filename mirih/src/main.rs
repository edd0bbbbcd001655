//! Small concurrent scenarios for Miri (weak memory, leaks, deadlocks, data races) and ThreadSanitizer, each
//! ending in a check of what was observed.  usage: mirih <scenario> <seed> miri|tsan
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::propagation::TextMapPropagator;
use opentelemetry::trace::{FutureExt as _, Span as _, TraceContextExt as _, Tracer as _, TracerProvider as _};
use opentelemetry::{global, Context, InstrumentationScope, KeyValue, Value};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogBatch, LogExporter, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics as AM, MetricData as MD, ResourceMetrics};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::*;
use opentelemetry_sdk::propagation::TraceContextPropagator;
use opentelemetry_sdk::runtime::{Runtime, RuntimeChannel, TrySend, TrySendError};
use opentelemetry_sdk::trace::{SdkTracerProvider, SpanData, SpanExporter};
use opentelemetry_sdk::Resource;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, Weak};
use std::thread;
use std::time::Duration;

// ---- plumbing --------------------------------------------------------------------------
struct Env {
    seed: u64,
    big: bool,
}
impl Env {
    fn n(&self, small: u64) -> u64 {
        if self.big {
            small * 40
        } else {
            small
        }
    }
}
static FAILED: AtomicBool = AtomicBool::new(false);
fn fail(key: &str, detail: String) {
    if !FAILED.swap(true, SeqCst) {
        println!("FAIL {key} {}", detail.replace('\n', " "));
    }
}
fn check(ok: bool, key: &str, detail: impl FnOnce() -> String) {
    if !ok {
        fail(key, detail())
    }
}
fn obs(k: &str, n: u64) {
    println!("OBS {k} {n}");
}
fn sig(x: impl std::fmt::Debug) {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{x:?}").hash(&mut h);
    println!("SIG {:016x}", h.finish());
}
struct Rng(u64);
impl Rng {
    fn new(seed: u64, k: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (k + 1).wrapping_mul(0xD1B54A32D192ED03) | 1)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % n
    }
}
fn par(n: u64, f: impl Fn(u64) + Send + Sync) {
    // all start together
    let b = std::sync::Barrier::new(n as usize);
    thread::scope(|s| {
        let (f, b) = (&f, &b);
        for i in 0..n {
            s.spawn(move || {
                b.wait();
                f(i)
            });
        }
    })
}
/// a thread that is not joined by the library: give it time to end before the process does
fn settle() {
    thread::sleep(Duration::from_millis(300));
}

// ---- metrics ---------------------------------------------------------------------------
#[derive(Clone, Debug)]
struct R(Arc<ManualReader>);
impl R {
    fn new(t: Temporality) -> R {
        R(Arc::new(ManualReader::builder().with_temporality(t).build()))
    }
    fn snap(&self) -> Snap {
        let mut rm = empty();
        match self.0.collect(&mut rm) {
            Ok(()) => snap(&rm),
            Err(_) => Snap::new(),
        }
    }
}
fn empty() -> ResourceMetrics {
    ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] }
}
impl MetricReader for R {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn shutdown_with_timeout(&self, t: Duration) -> OTelSdkResult {
        self.0.shutdown_with_timeout(t)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}
/// instrument → attributes → (sum or value, count)
type Snap = BTreeMap<String, BTreeMap<String, (f64, u64)>>;
trait F: Copy {
    fn f(self) -> f64;
}
impl F for u64 {
    fn f(self) -> f64 {
        self as f64
    }
}
impl F for i64 {
    fn f(self) -> f64 {
        self as f64
    }
}
impl F for f64 {
    fn f(self) -> f64 {
        self
    }
}
fn attrs<'a>(a: impl Iterator<Item = &'a KeyValue>) -> String {
    let mut v: Vec<String> = a.map(|k| format!("{}={}", k.key, k.value)).collect();
    v.sort();
    v.join(",")
}
fn points<T: F + std::fmt::Debug>(d: &MD<T>, out: &mut BTreeMap<String, (f64, u64)>) {
    let mut put = |k: String, v: (f64, u64)| {
        if out.insert(k.clone(), v).is_some() {
            fail("duplicate-point", k)
        }
    };
    match d {
        MD::Sum(s) => s.data_points.iter().for_each(|p| put(attrs(p.attributes.iter()), (p.value.f(), 1))),
        MD::Gauge(s) => s.data_points.iter().for_each(|p| put(attrs(p.attributes.iter()), (p.value.f(), 1))),
        MD::Histogram(h) => h.data_points.iter().for_each(|p| {
            let b: u64 = p.bucket_counts.iter().sum();
            if b != p.count {
                fail("bucket-total", format!("buckets hold {b} of {} measurements", p.count))
            }
            put(attrs(p.attributes.iter()), (p.sum.f(), p.count))
        }),
        MD::ExponentialHistogram(h) => h.data_points.iter().for_each(|p| {
            let b: u64 = p.positive_bucket.counts.iter().sum::<u64>() + p.negative_bucket.counts.iter().sum::<u64>() + p.zero_count;
            if b != p.count as u64 {
                fail("bucket-total", format!("buckets hold {b} of {} measurements", p.count))
            }
            put(attrs(p.attributes.iter()), (p.sum.f(), p.count as u64))
        }),
    }
}
fn snap(rm: &ResourceMetrics) -> Snap {
    let mut s = Snap::new();
    for sm in &rm.scope_metrics {
        for m in &sm.metrics {
            let mut out = BTreeMap::new();
            match &m.data {
                AM::F64(d) => points(d, &mut out),
                AM::U64(d) => points(d, &mut out),
                AM::I64(d) => points(d, &mut out),
            }
            if s.insert(format!("{}/{}", sm.scope.name(), m.name), out).is_some() {
                fail("duplicate-metric", m.name.to_string())
            }
        }
    }
    s
}
fn add(total: &mut Snap, s: &Snap) {
    for (n, pts) in s {
        for (a, (v, c)) in pts {
            let e = total.entry(n.clone()).or_default().entry(a.clone()).or_default();
            e.0 += v;
            e.1 += c;
        }
    }
}

const SETS: u64 = 3;
fn set(k: u64) -> Vec<KeyValue> {
    match k {
        0 => vec![],
        1 => vec![KeyValue::new("a", 1), KeyValue::new("b", "x")],
        _ => vec![KeyValue::new("b", "y"), KeyValue::new("a", 2)],
    }
}
/// several threads record while another collects: what the collections add up to is what was recorded
fn conservation(e: &Env, what: &str) {
    let (dr, cr) = (R::new(Temporality::Delta), R::new(Temporality::Cumulative));
    let expo = e.seed % 2 == 0;
    let p = SdkMeterProvider::builder()
        .with_reader(dr.clone())
        .with_reader(cr.clone())
        .with_view(move |i: &Instrument| {
            (expo && i.name == "h").then(|| Stream::new().name("h").aggregation(Aggregation::Base2ExponentialHistogram { max_size: 4, max_scale: 20, record_min_max: true }))
        })
        .build();
    let m = p.meter("m");
    let per = e.n(4);
    let stop = AtomicBool::new(false);
    let deltas = Mutex::new(Snap::new());
    let parts = Mutex::new(vec![]);
    let expect: Mutex<HashMap<String, (f64, u64)>> = Default::default();
    let bar = std::sync::Barrier::new(3);
    thread::scope(|s| {
        let bar = &bar;
        let (stop, deltas, parts, dr, cr, expect, m) = (&stop, &deltas, &parts, &dr, &cr, &expect, &m);
        let col = s.spawn(move || {
            let mut last: Snap = Default::default();
            bar.wait();
            for _ in 0..e.n(2) {
                let d = dr.snap();
                parts.lock().unwrap().push(format!("{d:?}"));
                add(&mut deltas.lock().unwrap(), &d);
                let c = cr.snap();
                for (n, pts) in &last {
                    for (a, v) in pts {
                        let now = c.get(n).and_then(|x| x.get(a)).copied();
                        check(now.is_some_and(|w| w.0 >= v.0 && w.1 >= v.1), "cumulative-fell", || format!("{n} {{{a}}} {v:?} then {now:?}"));
                    }
                }
                last = c;
                if stop.load(Relaxed) {
                    break;
                }
            }
        });
        let ts: Vec<_> = (0..2)
            .map(|t| {
                s.spawn(move || {
                    let mut r = Rng::new(e.seed, t);
                    let mut mine: HashMap<String, (f64, u64)> = HashMap::new();
                    let (c, u, h) = (m.u64_counter("c"), m.f64_counter("f"), m.f64_histogram("h"));
                    enum I {
                        C(opentelemetry::metrics::Counter<u64>),
                        F(opentelemetry::metrics::Counter<f64>),
                        H(opentelemetry::metrics::Histogram<f64>),
                    }
                    let (name, i) = match what {
                        "c" => ("m/c", I::C(c.build())),
                        "f" => ("m/f", I::F(u.build())),
                        _ => ("m/h", I::H(h.build())),
                    };
                    bar.wait();
                    for _ in 0..per {
                        let k = r.below(SETS);
                        let v = 1 + r.below(8);
                        match &i {
                            I::C(c) => c.add(v, &set(k)),
                            I::F(c) => c.add(v as f64, &set(k)),
                            I::H(h) => h.record(v as f64, &set(k)),
                        }
                        let w = mine.entry(format!("{name} {}", attrs(set(k).iter()))).or_default();
                        w.0 += v as f64;
                        w.1 += 1;
                    }
                    let mut all = expect.lock().unwrap();
                    for (k, v) in mine {
                        let w = all.entry(k).or_default();
                        w.0 += v.0;
                        w.1 += v.1;
                    }
                })
            })
            .collect();
        ts.into_iter().for_each(|t| t.join().unwrap());
        stop.store(true, Relaxed);
        col.join().unwrap();
    });
    let mut d = deltas.into_inner().unwrap();
    add(&mut d, &dr.snap());
    let c = cr.snap();
    let expect = expect.into_inner().unwrap();
    for (who, got) in [("delta", &d), ("cumulative", &c)] {
        let mut flat: HashMap<String, (f64, u64)> = HashMap::new();
        for (n, pts) in got {
            for (a, v) in pts {
                if v.0 != 0.0 {
                    flat.insert(format!("{n} {a}"), *v);
                }
            }
        }
        for (k, v) in &expect {
            let g = flat.remove(k).unwrap_or_default();
            check(g.0 == v.0 && (what != "h" || g.1 == v.1), "lost-measurement", || format!("{who} {k}: recorded {v:?}, reported {g:?}"));
        }
        check(flat.is_empty(), "invented-point", || format!("{who} {flat:?}"));
    }
    sig(parts.into_inner().unwrap());
    obs("measurements", per * 2);
    let _ = p.shutdown();
}
fn gauges(e: &Env) {
    let r = R::new(if e.seed % 2 == 0 { Temporality::Delta } else { Temporality::Cumulative });
    let p = SdkMeterProvider::builder().with_reader(r.clone()).build();
    let m = p.meter("m");
    let seen = Mutex::new(vec![]);
    let hits = Arc::new(AtomicU64::new(0));
    let h2 = hits.clone();
    let _o = m
        .u64_observable_counter("o")
        .with_callback(move |o| {
            let n = h2.fetch_add(1, Relaxed) + 1;
            o.observe(n, &[]);
            o.observe(2 * n, &set(1));
        })
        .build();
    par(3, |t| {
        if t == 2 {
            for _ in 0..e.n(2) {
                let s = r.snap();
                if let Some(g) = s.get("m/g") {
                    for (a, (v, _)) in g {
                        check(a == "" && (*v >= 1.0 || e.seed % 2 == 0 && *v == 0.0), "gauge-value", || format!("{g:?}"));
                    }
                }
                if let Some(o) = s.get("m/o") {
                    check(o.len() == 2 && o[""].0 * 2.0 == o["a=1,b=x"].0, "observable-torn", || format!("{o:?}"));
                }
                seen.lock().unwrap().push(format!("{s:?}"));
            }
        } else {
            let g = m.u64_gauge("g").build();
            for k in 1..=e.n(3) {
                g.record(t * 1000 + k, &[]);
            }
        }
    });
    let s = r.snap();
    // the last value is the last one of one of the threads, unless a delta collection took it
    if let Some(g) = s.get("m/g").and_then(|g| g.get("")) {
        let n = e.n(3) as f64;
        check(e.seed % 2 == 0 || g.0 == n || g.0 == 1000.0 + n, "gauge-not-last", || format!("{g:?} after {n} values each"));
    }
    sig(seen);
    obs("callbacks", hits.load(Relaxed));
    let _ = p.shutdown();
}
fn creation(e: &Env) {
    let r = R::new(Temporality::Cumulative);
    let p = SdkMeterProvider::builder().with_reader(r.clone()).build();
    let n = e.n(2);
    let during = Mutex::new(vec![]);
    par(3, |t| {
        for k in 0..n {
            let scope = if (k + t) % 2 == 0 { "m" } else { "n" };
            let m = p.meter(scope);
            m.u64_counter("same").build().add(1, &[]);
            m.f64_histogram(if t == 0 { "Same2" } else { "same2" }).build().record(1.0, &set(1));
            if t == 2 {
                during.lock().unwrap().push(format!("{:?}", r.snap()));
            }
        }
    });
    let s = r.snap();
    let mut c = 0.0;
    let mut h = 0;
    for (name, pts) in &s {
        if name.ends_with("/same") {
            c += pts.values().map(|v| v.0).sum::<f64>();
        } else {
            h += pts.values().map(|v| v.1).sum::<u64>();
        }
    }
    check(s.len() <= 4 && c == 3.0 * n as f64 && h == 3 * n, "lost-in-creation", || format!("{s:?} after {n} each"));
    sig(during);
    obs("instruments_created", 6 * n);
    let _ = p.shutdown();
}
#[derive(Clone, Default, Debug)]
struct MExp(Arc<Mutex<Vec<Snap>>>, Arc<AtomicUsize>);
impl PushMetricExporter for MExp {
    async fn export(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.lock().unwrap().push(snap(rm));
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        self.1.fetch_add(1, SeqCst);
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Delta
    }
}
fn periodic(e: &Env, own: bool) {
    let x = MExp::default();
    let b = SdkMeterProvider::builder();
    let p = if own {
        b.with_reader(opentelemetry_sdk::metrics::periodic_reader_with_async_runtime::PeriodicReader::builder(x.clone(), Threads).with_interval(Duration::from_secs(3600)).build())
    } else {
        b.with_reader(PeriodicReader::builder(x.clone()).with_interval(Duration::from_secs(3600)).build())
    }
    .build();
    let c = p.meter("m").u64_counter("c").build();
    let done = AtomicUsize::new(0);
    let before = AtomicU64::new(0);
    par(3, |t| {
        if t == 2 {
            let _ = p.force_flush();
            if e.seed % 3 == 0 {
                while done.load(Acquire) < 2 {
                    thread::yield_now();
                }
            }
            before.store(if done.load(Acquire) == 2 { 2 * e.n(3) } else { 0 }, Relaxed);
            let r = p.shutdown();
            check(r.is_ok(), "shutdown-failed", || format!("{r:?}"));
        } else {
            for _ in 0..e.n(3) {
                c.add(1, &[]);
            }
            done.fetch_add(1, Release);
            if t == 1 {
                let _ = p.force_flush();
            }
        }
    });
    let all = x.0.lock().unwrap();
    let sum: f64 = all.iter().flat_map(|s| s.get("m/c")).flat_map(|p| p.values()).map(|v| v.0).sum();
    check(sum <= 2.0 * e.n(3) as f64 && sum >= before.load(Relaxed) as f64, "periodic-total", || format!("{sum} of {}, at least {}", 2 * e.n(3), before.load(Relaxed)));
    check(x.1.load(SeqCst) == 1, "exporter-shutdowns", || format!("{}", x.1.load(SeqCst)));
    sig(&*all);
    obs("metric_exports", all.len() as u64);
    drop(all);
    drop((c, p));
}

// ---- spans and logs --------------------------------------------------------------------
#[derive(Clone, Default, Debug)]
struct Exp(Arc<Mutex<Vec<Vec<String>>>>, Arc<AtomicUsize>, Arc<AtomicUsize>, Arc<AtomicUsize>, bool);
impl Exp {
    fn put(&self, v: Vec<String>) {
        check(self.2.fetch_add(1, SeqCst) == 0, "exports-overlap", || "two exports at once".into());
        check(!self.4 || self.1.load(SeqCst) == 0, "export-after-shutdown", || format!("{v:?}"));
        self.0.lock().unwrap().push(v);
        thread::yield_now();
        self.2.fetch_sub(1, SeqCst);
    }
}
impl SpanExporter for Exp {
    async fn export(&self, b: Vec<SpanData>) -> OTelSdkResult {
        self.put(b.iter().map(|s| format!("{}{}", s.name, "+".repeat(s.attributes.len() + s.events.len()))).collect());
        self.3.fetch_add(b.iter().map(|s| s.attributes.len() + s.events.len()).sum(), SeqCst);
        Ok(())
    }
    fn shutdown(&mut self) -> OTelSdkResult {
        self.1.fetch_add(1, SeqCst);
        Ok(())
    }
}
impl LogExporter for Exp {
    async fn export(&self, b: LogBatch<'_>) -> OTelSdkResult {
        self.put(
            b.iter()
                .map(|(r, _)| match r.body() {
                    Some(AnyValue::String(s)) => s.to_string(),
                    x => format!("{x:?}"),
                })
                .collect(),
        );
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.1.fetch_add(1, SeqCst);
        Ok(())
    }
}
/// a runtime whose tasks are threads
#[derive(Clone, Debug)]
struct Threads;
impl Runtime for Threads {
    fn spawn<F: Future<Output = ()> + Send + 'static>(&self, f: F) {
        thread::spawn(move || futures_executor::block_on(f));
    }
    fn delay(&self, d: Duration) -> impl Future<Output = ()> + Send + 'static {
        let (tx, rx) = futures_channel::oneshot::channel::<()>();
        // long delays never end: their sender lives in a thread only for the short ones
        let keep = if d < Duration::from_millis(200) {
            thread::spawn(move || {
                thread::sleep(d);
                let _ = tx.send(());
            });
            None
        } else {
            Some(tx)
        };
        async move {
            let _k = keep;
            let _ = rx.await;
        }
    }
}
#[derive(Debug)]
struct Tx<T: std::fmt::Debug>(Mutex<futures_channel::mpsc::Sender<T>>);
impl<T: std::fmt::Debug + Send> TrySend for Tx<T> {
    type Message = T;
    fn try_send(&self, item: T) -> Result<(), TrySendError> {
        self.0.lock().unwrap().try_send(item).map_err(|e| if e.is_full() { TrySendError::ChannelFull } else { TrySendError::ChannelClosed })
    }
}
impl RuntimeChannel for Threads {
    type Receiver<T: std::fmt::Debug + Send> = futures_channel::mpsc::Receiver<T>;
    type Sender<T: std::fmt::Debug + Send> = Tx<T>;
    fn batch_message_channel<T: std::fmt::Debug + Send>(&self, cap: usize) -> (Self::Sender<T>, Self::Receiver<T>) {
        let (tx, rx) = futures_channel::mpsc::channel::<T>(cap);
        (Tx(Mutex::new(tx)), rx)
    }
}
enum Prov {
    S(SdkTracerProvider, opentelemetry_sdk::trace::SdkTracer),
    L(SdkLoggerProvider, opentelemetry_sdk::logs::SdkLogger),
}
impl Prov {
    fn emit(&self, id: &str) {
        match self {
            Prov::S(_, t) => t.start(id.to_string()).end(),
            Prov::L(_, l) => {
                let mut r = l.create_log_record();
                r.set_body(AnyValue::String(id.to_string().into()));
                l.emit(r)
            }
        }
    }
    fn flush(&self) -> OTelSdkResult {
        match self {
            Prov::S(p, _) => p.force_flush(),
            Prov::L(p, _) => p.force_flush(),
        }
    }
    fn shutdown(&self) -> OTelSdkResult {
        match self {
            Prov::S(p, _) => p.shutdown(),
            Prov::L(p, _) => p.shutdown(),
        }
    }
}
fn prov(spans: bool, mode: &str, x: &Exp) -> Prov {
    use opentelemetry_sdk::{logs, trace};
    let d = Duration::from_secs(3600);
    if spans {
        let b = SdkTracerProvider::builder();
        let c = trace::BatchConfigBuilder::default().with_max_queue_size(64).with_max_export_batch_size(3).with_scheduled_delay(d).build();
        let p = match mode {
            "simple" => b.with_simple_exporter(x.clone()),
            "batch" => b.with_span_processor(trace::BatchSpanProcessor::builder(x.clone()).with_batch_config(c).build()),
            _ => b.with_span_processor(trace::span_processor_with_async_runtime::BatchSpanProcessor::builder(x.clone(), Threads).with_batch_config(c).build()),
        }
        .build();
        let t = p.tracer("t");
        Prov::S(p, t)
    } else {
        let b = SdkLoggerProvider::builder();
        let c = logs::BatchConfigBuilder::default().with_max_queue_size(64).with_max_export_batch_size(3).with_scheduled_delay(d).build();
        let p = match mode {
            "simple" => b.with_simple_exporter(x.clone()),
            "batch" => b.with_log_processor(logs::BatchLogProcessor::builder(x.clone()).with_batch_config(c).build()),
            _ => b.with_log_processor(logs::log_processor_with_async_runtime::BatchLogProcessor::builder(x.clone(), Threads).with_batch_config(c).build()),
        }
        .build();
        let l = p.logger("l");
        Prov::L(p, l)
    }
}
/// two threads produce while a third flushes and finally shuts down
fn pipeline(e: &Env, spans: bool, mode: &str) {
    // an emission racing with the shutdown of a simple pipeline may still be exported
    let x = Exp { 4: mode != "simple", ..Default::default() };
    let p = prov(spans, mode, &x);
    let per = if e.big { 20 } else { 4 };
    let done = AtomicUsize::new(0);
    let late = e.seed % 2 == 0;
    par(3, |t| {
        if t == 2 {
            let r = p.flush();
            check(r.is_ok(), "flush-failed", || format!("{r:?}"));
            if late {
                while done.load(Acquire) < 2 {
                    thread::sleep(Duration::from_micros(200));
                }
                if e.seed % 4 == 0 {
                    let r = p.flush();
                    check(r.is_ok(), "flush-failed", || format!("{r:?}"));
                    let n: usize = x.0.lock().unwrap().iter().map(|b| b.len()).sum();
                    check(n as u64 == 2 * per, "flush-incomplete", || format!("{n} of {}", 2 * per));
                }
            }
            let r = p.shutdown();
            check(r.is_ok(), "shutdown-failed", || format!("{r:?}"));
        } else {
            for k in 0..per {
                p.emit(&format!("{t}:{k}"));
                if k == 1 && t == 0 {
                    let f = p.flush();
                    if late {
                        check(f.is_ok(), "flush-failed", || format!("{f:?}"));
                        let seen: Vec<String> = x.0.lock().unwrap().iter().flatten().cloned().collect();
                        check((0..=k).all(|j| seen.contains(&format!("{t}:{j}"))), "flush-missed-own", || format!("{seen:?}"));
                    }
                }
            }
            done.fetch_add(1, Release);
        }
    });
    let b = x.0.lock().unwrap().clone();
    let mut at: HashMap<u64, i64> = HashMap::new();
    let mut n = 0;
    for id in b.iter().flatten() {
        let (t, k) = id.split_once(':').unwrap_or(("9", "0"));
        let (t, k): (u64, i64) = (t.parse().unwrap(), k.parse().unwrap());
        let prev = at.insert(t, k).unwrap_or(-1);
        check(if late { k == prev + 1 } else { k > prev }, "order-or-duplicate", || format!("{b:?}"));
        n += 1;
    }
    if late {
        check(n == 2 * per, "lost-item", || format!("{n} of {}: {b:?}", 2 * per));
    }
    check(mode == "simple" || b.iter().all(|b| b.len() <= 3), "batch-too-large", || format!("{b:?}"));
    let down = || x.1.load(SeqCst) == 1;
    for _ in 0..100 {
        if down() {
            break;
        }
        thread::sleep(Duration::from_millis(20));
    }
    check(down(), "exporter-shutdowns", || format!("{}", x.1.load(SeqCst)));
    sig(&b);
    obs("items_exported", n);
    drop(p);
}
/// one span used and ended by several threads through a shared context
fn shared_span(e: &Env) {
    let x = Exp::default();
    let p = SdkTracerProvider::builder().with_simple_exporter(x.clone()).build();
    let t = p.tracer("t");
    for round in 0..e.n(2) {
        let cx = Context::current_with_span(t.start(format!("s{round}")));
        let ended = AtomicUsize::new(0);
        let before = AtomicUsize::new(0);
        par(3, |i| {
            let _g = cx.clone().attach();
            let c = Context::current();
            if i == 2 {
                c.span().end();
                ended.store(1, Release);
            } else {
                c.span().add_event("e", vec![]);
                c.span().set_attribute(KeyValue::new(format!("k{i}"), 1));
                if ended.load(Acquire) == 0 {
                    before.fetch_add(2, Relaxed);
                }
            }
            check(!(i == 2) || !c.span().is_recording(), "recording-after-end", String::new);
        });
    }
    let _ = p.shutdown();
    let b = x.0.lock().unwrap();
    let n: usize = b.iter().map(|v| v.len()).sum();
    check(n as u64 == e.n(2), "exported-once", || format!("{b:?}"));
    sig(&*b);
    obs("shared_spans", n as u64);
    obs("span_parts", x.3.load(SeqCst) as u64);
}
/// contexts handed between threads and tasks, spans dropped by whoever holds the last handle
fn contexts(e: &Env) {
    let x = Exp::default();
    let p = SdkTracerProvider::builder().with_simple_exporter(x.clone()).build();
    let t = p.tracer("t");
    #[derive(Debug, PartialEq, Clone, Copy)]
    struct Mark(u64);
    let order = Mutex::new(vec![]);
    for k in 0..e.n(2) {
        let base = Context::new().with_value(Mark(k));
        let cx = base.with_span(t.start("root"));
        par(3, |i| {
            let g = cx.clone().attach();
            check(Context::current().get::<Mark>() == Some(&Mark(k)), "context-value", String::new);
            let g2 = Context::current_with_value(Mark(100 + i)).attach();
            check(Context::current().get::<Mark>() == Some(&Mark(100 + i)), "context-value", String::new);
            drop(g);
            check(Context::current().get::<Mark>() == Some(&Mark(100 + i)), "context-value", String::new);
            drop(g2);
            check(Context::current().get::<Mark>().is_none(), "context-left", String::new);
            futures_executor::block_on(
                async {
                    check(Context::current().get::<Mark>() == Some(&Mark(k)), "context-in-task", String::new);
                    let mut s = t.start("child");
                    s.set_attribute(KeyValue::new("i", i as i64));
                }
                .with_context(cx.clone()),
            );
            order.lock().unwrap().push(i);
        });
        drop(cx);
    }
    let _ = p.shutdown();
    let n: usize = x.0.lock().unwrap().iter().map(|v| v.len()).sum();
    check(n as u64 == 4 * e.n(2), "spans-exported", || format!("{n} of {}", 4 * e.n(2)));
    sig(order);
    obs("contexts_attached", 9 * e.n(2));
}
/// the process-wide providers and propagator, used while they are replaced
fn globals(e: &Env) {
    let exps: Vec<Exp> = (0..2).map(|_| Exp::default()).collect();
    let r = R::new(Temporality::Cumulative);
    let mp = SdkMeterProvider::builder().with_reader(r.clone()).build();
    let tps: Vec<_> = exps.iter().map(|x| SdkTracerProvider::builder().with_simple_exporter(x.clone()).build()).collect();
    let counted = AtomicU64::new(0);
    par(3, |t| {
        if t == 0 {
            global::set_tracer_provider(tps[0].clone());
            global::set_meter_provider(mp.clone());
            global::set_text_map_propagator(TraceContextPropagator::new());
            let old = global::set_tracer_provider(tps[1].clone());
            drop(old);
        } else {
            for _ in 0..e.n(2) {
                let tr = global::tracer("g");
                tr.in_span("s", |cx| {
                    let mut h: HashMap<String, String> = HashMap::new();
                    global::get_text_map_propagator(|p| p.inject_context(&cx, &mut h));
                    if let Some(tp) = h.get("traceparent") {
                        let back = TraceContextPropagator::new().extract_with_context(&Context::new(), &h);
                        check(back.span().span_context().trace_id() == cx.span().span_context().trace_id(), "propagated-id", || tp.clone());
                    }
                    if cx.span().span_context().is_valid() {
                        counted.fetch_add(1, Relaxed);
                    }
                });
                global::meter("g").u64_counter("c").build().add(1, &[]);
            }
        }
    });
    let n: usize = exps.iter().map(|x| x.0.lock().unwrap().iter().map(|v| v.len()).sum::<usize>()).sum();
    check(n as u64 == counted.load(Relaxed), "global-spans", || format!("{n} exported of {} valid", counted.load(Relaxed)));
    // the providers are set now: everything counts
    let c0 = r.snap().get("g/c").and_then(|p| p.get("")).map(|v| v.0).unwrap_or(0.0);
    global::meter("g").u64_counter("c").build().add(5, &[]);
    let c1 = r.snap().get("g/c").and_then(|p| p.get("")).map(|v| v.0).unwrap_or(0.0);
    check(c1 == c0 + 5.0, "global-meter", || format!("{c0} then {c1}"));
    sig((n, c0 as u64, exps[0].0.lock().unwrap().len()));
    obs("global_spans", n as u64);
    global::set_tracer_provider(opentelemetry::trace::noop::NoopTracerProvider::new());
    global::set_meter_provider(SdkMeterProvider::default());
    tps.iter().for_each(|p| drop(p.shutdown()));
    let _ = mp.shutdown();
}
/// clones of every provider dropped and shut down by several threads while others produce
fn lifecycles(e: &Env) {
    let (xs, xl) = (Exp::default(), Exp::default());
    let s = prov(true, if e.seed % 2 == 0 { "batch" } else { "simple" }, &xs);
    let l = prov(false, if e.seed % 3 == 0 { "simple" } else { "batch" }, &xl);
    let oks = AtomicUsize::new(0);
    par(3, |t| {
        for k in 0..2 {
            s.emit(&format!("{t}:{k}"));
            l.emit(&format!("{t}:{k}"));
        }
        if t != 0 {
            for p in [&s, &l] {
                if p.shutdown().is_ok() {
                    oks.fetch_add(1, Relaxed);
                }
            }
        }
    });
    check(oks.load(Relaxed) == 2, "shutdown-once", || format!("{} of 4 shutdowns of 2 providers succeeded", oks.load(Relaxed)));
    for x in [&xs, &xl] {
        let v: Vec<String> = x.0.lock().unwrap().iter().flatten().cloned().collect();
        let mut w = v.clone();
        w.sort();
        w.dedup();
        check(w.len() == v.len(), "exported-twice", || format!("{v:?}"));
        check(x.1.load(SeqCst) == 1, "exporter-shutdowns", || format!("{}", x.1.load(SeqCst)));
        sig(&v);
    }
    obs("items_exported", (xs.0.lock().unwrap().len() + xl.0.lock().unwrap().len()) as u64);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let e = Env { seed: a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1), big: a.get(3).is_some_and(|m| m == "tsan") };
    let rounds = if e.big { 30 } else { 1 };
    for k in 0..rounds {
        let e = Env { seed: e.seed * rounds + k, big: e.big };
        match a[1].as_str() {
            "nop" => {
                let _ = (Value::Bool(true), InstrumentationScope::builder("x").build());
            }
            "counter" => conservation(&e, "c"),
            "counter-f64" => conservation(&e, "f"),
            "histogram" => conservation(&e, "h"),
            "gauges" => gauges(&e),
            "creation" => creation(&e),
            "periodic" => periodic(&e, false),
            "periodic-async" => periodic(&e, true),
            "spans-simple" => pipeline(&e, true, "simple"),
            "spans-batch" => pipeline(&e, true, "batch"),
            "spans-async" => pipeline(&e, true, "async"),
            "logs-simple" => pipeline(&e, false, "simple"),
            "logs-batch" => pipeline(&e, false, "batch"),
            "logs-async" => pipeline(&e, false, "async"),
            "shared-span" => shared_span(&e),
            "contexts" => contexts(&e),
            "globals" => globals(&e),
            "lifecycles" => lifecycles(&e),
            x => {
                eprintln!("unknown scenario {x}");
                std::process::exit(2);
            }
        }
        if FAILED.load(SeqCst) {
            std::process::exit(1);
        }
    }
    if a[1].contains("async") || a[1] == "periodic" {
        settle();
    }
    println!("SAMPLE seed {} done", e.seed);
    println!("DONE");
}
