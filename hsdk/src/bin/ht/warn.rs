//! What the SDK says about itself (its internal log, seen by a `tracing` subscriber): losses and
//! failures are reported, with the true numbers, and nothing is reported that did not happen.
use hsdk::mlib::R;
use hsdk::plib::*;
use hsdk::*;
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, Weak};
use std::time::Duration;
use tracing::field::{Field, Visit};
use tracing::{span, Event, Level, Metadata, Subscriber};

#[derive(Clone, Debug)]
struct Ev {
    level: Level,
    name: &'static str,
    fields: Vec<(&'static str, String)>,
}
impl Ev {
    fn loud(&self) -> bool {
        self.level <= Level::WARN
    }
    fn has(&self, text: &str) -> bool {
        self.fields.iter().any(|f| f.1.contains(text))
    }
    /// the number of items this event says were dropped
    fn dropped(&self) -> Option<u64> {
        self.fields.iter().filter(|f| f.0.contains("dropped")).find_map(|f| f.1.parse().ok())
    }
}
static EVENTS: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
struct Sub;
struct V<'a>(&'a mut Vec<(&'static str, String)>);
impl Visit for V<'_> {
    fn record_str(&mut self, f: &Field, v: &str) {
        self.0.push((f.name(), v.into()));
    }
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        self.0.push((f.name(), format!("{v:?}")));
    }
}
impl Subscriber for Sub {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        m.target().starts_with("opentelemetry")
    }
    fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut fields = vec![];
        e.record(&mut V(&mut fields));
        let mut g = EVENTS.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 1_000_000 {
            g.push(Ev { level: *e.metadata().level(), name: e.metadata().name(), fields });
        }
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}
fn take() -> Vec<Ev> {
    std::mem::take(&mut *EVENTS.lock().unwrap_or_else(|e| e.into_inner()))
}
fn brief(l: &[Ev]) -> String {
    let t: Vec<String> = l.iter().filter(|e| e.loud()).take(6).map(|e| format!("{} {} {:?}", e.level, e.name, e.fields)).collect();
    t.join("; ")
}
const KINDS: [PK; 6] = [PK::Span, PK::Log, PK::AsyncSpan, PK::AsyncLog, PK::CtSpan, PK::CtLog];

/// emitted = exported + the number reported dropped, and the first drop is announced once
fn drops(c: &Case, r: &mut Rng) {
    take();
    let k = *r.pick(&KINDS);
    let q = 1 + r.size_near(8, 64) as usize;
    let cfg = Cfg { q, b: 1 + r.idx(q), delay: Duration::from_millis(if r.bool() { 60_000 } else { 2 + r.below(20) }), timeout: Duration::from_secs(120), conc: 1 };
    let provider = r.bool();
    let (p, log) = make(k, cfg, provider);
    let nt = 1 + r.idx(4);
    let roomy = r.chance(1, 4);
    let per = if roomy { r.idx(q / nt + 1) } else { 1 + r.idx(3 * q) };
    let gated = !roomy && r.chance(2, 3);
    if gated {
        log.close_gate();
    }
    let waves = 1 + r.idx(3);
    std::thread::scope(|s| {
        for t in 0..nt {
            let p = &p;
            s.spawn(move || {
                for w in 0..waves {
                    for i in 0..per {
                        p.emit((t as u64) << 32 | (w * per + i) as u64);
                    }
                    if w + 1 < waves {
                        std::thread::sleep(Duration::from_micros(300));
                    }
                }
            });
        }
    });
    let before = take();
    log.open_gate();
    // an asynchronous worker takes the end from the same queue: it needs room there
    let by_drop = provider && !k.is_async() && r.chance(1, 4);
    for _ in 0..if k.is_async() { 200 } else { 0 } {
        if p.flush().is_ok() {
            break;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    let res = if by_drop {
        drop(p);
        Ok(())
    } else {
        p.shutdown()
    };
    let emitted = (nt * per * waves) as u64;
    if res.is_err() {
        return c.ctx.inconclusive("shutdown did not succeed, losses cannot be counted");
    }
    let all: Vec<Ev> = before.into_iter().chain(take()).collect();
    let dropped = emitted - log.order.lock().unwrap().len() as u64;
    let begun = all.iter().filter(|e| e.loud() && e.name.contains("DroppingStarted")).count();
    let said: Vec<u64> = all.iter().filter(|e| e.loud()).filter_map(|e| e.dropped()).collect();
    let what = || format!("{k:?} queue {q}, {emitted} emitted by {nt} threads, {dropped} dropped{}: reported {said:?}, start of dropping reported {begun} times; {}", if by_drop { " (ended by drop)" } else { "" }, brief(&all));
    if dropped > 0 {
        c.check(begun == 1, "start-of-loss", what);
        c.check(said == [dropped], "loss-count", what);
        c.count("dropped_items", dropped);
        c.count("lossy_lives", 1);
    } else {
        c.check(begun == 0 && said.is_empty(), "imagined-loss", what);
        c.check(!all.iter().any(|e| e.loud()), "needless-warning", what);
        c.count("lossless_lives", 1);
    }
    c.seen(h64(&(k as u32, q, cfg.b, emitted, dropped, begun)), emitted > 0);
}

/// every failed export is known to somebody: logged with the exporter's error, or returned to a caller
fn failures(c: &Case, r: &mut Rng) {
    take();
    let k = match r.below(7) {
        6 => PK::SimpleSpan,
        i => KINDS[i as usize],
    };
    let b = 1 + r.idx(6);
    let cfg = Cfg { q: 2048, b, delay: Duration::from_millis([60_000, 3, 10][r.idx(3)]), timeout: Duration::from_secs(120), conc: 1 };
    let (p, log) = make(k, cfg, r.bool());
    let bad = [0, 30, 100][r.idx(3)];
    log.script.lock().unwrap().extend((0..4000).map(|_| r.chance(bad, 100)));
    let mut returned = 0;
    let mut n = 0u64;
    for _ in 0..1 + r.idx(6) {
        for _ in 0..r.idx(2 * b + 2) {
            p.emit(n);
            n += 1;
        }
        match r.below(4) {
            0 => returned += p.flush().is_err() as u64,
            1 => std::thread::sleep(Duration::from_millis(r.below(15))),
            _ => {}
        }
    }
    returned += p.shutdown().is_err() as u64;
    let failed = log.failed.load(SeqCst);
    let all = take();
    let logged = all.iter().filter(|e| e.has("vh scripted failure") && (e.loud() || k == PK::SimpleSpan)).count() as u64;
    let what = || format!("{k:?}: {failed} exports failed, {logged} reported in the log, {returned} calls returned an error; {}", brief(&all));
    // an asynchronous flush or shutdown hands the error of its own export to its caller
    let told = if k.is_async() { logged + returned } else { logged };
    c.check(told >= failed, "silent-failure", what);
    c.check(logged <= failed, "imagined-failure", what);
    if failed == 0 {
        c.check(!all.iter().any(|e| e.loud()), "needless-warning", what);
    }
    c.count("failed_exports", failed);
    c.count("failures_logged", logged);
    c.seen(h64(&(k as u32, n, failed, logged, returned)), n > 0);
}

struct MExp {
    n: AtomicU64,
    bad: Vec<bool>,
}
struct MExpH(Arc<MExp>);
impl PushMetricExporter for MExpH {
    async fn export(&self, _: &mut ResourceMetrics) -> OTelSdkResult {
        let i = self.0.n.fetch_add(1, SeqCst) as usize;
        match self.0.bad[i % self.0.bad.len()] {
            true => Err(OTelSdkError::InternalFailure(format!("vh token {i}."))),
            false => Ok(()),
        }
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Cumulative
    }
}
/// a periodic reader's failed exports are in the log
fn periodic(c: &Case, r: &mut Rng) {
    take();
    let e = Arc::new(MExp { n: AtomicU64::new(0), bad: (0..4).map(|_| r.bool()).collect() });
    let every = Duration::from_millis(2 + r.below(4));
    let b = SdkMeterProvider::builder();
    let asynchronous = r.bool();
    let mp = if asynchronous {
        let _g = rt().enter();
        b.with_reader(periodic_reader_with_async_runtime::PeriodicReader::builder(MExpH(e.clone()), opentelemetry_sdk::runtime::Tokio).with_interval(every).build()).build()
    } else {
        b.with_reader(PeriodicReader::builder(MExpH(e.clone())).with_interval(every).build()).build()
    };
    mp.meter("m").u64_counter("x").build().add(1, &[]);
    eventually(2.0, || e.n.load(SeqCst) >= 6);
    let mut returned = 0;
    if r.bool() {
        returned += mp.force_flush().is_err() as u64;
    }
    returned += mp.shutdown().is_err() as u64;
    let all = take();
    let n = e.n.load(SeqCst) as usize;
    let mut unheard = 0;
    for i in 0..n {
        let failed = e.bad[i % 4];
        let heard = all.iter().any(|x| x.has(&format!("vh token {i}.")));
        if failed && !heard {
            unheard += 1;
        }
        c.check(failed || !heard, "imagined-failure", || format!("export {i} succeeded and is reported to have failed"));
        c.count("periodic_failures", failed as u64);
    }
    c.check(unheard <= returned, "silent-failure", || format!("periodic reader (asynchronous: {asynchronous}): {n} exports by {:?}, {unheard} failures neither logged nor returned ({returned} calls returned an error)", e.bad));
    c.seen(h64(&(asynchronous, n, &e.bad)), n > 0);
}

/// an instrument which will record nothing is announced, another is not
fn instruments(c: &Case, r: &mut Rng) {
    take();
    let rd = R::new(Temporality::Cumulative);
    let mp = SdkMeterProvider::builder().with_reader(rd).build();
    let m = mp.meter("m");
    let mut sig = vec![];
    for i in 0..12 {
        let base = format!("n{}_{}", c.idx % 100_000, i);
        let (name, mut ok) = match r.below(8) {
            0 => (String::new(), false),
            1 => (format!("{}{base}", ["9", "_", " ", "é", "-", "/"][r.idx(6)]), false),
            2 => (format!("{base}{}", ["é", " ", "\n", "#", ":", "日"][r.idx(6)]), false),
            3 => {
                let l = 253 + r.idx(5);
                (format!("{base}{}", "x".repeat(l - base.len())), l <= 255)
            }
            4 => (format!("{base}./-_Z9"), true),
            _ => (base.clone(), true),
        };
        let unit = match r.below(6) {
            0 => {
                let l = 62 + r.idx(4);
                ok &= l <= 63;
                Some("u".repeat(l))
            }
            1 => {
                ok = false;
                Some("é".into())
            }
            2 => Some("By/s".into()),
            3 => Some(String::new()),
            _ => None,
        };
        let kind = r.idx(16);
        macro_rules! mk {
            ($f:ident) => {{
                let mut b = m.$f(name.clone());
                if let Some(u) = unit.clone() {
                    b = b.with_unit(u);
                }
                b
            }};
        }
        macro_rules! hist {
            ($f:ident) => {{
                let mut b = mk!($f);
                match r.below(5) {
                    0 => {
                        b = b.with_boundaries([vec![1.0, 1.0], vec![2.0, 1.0], vec![0.0, f64::NAN], vec![f64::INFINITY], vec![f64::NEG_INFINITY, 0.0]][r.idx(5)].clone());
                        ok = false;
                    }
                    1 => b = b.with_boundaries(vec![-1.0, 0.0, 5.5]),
                    _ => {}
                }
                drop(b.build());
            }};
        }
        match kind {
            0 => drop(mk!(u64_counter).build()),
            1 => drop(mk!(f64_counter).build()),
            2 => drop(mk!(i64_up_down_counter).build()),
            3 => drop(mk!(f64_up_down_counter).build()),
            4 => drop(mk!(u64_gauge).build()),
            5 => drop(mk!(i64_gauge).build()),
            6 => drop(mk!(f64_gauge).build()),
            7 => hist!(u64_histogram),
            8 => hist!(f64_histogram),
            9 => drop(mk!(u64_observable_counter).with_callback(|o| o.observe(1, &[])).build()),
            10 => drop(mk!(f64_observable_counter).with_callback(|o| o.observe(1.0, &[])).build()),
            11 => drop(mk!(i64_observable_up_down_counter).with_callback(|o| o.observe(1, &[])).build()),
            12 => drop(mk!(f64_observable_up_down_counter).with_callback(|o| o.observe(1.0, &[])).build()),
            13 => drop(mk!(u64_observable_gauge).with_callback(|o| o.observe(1, &[])).build()),
            14 => drop(mk!(i64_observable_gauge).build()),
            _ => drop(mk!(f64_observable_gauge).with_callback(|o| o.observe(1.0, &[])).build()),
        }
        let all: Vec<Ev> = take().into_iter().filter(|e| e.loud()).collect();
        let what = || format!("kind {kind}, name {name:?}, unit {unit:?}, acceptable: {ok}: {} warnings: {}", all.len(), brief(&all));
        if ok {
            c.check(all.is_empty(), "needless-warning", what);
            c.count("good_instruments", 1);
        } else {
            c.check(all.iter().any(|e| e.fields.iter().any(|f| f.1 == name)), "silent-instrument", what);
            c.count("bad_instruments", 1);
        }
        sig.push((kind, ok, name.len(), unit.map(|u| u.len())));
    }
    c.seen(h64(&sig), true);
}

#[derive(Clone, Debug)]
struct BadReader(R, bool, u64);
impl MetricReader for BadReader {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        match self.1 {
            true => Err(OTelSdkError::InternalFailure(format!("vh token {}.", self.2))),
            false => Ok(()),
        }
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}
/// what arrives after the end, and an end that fails with nobody there to be told
fn ends(c: &Case, r: &mut Rng) {
    take();
    if r.bool() {
        let k = [PK::Span, PK::Log, PK::SimpleLog][r.idx(3)];
        let (p, _log) = make(k, Cfg { q: 64, b: 8, delay: Duration::from_secs(60), timeout: Duration::from_secs(60), conc: 1 }, false);
        for i in 0..r.idx(20) as u64 {
            p.emit(i);
        }
        let _ = p.shutdown();
        let early = take();
        c.check(!early.iter().any(|e| e.loud()), "needless-warning", || format!("{k:?}, ordinary life: {}", brief(&early)));
        p.emit(1 << 32);
        let all = take();
        c.check(all.iter().any(|e| e.loud()), "silent-late-item", || format!("{k:?}: an item given after shutdown was ignored without a word"));
        c.count("late_items", 1);
        c.seen(h64(&(k as u32, 1)), true);
    } else {
        let fails: Vec<bool> = (0..1 + r.idx(3)).map(|_| r.bool()).collect();
        let mut b = SdkMeterProvider::builder();
        for (i, f) in fails.iter().enumerate() {
            b = b.with_reader(BadReader(R::new(Temporality::Cumulative), *f, i as u64));
        }
        let mp = b.build();
        let m = mp.meter("m");
        let _x = r.bool().then(|| m.u64_counter("x").build());
        let ended = r.bool();
        if ended {
            let _ = mp.shutdown();
            take();
        }
        drop((mp, m));
        drop(_x);
        let all: Vec<Ev> = take().into_iter().filter(|e| e.loud()).collect();
        if ended || !fails.contains(&true) {
            c.check(all.is_empty(), "needless-warning", || format!("provider dropped, readers failing {fails:?}, shut down before: {ended}: {}", brief(&all)));
        } else {
            c.check(all.iter().any(|e| e.has("vh token")), "silent-drop", || format!("provider dropped, readers failing {fails:?}: nothing says so; {}", brief(&all)));
            c.count("failed_drops", 1);
        }
        c.seen(h64(&(&fails, ended)), true);
    }
}

pub fn run(ctx: &Ctx) {
    let _ = tracing::subscriber::set_global_default(Sub);
    for (n, min) in [("dropped_items", 1000), ("lossy_lives", 50), ("lossless_lives", 20), ("failed_exports", 100), ("failures_logged", 50), ("periodic_failures", 20), ("bad_instruments", 200), ("good_instruments", 200), ("late_items", 10), ("failed_drops", 10)] {
        ctx.require(n, min);
    }
    ctx.section("drops", 0.4, 1, 150, drops);
    ctx.section("failures", 0.25, 1, 60, failures);
    ctx.section("periodic", 0.15, 1, 12, periodic);
    ctx.section("instruments", 0.1, 1, 60, instruments);
    ctx.section("ends", 0.1, 1, 60, ends);
}
