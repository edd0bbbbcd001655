//! V01: provider lifecycle. Every signal behind one small interface.
use hsdk::llib::{LEv, RecL};
use hsdk::slib::{PEv, Rec};
use hsdk::*;
use opentelemetry::logs::{Logger as _, LoggerProvider as _};
use opentelemetry::metrics::{Counter, MeterProvider as _};
use opentelemetry::trace::{Span as _, Tracer as _, TracerProvider as _};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::*;
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex, Weak};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ev {
    Item(usize),
    Flush(usize),
    Shut(usize),
}
type Log = Arc<Mutex<Vec<Ev>>>;

/// a reader that counts lifecycle calls and keeps collecting after shutdown
#[derive(Debug, Clone)]
struct VR {
    idx: usize,
    inner: Arc<ManualReader>,
    log: Log,
    fail: Arc<AtomicBool>,
    delay_us: u64,
}
impl VR {
    fn res(&self) -> OTelSdkResult {
        if self.delay_us > 0 {
            std::thread::sleep(Duration::from_micros(self.delay_us));
        }
        if self.fail.load(SeqCst) {
            Err(OTelSdkError::InternalFailure(format!("vh scripted failure {}", self.idx)))
        } else {
            Ok(())
        }
    }
}
impl MetricReader for VR {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.inner.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.inner.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.log.lock().unwrap().push(Ev::Flush(self.idx));
        self.res()
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        self.log.lock().unwrap().push(Ev::Shut(self.idx));
        self.res()
    }
    fn temporality(&self, _k: InstrumentKind) -> Temporality {
        Temporality::Cumulative
    }
}

trait Prov: Send + Sync {
    fn shutdown(&self) -> OTelSdkResult;
    fn flush(&self) -> OTelSdkResult;
    fn dup(&self) -> Box<dyn Prov>;
    fn handle(&self) -> Box<dyn Handle>;
}
/// tracer, logger or instrument
trait Handle: Send + Sync {
    /// emits one item; for spans `live` leaves it open and returns it
    fn emit(&self);
    fn open(&self) -> Option<Box<dyn FnOnce() + Send>>;
    fn keeps_provider(&self) -> bool;
    fn inert(&self) -> Option<bool>;
}
#[derive(Clone)]
struct T(SdkTracerProvider);
struct TH(SdkTracer);
/// spans that were recording after their end
static STILL_RECORDING: AtomicU64 = AtomicU64::new(0);
impl Prov for T {
    fn shutdown(&self) -> OTelSdkResult {
        self.0.shutdown()
    }
    fn flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn dup(&self) -> Box<dyn Prov> {
        Box::new(self.clone())
    }
    fn handle(&self) -> Box<dyn Handle> {
        Box::new(TH(self.0.tracer("t")))
    }
}
impl Handle for TH {
    fn emit(&self) {
        self.0.start("s").end();
    }
    fn open(&self) -> Option<Box<dyn FnOnce() + Send>> {
        let mut s = self.0.start("open");
        Some(Box::new(move || {
            s.set_attribute(opentelemetry::KeyValue::new("x", 1));
            s.end();
            if s.is_recording() {
                STILL_RECORDING.fetch_add(1, SeqCst);
            }
        }))
    }
    fn keeps_provider(&self) -> bool {
        true
    }
    fn inert(&self) -> Option<bool> {
        let s = self.0.start("probe");
        let r = !s.is_recording();
        std::mem::drop(s);
        Some(r)
    }
}
#[derive(Clone)]
struct L(SdkLoggerProvider);
struct LH(SdkLogger);
impl Prov for L {
    fn shutdown(&self) -> OTelSdkResult {
        self.0.shutdown()
    }
    fn flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn dup(&self) -> Box<dyn Prov> {
        Box::new(self.clone())
    }
    fn handle(&self) -> Box<dyn Handle> {
        Box::new(LH(self.0.logger("l")))
    }
}
impl Handle for LH {
    fn emit(&self) {
        self.0.emit(self.0.create_log_record());
    }
    fn open(&self) -> Option<Box<dyn FnOnce() + Send>> {
        None
    }
    fn keeps_provider(&self) -> bool {
        true
    }
    fn inert(&self) -> Option<bool> {
        None
    }
}
#[derive(Clone)]
struct M(SdkMeterProvider);
struct MH(Counter<u64>);
impl Prov for M {
    fn shutdown(&self) -> OTelSdkResult {
        self.0.shutdown()
    }
    fn flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn dup(&self) -> Box<dyn Prov> {
        Box::new(self.clone())
    }
    fn handle(&self) -> Box<dyn Handle> {
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, SeqCst);
        let m = self.0.meter(if n % 2 == 0 { "m" } else { "n" });
        Box::new(MH(m.u64_counter(format!("c{}", n % 4)).build()))
    }
}
impl Handle for MH {
    fn emit(&self) {
        self.0.add(1, &[]);
    }
    fn open(&self) -> Option<Box<dyn FnOnce() + Send>> {
        None
    }
    fn keeps_provider(&self) -> bool {
        false
    }
    fn inert(&self) -> Option<bool> {
        None
    }
}

struct World {
    p: Box<dyn Prov>,
    log: Log,
    readers: Vec<VR>,
    fails: Vec<Arc<AtomicBool>>,
    n: usize,
    sig: char,
    raw: (Option<Arc<Mutex<Vec<PEv>>>>, Option<Arc<Mutex<Vec<LEv>>>>),
}
impl World {
    fn new(r: &mut Rng, delays: bool) -> World {
        let n = r.idx(5);
        let sig = *r.pick(&['t', 'l', 'm']);
        let mut w = World { p: Box::new(T(SdkTracerProvider::builder().build())), log: Default::default(), readers: vec![], fails: vec![], n, sig, raw: (None, None) };
        let d = |r: &mut Rng| if delays && r.bool() { r.below(300) } else { 0 };
        match sig {
            't' => {
                let raw: Arc<Mutex<Vec<PEv>>> = Default::default();
                let mut b = SdkTracerProvider::builder();
                for i in 0..n {
                    let p = Rec::new(i, &raw);
                    p.delay_us.store(d(r), SeqCst);
                    w.fails.push(p.fail.clone());
                    b = b.with_span_processor(p);
                }
                w.raw.0 = Some(raw);
                w.p = Box::new(T(b.build()));
            }
            'l' => {
                let raw: Arc<Mutex<Vec<LEv>>> = Default::default();
                let mut b = SdkLoggerProvider::builder();
                for i in 0..n {
                    let mut p = RecL::new(i, &raw);
                    p.delay_us = d(r);
                    w.fails.push(p.fail.clone());
                    b = b.with_log_processor(p);
                }
                w.raw.1 = Some(raw);
                w.p = Box::new(L(b.build()));
            }
            _ => {
                let mut b = SdkMeterProvider::builder();
                for i in 0..n {
                    let v = VR { idx: i, inner: Arc::new(ManualReader::builder().build()), log: w.log.clone(), fail: Default::default(), delay_us: d(r) };
                    w.fails.push(v.fail.clone());
                    w.readers.push(v.clone());
                    b = b.with_reader(v);
                }
                w.p = Box::new(M(b.build()));
            }
        }
        w
    }
    /// everything the processors / readers were told since the last call
    fn take(&self) -> Vec<Ev> {
        if let Some(l) = &self.raw.0 {
            return std::mem::take(&mut *l.lock().unwrap())
                .into_iter()
                .filter_map(|e| match e {
                    PEv::Start(..) => None,
                    PEv::End(i, _) => Some(Ev::Item(i)),
                    PEv::Flush(i) => Some(Ev::Flush(i)),
                    PEv::Shutdown(i) => Some(Ev::Shut(i)),
                })
                .collect();
        }
        if let Some(l) = &self.raw.1 {
            return std::mem::take(&mut *l.lock().unwrap())
                .into_iter()
                .map(|e| match e {
                    LEv::Emit(i, ..) => Ev::Item(i),
                    LEv::Flush(i) => Ev::Flush(i),
                    LEv::Shutdown(i) => Ev::Shut(i),
                })
                .collect();
        }
        std::mem::take(&mut *self.log.lock().unwrap())
    }
    fn starts(&self) -> usize {
        self.raw.0.as_ref().map_or(0, |l| l.lock().unwrap().iter().filter(|e| matches!(e, PEv::Start(..))).count())
    }
    fn total(&self) -> f64 {
        // what a lingering reader still sees
        let Some(v) = self.readers.first() else { return 0.0 };
        let mut rm = mlib::R::rm();
        if v.inner.collect(&mut rm).is_err() {
            return 0.0;
        }
        let s = mlib::Snap::of(&rm);
        s.mets.iter().flat_map(|m| m.pts.iter()).map(|(_, p)| if let mlib::Pt::Num(x) = p { x.f() } else { 0.0 }).sum()
    }
    fn seq(&self, f: impl Fn(usize) -> Ev) -> Vec<Ev> {
        (0..self.n).map(f).collect()
    }
}

pub fn run(ctx: &Ctx) {
    ctx.require("scripts", 300);
    ctx.require("shutdowns_reported_failure", 100);
    ctx.require("later_shutdowns", 300);
    ctx.require("drops_as_shutdown", 100);
    ctx.require("flushes_reported_failure", 50);
    ctx.require("races", 300);
    ctx.require("contended_races", 100);
    ctx.section("script", 0.4, 3, 100, script);
    ctx.require("manual_readers", 20);
    ctx.section("manual-reader", 0.05, 1, 20, manual);
    ctx.section("race", 0.15, 2, 50, race);
    ctx.section("drop-race", 0.1, 2, 20, drop_race);
    ctx.require("together_shutdowns", 2000);
    ctx.section("together", 0.1, 1, 20, together);
    let _inj = hsdk::perturb::Injector::start(ctx.seed, 100);
    ctx.section("race-perturbed", 0.15, 2, 50, race);
    ctx.section("drop-race-perturbed", 0.1, 2, 20, drop_race);
}

fn is_already(x: &OTelSdkResult) -> bool {
    matches!(x, Err(OTelSdkError::AlreadyShutdown))
}

/// a manual reader collects until its provider is shut down (or gone) and then says so
fn manual(c: &Case, r: &mut Rng) {
    let n = 1 + r.idx(3);
    let rs: Vec<mlib::R> = (0..n).map(|_| mlib::R::new(*r.pick(&[Temporality::Cumulative, Temporality::Delta, Temporality::LowMemory]))).collect();
    let mut b = SdkMeterProvider::builder();
    for x in &rs {
        let mut rm = mlib::R::rm();
        c.check(x.collect(&mut rm).is_err(), "manual-unregistered", || "a reader without a provider collects".into());
        b = b.with_reader(x.clone());
    }
    let mp = b.build();
    let ctr = mp.meter("m").u64_counter("c").build();
    for _ in 0..r.idx(4) {
        ctr.add(1, &[]);
        for x in &rs {
            let mut rm = mlib::R::rm();
            let res = x.collect(&mut rm);
            c.check(res.is_ok() && rm.scope_metrics.len() == 1, "manual-collect", || format!("{res:?}, {} scopes", rm.scope_metrics.len()));
        }
    }
    let by_drop = r.chance(1, 3);
    let keep = mp.clone();
    if by_drop {
        drop(keep);
        drop(mp);
    } else {
        let one = r.bool();
        if one {
            // a reader shut down by itself leaves the others alone
            let k = r.idx(n);
            let res = rs[k].shutdown_with_timeout(Duration::from_secs(5));
            ctr.add(1, &[]);
            for (i, x) in rs.iter().enumerate() {
                let mut rm = mlib::R::rm();
                let got = x.collect(&mut rm);
                c.check(got.is_err() == (i == k), "manual-own-shutdown", || format!("reader {k} of {n} was shut down ({res:?}), reader {i} collects {got:?}"));
            }
        }
        let res = mp.shutdown();
        c.check(res.is_ok(), "manual-shutdown", || format!("{res:?}"));
        drop(keep);
    }
    ctr.add(1, &[]);
    for (i, x) in rs.iter().enumerate() {
        let mut rm = mlib::R::rm();
        let got = x.collect(&mut rm);
        c.check(got.is_err() && rm.scope_metrics.is_empty(), "manual-after-shutdown", || format!("reader {i} collects {got:?} ({} scopes) after its provider was shut down (by drop: {by_drop})", rm.scope_metrics.len()));
    }
    c.count("manual_readers", n as u64);
    c.seen(h64(&(n, by_drop)), true);
}

fn script(c: &Case, r: &mut Rng) {
    let w = World::new(r, false);
    let World { p, fails, n, sig, .. } = &w;
    let mut provs: Vec<Option<Box<dyn Prov>>> = vec![Some(p.dup())];
    let mut handles: Vec<Option<Box<dyn Handle>>> = vec![];
    let mut late: Vec<Box<dyn Handle>> = vec![];
    let mut open: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let mut trace = format!("signal {sig}, {n} members");
    let mut down = false;
    for f in fails {
        f.store(r.chance(1, 4), SeqCst);
    }
    let failing = |w: &World| w.fails.iter().any(|f| f.load(SeqCst));
    for _ in 0..r.idx(14) {
        let k = r.idx(provs.len());
        let Some(pv) = &provs[k] else { continue };
        match r.below(9) {
            0 => {
                trace += " dup";
                let d = pv.dup();
                provs.push(Some(d));
            }
            1 if provs.iter().filter(|x| x.is_some()).count() > 1 => {
                trace += " dropclone";
                provs[k] = None;
            }
            2 => {
                let h = pv.handle();
                trace += " handle";
                if down {
                    late.push(h);
                } else {
                    handles.push(Some(h));
                }
            }
            3 | 4 => {
                let Some(Some(h)) = handles.get(r.idx(handles.len().max(1))) else { continue };
                trace += " emit";
                w.take();
                h.emit();
                let got = w.take();
                match (down, sig) {
                    (_, 'm') => {}
                    (true, 'l') => {} // custom log processors keep being called, see DESIGN
                    (true, _) => {
                        if !c.check(got.is_empty(), "emitted-after-shutdown", || format!("{got:?}; {trace}")) {
                            return;
                        }
                    }
                    (false, _) => {
                        if !c.check(got == w.seq(Ev::Item), "emit-reach", || format!("{got:?}; {trace}")) {
                            return;
                        }
                    }
                }
            }
            5 if !down => {
                let Some(Some(h)) = handles.get(r.idx(handles.len().max(1))) else { continue };
                if let Some(o) = h.open() {
                    trace += " open";
                    open.push(o);
                }
            }
            6 => {
                w.take();
                let res = pv.flush();
                let got = w.take();
                trace += &format!(" flush->{}", res.is_ok());
                if down && *sig == 'm' {
                    if !c.check(is_already(&res) && got.is_empty(), "flush-after-shutdown", || format!("{res:?} {got:?}; {trace}")) {
                        return;
                    }
                    continue;
                }
                if down {
                    continue;
                }
                if failing(&w) {
                    c.count("flushes_reported_failure", 1);
                }
                if !c.check(got == w.seq(Ev::Flush), "flush-reach", || format!("{got:?}; {trace}")) || !c.check(res.is_ok() != failing(&w), "flush-result", || format!("{res:?} though failing={}; {trace}", failing(&w))) {
                    return;
                }
            }
            7 => {
                w.take();
                let res = pv.shutdown();
                let got = w.take();
                trace += &format!(" shutdown->{}", res.is_ok());
                if down {
                    c.count("later_shutdowns", 1);
                    if !c.check(is_already(&res), "later-shutdown-result", || format!("{res:?}; {trace}")) || !c.check(got.is_empty(), "shutdown-again", || format!("{got:?}; {trace}")) {
                        return;
                    }
                } else {
                    if failing(&w) {
                        c.count("shutdowns_reported_failure", 1);
                    }
                    if !c.check(got == w.seq(Ev::Shut), "shutdown-reach", || format!("{got:?}; {trace}"))
                        || !c.check(res.is_ok() != failing(&w) && !is_already(&res), "shutdown-result", || format!("{res:?} though failing={}; {trace}", failing(&w)))
                    {
                        return;
                    }
                    down = true;
                }
            }
            _ => {
                let f = w.fails.get(r.idx(w.fails.len().max(1)));
                if let Some(f) = f {
                    f.store(r.bool(), SeqCst);
                }
            }
        }
    }
    if down {
        // everything is inert now
        for h in handles.iter().flatten().chain(late.iter()) {
            if let Some(i) = h.inert() {
                if !c.check(i, "recording-after-shutdown", || trace.clone()) {
                    return;
                }
            }
        }
        let t = w.total();
        w.take();
        for h in &late {
            h.emit();
        }
        let got = w.take();
        if !c.check(got.is_empty() && w.total() == t, "late-handle-delivers", || format!("{got:?}, reader total {t} -> {}; {trace}", w.total())) {
            return;
        }
        for o in open.drain(..) {
            o();
        }
        if !c.check(w.starts() == 0, "started-after-shutdown", || trace.clone()) {
            return;
        }
        let got = w.take();
        if !c.check(got.is_empty(), "ended-after-shutdown", || format!("{got:?}; {trace}")) {
            return;
        }
    } else {
        for o in open.drain(..) {
            o();
        }
    }
    if !c.check(STILL_RECORDING.swap(0, SeqCst) == 0, "recording-after-end", || format!("a span ended {} shutdown says it is recording; {trace}", if down { "after" } else { "before" })) {
        return;
    }
    // dropping every handle shuts down (once)
    let World { p, n, .. } = w;
    let w = World { p: Box::new(T(SdkTracerProvider::builder().build())), log: w.log, readers: w.readers, fails: w.fails, n, sig: w.sig, raw: w.raw };
    w.take();
    drop(late);
    provs.push(Some(p));
    provs.retain(|x| x.is_some());
    let keeps = handles.iter().flatten().any(|h| h.keeps_provider());
    while let Some(x) = provs.pop() {
        if provs.is_empty() && r.bool() {
            // in another thread
            std::thread::scope(|s| {
                s.spawn(|| drop(x));
            });
        } else {
            drop(x);
        }
        let got = w.take();
        let last = provs.is_empty() && !keeps;
        let want = if last && !down { w.seq(Ev::Shut) } else { vec![] };
        if !c.check(got == want, "drop-shutdown", || format!("dropping a provider handle ({} left, tracers kept {keeps}) called {got:?}, expected {want:?}; {trace}", provs.len())) {
            return;
        }
    }
    if keeps {
        while let Some(h) = handles.pop() {
            drop(h);
            let got = w.take();
            let last = handles.iter().flatten().next().is_none();
            let want = if last && !down { w.seq(Ev::Shut) } else { vec![] };
            if !c.check(got == want, "drop-shutdown", || format!("dropping a handle ({} left) called {got:?}, expected {want:?}; {trace}", handles.len())) {
                return;
            }
        }
    }
    if !down {
        c.count("drops_as_shutdown", 1);
    }
    drop(handles);
    let got = w.take();
    c.check(got.is_empty(), "drop-shutdown-again", || format!("{got:?}; {trace}"));
    c.count("scripts", 1);
    c.seen(h64(&trace), n > 0);
    c.sample(|| trace.clone());
}

/// clones on several threads race to shut down, flush, emit and drop
fn race(c: &Case, r: &mut Rng) {
    let w = World::new(r, true);
    for f in &w.fails {
        f.store(r.chance(1, 5), SeqCst);
    }
    let failing = w.fails.iter().any(|f| f.load(SeqCst));
    let nt = 2 + r.idx(5);
    let bar = Barrier::new(nt);
    let results: Vec<Vec<(char, OTelSdkResult)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let p = w.p.dup();
                let mut r = Rng::new(r.u64(), t as u64);
                let bar = &bar;
                s.spawn(move || {
                    let mut out = vec![];
                    let h = p.handle();
                    bar.wait();
                    for _ in 0..1 + r.idx(4) {
                        match r.below(6) {
                            0 => out.push(('f', watched("flush", || p.flush()))),
                            1 => h.emit(),
                            2 => {
                                let h = p.handle();
                                h.emit();
                            }
                            _ => out.push(('s', watched("shutdown", || p.shutdown()))),
                        }
                    }
                    if r.bool() {
                        drop(h);
                        drop(p);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let flat: Vec<&(char, OTelSdkResult)> = results.iter().flatten().collect();
    let nshut = flat.iter().filter(|x| x.0 == 's').count();
    let wins: Vec<&OTelSdkResult> = flat.iter().filter(|x| x.0 == 's' && !is_already(&x.1)).map(|x| &x.1).collect();
    let ev = w.take();
    let shuts: Vec<Ev> = ev.iter().filter(|e| matches!(e, Ev::Shut(_))).copied().collect();
    let desc = format!("signal {}, {} members, {nt} threads, results {results:?}, calls {ev:?}", w.sig, w.n);
    c.count("races", 1);
    if nshut > 1 {
        c.count("contended_races", 1);
    }
    if nshut == 0 {
        c.check(shuts.is_empty(), "race-shutdown-uncalled", || desc.clone());
    } else {
        c.check(wins.len() == 1, "race-winners", || format!("{} shutdown calls did not return already-shutdown; {desc}", wins.len()));
        c.check(shuts == w.seq(Ev::Shut), "race-shutdown-reach", || desc.clone());
        if let [x] = wins[..] {
            c.check(x.is_ok() != failing, "race-result", || format!("winner got {x:?}, failing={failing}; {desc}"));
        }
    }
    // dropping the rest adds no shutdown, unless none happened
    let World { p, log, readers, fails, n, sig, raw } = w;
    drop(p);
    let w = World { p: Box::new(T(SdkTracerProvider::builder().build())), log, readers, fails, n, sig, raw };
    let got = w.take();
    let want = if nshut == 0 { w.seq(Ev::Shut) } else { vec![] };
    c.check(got == want, "race-drop", || format!("final drop called {got:?}; {desc}"));
    c.seen(h64(&format!("{ev:?}{:?}", flat.iter().map(|x| (x.0, x.1.is_ok())).collect::<Vec<_>>())), nshut > 0 && n > 0);
}

/// several threads shut a provider down within nanoseconds of each other: one of them does it
fn together(c: &Case, r: &mut Rng) {
    let nt = 2 + r.idx(3);
    let worlds: Vec<World> = (0..40).map(|_| World::new(r, true)).collect();
    let here = AtomicU64::new(0);
    let wins: Vec<AtomicU64> = worlds.iter().map(|_| AtomicU64::new(0)).collect();
    std::thread::scope(|s| {
        for t in 0..nt {
            let (worlds, here, wins) = (&worlds, &here, &wins);
            let mut r = Rng::new(r.u64(), t as u64);
            s.spawn(move || {
                for (k, w) in worlds.iter().enumerate() {
                    let spin = r.below(60);
                    here.fetch_add(1, SeqCst);
                    let mut n = 0u64;
                    while here.load(SeqCst) < (nt * (k + 1)) as u64 {
                        n += 1;
                        if n % 4000 == 0 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    for _ in 0..spin {
                        std::hint::spin_loop();
                    }
                    if !is_already(&watched("shutdown", || w.p.shutdown())) {
                        wins[k].fetch_add(1, SeqCst);
                    }
                }
            });
        }
    });
    for (w, n) in worlds.into_iter().zip(&wins) {
        let (ev, n) = (w.take(), n.load(SeqCst));
        let shuts: Vec<Ev> = ev.iter().filter(|e| matches!(e, Ev::Shut(_))).copied().collect();
        let desc = || format!("signal {}, {} members, {nt} threads: {n} calls did not return already-shutdown, calls {ev:?}", w.sig, w.n);
        c.check(n == 1, "together-winners", desc);
        c.check(shuts == w.seq(Ev::Shut), "together-reach", desc);
        c.count("together_shutdowns", 1);
    }
    c.seen(h64(&(c.idx, nt)), true);
}

fn drop_race(c: &Case, r: &mut Rng) {
    let w = World::new(r, true);
    let nt = 2 + r.idx(5);
    let bar = Barrier::new(nt);
    let World { p, log, readers, fails, n, sig, raw } = w;
    let dups: Vec<Box<dyn Prov>> = (1..nt).map(|_| p.dup()).chain(std::iter::empty()).collect();
    let mut all = dups;
    all.push(p);
    std::thread::scope(|s| {
        for p in all {
            let bar = &bar;
            s.spawn(move || {
                bar.wait();
                watched("drop", || drop(p));
            });
        }
    });
    let w = World { p: Box::new(T(SdkTracerProvider::builder().build())), log, readers, fails, n, sig, raw };
    let got = w.take();
    c.check(got == w.seq(Ev::Shut), "drop-race", || format!("signal {sig}, {n} members: {got:?}"));
    c.count("races", 1);
    c.seen(h64(&format!("{sig}{n}{nt}")), n > 0);
}
