//! M09: periodic reader. A recording exporter logs every export (interval, content,
//! result); online and offline checks decide delivery before flush/shutdown returns,
//! conservation, single flight, error reporting and the lifecycle.
use hsdk::mlib::*;
use hsdk::perturb::Injector;
use hsdk::*;
use opentelemetry::metrics::MeterProvider;
use opentelemetry::KeyValue;
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::*;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

#[derive(Debug, Default)]
struct Log {
    inflight: AtomicI64,
    overlaps: AtomicU64,
    exports: AtomicU64,
    failed: AtomicU64,
    shutdowns: AtomicU64,
    after_shutdown: AtomicU64,
    closed: AtomicBool,
    fail: AtomicBool,
    fail_shutdown: AtomicBool,
    /// percent of exports failing at random
    flaky: AtomicU64,
    delay_us: AtomicU64,
    /// per instrument: exported total (delta) or last value (cumulative)
    totals: Mutex<Vec<u64>>,
    resource: Mutex<String>,
}
#[derive(Debug)]
struct Exp {
    log: Arc<Log>,
    t: Temporality,
}
impl PushMetricExporter for Exp {
    async fn export(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        let l = &self.log;
        if l.inflight.fetch_add(1, SeqCst) != 0 {
            l.overlaps.fetch_add(1, SeqCst);
        }
        if l.closed.load(SeqCst) {
            l.after_shutdown.fetch_add(1, SeqCst);
        }
        let snap = Snap::of(rm);
        let n = l.exports.fetch_add(1, SeqCst);
        let d = l.delay_us.load(SeqCst);
        if d > 0 {
            std::thread::sleep(Duration::from_micros(d));
        }
        {
            let mut t = l.totals.lock().unwrap();
            for m in &snap.mets {
                let i: usize = m.name[1..].parse().unwrap();
                let mut sum = 0u64;
                for p in m.pts.values() {
                    sum += match p {
                        Pt::Num(Num::U(x)) => *x,
                        Pt::Hist { count, .. } => *count,
                        _ => 0,
                    };
                }
                if m.delta == Some(true) {
                    t[i] += sum;
                } else {
                    t[i] = sum;
                }
            }
            *l.resource.lock().unwrap() = format!("{:?}", snap.resource);
        }
        l.inflight.fetch_sub(1, SeqCst);
        if l.fail.load(SeqCst) || h64(&n) % 100 < l.flaky.load(SeqCst) {
            l.failed.fetch_add(1, SeqCst);
            return Err(OTelSdkError::InternalFailure("vh scripted failure".into()));
        }
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        self.log.shutdowns.fetch_add(1, SeqCst);
        self.log.closed.store(true, SeqCst);
        if self.log.fail_shutdown.load(SeqCst) {
            return Err(OTelSdkError::InternalFailure("vh scripted failure".into()));
        }
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        self.t
    }
}
fn exporter(ni: usize, t: Temporality) -> (Exp, Arc<Log>) {
    let log = Arc::new(Log::default());
    *log.totals.lock().unwrap() = vec![0; ni];
    (Exp { log: log.clone(), t }, log)
}
fn is_already(r: &OTelSdkResult) -> bool {
    matches!(r, Err(OTelSdkError::AlreadyShutdown))
}

pub fn run(ctx: &Ctx) {
    ctx.require("flushes_ok", 200);
    ctx.require("exports", 500);
    ctx.require("scripted_failures", 30);
    ctx.require("drop_shutdowns", 20);
    ctx.require("concurrent_shutdowns", 20);
    ctx.require("interval_rounds", 40);
    ctx.section("scripts", 0.3, 6, 60, |c, r| script(c, r));
    ctx.section("interval", 0.2, 4, 12, |c, r| interval(c, r));
    {
        let _inj = Injector::start(ctx.seed, 150);
        ctx.section("perturbed-threads", 0.25, 3, 20, |c, r| threads(c, r));
    }
    ctx.section("threads", 0.25, 3, 20, |c, r| threads(c, r));
}

struct World {
    mp: Option<SdkMeterProvider>,
    logs: Vec<(Arc<Log>, Temporality)>,
    ins: Vec<Inst>,
}
fn world(r: &mut Rng, intervals: &[u64]) -> (World, String) {
    let ni = 1 + r.idx(3);
    let nr = 1 + r.idx(2);
    let mut logs = vec![];
    let mut b = SdkMeterProvider::builder();
    let mut d = String::new();
    for _ in 0..nr {
        let t = temporality_of(r.u64());
        let (e, l) = exporter(ni, t);
        let iv = *r.pick(intervals);
        d += &format!("[reader {t:?} every {iv} us]");
        b = b.with_reader(PeriodicReader::builder(e).with_interval(Duration::from_micros(iv)).build());
        logs.push((l, t));
    }
    let mp = b.build();
    let m = mp.meter("m");
    let ins = (0..ni).map(|i| if r.chance(1, 4) { IK::HU } else { IK::CU }.build(&m, format!("i{i}"), "", "", None, None)).collect();
    (World { mp: Some(mp), logs, ins }, d)
}

/// one thread, long interval: every outcome is determined
fn script(c: &Case, r: &mut Rng) {
    let (mut w, mut trace) = world(r, &[3_600_000_000]);
    let mp = w.mp.take().unwrap();
    let clone = mp.clone();
    let ni = w.ins.len();
    let mut rec = vec![0u64; ni]; // recorded since start
    let mut fresh = vec![vec![false; ni]; w.logs.len()]; // recorded since that reader's last collection
    let mut any = vec![false; ni];
    let mut down = false;
    let mut clean = true;
    let steps = 3 + r.idx(14);
    let expect_export = |fresh: &[bool], any: &[bool], t: Temporality| match t {
        Temporality::Cumulative => any.iter().any(|x| *x),
        _ => fresh.iter().any(|x| *x),
    };
    for step in 0..steps {
        match if step + 1 == steps { 9 } else { r.below(10) } {
            0..=4 => {
                let i = r.idx(ni);
                let n = 1 + r.below(5);
                for _ in 0..n {
                    let one = matches!(w.ins[i], Inst::HU(_));
                    let v = if one { 1 } else { 1 + r.below(3) };
                    w.ins[i].record(Num::U(v), &[KeyValue::new("k", r.below(3) as i64)]);
                    if !down {
                        rec[i] += v;
                    }
                }
                trace += &format!(" rec(i{i} x{n})");
                if !down {
                    fresh.iter_mut().for_each(|f| f[i] = true);
                    any[i] = true;
                }
            }
            5 => {
                let k = r.idx(w.logs.len());
                let f = r.bool();
                w.logs[k].0.fail.store(f, SeqCst);
                trace += &format!(" fail[{k}]={f}");
            }
            6 | 7 => {
                let before: Vec<u64> = w.logs.iter().map(|l| l.0.exports.load(SeqCst)).collect();
                let who = if r.bool() { &mp } else { &clone };
                let res = watched("force_flush", || who.force_flush());
                trace += &format!(" flush={res:?}");
                if down {
                    c.check(is_already(&res), "flush-after-shutdown", || format!("flush after shutdown returned {res:?}; {trace}"));
                } else {
                    let mut want_err = false;
                    for (k, (l, t)) in w.logs.iter().enumerate() {
                        let want = expect_export(&fresh[k], &any, *t);
                        want_err |= want && l.fail.load(SeqCst);
                        fresh[k].iter_mut().for_each(|x| *x = false);
                        let got = l.exports.load(SeqCst) - before[k];
                        c.check(got == want as u64, "flush-exports", || format!("flush ran {got} exports on reader {k}, expected {}; {trace}", want as u64));
                    }
                    c.check(res.is_err() == want_err, "flush-result", || format!("flush returned {res:?}, a failing export {}; {trace}", if want_err { "happened" } else { "did not happen" }));
                    if want_err {
                        c.count("scripted_failures", 1);
                    } else {
                        c.count("flushes_ok", 1);
                    }
                }
                totals(c, &w, &rec, &trace, "flush");
            }
            8 => {
                let k = r.idx(w.logs.len());
                w.logs[k].0.fail_shutdown.store(true, SeqCst);
                trace += &format!(" failing-shutdown[{k}]");
            }
            _ => {
                let by_drop = !down && step + 1 == steps && r.bool();
                if by_drop {
                    trace += " drop";
                    clean = false;
                    break;
                }
                let before: Vec<u64> = w.logs.iter().map(|l| l.0.exports.load(SeqCst)).collect();
                let who = if r.bool() { &mp } else { &clone };
                let res = watched("shutdown", || who.shutdown());
                trace += &format!(" shutdown={res:?}");
                if down {
                    c.check(is_already(&res), "second-shutdown", || format!("later shutdown returned {res:?}; {trace}"));
                    for (k, (l, _)) in w.logs.iter().enumerate() {
                        c.check(l.exports.load(SeqCst) == before[k] && l.shutdowns.load(SeqCst) == 1, "second-shutdown-effect", || format!("reader {k}; {trace}"));
                    }
                } else {
                    down = true;
                    let mut want_err = false;
                    for (k, (l, t)) in w.logs.iter().enumerate() {
                        let want = expect_export(&fresh[k], &any, *t);
                        want_err |= (want && l.fail.load(SeqCst)) || l.fail_shutdown.load(SeqCst);
                        let got = l.exports.load(SeqCst) - before[k];
                        c.check(got == want as u64, "final-export", || format!("shutdown ran {got} exports on reader {k}, expected {}; {trace}", want as u64));
                        c.check(l.shutdowns.load(SeqCst) == 1, "exporter-shutdown", || format!("exporter {k} shut down {} times by the first shutdown; {trace}", l.shutdowns.load(SeqCst)));
                    }
                    c.check(res.is_err() == want_err && !is_already(&res), "shutdown-result", || format!("first shutdown returned {res:?}, failure scripted: {want_err}; {trace}"));
                    totals(c, &w, &rec, &trace, "shutdown");
                }
            }
        }
    }
    drop(mp);
    drop(clone);
    if !clean {
        c.count("drop_shutdowns", 1);
        totals(c, &w, &rec, &trace, "drop");
    }
    for (k, (l, _)) in w.logs.iter().enumerate() {
        c.check(l.shutdowns.load(SeqCst) == 1, "exporter-shutdown", || format!("exporter {k} shut down {} times in all; {trace}", l.shutdowns.load(SeqCst)));
        c.check(l.overlaps.load(SeqCst) == 0, "overlapping-exports", || trace.clone());
        c.check(l.after_shutdown.load(SeqCst) == 0, "export-after-shutdown", || trace.clone());
        c.count("exports", l.exports.load(SeqCst));
    }
    c.seen(h64(&trace), rec.iter().any(|x| *x > 0));
    c.sample(|| trace.clone());
}
fn totals(c: &Case, w: &World, rec: &[u64], trace: &str, what: &str) {
    for (k, (l, _)) in w.logs.iter().enumerate() {
        let t = l.totals.lock().unwrap().clone();
        c.check(t == rec, &format!("{what}-delivery"), || format!("after {what} reader {k} has exported totals {t:?}, recorded {rec:?}; {trace}"));
    }
}

/// the interval alone must keep delivering what is recorded, whatever earlier exports and
/// flushes did (slow beyond the interval, failed), and never more often than configured
fn interval(c: &Case, r: &mut Rng) {
    let ivs = [1_000u64, 4_000, 15_000];
    let iv = *r.pick(&ivs);
    let t0 = std::time::Instant::now();
    let (mut w, mut trace) = world(r, &[iv]);
    let mp = w.mp.take().unwrap();
    let ni = w.ins.len();
    let mut rec = vec![0u64; ni];
    let mut flushes = 0;
    for _ in 0..2 + r.idx(4) {
        for (l, _) in &w.logs {
            l.delay_us.store(if r.chance(1, 3) { iv + r.below(2 * iv) } else { r.below(iv) / 4 }, SeqCst);
            l.fail.store(r.chance(1, 3), SeqCst);
        }
        let flush = r.chance(1, 3);
        let i = r.idx(ni);
        w.ins[i].record(Num::U(1), &[KeyValue::new("k", r.below(3) as i64)]);
        rec[i] += 1;
        trace += &format!(" rec(i{i})");
        if flush {
            let res = watched("force_flush", || mp.force_flush());
            flushes += 1;
            trace += &format!(" flush={res:?}");
            w.ins[i].record(Num::U(1), &[KeyValue::new("k", 0i64)]);
            rec[i] += 1;
        }
        for (k, (l, _)) in w.logs.iter().enumerate() {
            let ok = hsdk::plib::eventually(30.0, || *l.totals.lock().unwrap() == rec);
            c.check(ok, "interval-delivery", || {
                format!(
                    "30 s after the last measurement, with an interval of {iv} us, reader {k} has exported totals {:?} of {rec:?} ({} exports); {trace}",
                    l.totals.lock().unwrap(),
                    l.exports.load(SeqCst)
                )
            });
        }
        // an export that finds only old cumulative data may still be under way or slow
        c.count("interval_rounds", 1);
    }
    for (k, (l, _)) in w.logs.iter().enumerate() {
        let n = l.exports.load(SeqCst).saturating_sub(flushes);
        let most = (t0.elapsed().as_micros() as u64) / iv + 1;
        c.check(n <= most, "interval-too-often", || {
            format!("reader {k} ran {n} exports by itself where the interval of {iv} us allows {most}; {trace}")
        });
    }
    let res = watched("shutdown", || mp.shutdown());
    trace += &format!(" shutdown={res:?}");
    for (k, (l, _)) in w.logs.iter().enumerate() {
        c.check(l.shutdowns.load(SeqCst) == 1, "exporter-shutdown", || format!("reader {k}; {trace}"));
        c.check(l.overlaps.load(SeqCst) == 0, "overlapping-exports", || trace.clone());
        c.count("exports", l.exports.load(SeqCst));
    }
    c.seen(h64(&trace), true);
    c.sample(|| trace.clone());
}

/// recording threads, short intervals, concurrent flushes and a shutdown race
fn threads(c: &Case, r: &mut Rng) {
    let (mut w, mut trace) = world(r, &[300, 1000, 5000, 3_600_000_000]);
    let mp = w.mp.take().unwrap();
    for (l, _) in &w.logs {
        if r.chance(1, 3) {
            l.delay_us.store(r.below(2500), SeqCst);
        }
        if r.chance(1, 4) {
            l.flaky.store(30, SeqCst);
        }
    }
    let flaky: u64 = w.logs.iter().map(|l| l.0.flaky.load(SeqCst)).sum();
    let ni = w.ins.len();
    let nrec = 1 + r.idx(3);
    let nfl = 1 + r.idx(2);
    let nsd = 1 + r.idx(3);
    let by_drop = r.chance(1, 4);
    let stop = AtomicBool::new(false);
    let done: Vec<AtomicU64> = (0..ni).map(|_| AtomicU64::new(0)).collect();
    let started: Vec<AtomicU64> = (0..ni).map(|_| AtomicU64::new(0)).collect();
    let pause = *r.pick(&[0u64, 20, 200]);
    let stop_before_shutdown = r.bool();
    trace += &format!(" {nrec} recorders (pause {pause} us), {nfl} flushers, {nsd} shutdown calls, drop={by_drop}, quiesce={stop_before_shutdown}, flaky={flaky}");
    let seeds: Vec<u64> = (0..nrec + nfl).map(|_| r.u64()).collect();
    let run_ms = r.below(12) + 2;
    let results: Mutex<Vec<OTelSdkResult>> = Mutex::new(vec![]);
    let floor: Mutex<Vec<u64>> = Mutex::new(vec![]);
    let mut mp = Some(mp);
    std::thread::scope(|sc| {
        let mut recs = vec![];
        let mut flushers = vec![];
        let flush_stop = AtomicBool::new(false);
        let flush_stop = Arc::new(flush_stop);
        for t in 0..nrec {
            let (w, stop, done, started, seed) = (&w, &stop, &done, &started, seeds[t]);
            recs.push(sc.spawn(move || {
                let mut r = Rng::new(seed, 1);
                while !stop.load(SeqCst) {
                    for _ in 0..10 {
                        let i = r.idx(ni);
                        started[i].fetch_add(1, SeqCst);
                        w.ins[i].record(Num::U(1), &[KeyValue::new("k", r.below(3) as i64)]);
                        done[i].fetch_add(1, SeqCst);
                    }
                    std::thread::sleep(Duration::from_micros(pause));
                }
            }));
        }
        for t in 0..nfl {
            let (w, done, started, seed, trace, fs) = (&w, &done, &started, seeds[nrec + t], &trace, flush_stop.clone());
            let mp = mp.as_ref().unwrap().clone();
            flushers.push(sc.spawn(move || {
                let mut r = Rng::new(seed, 2);
                while !fs.load(SeqCst) {
                    let lo: Vec<u64> = done.iter().map(|x| x.load(SeqCst)).collect();
                    let res = watched("force_flush", || mp.force_flush());
                    let got: Vec<Vec<u64>> = w.logs.iter().map(|l| l.0.totals.lock().unwrap().clone()).collect();
                    let hi: Vec<u64> = started.iter().map(|x| x.load(SeqCst)).collect();
                    match &res {
                        Ok(()) => {
                            c.count("flushes_ok", 1);
                            for (k, g) in got.iter().enumerate() {
                                for i in 0..ni {
                                    c.check(g[i] >= lo[i], "flush-delivery", || format!("flush returned success but reader {k} has exported {} of i{i}, {} recorded before the call; {trace}", g[i], lo[i]));
                                    c.check(g[i] <= hi[i], "over-delivery", || format!("reader {k} exported {} of i{i}, only {} recorded; {trace}", g[i], hi[i]));
                                }
                            }
                        }
                        Err(e) => {
                            c.check(flaky > 0, "flush-error", || format!("flush failed with {e:?} though no export did; {trace}"));
                        }
                    }
                    std::thread::sleep(Duration::from_micros(r.below(800)));
                }
            }));
        }
        std::thread::sleep(Duration::from_millis(run_ms));
        flush_stop.store(true, SeqCst);
        for f in flushers {
            let _ = f.join();
        }
        if stop_before_shutdown {
            stop.store(true, SeqCst);
            for x in recs.drain(..) {
                let _ = x.join();
            }
        }
        *floor.lock().unwrap() = done.iter().map(|x| x.load(SeqCst)).collect();
        if by_drop {
            c.count("drop_shutdowns", 1);
            let m = mp.take();
            watched("drop", || drop(m));
        } else {
            let b = Barrier::new(nsd);
            std::thread::scope(|s2| {
                for _ in 0..nsd {
                    let (m, b, results) = (mp.as_ref().unwrap().clone(), &b, &results);
                    s2.spawn(move || {
                        b.wait();
                        let x = watched("shutdown", || m.shutdown());
                        results.lock().unwrap().push(x);
                    });
                }
            });
            if nsd > 1 {
                c.count("concurrent_shutdowns", 1);
            }
        }
        let at: Vec<(u64, u64)> = w.logs.iter().map(|l| (l.0.exports.load(SeqCst), l.0.shutdowns.load(SeqCst))).collect();
        // recorders still running: nothing they record may be exported any more
        std::thread::sleep(Duration::from_micros(1500));
        stop.store(true, SeqCst);
        for x in recs {
            let _ = x.join();
        }
        if let Some(m) = &mp {
            let f = watched("force_flush", || m.force_flush());
            c.check(is_already(&f), "flush-after-shutdown", || format!("{f:?}; {trace}"));
            let f = watched("shutdown", || m.shutdown());
            c.check(is_already(&f), "second-shutdown", || format!("{f:?}; {trace}"));
        }
        for (k, (l, _)) in w.logs.iter().enumerate() {
            c.check(l.exports.load(SeqCst) == at[k].0, "export-after-shutdown", || format!("reader {k} exported {} times after shutdown returned; {trace}", l.exports.load(SeqCst) - at[k].0));
            c.check(at[k].1 == 1 && l.shutdowns.load(SeqCst) == 1, "exporter-shutdown", || format!("exporter {k} shut down {} times ({} when shutdown returned); {trace}", l.shutdowns.load(SeqCst), at[k].1));
        }
    });
    let res = results.into_inner().unwrap();
    if !by_drop {
        let n = res.iter().filter(|r| !is_already(r)).count();
        c.check(n == 1, "one-shutdown-wins", || format!("{res:?}; {trace}"));
        for x in &res {
            c.check(x.is_ok() || is_already(x) || flaky > 0, "shutdown-result", || format!("{x:?}; {trace}"));
        }
    }
    let lo = floor.into_inner().unwrap();
    for (k, (l, _)) in w.logs.iter().enumerate() {
        let g = l.totals.lock().unwrap().clone();
        for i in 0..ni {
            let hi = started[i].load(SeqCst);
            c.check(g[i] >= lo[i] && g[i] <= hi, "shutdown-delivery", || format!("reader {k} i{i}: exported {} in all, recorded between {} and {hi}; {trace}", g[i], lo[i]));
            if stop_before_shutdown {
                c.check(g[i] == hi, "shutdown-delivery", || format!("reader {k} i{i}: exported {}, recorded {hi}; {trace}", g[i]));
            }
        }
        c.check(l.overlaps.load(SeqCst) == 0, "overlapping-exports", || trace.clone());
        c.check(l.after_shutdown.load(SeqCst) == 0, "export-after-shutdown", || trace.clone());
        c.count("exports", l.exports.load(SeqCst));
        c.count("scripted_failures", l.failed.load(SeqCst));
    }
    c.seen(h64(&(c.id(), &lo)), lo.iter().sum::<u64>() > 0);
    c.sample(|| format!("{trace}: recorded {lo:?}, exports {:?}", w.logs.iter().map(|l| l.0.exports.load(SeqCst)).collect::<Vec<_>>()));
}
