//! T01, L01, X01, A01: exactly-once delivery through every span and log pipeline. The
//! recording exporter logs the hand-over order; offline checks over that log decide.
use hsdk::perturb::Injector;
use hsdk::plib::*;
use hsdk::*;
use opentelemetry_sdk::error::OTelSdkResult;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

const HOUR: Duration = Duration::from_secs(3600);

pub fn run_batch(ctx: &Ctx, kinds: &'static [PK]) {
    ctx.require("items_exported", 3000);
    ctx.require("refused_items", 200);
    ctx.require("flushes_ok", 200);
    ctx.require("gate_rounds", 50);
    ctx.require("flush_over_several_batches", 20);
    let nk = kinds.len() as u64;
    ctx.section("gated", 0.25, 4, 20 * nk, |c, r| gated(c, r, kinds[(c.idx % nk) as usize]));
    ctx.require("failed_flushes", 40);
    ctx.require("partly_failed_flushes", 20);
    ctx.section("failing", 0.1, 4, 20 * nk, |c, r| failing(c, r, kinds[(c.idx % nk) as usize]));
    ctx.section("crowd", 0.03, 2, 3 * nk, |c, r| crowd(c, r, kinds[(c.idx % nk) as usize]));
    ctx.section("timer", 0.05, 4, 4 * nk, |c, r| timer(c, r, kinds[(c.idx % nk) as usize]));
    ctx.section("threads", 0.3, 3, 12 * nk, |c, r| threads(c, r, kinds[(c.idx % nk) as usize]));
    let _inj = Injector::start(ctx.seed, 120);
    ctx.section("perturbed", 0.4, 3, 12 * nk, |c, r| threads(c, r, kinds[(c.idx % nk) as usize]));
}

fn cfg(r: &mut Rng, short: bool) -> Cfg {
    let q = *r.pick(&[1usize, 2, 3, 4, 7, 8, 16, 32, 100, 2048]);
    let b = if r.chance(1, 4) {
        q
    } else if q > 1000 && r.bool() {
        1000 + r.idx(q - 999)
    } else {
        1 + r.idx(q.min(40))
    };
    Cfg {
        q,
        b,
        delay: if short { Duration::from_micros(*r.pick(&[500u64, 2000, 3_600_000_000])) } else { HOUR },
        timeout: Duration::from_secs(30),
        conc: 1 + r.idx(3),
    }
}
fn is_full(r: &OTelSdkResult) -> bool {
    matches!(r, Err(e) if format!("{e:?}").to_lowercase().contains("full"))
}
fn flush_retry(p: &dyn Pipe) -> OTelSdkResult {
    let mut n = 0;
    loop {
        let res = watched("force_flush", || p.flush());
        match &res {
            Err(e) if format!("{e:?}").to_lowercase().contains("full") && n < 20000 => {
                n += 1;
                std::thread::sleep(Duration::from_micros(200));
            }
            _ => return res,
        }
    }
}

/// One thread against a gated exporter: every acceptance and refusal is determined.
fn gated(c: &Case, r: &mut Rng, k: PK) {
    let f = cfg(r, false);
    let provider = r.bool();
    let (p, log) = make(k, f, provider);
    let mut id = 0u64;
    let mut want: Vec<u64> = vec![];
    let mut trace = format!("{k:?} {f:?} provider={provider}");
    let mut emit = |n: usize| -> Vec<u64> {
        (0..n)
            .map(|_| {
                let i = id;
                id += 1;
                p.emit(i);
                i
            })
            .collect()
    };
    if k.is_async() {
        // the worker has taken its start-up messages off the queue
        let res = flush_retry(&*p);
        if res.is_err() {
            return c.fail("flush-failed", format!("flush of an idle pipeline: {res:?}; {trace}"));
        }
    }
    let rounds = 1 + r.idx(3);
    for _ in 0..rounds {
        log.close_gate();
        want.extend(emit(f.b));
        if !eventually(10.0, || log.at_gate() == 1) {
            log.open_gate();
            return c.fail("full-batch-not-exported", format!("no export within 10 s of {} spans/records pending with batch size {}; {trace}", f.b, f.b));
        }
        let n = match r.below(4) {
            0 => f.q,
            1 => f.q + 1 + r.idx(f.q + 3),
            2 => r.idx(f.q + 1),
            _ => f.q + r.idx(3),
        };
        trace += &format!(" [full batch; {n} while exporting]");
        let got = emit(n);
        want.extend(&got[..n.min(f.q)]);
        c.count("refused_items", n.saturating_sub(f.q) as u64);
        let nb = log.batches.lock().unwrap().len();
        log.open_gate();
        let res = flush_retry(&*p);
        trace += &format!(" flush={res:?}");
        if !c.check(res.is_ok(), "flush-failed", || format!("flush with a healthy exporter returned {res:?}; {trace}")) {
            return;
        }
        c.count("flushes_ok", 1);
        if n.min(f.q) > f.b {
            c.count("flush_over_several_batches", 1);
        }
        let order = log.order.lock().unwrap().clone();
        if order != want {
            let o: HashSet<u64> = order.iter().copied().collect();
            let miss: Vec<_> = want.iter().filter(|x| !o.contains(x)).take(8).collect();
            let key = if order.len() > want.len() { "too-many-exported" } else if !miss.is_empty() { "not-exported" } else { "order" };
            return c.fail(key, format!("after a successful flush the exporter was handed {} items, {} were accepted (queue {}), missing {miss:?}; {trace}", order.len(), want.len(), f.q));
        }
        let _ = nb;
        // refusals must not have disturbed batching: no export below a full batch, one at it
        let quiet_before = log.begun.load(SeqCst);
        want.extend(emit(f.b - 1));
        if f.b > 1 {
            std::thread::sleep(Duration::from_millis(2));
            let now = log.begun.load(SeqCst);
            if !c.check(now == quiet_before, "early-batch", || format!("{} pending items (batch size {}) were exported without flush or timer: refused items still counted? {trace}", f.b - 1, f.b)) {
                return;
            }
        }
        want.extend(emit(1));
        let full = eventually(10.0, || log.begun.load(SeqCst) == quiet_before + f.b as u64 && log.inflight.load(SeqCst) == 0);
        if !c.check(full, "full-batch-not-exported", || format!("{} pending items (batch size {}) not exported within 10 s; {trace}", f.b, f.b)) {
            return;
        }
        // the worker has settled its bookkeeping once it answers
        let res = flush_retry(&*p);
        if !c.check(res.is_ok(), "flush-failed", || format!("{res:?}; {trace}")) {
            return;
        }
        c.count("gate_rounds", 1);
    }
    let tail = r.idx(f.b);
    want.extend(emit(tail));
    let res = watched("shutdown", || p.shutdown());
    trace += &format!(" [{tail} pending] shutdown={res:?}");
    c.check(res.is_ok(), "shutdown-failed", || trace.clone());
    let order = log.order.lock().unwrap().clone();
    c.check(order == want, "shutdown-left-items", || format!("shutdown returned with {} of {} items handed over; {trace}", order.len(), want.len()));
    c.check(eventually(5.0, || log.shutdowns.load(SeqCst) > 0), "exporter-not-shut-down", || trace.clone());
    emit(3);
    let again = watched("shutdown", || p.shutdown());
    c.check(again.is_err(), "second-shutdown", || format!("second shutdown returned {again:?}; {trace}"));
    let fl = watched("force_flush", || p.flush());
    c.check(fl.is_err(), "flush-after-shutdown", || format!("flush after shutdown returned {fl:?}; {trace}"));
    drop(p);
    c.check(log.order.lock().unwrap().len() == want.len(), "export-after-shutdown", || trace.clone());
    common(c, &log, f, k, &trace);
    c.count("items_exported", want.len() as u64);
    c.seen(h64(&trace), true);
    c.sample(|| format!("{trace}; batches {:?}", log.batches.lock().unwrap().iter().take(30).collect::<Vec<_>>()));
}

fn common(c: &Case, log: &ExpLog, f: Cfg, k: PK, trace: &str) {
    let b = log.batches.lock().unwrap().clone();
    if !matches!(k, PK::SimpleSpan | PK::SimpleLog) {
        c.check(b.iter().all(|n| *n <= f.b), "batch-too-large", || format!("batch sizes {:?} with maximum {}; {trace}", b.iter().filter(|n| **n > f.b).take(5).collect::<Vec<_>>(), f.b));
    } else {
        c.check(b.iter().all(|n| *n == 1), "batch-size", || trace.to_string());
    }
    c.check(log.overlaps.load(SeqCst) == 0, "overlapping-exports", || format!("{} exports began while another was running; {trace}", log.overlaps.load(SeqCst)));
    c.check(log.after_shutdown.load(SeqCst) == 0, "export-after-exporter-shutdown", || trace.to_string());
    let n = log.shutdowns.load(SeqCst);
    c.check(n == 1, "exporter-shutdown-count", || format!("exporter shut down {n} times; {trace}"));
    c.check(log.empty.load(SeqCst) == 0, "empty-export", || trace.to_string());
}

/// the thread has been blocked for a while: its state stays S and it is not switched in
fn parked(tid: &str) -> bool {
    let read = || {
        let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).unwrap_or_default();
        let get = |k: &str| st.lines().find(|l| l.starts_with(k)).map(|l| l.to_string()).unwrap_or_default();
        (get("State:").contains('S'), get("voluntary_ctxt_switches:"), get("nonvoluntary"))
    };
    let first = read();
    for _ in 0..6 {
        std::thread::sleep(Duration::from_millis(1));
        let now = read();
        if !now.0 || now != first {
            return false;
        }
    }
    first.0
}

/// A flush or shutdown whose own exports fail says so, and goes on to the batches left.
fn failing(c: &Case, r: &mut Rng, k: PK) {
    let mut f = cfg(r, false);
    f.q = f.q.max(2);
    let provider = r.bool();
    let (p, log) = make(k, f, provider);
    let mut trace = format!("{k:?} {f:?} provider={provider}");
    log.kinds.store(r.below(3), SeqCst);
    let mut id = 0u64;
    let mut emit = |n: usize| {
        for _ in 0..n {
            p.emit(id);
            id += 1;
        }
    };
    if flush_retry(&*p).is_err() {
        return c.fail("flush-failed", format!("flush of an idle pipeline; {trace}"));
    }
    let mut total = 0usize;
    for _ in 0..1 + r.idx(3) {
        let bad = r.bool();
        let n = r.idx(f.b.min(f.q));
        emit(n);
        total += n;
        log.fail.store(bad, SeqCst);
        let res = flush_retry(&*p);
        log.fail.store(false, SeqCst);
        trace += &format!(" [{n} pending, export {}] flush={res:?}", if bad { "fails" } else { "works" });
        let failed = bad && n > 0;
        if !c.check(res.is_err() == failed, if failed { "failure-hidden" } else { "flush-failed" }, || trace.clone()) {
            return;
        }
        c.count("failed_flushes", failed as u64);
    }
    if !k.is_async() {
        // a flush that has to export several batches, of which some fail
        log.close_gate();
        emit(f.b);
        total += f.b;
        if !eventually(10.0, || log.at_gate() == 1) {
            log.open_gate();
            return c.fail("full-batch-not-exported", format!("no export within 10 s of {} items pending; {trace}", f.b));
        }
        let (mut res, mut known) = (Ok(()), false);
        let mut script = vec![];
        std::thread::scope(|sc| {
            let (tx, rx) = std::sync::mpsc::channel();
            let pp = &p;
            let h = sc.spawn(move || {
                let t = std::fs::read_link("/proc/thread-self").map(|x| x.file_name().unwrap_or_default().to_string_lossy().into_owned());
                let _ = tx.send(t.unwrap_or_default());
                watched("force_flush", || pp.flush())
            });
            let tid = rx.recv().unwrap_or_default();
            known = eventually(2.0, || parked(&tid));
            let n = f.q.min(f.b * (2 + r.idx(3)));
            emit(n);
            total += n;
            script = (0..n.div_ceil(f.b)).map(|_| r.chance(2, 5)).collect();
            let mut s = log.script.lock().unwrap();
            s.push_back(r.bool());
            s.extend(script.iter().copied());
            drop(s);
            log.open_gate();
            res = h.join().unwrap();
        });
        trace += &format!(" [flush over batches failing {script:?}] flush={res:?}");
        let bad = script.iter().any(|x| *x);
        if known && !c.check(res.is_err() == bad, if bad { "failure-hidden" } else { "flush-failed" }, || trace.clone()) {
            return;
        }
        if known && bad && script.iter().any(|x| !*x) {
            c.count("partly_failed_flushes", 1);
        }
        let handed = log.begun.load(SeqCst) as usize;
        if known && !c.check(handed == total, "not-exported", || format!("after the flush the exporter was handed {handed} of {total} items; {trace}")) {
            return;
        }
        // the worker has settled once it answers
        let res = flush_retry(&*p);
        log.script.lock().unwrap().clear();
        if !c.check(res.is_ok() || !known, "flush-failed", || format!("{res:?} with nothing pending; {trace}")) {
            return;
        }
    }
    let n = r.idx(f.b.min(f.q));
    emit(n);
    total += n;
    let (bad, sdbad) = (r.bool(), r.chance(1, 3));
    log.fail.store(bad, SeqCst);
    log.fail_shutdown.store(sdbad, SeqCst);
    let res = watched("shutdown", || p.shutdown());
    trace += &format!(" [{n} pending, export {}, exporter shutdown {}] shutdown={res:?}", if bad { "fails" } else { "works" }, if sdbad { "fails" } else { "works" });
    let failed = (bad && n > 0) || (sdbad && !k.is_async());
    c.check(res.is_err() == failed, if failed { "failure-hidden" } else { "shutdown-failed" }, || trace.clone());
    c.count("failed_flushes", failed as u64);
    c.check(eventually(5.0, || log.shutdowns.load(SeqCst) == 1), "exporter-shutdown-count", || format!("exporter shut down {} times; {trace}", log.shutdowns.load(SeqCst)));
    let handed = log.begun.load(SeqCst) as usize;
    c.check(handed == total, "shutdown-left-items", || format!("shutdown returned with {handed} of {total} items handed over; {trace}"));
    drop(p);
    common(c, &log, f, k, &trace);
    c.count("items_exported", total as u64);
    c.seen(h64(&trace), failed);
}

/// More flushes at once than the worker can queue: those turned away say so, nothing is
/// lost, and full batches are still exported afterwards.
fn crowd(c: &Case, r: &mut Rng, k: PK) {
    let mut f = cfg(r, false);
    f.q = f.q.max(2);
    f.b = f.b.min(f.q);
    let (p, log) = make(k, f, r.bool());
    let trace = format!("{k:?} {f:?}");
    log.close_gate();
    for i in 0..f.b as u64 {
        p.emit(i);
    }
    if !eventually(10.0, || log.at_gate() == 1) {
        log.open_gate();
        return c.fail("full-batch-not-exported", format!("no export within 10 s of {} items pending; {trace}", f.b));
    }
    let turned = AtomicU64::new(0);
    let ok = AtomicU64::new(0);
    let n = 1 + r.idx(f.q);
    std::thread::scope(|sc| {
        for _ in 0..80 {
            sc.spawn(|| match watched("force_flush", || p.flush()) {
                Ok(()) => {
                    ok.fetch_add(1, SeqCst);
                    c.check(log.begun.load(SeqCst) >= f.b as u64, "flush-too-early", || trace.clone());
                }
                e if is_full(&e) => {
                    turned.fetch_add(1, SeqCst);
                }
                _ => {}
            });
        }
        eventually(1.0, || turned.load(SeqCst) > 0);
        for i in 0..n as u64 {
            p.emit(f.b as u64 + i);
        }
        log.open_gate();
    });
    c.count("crowd_flushes_turned_away", turned.load(SeqCst));
    c.count("crowd_flushes_ok", ok.load(SeqCst));
    let res = flush_retry(&*p);
    let mut want = f.b + n;
    let got = log.begun.load(SeqCst) as usize;
    if !c.check(res.is_ok() && got == want, "not-exported", || format!("after 80 concurrent flushes ({} turned away) a flush returned {res:?} with {got} of {want} items handed over; {trace}", turned.load(SeqCst))) {
        return;
    }
    for i in 0..f.b {
        p.emit((want + i) as u64);
    }
    want += f.b;
    let full = eventually(10.0, || log.begun.load(SeqCst) as usize == want);
    c.check(full, "full-batch-not-exported", || format!("{} pending items (batch size {}) not exported within 10 s after 80 concurrent flushes, {} turned away; {trace}", f.b, f.b, turned.load(SeqCst)));
    let sd = watched("shutdown", || p.shutdown());
    c.check(sd.is_ok(), "shutdown-failed", || format!("{sd:?}; {trace}"));
    drop(p);
    common(c, &log, f, k, &trace);
    c.count("items_exported", want as u64);
    c.seen(h64(&trace), turned.load(SeqCst) > 0);
}

/// the timer alone must deliver
fn timer(c: &Case, r: &mut Rng, k: PK) {
    let mut f = cfg(r, false);
    f.delay = Duration::from_millis(2 + r.below(20));
    f.q = f.q.max(64);
    let (p, log) = make(k, f, true);
    let n = 1 + r.idx(20);
    for i in 0..n {
        p.emit(i as u64);
    }
    let ok = eventually(20.0, || log.begun.load(SeqCst) as usize >= n);
    c.check(ok, "timer-never-exported", || format!("{} of {n} items exported 20 s after their end with a {:?} schedule; {k:?} {f:?}", log.begun.load(SeqCst), f.delay));
    let _ = watched("shutdown", || p.shutdown());
    c.count("items_exported", n as u64);
    c.seen(h64(&(n, format!("{k:?}{f:?}"))), true);
}

struct Em {
    id: u64,
    begun_before: u64,
    started_after: u64,
    sd_after: bool,
}

fn threads(c: &Case, r: &mut Rng, k: PK) {
    let f = cfg(r, true);
    let provider = r.chance(2, 3);
    let (p, log) = make(k, f, provider);
    if r.chance(1, 3) {
        log.delay_us.store(r.below(1500), SeqCst);
    }
    if k.is_async() && r.chance(1, 4) {
        log.async_delay_us.store(r.below(2500), SeqCst);
    }
    if r.chance(1, 4) {
        log.flaky.store(30, SeqCst);
        log.kinds.store(r.below(2), SeqCst);
    }
    let nt = 1 + r.idx(4);
    let nfl = r.idx(3);
    let nsd = 1 + r.idx(2);
    let per = 10 + r.idx(150);
    let pause = *r.pick(&[0u64, 0, 5, 60]);
    let sd_race = r.chance(1, 3);
    let flush_last = r.bool();
    let by_drop = provider && !sd_race && r.chance(1, 4) && !k.is_async();
    let trace = format!(
        "{k:?} {f:?} provider={provider}, {nt} threads x {per} (pause {pause} us), {nfl} flushers, {nsd} shutdown calls {}, flaky={} delay={}",
        if by_drop { "by drop" } else if sd_race { "racing" } else { "after" },
        log.flaky.load(SeqCst),
        log.delay_us.load(SeqCst)
    );
    let started = AtomicU64::new(0);
    let sd_called = AtomicBool::new(false);
    let stop = AtomicBool::new(false);
    let done: Vec<AtomicU64> = (0..nt).map(|_| AtomicU64::new(0)).collect();
    // (ids completed per thread before the call, hand-overs when it returned)
    let promises: Mutex<Vec<(Vec<u64>, u64, &'static str)>> = Mutex::new(vec![]);
    let results: Mutex<Vec<OTelSdkResult>> = Mutex::new(vec![]);
    let ems: Mutex<Vec<Vec<Em>>> = Mutex::new(vec![]);
    let bar = Barrier::new(nt + nfl);
    let sd_ok = AtomicBool::new(false);
    let begun_at_sd = AtomicU64::new(u64::MAX);
    let promise = |what: &'static str, f: &dyn Fn() -> OTelSdkResult| {
        let before: Vec<u64> = done.iter().map(|d| d.load(SeqCst)).collect();
        let res = watched(what, f);
        let after = log.begun.load(SeqCst);
        if res.is_ok() {
            promises.lock().unwrap().push((before, after, what));
        }
        res
    };
    let seeds: Vec<u64> = (0..nt + nfl).map(|_| r.u64()).collect();
    let lag = r.below(1500);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..nt {
            let (p, log, started, sd_called, done, bar, ems) = (&p, &log, &started, &sd_called, &done, &bar, &ems);
            let mut r = Rng::new(seeds[t], 1);
            hs.push(sc.spawn(move || {
                let mut v = Vec::with_capacity(per);
                bar.wait();
                for i in 0..per {
                    let id = ((t as u64) << 32) | i as u64;
                    let begun_before = log.begun.load(SeqCst);
                    started.fetch_add(1, SeqCst);
                    p.emit(id);
                    done[t].store(i as u64 + 1, SeqCst);
                    v.push(Em { id, begun_before, started_after: started.load(SeqCst), sd_after: sd_called.load(SeqCst) });
                    if pause > 0 && r.chance(1, 3) {
                        std::thread::sleep(Duration::from_micros(r.below(pause)));
                    }
                }
                ems.lock().unwrap().push(v);
            }));
        }
        let mut fls = vec![];
        for t in 0..nfl {
            let (p, bar, stop, promise) = (&p, &bar, &stop, &promise);
            let mut r = Rng::new(seeds[nt + t], 2);
            let (c, log) = (&c, &log);
            fls.push(sc.spawn(move || {
                bar.wait();
                while !stop.load(SeqCst) {
                    if promise("force_flush", &|| p.flush()).is_ok() {
                        c.count("flushes_ok", 1);
                    }
                    let _ = log;
                    std::thread::sleep(Duration::from_micros(r.below(800)));
                }
            }));
        }
        let shut = || {
            let mut sds = vec![];
            for _ in 0..nsd {
                let (p, results, sd_called, promise, sd_ok, begun_at_sd, log) = (&p, &results, &sd_called, &promise, &sd_ok, &begun_at_sd, &log);
                sds.push(sc.spawn(move || {
                    sd_called.store(true, SeqCst);
                    let res = promise("shutdown", &|| p.shutdown());
                    if res.is_ok() {
                        sd_ok.store(true, SeqCst);
                        begun_at_sd.fetch_min(log.begun.load(SeqCst), SeqCst);
                    }
                    results.lock().unwrap().push(res);
                }));
            }
            sds.into_iter().for_each(|h| h.join().unwrap());
        };
        if sd_race {
            std::thread::sleep(Duration::from_micros(lag));
            shut();
        }
        hs.into_iter().for_each(|h| h.join().unwrap());
        if flush_last && !sd_race && promise("force_flush", &|| p.flush()).is_ok() {
            c.count("flushes_ok", 1);
        }
        stop.store(true, SeqCst);
        fls.into_iter().for_each(|h| h.join().unwrap());
        if !sd_race && !by_drop {
            shut();
        }
    });
    if by_drop {
        watched("drop", || drop(p));
        sd_ok.store(true, SeqCst);
    } else {
        drop(p);
    }
    let sd_ok = sd_ok.load(SeqCst);
    let res = results.into_inner().unwrap();
    // one shutdown wins; failing exports may make it return their error
    if !by_drop {
        let oks = res.iter().filter(|x| x.is_ok()).count();
        let already = res.iter().filter(|x| x.is_err() && !is_timeout(x)).count();
        c.check(oks <= 1 && (oks == 1 || log.flaky.load(SeqCst) > 0 || (k.is_async() && res.iter().any(is_full)) || res.iter().any(is_timeout)), "shutdown-results", || format!("shutdown calls returned {res:?}; {trace}"));
        let _ = already;
    }
    if k.is_async() {
        eventually(5.0, || log.shutdowns.load(SeqCst) > 0);
    }
    let order = log.order.lock().unwrap().clone();
    let ems = ems.into_inner().unwrap();
    // exactly once, per-thread order
    let mut last = vec![-1i64; nt];
    let mut pos = std::collections::HashMap::new();
    for (i, x) in order.iter().enumerate() {
        let (t, s) = ((x >> 32) as usize, (x & 0xffff_ffff) as i64);
        if pos.insert(*x, i).is_some() {
            c.fail("exported-twice", format!("item {t}/{s} was handed to the exporter twice; {trace}"));
            return;
        }
        if t >= nt {
            c.fail("alien-item", format!("{x:x}; {trace}"));
            return;
        }
        if s <= last[t] {
            c.fail("order", format!("thread {t}: item {s} exported after {}; {trace}", last[t]));
            return;
        }
        last[t] = s;
    }
    let mut refused = 0;
    for e in ems.iter().flatten() {
        if pos.contains_key(&e.id) {
            continue;
        }
        refused += 1;
        // items that could have been queued at most when it was emitted
        let queued = (e.started_after - 1).saturating_sub(e.begun_before);
        let slack = if k.is_async() { nfl as u64 + nsd as u64 + 2 } else { 0 }; // control messages share the async queue
        let excused = queued + slack >= f.q as u64 || e.sd_after;
        if sd_ok && !excused {
            c.fail("item-lost", format!("item {:x} was neither exported nor refusable: at most {queued} of {} queue places were taken and shutdown had not begun; {trace}", e.id, f.q));
            return;
        }
    }
    for (before, after, what) in promises.into_inner().unwrap() {
        for v in &ems {
            for e in v {
                let (t, s) = ((e.id >> 32) as usize, e.id & 0xffff_ffff);
                if s < before[t] {
                    if let Some(i) = pos.get(&e.id) {
                        if *i as u64 >= after {
                            c.fail(&format!("{what}-incomplete"), format!("item {t}/{s} ended before a {what} call that returned Ok, but was handed over only after it ({i} >= {after}); {trace}"));
                            return;
                        }
                    }
                }
            }
        }
    }
    if begun_at_sd.load(SeqCst) != u64::MAX {
        c.check(order.len() as u64 == begun_at_sd.load(SeqCst), "export-after-shutdown", || format!("{} items were handed over after shutdown returned; {trace}", order.len() as u64 - begun_at_sd.load(SeqCst)));
    }
    if sd_ok || !res.iter().any(is_timeout) {
        if k.is_async() && !sd_ok && log.shutdowns.load(SeqCst) == 0 {
            // the shutdown message found the shared queue full
            c.count("shutdown_refused", 1);
        } else {
            common(c, &log, f, k, &trace);
        }
    }
    c.count("items_exported", order.len() as u64);
    c.count("refused_items", refused);
    c.count("exports", log.exports.load(SeqCst));
    c.count_max_batch(&log);
    c.seen(h64(&(&order, log.batches.lock().unwrap().clone())), !order.is_empty());
    c.sample(|| format!("{trace}; {} exported in {} batches, {refused} refused", order.len(), log.batches.lock().unwrap().len()));
}
trait Cm {
    fn count_max_batch(&self, l: &ExpLog);
}
impl Cm for Case<'_> {
    fn count_max_batch(&self, l: &ExpLog) {
        self.ctx.count_max("largest_batch", l.batches.lock().unwrap().iter().copied().max().unwrap_or(0) as u64);
    }
}

// ---- X01 -----------------------------------------------------------------------------
pub fn run_simple(ctx: &Ctx) {
    ctx.require("items_exported", 2000);
    ctx.require("failed_exports", 100);
    ctx.require("contended_emits", 200);
    const K: [PK; 2] = [PK::SimpleSpan, PK::SimpleLog];
    ctx.section("simple", 0.5, 3, 60, |c, r| simple(c, r, K[(c.idx % 2) as usize]));
    let _inj = Injector::start(ctx.seed, 120);
    ctx.section("simple-perturbed", 0.5, 3, 60, |c, r| simple(c, r, K[(c.idx % 2) as usize]));
}
fn simple(c: &Case, r: &mut Rng, k: PK) {
    let f = cfg(r, false);
    let (p, log) = make(k, f, true);
    let nt = 1 + r.idx(5);
    let per = 5 + r.idx(60);
    log.kinds.store(r.below(3), SeqCst);
    if r.bool() {
        log.delay_us.store(r.below(120), SeqCst);
    }
    if r.bool() {
        log.flaky.store(40, SeqCst);
    }
    if r.chance(1, 6) {
        log.fail_shutdown.store(true, SeqCst);
    }
    let race = r.chance(1, 3);
    let by_drop = !race && r.chance(1, 4);
    let trace = format!("{k:?} {nt} threads x {per}, flaky {}, delay {}, shutdown {}", log.flaky.load(SeqCst), log.delay_us.load(SeqCst), if race { "racing" } else { "after" });
    let sd_called = AtomicBool::new(false);
    let bar = Barrier::new(nt);
    let lost: Mutex<Vec<u64>> = Mutex::new(vec![]);
    let contended = AtomicU64::new(0);
    let lag = r.below(800);
    let mut res = None;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..nt as u64 {
            let (p, log, bar, sd_called, lost, contended) = (&p, &log, &bar, &sd_called, &lost, &contended);
            hs.push(sc.spawn(move || {
                bar.wait();
                for i in 0..per as u64 {
                    if log.inflight.load(SeqCst) > 0 {
                        contended.fetch_add(1, SeqCst);
                    }
                    watched("emit", || p.emit((t << 32) | i));
                    let seen = log.finished.lock().unwrap().get(&t) == Some(&i);
                    if !seen && !sd_called.load(SeqCst) {
                        lost.lock().unwrap().push((t << 32) | i);
                    }
                }
            }));
        }
        if race {
            std::thread::sleep(Duration::from_micros(lag));
            sd_called.store(true, SeqCst);
            res = Some(watched("shutdown", || p.shutdown()));
        }
        hs.into_iter().for_each(|h| h.join().unwrap());
    });
    let lost = lost.into_inner().unwrap();
    c.check(lost.is_empty(), "not-exported-synchronously", || format!("{} calls returned before their item's export had finished, e.g. {:x?}; {trace}", lost.len(), &lost[..lost.len().min(4)]));
    let fl = p.flush();
    c.check(fl.is_ok() || race, "flush-result", || format!("{fl:?}; {trace}"));
    if !race && !by_drop {
        res = Some(watched("shutdown", || p.shutdown()));
    }
    if let Some(res) = &res {
        c.check(res.is_err() == log.fail_shutdown.load(SeqCst), "shutdown-result", || format!("{res:?}; {trace}"));
    }
    let n0 = log.begun.load(SeqCst);
    if !by_drop {
        for i in 0..3 {
            p.emit((77 << 32) | i);
        }
        c.check(log.begun.load(SeqCst) == n0, "export-after-shutdown", || trace.clone());
        c.check(watched("shutdown", || p.shutdown()).is_err(), "second-shutdown", || trace.clone());
    }
    drop(p);
    let order = log.order.lock().unwrap().clone();
    let mut last = vec![-1i64; nt];
    for x in &order {
        let (t, s) = ((x >> 32) as usize, (x & 0xffff_ffff) as i64);
        if t >= nt || s <= last[t] {
            c.fail("order-or-duplicate", format!("thread {t}: item {s} exported after {}; {trace}", last.get(t).copied().unwrap_or(-1)));
            break;
        }
        last[t] = s;
    }
    if !race {
        c.check(order.len() == nt * per, "item-count", || format!("{} of {} exported; {trace}", order.len(), nt * per));
    }
    // a span that was past its shutdown check when the shutdown ran may still reach the exporter
    let after = log.after_shutdown.load(SeqCst);
    c.check(after == 0 || race, "export-after-exporter-shutdown", || trace.clone());
    c.check(log.overlaps.load(SeqCst) == 0, "overlapping-exports", || format!("{} exports overlapped; {trace}", log.overlaps.load(SeqCst)));
    c.check(log.batches.lock().unwrap().iter().all(|b| *b == 1), "batch-size", || trace.clone());
    let n = log.shutdowns.load(SeqCst);
    c.check(n == 1, "exporter-shutdown-count", || format!("exporter shut down {n} times; {trace}"));
    c.count("items_exported", order.len() as u64);
    c.count("failed_exports", log.failed.load(SeqCst));
    c.count("contended_emits", contended.load(SeqCst));
    c.seen(h64(&order), true);
    c.sample(|| trace.clone());
}

// ---- A01 -----------------------------------------------------------------------------
pub fn run_async(ctx: &Ctx) {
    ctx.require("items_exported", 2000);
    ctx.require("flushes_ok", 100);
    ctx.require("export_timeouts", 8);
    ctx.require("metric_flushes", 50);
    ctx.require("exit_races", 100);
    const K: [PK; 4] = [PK::AsyncSpan, PK::AsyncLog, PK::CtSpan, PK::CtLog];
    ctx.require("failed_flushes", 40);
    ctx.section("gated", 0.15, 2, 40, |c, r| gated(c, r, K[(c.idx % 4) as usize]));
    ctx.section("failing", 0.05, 2, 40, |c, r| failing(c, r, K[(c.idx % 4) as usize]));
    ctx.section("timer", 0.05, 2, 8, |c, r| timer(c, r, K[(c.idx % 4) as usize]));
    ctx.section("timeouts", 0.1, 4, 12, |c, r| timeouts(c, r, K[(c.idx % 4) as usize]));
    ctx.section("exit-race", 0.15, 4, 12, |c, r| exit_race(c, r, K[(c.idx % 4) as usize]));
    ctx.require("interval_runs", 5);
    ctx.section("reader", 0.15, 3, 40, |c, r| reader(c, r));
    ctx.section("threads", 0.2, 3, 30, |c, r| threads(c, r, K[(c.idx % 4) as usize]));
    let _inj = Injector::start(ctx.seed, 120);
    ctx.section("perturbed", 0.2, 3, 30, |c, r| threads(c, r, K[(c.idx % 4) as usize]));
}
/// flushes and shutdowns racing the worker's exit all return
fn exit_race(c: &Case, r: &mut Rng, k: PK) {
    let mut f = cfg(r, false);
    f.q = 64;
    let n = 20;
    for i in 0..n {
        let (p, log) = make(k, f, i % 2 == 0);
        p.emit(0);
        let nf = 1 + r.idx(3);
        let bar = Barrier::new(nf + 2);
        std::thread::scope(|sc| {
            for _ in 0..nf {
                let (p, bar) = (&p, &bar);
                sc.spawn(move || {
                    bar.wait();
                    for _ in 0..6 {
                        let _ = watched("force_flush-racing-shutdown", || p.flush());
                    }
                });
            }
            for _ in 0..2 {
                let (p, bar) = (&p, &bar);
                sc.spawn(move || {
                    bar.wait();
                    let _ = watched("shutdown-racing-shutdown", || p.shutdown());
                });
            }
        });
        c.check(log.begun.load(SeqCst) == 1, "not-exported", || format!("{k:?} {f:?}"));
    }
    c.count("exit_races", n);
    c.seen(h64(&(c.idx, n)), true);
}
fn timeouts(c: &Case, r: &mut Rng, k: PK) {
    let mut f = cfg(r, false);
    f.q = 64;
    f.b = 1 + r.idx(8);
    f.timeout = Duration::from_millis(15 + r.below(20));
    let (p, log) = make(k, f, r.bool());
    let mut id = 0;
    let trace = format!("{k:?} {f:?}");
    for round in 0..3 {
        let slow = round % 2 == r.below(2) || round == 1;
        log.async_delay_us.store(if slow { 3_000_000 } else { 0 }, SeqCst);
        // fewer than a batch, so the flush itself exports
        let n = if f.b == 1 { 0 } else { 1 + r.idx(f.b - 1) };
        let c0 = log.cancelled.load(SeqCst);
        for _ in 0..n {
            p.emit(id);
            id += 1;
        }
        let t0 = std::time::Instant::now();
        let res = watched("force_flush", || p.flush());
        if slow && n > 0 {
            c.check(res.is_err(), "timeout-not-reported", || format!("flush returned {res:?} although its export exceeds the timeout; {trace}"));
            c.check(t0.elapsed() < Duration::from_millis(2500), "timeout-not-enforced", || format!("flush took {:?}; {trace}", t0.elapsed()));
            c.check(log.cancelled.load(SeqCst) == c0 + 1, "export-not-cancelled", || trace.clone());
            c.count("export_timeouts", 1);
        } else {
            c.check(res.is_ok(), "flush-after-timeout", || format!("flush returned {res:?} with a healthy exporter after an earlier timeout; {trace}"));
        }
        c.check(log.begun.load(SeqCst) == id, "not-exported", || format!("{} of {id} handed over; {trace}", log.begun.load(SeqCst)));
    }
    log.async_delay_us.store(0, SeqCst);
    let res = watched("shutdown", || p.shutdown());
    c.check(res.is_ok(), "shutdown-failed", || format!("{res:?}; {trace}"));
    c.check(eventually(5.0, || log.shutdowns.load(SeqCst) == 1), "exporter-not-shut-down", || trace.clone());
    c.count("items_exported", id);
    c.seen(h64(&(trace, id)), id > 0);
}

#[derive(Debug, Default)]
struct ML {
    total: AtomicU64,
    exports: AtomicU64,
    inflight: AtomicU64,
    overlaps: AtomicU64,
    shutdowns: AtomicU64,
    after: AtomicU64,
    slow_us: AtomicU64,
    fail: AtomicBool,
    cancelled: AtomicU64,
}
#[derive(Debug)]
struct MExp(Arc<ML>);
struct MC<'a>(&'a ML, bool);
impl Drop for MC<'_> {
    fn drop(&mut self) {
        self.0.inflight.fetch_sub(1, SeqCst);
        if self.1 {
            self.0.cancelled.fetch_add(1, SeqCst);
        }
    }
}
impl opentelemetry_sdk::metrics::exporter::PushMetricExporter for MExp {
    async fn export(&self, rm: &mut opentelemetry_sdk::metrics::data::ResourceMetrics) -> OTelSdkResult {
        let l = &*self.0;
        if l.inflight.fetch_add(1, SeqCst) > 0 {
            l.overlaps.fetch_add(1, SeqCst);
        }
        let mut g = MC(l, true);
        if l.shutdowns.load(SeqCst) > 0 {
            l.after.fetch_add(1, SeqCst);
        }
        l.exports.fetch_add(1, SeqCst);
        let s = hsdk::mlib::Snap::of(rm);
        for m in &s.mets {
            for p in m.pts.values() {
                if let hsdk::mlib::Pt::Num(hsdk::mlib::Num::U(x)) = p {
                    l.total.fetch_add(*x, SeqCst);
                }
            }
        }
        let d = l.slow_us.load(SeqCst);
        if d > 0 {
            tokio::time::sleep(Duration::from_micros(d)).await;
        }
        g.1 = false;
        if l.fail.load(SeqCst) {
            return Err(match l.exports.load(SeqCst) % 3 {
                0 => opentelemetry_sdk::error::OTelSdkError::AlreadyShutdown,
                1 => opentelemetry_sdk::error::OTelSdkError::Timeout(Duration::from_millis(3)),
                _ => opentelemetry_sdk::error::OTelSdkError::InternalFailure("vh scripted failure".into()),
            });
        }
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        self.0.shutdowns.fetch_add(1, SeqCst);
        Ok(())
    }
    fn temporality(&self) -> opentelemetry_sdk::metrics::Temporality {
        opentelemetry_sdk::metrics::Temporality::Delta
    }
}
fn reader(c: &Case, r: &mut Rng) {
    use opentelemetry::metrics::MeterProvider as _;
    use opentelemetry_sdk::metrics::periodic_reader_with_async_runtime::PeriodicReader;
    use opentelemetry_sdk::runtime::{Tokio, TokioCurrentThread};
    let _g = rt().enter();
    let log = Arc::new(ML::default());
    let fast = r.bool();
    let iv = if fast { Duration::from_micros(700) } else { HOUR };
    let timeout = if fast { Duration::from_secs(30) } else { Duration::from_millis(20) };
    let ct = r.bool();
    let mp = if ct {
        opentelemetry_sdk::metrics::SdkMeterProvider::builder().with_reader(PeriodicReader::builder(MExp(log.clone()), TokioCurrentThread).with_interval(iv).with_timeout(timeout).build())
    } else {
        opentelemetry_sdk::metrics::SdkMeterProvider::builder().with_reader(PeriodicReader::builder(MExp(log.clone()), Tokio).with_interval(iv).with_timeout(timeout).build())
    }
    .build();
    let ctr = mp.meter("m").u64_counter("c").build();
    let rec = AtomicU64::new(0);
    let mut trace = format!("reader ct={ct} interval {iv:?} timeout {timeout:?}:");
    let add = |n: u64, k: u64| {
        ctr.add(n, &[opentelemetry::KeyValue::new("k", k as i64)]);
        rec.fetch_add(n, SeqCst);
    };
    for _ in 0..2 + r.idx(5) {
        let threads = if fast { 1 + r.idx(3) } else { 1 };
        let n = 1 + r.idx(30);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let add = &add;
                sc.spawn(move || {
                    for i in 0..n {
                        add(1 + (i as u64 % 3), t as u64);
                    }
                });
            }
        });
        let mode = if fast { 0 } else { r.below(4) };
        log.fail.store(mode == 1, SeqCst);
        log.slow_us.store(if mode == 2 { 2_000_000 } else { 0 }, SeqCst);
        let t0 = std::time::Instant::now();
        let res = watched("force_flush", || mp.force_flush());
        trace += &format!(" rec({threads}x{n}) flush(mode {mode})={res:?}");
        c.check(res.is_err() == (mode == 1 || mode == 2), "reader-flush-result", || trace.clone());
        c.check(t0.elapsed() < Duration::from_millis(1900) || mode != 2, "timeout-not-enforced", || format!("{:?}; {trace}", t0.elapsed()));
        let (got, want) = (log.total.load(SeqCst), rec.load(SeqCst));
        c.check(got == want, "reader-flush-delivery", || format!("exported {got} of {want}; {trace}"));
        if mode == 2 {
            c.count("export_timeouts", 1);
        }
        c.count("metric_flushes", 1);
    }
    // the interval alone keeps delivering, even after exports that failed or timed out
    if r.chance(1, 3) {
        let log2 = Arc::new(ML::default());
        let rd = PeriodicReader::builder(MExp(log2.clone()), Tokio)
            .with_interval(Duration::from_millis(2))
            .with_timeout(Duration::from_millis(15))
            .build();
        let mut b = opentelemetry_sdk::metrics::SdkMeterProvider::builder().with_reader(rd);
        if r.bool() {
            b = b.with_resource(opentelemetry_sdk::Resource::builder_empty().build());
        }
        let mp2 = b.build();
        let c2 = mp2.meter("m").u64_counter("c").build();
        let mut want = 0;
        for k in 0..2 + r.idx(4) {
            let m = r.below(3);
            log2.fail.store(m == 1, SeqCst);
            log2.slow_us.store(if m == 2 { 60_000 } else { 0 }, SeqCst);
            c2.add(1, &[]);
            want += 1;
            let ok = eventually(30.0, || log2.total.load(SeqCst) == want);
            c.check(ok, "reader-interval", || {
                format!(
                    "measurement {k} was not exported within 30 s by a reader with a 2 ms interval ({} of {want}, mode {m}); {trace}",
                    log2.total.load(SeqCst)
                )
            });
            if m == 2 {
                // let the attempt run into its timeout
                eventually(10.0, || log2.inflight.load(SeqCst) == 0);
            }
        }
        log2.fail.store(false, SeqCst);
        log2.slow_us.store(0, SeqCst);
        let res = watched("shutdown", || mp2.shutdown());
        c.check(log2.shutdowns.load(SeqCst) == 1 && log2.overlaps.load(SeqCst) == 0, "reader-interval-shutdown", || {
            format!("{res:?}; {trace}")
        });
        c.count("interval_runs", 1);
    }
    // the export on shutdown may fail, too
    let last = if fast { r.below(2) } else { r.below(3) };
    log.fail.store(last == 1, SeqCst);
    log.slow_us.store(if last == 2 { 2_000_000 } else { 0 }, SeqCst);
    add(5, 0);
    let res = watched("shutdown", || mp.shutdown());
    trace += &format!(" shutdown(mode {last})={res:?}");
    // an export by the interval may have taken the last measurement, leaving nothing to fail
    c.check(res.is_err() == (last > 0) || (fast && res.is_ok()), "reader-shutdown", || trace.clone());
    let (got, want) = (log.total.load(SeqCst), rec.load(SeqCst));
    c.check(got == want, "reader-shutdown-delivery", || format!("exported {got} of {want}; {trace}"));
    let n = log.exports.load(SeqCst);
    add(1, 0);
    c.check(mp.force_flush().is_err() && mp.shutdown().is_err(), "reader-after-shutdown", || trace.clone());
    drop(mp);
    std::thread::sleep(Duration::from_millis(1));
    c.check(log.exports.load(SeqCst) == n && log.after.load(SeqCst) == 0, "reader-export-after-shutdown", || trace.clone());
    c.check(log.shutdowns.load(SeqCst) == 1, "reader-exporter-shutdown", || format!("{} times; {trace}", log.shutdowns.load(SeqCst)));
    c.check(log.overlaps.load(SeqCst) == 0, "reader-overlap", || trace.clone());
    c.count("items_exported", want);
    c.seen(h64(&trace), true);
    c.sample(|| trace.clone());
}
