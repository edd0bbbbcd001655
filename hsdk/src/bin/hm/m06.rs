//! M06: time windows of every aggregation kind chain without gaps or overlaps.
use hsdk::mlib::*;
use hsdk::*;
use opentelemetry::metrics::MeterProvider;
use opentelemetry::KeyValue;
use opentelemetry_sdk::metrics::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::SystemTime;

#[derive(Clone)]
struct Seen {
    start: SystemTime,
    time: SystemTime,
    first_start: SystemTime,
    /// index of the collection that reported it last
    at: usize,
}

pub fn run(ctx: &Ctx) {
    ctx.require("windows_checked", 500);
    ctx.section("windows", 1.0, 6, 100, |c, r| {
        let nread = 1 + r.idx(2);
        let temps: Vec<Temporality> = (0..nread).map(|_| temporality_of(r.u64())).collect();
        let readers: Vec<R> = temps.iter().map(|t| R::new(*t)).collect();
        let mut b = SdkMeterProvider::builder();
        for x in &readers {
            b = b.with_reader(x.clone());
        }
        let expo = r.bool();
        if expo {
            b = b.with_view(|i: &Instrument| {
                if i.name.starts_with('e') {
                    Some(Stream::new().name(i.name.clone()).aggregation(Aggregation::Base2ExponentialHistogram { max_size: 160, max_scale: 20, record_min_max: true }))
                } else {
                    None
                }
            });
        }
        let t_create = SystemTime::now();
        let mp = b.build();
        let m = mp.meter("m");
        let mut insts: Vec<(String, IK, Inst)> = vec![];
        for i in 0..1 + r.idx(4) {
            let ik = *r.pick(&ALL_IK);
            let n = format!("s{i}");
            insts.push((n.clone(), ik, ik.build(&m, n, "", "", None, None)));
        }
        if expo {
            insts.push(("e0".into(), IK::HF, IK::HF.build(&m, "e0".into(), "", "", None, None)));
        }
        // observable ones, on or off
        let on = Arc::new(AtomicU64::new(1));
        let n = Arc::new(AtomicU64::new(0));
        let (o1, n1) = (on.clone(), n.clone());
        let _ = m
            .u64_observable_counter("oc")
            .with_callback(move |o| {
                if o1.load(SeqCst) == 1 {
                    o.observe(n1.fetch_add(1, SeqCst), &[KeyValue::new("x", 1i64)]);
                }
            })
            .build();
        let o2 = on.clone();
        let _ = m
            .i64_observable_up_down_counter("ou")
            .with_callback(move |o| {
                if o2.load(SeqCst) == 1 {
                    o.observe(-4, &[])
                }
            })
            .build();
        let o3 = on.clone();
        let _ = m
            .f64_observable_gauge("og")
            .with_callback(move |o| {
                if o3.load(SeqCst) == 1 {
                    o.observe(1.5, &[])
                }
            })
            .build();
        let t_created = SystemTime::now();
        let mut hist: Vec<BTreeMap<String, Seen>> = vec![BTreeMap::new(); nread];
        // the time brackets of each reader's collections
        let mut brackets: Vec<Vec<(SystemTime, SystemTime)>> = vec![vec![]; nread];
        let mut bufs: Vec<_> = readers.iter().map(|_| R::rm()).collect();
        let reuse = r.bool();
        let rounds = 2 + r.idx(12);
        let mut log = String::new();
        for _ in 0..rounds {
            let k = r.idx(4);
            for _ in 0..k {
                let i = r.idx(insts.len());
                let v = insts[i].1.value(r);
                let attrs = if r.bool() { vec![] } else { vec![KeyValue::new("a", r.below(3) as i64)] };
                insts[i].2.record(v, &attrs);
                log += &format!(" r{}", insts[i].0);
            }
            on.store(r.below(3).min(1), SeqCst);
            if r.chance(1, 8) {
                std::thread::sleep(std::time::Duration::from_micros(50));
            }
            let w = r.idx(nread);
            let t0 = SystemTime::now();
            let snap = if reuse { readers[w].snap_into(&mut bufs[w]) } else { readers[w].snap() };
            let t1 = SystemTime::now();
            let Ok(snap) = snap else { return };
            log += &format!(" C{w}(on={})", on.load(SeqCst));
            let at = brackets[w].len();
            for g in &snap.mets {
                let what = || format!("{} {:?} {:?} reader collection {at}: {:?}..{:?};{log}", g.name, g.kind, temps[w], g.start, g.time);
                let Some(start) = g.start else {
                    c.fail("no-start", what());
                    continue;
                };
                c.count("windows_checked", 1);
                c.check(start <= g.time, "start-after-time", what);
                c.check(g.time >= t0 && g.time <= t1, "time-outside-collection", || format!("{}; collected in {t0:?}..{t1:?}", what()));
                c.check(start >= t_create, "start-before-creation", what);
                let prev = hist[w].get(&g.name).cloned();
                // delta window: starts where the previous collection (reporting it or not) ended
                let contiguous = match &prev {
                    Some(p) if p.at + 1 == at => start == p.time,
                    _ if at == 0 => start <= t_created,
                    Some(p) => start >= p.time && brackets[w].last().is_some_and(|b| start >= b.0 && start <= b.1),
                    None => brackets[w].last().is_some_and(|b| start >= b.0 && start <= b.1),
                };
                let constant = match &prev {
                    Some(p) => start == p.first_start && g.time >= p.time,
                    None => start <= t_created,
                };
                match g.delta {
                    Some(true) => {
                        c.check(contiguous, "delta-window", || format!("{}; previous report {:?}", what(), prev.as_ref().map(|p| (p.start, p.time, p.at))));
                    }
                    Some(false) => {
                        c.check(constant, "cumulative-window", || format!("{}; previous report {:?}", what(), prev.as_ref().map(|p| (p.start, p.time, p.at))));
                    }
                    // a gauge has no temporality: either regime is fine
                    None => {
                        c.check(contiguous || constant, "gauge-window", || format!("{}; previous report {:?}", what(), prev.as_ref().map(|p| (p.start, p.time, p.at))));
                    }
                }
                let first_start = prev.map(|p| p.first_start).unwrap_or(start);
                hist[w].insert(g.name.clone(), Seen { start, time: g.time, first_start, at });
            }
            brackets[w].push((t0, t1));
        }
        c.count("collections", rounds as u64);
        c.seen(h64(&log), rounds > 2);
        c.sample(|| format!("{temps:?}:{log}"));
    });
}
