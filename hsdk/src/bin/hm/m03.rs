//! M03: observable instruments against what their callbacks observed.
use hsdk::mlib::*;
use hsdk::*;
use opentelemetry::metrics::{Meter, MeterProvider};
use opentelemetry::KeyValue;
use opentelemetry_sdk::metrics::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum OK {
    CU,
    CF,
    UI,
    UF,
    GU,
    GI,
    GF,
}
const ALL: [OK; 7] = [OK::CU, OK::CF, OK::UI, OK::UF, OK::GU, OK::GI, OK::GF];
impl OK {
    fn ty(self) -> char {
        match self {
            OK::CU | OK::GU => 'u',
            OK::UI | OK::GI => 'i',
            _ => 'f',
        }
    }
    fn gauge(self) -> bool {
        matches!(self, OK::GU | OK::GI | OK::GF)
    }
    fn delta(self, t: Temporality) -> bool {
        matches!(self, OK::CU | OK::CF) && t == Temporality::Delta
    }
    fn kind(self) -> K {
        if self.gauge() {
            K::Gauge
        } else {
            K::Sum { mono: matches!(self, OK::CU | OK::CF) }
        }
    }
}
/// per callback: how often it ran and what it observes next
#[derive(Default)]
struct Cb {
    runs: AtomicU64,
    script: Mutex<Vec<(Vec<KeyValue>, Num)>>,
}
fn register(m: &Meter, k: OK, name: String, cbs: &[Arc<Cb>]) {
    macro_rules! go {
        ($f:ident, $v:ident) => {{
            let mut b = m.$f(name.clone()).with_description(format!("d{name}")).with_unit(format!("u{name}"));
            for cb in cbs {
                let cb = cb.clone();
                b = b.with_callback(move |o| {
                    cb.runs.fetch_add(1, SeqCst);
                    for (a, v) in cb.script.lock().unwrap().iter() {
                        if let Num::$v(x) = v {
                            o.observe(*x, a);
                        }
                    }
                });
            }
            let _ = b.build();
        }};
    }
    match k {
        OK::CU => go!(u64_observable_counter, U),
        OK::CF => go!(f64_observable_counter, F),
        OK::UI => go!(i64_observable_up_down_counter, I),
        OK::UF => go!(f64_observable_up_down_counter, F),
        OK::GU => go!(u64_observable_gauge, U),
        OK::GI => go!(i64_observable_gauge, I),
        OK::GF => go!(f64_observable_gauge, F),
    }
}

struct St {
    kind: OK,
    sets: Vec<Vec<KeyValue>>,
    /// current value of every set (monotone for counters)
    cur: Vec<Num>,
    cbs: Vec<Arc<Cb>>,
    /// per reader: what its previous collection observed
    prev: Vec<BTreeMap<String, Num>>,
    ever: Vec<BTreeMap<String, Num>>,
}

fn sub(a: Num, b: Num) -> Num {
    match (a, b) {
        (Num::U(a), Num::U(b)) => Num::U(a.wrapping_sub(b)),
        (Num::I(a), Num::I(b)) => Num::I(a.wrapping_sub(b)),
        (a, b) => Num::F(a.f() - b.f()),
    }
}

fn run_case(c: &Case, r: &mut Rng, nread: usize) {
    let temps: Vec<Temporality> = (0..nread).map(|_| temporality_of(r.u64())).collect();
    let readers: Vec<R> = temps.iter().map(|t| R::new(*t)).collect();
    let mut b = SdkMeterProvider::builder();
    for x in &readers {
        b = b.with_reader(x.clone());
    }
    // now and then far more instruments than anyone would call a few
    let ninst = if r.chance(1, 60) { 40 + r.idx(120) } else { 1 + r.idx(5) };
    c.count("crowded", (ninst > 30) as u64);
    // two views on one instrument: everything observed reaches both of its streams
    let twin = if r.chance(1, 3) { Some(r.idx(ninst)) } else { None };
    if let Some(i) = twin {
        let crit = || Instrument::new().name(format!("o{i}"));
        let (a, z) = (new_view(crit(), Stream::new()).unwrap(), new_view(crit(), Stream::new().name(format!("o{i}.twin"))).unwrap());
        b = if r.bool() { b.with_view(a).with_view(z) } else { b.with_view(z).with_view(a) };
    }
    let mp = b.build();
    let meters = [mp.meter("m0"), mp.meter("m1")];
    let nmeters = 1 + r.idx(2);
    let mut st: Vec<St> = vec![];
    for i in 0..ninst {
        let kind = *r.pick(&ALL);
        let (ns, we) = (1 + r.idx(7), r.bool());
        let sets = attr_sets(r, ns, we);
        let cbs: Vec<Arc<Cb>> = (0..1 + r.idx(3)).map(|_| Arc::new(Cb::default())).collect();
        register(&meters[i % nmeters], kind, format!("o{i}"), &cbs);
        let cur = sets
            .iter()
            .map(|_| match kind.ty() {
                'u' => Num::U(0),
                'i' => Num::I(0),
                _ => Num::F(0.0),
            })
            .collect();
        st.push(St { kind, sets, cur, cbs, prev: vec![BTreeMap::new(); nread], ever: vec![BTreeMap::new(); nread] });
    }
    // all sets observed in every collection, or a changing subset
    let steady = r.bool();
    let rounds = 2 + r.idx(9);
    let mut log = String::new();
    let mut bufs: Vec<_> = readers.iter().map(|_| R::rm()).collect();
    let reuse = r.bool();
    for _ in 0..rounds {
        let which = r.idx(nread);
        log += &format!(" |C{which}:");
        let mut want: Vec<BTreeMap<String, Num>> = vec![BTreeMap::new(); ninst];
        let before: Vec<Vec<u64>> = st.iter().map(|s| s.cbs.iter().map(|c| c.runs.load(SeqCst)).collect()).collect();
        for (i, s) in st.iter_mut().enumerate() {
            let mut scripts: Vec<Vec<(Vec<KeyValue>, Num)>> = s.cbs.iter().map(|_| vec![]).collect();
            for j in 0..s.sets.len() {
                if !steady && r.chance(1, 3) {
                    continue;
                }
                let v = match (s.kind, s.cur[j]) {
                    (OK::CU, Num::U(x)) => Num::U(x + *r.pick(&[0, 1, 7, 1000, 1 << 40])),
                    (OK::CF, Num::F(x)) => Num::F(x + r.below(800) as f64 / 8.0),
                    (OK::UI, _) => Num::I(r.range(-(1 << 60), 1 << 60)),
                    (OK::UF, _) => Num::F(r.range(-1 << 20, 1 << 20) as f64 / 8.0),
                    (OK::GU, _) => Num::U(r.u64()),
                    (OK::GI, _) => Num::I(r.i64_edge()),
                    _ => Num::F(r.f64_edge(true)),
                };
                s.cur[j] = v;
                let attrs = restore(r, &s.sets[j]);
                if log.len() < 4000 {
                    log += &format!(" o{i}[{}]={v:?}", attrs.iter().map(|k| k.key.to_string()).collect::<Vec<_>>().join(","));
                }
                want[i].insert(akey(&attrs), v);
                let w = r.idx(scripts.len());
                scripts[w].push((attrs, v));
            }
            for (cb, sc) in s.cbs.iter().zip(scripts) {
                *cb.script.lock().unwrap() = sc;
            }
        }
        let snap = if reuse { readers[which].snap_into(&mut bufs[which]) } else { readers[which].snap() };
        let Ok(snap) = snap else {
            c.fail("collect-error", format!("collect failed;{log}"));
            return;
        };
        c.count("collections", 1);
        let two = if nread > 1 { "multi-reader-" } else { "" };
        for (i, s) in st.iter_mut().enumerate() {
            for (j, cb) in s.cbs.iter().enumerate() {
                let n = cb.runs.load(SeqCst) - before[i][j];
                c.check(n == 1, "callback-runs", || format!("callback {j} of {:?} ran {n} times in one collection;{log}", s.kind));
                c.count("callback_runs", n);
            }
            let got = snap.named(&format!("o{i}"));
            let t = temps[which];
            let delta = s.kind.delta(t);
            let strict = delta || s.kind.gauge();
            if want[i].is_empty() {
                if strict {
                    c.check(got.is_empty(), &format!("{two}unobserved-set"), || format!("{:?} {t:?} reader reports {got:?} though nothing was observed;{log}", s.kind));
                }
                s.prev[which].clear();
                continue;
            }
            if !c.check(got.len() == 1, "metric-count", || format!("{:?} o{i} reported {} times;{log}", s.kind, got.len())) {
                continue;
            }
            let g = got[0];
            if twin == Some(i) {
                let tw = snap.named(&format!("o{i}.twin"));
                c.check(tw.len() == 1 && tw[0].pts == g.pts && tw[0].kind == g.kind && tw[0].delta == g.delta, "view-twin", || format!("{:?} o{i} with two views: one stream {:?}, the other {:?};{log}", s.kind, g.pts, tw.iter().map(|t| &t.pts).collect::<Vec<_>>()));
                c.count("twin_streams", 1);
            }
            c.check(g.kind == s.kind.kind() && g.ty == s.kind.ty() && g.unit == format!("uo{i}") && g.desc == format!("do{i}") && g.scope.starts_with(&format!("m{}", i % nmeters)), "metadata", || format!("{:?} o{i}: {g:?};{log}", s.kind));
            if let Some(d) = g.delta {
                c.check(d == delta, "temporality", || format!("{:?} on {t:?}: delta={d}", s.kind));
            }
            c.check(g.dups.is_empty(), "duplicate-points", || format!("{:?} {:?};{log}", s.kind, g.dups));
            for (k, v) in &want[i] {
                c.count("points_compared", 1);
                let w = if delta {
                    match (s.prev[which].get(k), s.ever[which].get(k)) {
                        (Some(p), _) => sub(*v, *p),
                        (None, None) => *v,
                        // observed before, but not in the previous collection: not specified
                        (None, Some(_)) => continue,
                    }
                } else {
                    *v
                };
                let p = g.pts.get(k);
                c.check(p == Some(&Pt::Num(w)), if delta { "delta-value" } else { "value" }, || {
                    format!("{:?} {t:?} reader [{k}]: got {p:?}, want {w:?} (observed {v:?}, previous {:?});{log}", s.kind, s.prev[which].get(k))
                });
            }
            for k in g.pts.keys() {
                if strict {
                    c.check(want[i].contains_key(k), &format!("{two}unobserved-set"), || format!("{:?} {t:?} reader {which} of {nread} reports [{k}] which was not observed in this collection;{log}", s.kind));
                } else {
                    c.check(nread > 1 || want[i].contains_key(k) || s.ever[which].contains_key(k), "phantom-set", || format!("{:?} [{k}];{log}", s.kind));
                }
            }
            s.prev[which] = want[i].clone();
            let w = want[i].clone();
            s.ever[which].extend(w);
        }
    }
    c.seen(h64(&log), true);
    c.sample(|| format!("readers {temps:?} steady {steady}:{log}"));
}

/// which sets the n-th run of a callback observes: the first one and some of the others
fn chosen(n: u64, nsets: usize) -> Vec<usize> {
    (0..nsets).filter(|j| *j == 0 || h64(&(n, *j)) % 2 == 0).collect()
}
/// collections that overlap, of one reader and of several: each has its own run of every callback
/// and reports just what that run observed
fn overlapping(c: &Case, r: &mut Rng) {
    let nread = 1 + r.idx(2);
    let temps: Vec<Temporality> = (0..nread).map(|_| temporality_of(r.u64())).collect();
    let readers: Vec<R> = temps.iter().map(|t| R::new(*t)).collect();
    let mut b = SdkMeterProvider::builder();
    for x in &readers {
        b = b.with_reader(x.clone());
    }
    let mp = b.build();
    let m = mp.meter("m");
    let nsets = 1 + r.idx(4);
    let sets = attr_sets(r, nsets, false);
    let nsets = sets.len();
    let keys: Vec<String> = sets.iter().map(|s| akey(s)).collect();
    let sets = Arc::new(sets);
    let runs: Vec<Arc<AtomicU64>> = (0..3).map(|_| Arc::default()).collect();
    let slow = r.bool();
    macro_rules! obs {
        ($f:ident, $name:expr, $i:expr, $t:ty) => {{
            let (n, sets) = (runs[$i].clone(), sets.clone());
            let _ = m
                .$f($name)
                .with_callback(move |o| {
                    let n = n.fetch_add(1, SeqCst) + 1;
                    for j in chosen(n, sets.len()) {
                        o.observe(n as $t, &sets[j]);
                        if slow {
                            std::thread::yield_now();
                        }
                    }
                })
                .build();
        }};
    }
    obs!(u64_observable_counter, "c", 0, u64);
    obs!(i64_observable_up_down_counter, "u", 1, i64);
    obs!(f64_observable_gauge, "g", 2, f64);
    let threads = 1 + r.idx(3) + (nread == 1) as usize;
    let rounds = 4 + r.idx(20);
    let busy = r.bool();
    let _inj = r.bool().then(|| perturb::Injector::start(r.u64(), 200));
    let stop = std::sync::atomic::AtomicBool::new(false);
    let all: Vec<(usize, Result<Snap, String>)> = std::thread::scope(|sc| {
        if busy {
            let (m, stop) = (&m, &stop);
            sc.spawn(move || {
                let k = m.u64_counter("sync").build();
                while !stop.load(SeqCst) {
                    k.add(1, &[]);
                    std::thread::yield_now();
                }
            });
        }
        let hs: Vec<_> = readers
            .iter()
            .enumerate()
            .flat_map(|(i, rd)| (0..threads).map(move |_| (i, rd.clone())))
            .map(|(i, rd)| {
                sc.spawn(move || {
                    let mut buf = R::rm();
                    (0..rounds).map(|n| (i, if n % 2 == 0 { rd.snap_into(&mut buf) } else { rd.snap() })).collect::<Vec<_>>()
                })
            })
            .collect();
        let l = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
        stop.store(true, SeqCst);
        l
    });
    let total = all.len() as u64;
    for (i, n) in runs.iter().enumerate() {
        let n = n.load(SeqCst);
        c.check(n == total, "overlap-callback-runs", || format!("callback {i} ran {n} times in {total} collections ({nread} readers, {threads} threads each)"));
    }
    let mut seen = [vec![], vec![]];
    let mut sums = vec![0u64; nread];
    for (i, snap) in &all {
        let Ok(snap) = snap else {
            c.fail("collect-error", format!("{snap:?}"));
            return;
        };
        let what = |n: &str| {
            let l = snap.named(n);
            if l.len() == 1 {
                Some(&l[0].pts)
            } else {
                c.fail("overlap-metric-count", format!("{n} reported {} times by a {:?} reader ({nread} readers, {threads} threads each)", l.len(), temps[*i]));
                None
            }
        };
        let (Some(pc), Some(pu), Some(pg)) = (what("c"), what("u"), what("g")) else { return };
        // gauge: one run, whole and alone
        let Some(Pt::Num(v)) = pg.get(&keys[0]) else {
            c.fail("overlap-gauge", format!("no point [{}]: {pg:?}", keys[0]));
            return;
        };
        let n = v.f() as u64;
        let want: BTreeMap<String, Pt> = chosen(n, nsets).into_iter().map(|j| (keys[j].clone(), Pt::Num(Num::F(n as f64)))).collect();
        c.check(*pg == want, "overlap-gauge", || format!("a collection reports {pg:?}, which no run of the callback observed (run {n}: {want:?})"));
        seen[0].push(n);
        // up-down counter: cumulative, but what this run observed is there
        let Some(Pt::Num(v)) = pu.get(&keys[0]) else {
            c.fail("overlap-updown", format!("no point [{}]: {pu:?}", keys[0]));
            return;
        };
        let n = v.f() as u64;
        c.check(chosen(n, nsets).into_iter().all(|j| pu.get(&keys[j]) == Some(&Pt::Num(Num::I(n as i64)))), "overlap-updown", || format!("a collection reports {pu:?} for run {n}, which observed {:?}", chosen(n, nsets)));
        seen[1].push(n);
        match pc.get(&keys[0]) {
            Some(Pt::Num(Num::U(v))) if temps[*i] == Temporality::Delta => sums[*i] = sums[*i].wrapping_add(*v),
            Some(Pt::Num(Num::U(v))) => sums[*i] = sums[*i].max(*v),
            p => c.fail("overlap-counter", format!("no point [{}]: {p:?}", keys[0])),
        }
        c.count("overlapping_collections", 1);
    }
    for (what, l) in ["gauge", "updown"].iter().zip(&mut seen) {
        l.sort();
        c.check(l.iter().copied().eq(1..=total), &format!("overlap-{what}-runs"), || format!("{total} collections report the runs {l:?}: each should report its own"));
    }
    c.check(sums.iter().max() == Some(&total) && sums.iter().all(|s| *s <= total), "overlap-counter-total", || format!("the callback's last value was {total}; added up the readers ({temps:?}) report {sums:?}"));
    c.seen(h64(&(&temps, threads, rounds, nsets, all.iter().map(|x| x.0).collect::<Vec<_>>())), true);
}

/// several threads create observables within nanoseconds of each other: all of them report
fn together(c: &Case, r: &mut Rng) {
    let nt = 2 + r.idx(3);
    let per = 40;
    let rd = R::new(Temporality::Cumulative);
    let mp = SdkMeterProvider::builder().with_reader(rd.clone()).build();
    let same = r.bool();
    let here = AtomicU64::new(0);
    let collecting = r.bool();
    std::thread::scope(|s| {
        for t in 0..nt {
            let (mp, here, rd) = (&mp, &here, rd.clone());
            let mut r = Rng::new(r.u64(), t as u64);
            s.spawn(move || {
                let m = mp.meter(if same || t == 0 { "m" } else { "other" });
                for k in 0..per {
                    let spin = r.below(60);
                    here.fetch_add(1, SeqCst);
                    let mut n = 0u64;
                    while here.load(SeqCst) < (nt * (k + 1)) as u64 {
                        n += 1;
                        if n % 4000 == 0 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    for _ in 0..spin {
                        std::hint::spin_loop();
                    }
                    let (name, v) = (format!("o{t}_{k}"), (t * 1000 + k) as u64 + 1);
                    match r.idx(3) {
                        0 => drop(m.u64_observable_counter(name).with_callback(move |o| o.observe(v, &[])).build()),
                        1 => drop(m.i64_observable_up_down_counter(name).with_callback(move |o| o.observe(v as i64, &[])).build()),
                        _ => drop(m.f64_observable_gauge(name).with_callback(move |o| o.observe(v as f64, &[])).build()),
                    }
                    if collecting && t == 0 && k % 8 == 0 {
                        let _ = rd.snap();
                    }
                }
            });
        }
    });
    let snap = match rd.snap() {
        Ok(s) => s,
        Err(e) => return c.fail("collect-error", e),
    };
    for t in 0..nt {
        for k in 0..per {
            let l = snap.named(&format!("o{t}_{k}"));
            let got: Vec<f64> = l
                .iter()
                .flat_map(|m| m.pts.values())
                .map(|p| match p {
                    Pt::Num(v) => v.f(),
                    _ => f64::NAN,
                })
                .collect();
            c.check(got == [(t * 1000 + k + 1) as f64], "together-lost", || format!("observable o{t}_{k}, created by thread {t} of {nt} creating at once, reports {got:?}, not {}", t * 1000 + k + 1));
            c.count("created_together", 1);
        }
    }
    c.seen(h64(&(c.idx, nt)), true);
}

pub fn run(ctx: &Ctx) {
    ctx.require("created_together", 1000);
    ctx.section("together", 0.1, 1, 10, together);
    ctx.require("points_compared", 1000);
    ctx.require("crowded", 3);
    ctx.require("overlapping_collections", 500);
    ctx.section("overlapping", 0.2, 4, 20, overlapping);
    ctx.section("one-reader", 0.35, 6, 200, |c, r| run_case(c, r, 1));
    ctx.section("many-readers", 0.35, 6, 100, |c, r| {
        let n = 2 + r.idx(2);
        run_case(c, r, n)
    });
}
