//! M01: conservation of measurements under concurrent recording and collection.
use hsdk::mlib::*;
use hsdk::perturb::Injector;
use hsdk::*;
use opentelemetry::metrics::MeterProvider;
use opentelemetry::KeyValue;
use opentelemetry_sdk::metrics::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

/// in units of 1/8 so that float instruments stay exact
fn units(v: Num) -> i64 {
    match v {
        Num::U(x) => x as i64 * 8,
        Num::I(x) => x * 8,
        Num::F(x) => (x * 8.0) as i64,
    }
}
fn small(ik: IK, r: &mut Rng) -> Num {
    match ik.ty() {
        'u' => Num::U(r.below(200)),
        'i' => Num::I(r.range(-100, 100)),
        _ => Num::F(if ik.is_updown() { r.range(-800, 800) } else { r.range(0, 1600) } as f64 / 8.0),
    }
}
#[derive(Default)]
struct Cell {
    started_n: AtomicU64,
    done_n: AtomicU64,
    started_v: AtomicI64,
    done_v: AtomicI64,
}
/// what one point contributes: (count if known, value in units)
#[derive(Default, Clone, Copy, Debug)]
struct Got {
    n: u64,
    v: i64,
}

pub fn run(ctx: &Ctx) {
    ctx.require("collections_overlapping_recording", 50);
    ctx.require("measurements", 10_000);
    {
        let _inj = Injector::start(ctx.seed, 120);
        ctx.section("perturbed", 0.5, 2, 30, |c, r| case(c, r));
    }
    ctx.section("free-running", 0.3, 2, 30, |c, r| case(c, r));
    ctx.require("one_shot_races", 1000);
    ctx.section("one-shot", 0.2, 2, 10, |c, r| one_shot(c, r));
    ctx.count("preemptions_injected", perturb::PREEMPTIONS.load(SeqCst));
}

fn case(c: &Case, r: &mut Rng) {
    let nthr = 2 + r.idx(4);
    let per = *r.pick(&[60usize, 300, 1200]);
    let nsets = *r.pick(&[1usize, 2, 4, 8, 20]);
    let with_empty = r.bool();
    let sets = Arc::new(attr_sets(r, nsets, with_empty));
    let limit = match r.below(4) {
        0 => Some(1 + r.idx(sets.len() + 1)),
        1 => Some(sets.len()),
        _ => None,
    };
    let iks: Vec<IK> = (0..1 + r.idx(3)).map(|_| *r.pick(&[IK::CU, IK::CF, IK::UI, IK::UF, IK::HU, IK::HF, IK::CU, IK::HU])).collect();
    // a fixed value per (instrument, set) ties sum and count together
    let fixed = r.bool();
    let fixed_vals: Vec<Vec<Num>> = iks.iter().map(|ik| sets.iter().map(|_| small(*ik, r)).collect()).collect();
    let delta_t = if r.bool() { Temporality::Delta } else { Temporality::LowMemory };
    let readers: Vec<(R, Temporality)> = match r.below(3) {
        0 => vec![(R::new(delta_t), delta_t)],
        1 => vec![(R::new(Temporality::Cumulative), Temporality::Cumulative)],
        _ => vec![(R::new(delta_t), delta_t), (R::new(Temporality::Cumulative), Temporality::Cumulative)],
    };
    let mut b = SdkMeterProvider::builder();
    for (x, _) in &readers {
        b = b.with_reader(x.clone());
    }
    let mp = b.build();
    let create_in_threads = r.chance(1, 3);
    let two_collectors = r.chance(1, 3);
    let shared: Arc<Vec<Inst>> = Arc::new(if create_in_threads {
        vec![]
    } else {
        let m = mp.meter("m");
        iks.iter().enumerate().map(|(i, k)| k.build(&m, format!("i{i}"), "", "", limit, None)).collect()
    });
    let cells: Arc<Vec<Vec<Cell>>> = Arc::new(iks.iter().map(|_| sets.iter().map(|_| Cell::default()).collect()).collect());
    let setkeys: Vec<String> = sets.iter().map(|s| akey(s)).collect();
    let overflow = akey(&[KeyValue::new("otel.metric.overflow", true)]);
    let running = AtomicBool::new(true);
    let gate = Barrier::new(nthr + readers.len() * if two_collectors { 2 } else { 1 });
    // accumulated per reader, instrument, set
    type Acc = BTreeMap<(usize, String), Got>;
    let accs: Vec<Mutex<Acc>> = readers.iter().map(|_| Mutex::new(Acc::new())).collect();
    let sig = AtomicU64::new(0);
    let overlapping = AtomicU64::new(0);
    let collections = AtomicU64::new(0);
    let seeds: Vec<u64> = (0..nthr + 8).map(|_| r.u64()).collect();
    let limit_hit = limit.is_some_and(|l| setkeys.iter().filter(|k| !k.is_empty()).count() > l);

    let collect = |ri: usize, last: bool, two: bool| {
        let (rd, t) = &readers[ri];
        let done0: Vec<Vec<(u64, i64)>> = cells.iter().map(|v| v.iter().map(|c| (c.done_n.load(SeqCst), c.done_v.load(SeqCst))).collect()).collect();
        let was_running = running.load(SeqCst);
        // with two collectors on one reader, the accumulated state is only meaningful when both are quiet
        let snap = match rd.snap() {
            Ok(s) => s,
            Err(e) => {
                c.fail("collect-error", format!("collect failed while the provider is alive: {e}"));
                return;
            }
        };
        let st1: Vec<Vec<(u64, i64)>> = cells.iter().map(|v| v.iter().map(|c| (c.started_n.load(SeqCst), c.started_v.load(SeqCst))).collect()).collect();
        collections.fetch_add(1, SeqCst);
        if was_running {
            overlapping.fetch_add(1, SeqCst);
        }
        let mut acc = accs[ri].lock().unwrap();
        for (i, ik) in iks.iter().enumerate() {
            let name = format!("i{i}");
            let ms = snap.named(&name);
            if ms.len() > 1 {
                c.fail("stream-twice", format!("{ik:?} {name} reported {} times in one collection", ms.len()));
                return;
            }
            let delta = ik.is_delta(*t);
            let mut cur: Acc = Acc::new();
            if let Some(m) = ms.first() {
                if !m.dups.is_empty() {
                    c.fail("duplicate-points", format!("{ik:?}: {:?}", m.dups));
                }
                if let Some(l) = limit {
                    c.check(m.npts <= l + 2, "over-limit", || format!("{ik:?}: {} points with limit {l}", m.npts));
                }
                for (k, p) in &m.pts {
                    if !setkeys.contains(k) && !(limit_hit && *k == overflow) {
                        c.fail("unknown-set", format!("{ik:?}: point for [{k}] which was never recorded"));
                    }
                    let g = match p {
                        Pt::Num(v) => Got { n: 0, v: units(*v) },
                        Pt::Hist { count, sum, min, max, buckets, .. } => {
                            let bs: u64 = buckets.iter().sum();
                            c.check(bs == *count, "hist-torn", || format!("{ik:?} [{k}] count {count} but buckets sum to {bs}"));
                            if *count > 0 {
                                if let (Some(mi), Some(ma)) = (min, max) {
                                    let (mi, ma, su) = (mi.f(), ma.f(), sum.f());
                                    c.check(mi <= ma && su >= mi * *count as f64 - 1e-6 && su <= ma * *count as f64 + 1e-6, "hist-torn", || {
                                        format!("{ik:?} [{k}] count {count} min {mi} max {ma} sum {su}")
                                    });
                                }
                                if fixed && *k != overflow {
                                    if let Some(si) = setkeys.iter().position(|x| x == k) {
                                        let w = units(fixed_vals[i][si]) * *count as i64;
                                        c.check(units(*sum) == w, "hist-torn", || format!("{ik:?} [{k}]: {count} values of {:?} but sum {sum:?}", fixed_vals[i][si]));
                                    }
                                }
                            }
                            Got { n: *count, v: units(*sum) }
                        }
                        _ => Got::default(),
                    };
                    cur.insert((i, k.clone()), g);
                    sig.store(sig.load(SeqCst).wrapping_mul(31) ^ h64(&(i, k, g.n, g.v)), SeqCst);
                }
            }
            // fold into the running totals
            if delta {
                for (k, g) in &cur {
                    let e = acc.entry(k.clone()).or_default();
                    e.n += g.n;
                    e.v += g.v;
                }
            } else {
                acc.retain(|k, _| k.0 != i);
                acc.extend(cur.clone());
            }
            // bounds, on totals over all sets (admission decides which set a value lands in when the limit is hit)
            if two {
                continue;
            }
            let tot: Got = acc.iter().filter(|(k, _)| k.0 == i).fold(Got::default(), |a, (_, g)| Got { n: a.n + g.n, v: a.v + g.v });
            let lo: (u64, i64) = done0[i].iter().fold((0, 0), |a, x| (a.0 + x.0, a.1 + x.1));
            let hi: (u64, i64) = st1[i].iter().fold((0, 0), |a, x| (a.0 + x.0, a.1 + x.1));
            if ik.is_hist() {
                c.check(tot.n <= hi.0, "reported-too-much", || format!("{ik:?} {t:?}: histogram count {} > {} started", tot.n, hi.0));
                c.check(delta || tot.n >= lo.0, "reported-too-little", || format!("{ik:?} {t:?}: histogram count {} < {} finished before", tot.n, lo.0));
            } else if ik.is_mono() {
                c.check(tot.v <= hi.1, "reported-too-much", || format!("{ik:?} {t:?}: total {} > {} (eighths)", tot.v, hi.1));
                c.check(delta || tot.v >= lo.1, "reported-too-little", || format!("{ik:?} {t:?}: total {} < {} (eighths)", tot.v, lo.1));
            }
            if last {
                c.check(tot.v == hi.1, "not-conserved", || {
                    format!("{ik:?} {t:?} reader: reported total {} eighths, recorded {}; limit {limit:?}, {} sets, {nthr} threads x {per}", tot.v, hi.1, sets.len())
                });
                if ik.is_hist() {
                    c.check(tot.n == hi.0, "not-conserved", || format!("{ik:?} {t:?}: reported {} values, recorded {}", tot.n, hi.0));
                }
                for (si, k) in setkeys.iter().enumerate() {
                    let g = acc.get(&(i, k.clone())).copied().unwrap_or_default();
                    let (n, v) = st1[i][si];
                    let exact = !limit_hit || k.is_empty();
                    if exact {
                        c.check(g.v == v && (!ik.is_hist() || g.n == n), "wrong-set", || {
                            format!("{ik:?} {t:?} [{k}]: reported {g:?}, recorded n={n} v={v} (eighths), limit {limit:?}")
                        });
                    } else if ik.is_hist() || ik.is_mono() {
                        c.check(g.v <= v && (!ik.is_hist() || g.n <= n), "wrong-set", || format!("{ik:?} {t:?} [{k}]: reported {g:?}, recorded only n={n} v={v}"));
                    }
                }
            }
        }
    };

    std::thread::scope(|s| {
        let mut hs = vec![];
        for th in 0..nthr {
            let (shared, cells, sets, iks, gate, seeds, fixed_vals, mp) = (shared.clone(), cells.clone(), sets.clone(), &iks, &gate, &seeds, &fixed_vals, &mp);
            hs.push(s.spawn(move || {
                let mut r = Rng::new(seeds[th], th as u64);
                let shuffled: Vec<Vec<Vec<KeyValue>>> = sets.iter().map(|s| (0..3).map(|_| restore(&mut r, s)).collect()).collect();
                gate.wait();
                let own: Vec<Inst> = if create_in_threads {
                    let m = mp.meter("m");
                    iks.iter().enumerate().map(|(i, k)| k.build(&m, format!("i{i}"), "", "", limit, None)).collect()
                } else {
                    vec![]
                };
                for _ in 0..per {
                    let i = r.idx(iks.len());
                    let si = r.idx(sets.len());
                    let v = if fixed { fixed_vals[i][si] } else { small(iks[i], &mut r) };
                    let cell = &cells[i][si];
                    cell.started_v.fetch_add(units(v), SeqCst);
                    cell.started_n.fetch_add(1, SeqCst);
                    let inst = if create_in_threads { &own[i] } else { &shared[i] };
                    inst.record(v, r.pick(&shuffled[si]));
                    cell.done_v.fetch_add(units(v), SeqCst);
                    cell.done_n.fetch_add(1, SeqCst);
                }
            }));
        }
        let mut cs = vec![];
        for ri in 0..readers.len() {
            for k in 0..if two_collectors { 2 } else { 1 } {
                let (collect, running, gate) = (&collect, &running, &gate);
                let seed = seeds[nthr + ri * 2 + k];
                cs.push(s.spawn(move || {
                    let mut r = Rng::new(seed, 5);
                    gate.wait();
                    while running.load(SeqCst) {
                        collect(ri, false, two_collectors);
                        match r.below(3) {
                            0 => std::thread::yield_now(),
                            1 => std::thread::sleep(std::time::Duration::from_micros(r.below(300))),
                            _ => {}
                        }
                    }
                }));
            }
        }
        for h in hs {
            let _ = h.join();
        }
        running.store(false, SeqCst);
        for h in cs {
            let _ = h.join();
        }
    });
    for ri in 0..readers.len() {
        collect(ri, true, false);
    }
    c.count("measurements", (nthr * per) as u64);
    c.count("collections", collections.load(SeqCst));
    c.count("collections_overlapping_recording", overlapping.load(SeqCst));
    c.seen(sig.load(SeqCst), overlapping.load(SeqCst) > 0);
    c.sample(|| format!("{iks:?} limit {limit:?} sets {setkeys:?} readers {:?} threads {nthr} x {per}, {} collections overlapped", readers.iter().map(|x| x.1).collect::<Vec<_>>(), overlapping.load(SeqCst)));
}

fn spin_until(a: &AtomicU64, v: u64) {
    let mut n = 0u32;
    while a.load(SeqCst) < v {
        n += 1;
        if n > 20_000 {
            std::thread::yield_now();
        }
        std::hint::spin_loop();
    }
}
/// Few measurements, each racing one delta collection, with no later measurement to
/// carry along what that collection missed: it and the next one report each exactly once.
fn one_shot(c: &Case, r: &mut Rng) {
    let t = if r.chance(2, 3) { Temporality::Delta } else { Temporality::LowMemory };
    let reader = R::new(t);
    let mp = SdkMeterProvider::builder().with_reader(reader.clone()).build();
    let m = mp.meter("m");
    let ni = 4 + r.idx(12);
    let iks: Vec<IK> = (0..ni).map(|_| *r.pick(&[IK::CU, IK::CF, IK::HU, IK::HF])).collect();
    let insts: Vec<Inst> = iks.iter().enumerate().map(|(i, k)| k.build(&m, format!("i{i}"), "", "", None, None)).collect();
    let nrec = 1 + r.idx(2);
    // which attribute sets the threads use: none, one common, one per episode
    let style = r.below(4);
    let rounds = 150u64;
    let go = AtomicU64::new(0);
    let finished = AtomicU64::new(0);
    let offs: Vec<u64> = (0..(nrec as u64 + 1) * rounds).map(|_| { let m = *r.pick(&[1u64, 60, 400, 1500]); r.below(m) }).collect();
    let spin = |n: u64| (0..n).for_each(|_| std::hint::spin_loop());
    let mut bad: Option<(String, String)> = None;
    let mut raced = 0u64;
    std::thread::scope(|s| {
        for k in 0..nrec {
            let (insts, iks, go, finished, offs, spin) = (&insts, &iks, &go, &finished, &offs, &spin);
            s.spawn(move || {
                for e in 1..=rounds {
                    let set = match (style, e % 2) {
                        (0, _) | (3, 0) => vec![],
                        (1, _) => vec![KeyValue::new("k", 1)],
                        _ => vec![KeyValue::new("z", e as i64), KeyValue::new("a", k as i64)],
                    };
                    spin_until(go, e);
                    spin(offs[(e - 1) as usize * (nrec + 1) + k]);
                    for (i, ik) in insts.iter().zip(iks) {
                        let v = match ik {
                            IK::CU | IK::HU => Num::U(1),
                            _ => Num::F(1.0),
                        };
                        i.record(v, &set);
                    }
                    finished.fetch_add(1, SeqCst);
                }
            });
        }
        for e in 1..=rounds {
            let mut got = vec![(0f64, 0u64); ni];
            let mut add = |snap: Snap| {
                for m in &snap.mets {
                    let i: usize = m.name[1..].parse().unwrap();
                    for p in m.pts.values() {
                        match p {
                            Pt::Num(v) => got[i].0 += v.f(),
                            Pt::Hist { count, sum, buckets, .. } => {
                                got[i].0 += sum.f();
                                got[i].1 += count;
                                if buckets.iter().sum::<u64>() != *count {
                                    got[i].1 += 1000;
                                }
                            }
                            _ => {}
                        }
                    }
                }
            };
            go.store(e, SeqCst);
            spin(offs[(e - 1) as usize * (nrec + 1) + nrec]);
            let during = finished.load(SeqCst) < e * nrec as u64;
            let a = reader.snap();
            spin_until(&finished, e * nrec as u64);
            let b = reader.snap();
            if t == Temporality::Delta || iks.iter().all(|k| k.is_mono() || k.is_hist()) {
                let (Ok(a), Ok(b)) = (a, b) else {
                    bad.get_or_insert(("collect-error".into(), "collect failed".into()));
                    continue;
                };
                let first = a.mets.len();
                add(a);
                add(b);
                raced += during as u64;
                for i in 0..ni {
                    let want = (nrec as f64, if iks[i].is_hist() { nrec as u64 } else { 0 });
                    if got[i] != want {
                        bad.get_or_insert(("one-shot-lost".into(), format!("{:?}: {nrec} threads record 1 once, racing a collection (which reported {first} of {ni} instruments); it and the next report {:?} in all, attribute style {style}, episode {e}", iks[i], got[i])));
                    }
                }
            }
        }
    });
    if let Some((k, d)) = bad {
        c.fail(&k, d);
    }
    c.count("one_shot_races", raced);
    c.seen(h64(&(ni, nrec, style, raced)), raced > 0);
}
