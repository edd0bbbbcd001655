//! M05: cardinality limits, exact model of admission.
use hsdk::mlib::*;
use hsdk::*;
use opentelemetry::metrics::MeterProvider;
use opentelemetry::KeyValue;
use opentelemetry_sdk::metrics::*;
use std::collections::BTreeMap;

#[derive(Default)]
struct Model {
    acc: BTreeMap<String, Acc>,
    admitted: usize,
}

pub fn run(ctx: &Ctx) {
    ctx.require("overflow_points", 50);
    ctx.section("sync", 0.7, 6, 200, |c, r| {
        let default_limit = c.idx % 40 == 7;
        let limit = if default_limit { 2000 } else { *r.pick(&[1usize, 2, 3, 5, 8, 0, 16]) };
        let via_view = !default_limit && r.chance(1, 3);
        let t = temporality_of(r.u64());
        let rd = R::new(t);
        let mut b = SdkMeterProvider::builder().with_reader(rd.clone());
        if via_view {
            b = b.with_view(move |i: &Instrument| Some(Stream::new().name(i.name.clone()).cardinality_limit(limit)));
        }
        let mp = b.build();
        let ik = *r.pick(&ALL_IK);
        let inst = ik.build(&mp.meter("m"), "i".into(), "", "", if via_view || default_limit { None } else { Some(limit) }, None);
        let delta = ik.is_delta(t);
        let nsets = if default_limit { 1995 + r.idx(12) } else { r.size_near(limit + 1, 30) + 1 };
        let with_empty = r.bool();
        let sets: Vec<Vec<KeyValue>> = if default_limit { (0..nsets).map(|i| vec![KeyValue::new("n", i as i64), KeyValue::new("b", true)]).collect() } else { attr_sets(r, nsets, with_empty) };
        let bounds = if ik.is_hist() { DEFAULT_BOUNDS.to_vec() } else { vec![] };
        let mut m = Model::default();
        let ov = akey(&[KeyValue::new("otel.metric.overflow", true)]);
        let ops = if default_limit { nsets * 2 } else { 5 + r.idx(120) };
        let pc = 1 + r.below(8);
        let mut log = String::new();
        let mut buf = R::rm();
        for step in 0..ops {
            let si = if default_limit { step % nsets } else { r.idx(sets.len()) };
            let v = ik.value(r);
            let attrs = restore(r, &sets[si]);
            inst.record(v, &attrs);
            let key = akey(&attrs);
            let k = if key.is_empty() || m.acc.contains_key(&key) {
                key
            } else if m.admitted < limit {
                m.admitted += 1;
                key
            } else {
                c.count("overflowed_measurements", 1);
                ov.clone()
            };
            m.acc.entry(k.clone()).or_insert_with(|| Acc::new(v, bounds.len() + 1)).add(v, &bounds);
            if log.len() < 3000 {
                log += &format!(" {v:?}->[{k}]");
            }
            if step + 1 == ops || (!default_limit && r.chance(pc, 100)) {
                let snap = if r.bool() { rd.snap_into(&mut buf) } else { rd.snap() };
                let Ok(snap) = snap else { return };
                log += " C";
                c.count("collections", 1);
                let Some(g) = snap.one("i") else {
                    c.fail("missing-metric", format!("{ik:?} not reported once; {log}"));
                    return;
                };
                let own = g.pts.keys().filter(|k| !k.is_empty() && **k != ov).count();
                c.check(own <= limit, "over-limit", || format!("{ik:?}: {own} attribute sets reported with limit {limit}; {log}"));
                c.check(g.dups.is_empty(), "duplicate-points", || format!("{:?}; {log}", g.dups));
                for (k, a) in &m.acc {
                    let w = a.point(ik, &bounds);
                    let got = g.pts.get(k);
                    if *k == ov {
                        c.count("overflow_points", 1);
                    }
                    c.check(got == Some(&w), if *k == ov { "overflow-point" } else { "own-point" }, || {
                        format!("{ik:?} {t:?} limit {limit} (view: {via_view}) [{k}]: got {got:?}, want {w:?}; {log}")
                    });
                }
                for k in g.pts.keys() {
                    c.check(m.acc.contains_key(k), "extra-point", || format!("{ik:?} {t:?} limit {limit}: unexpected [{k}]; {log}"));
                }
                c.seen(h64(&(ik, limit, &log)), m.acc.contains_key(&ov) || m.admitted == limit);
                if delta {
                    m = Model::default();
                }
            }
        }
        c.sample(|| format!("{ik:?} {t:?} limit {limit}:{log}"));
    });
    // observable instruments: the budget is spent in callback order, anew in each delta collection
    ctx.section("observable", 0.3, 6, 100, |c, r| {
        let limit = *r.pick(&[1usize, 2, 4, 7]);
        let n = r.size_near(limit, 14) + 1;
        let t = if r.bool() { Temporality::Delta } else { Temporality::Cumulative };
        let rd = R::new(t);
        let mp = SdkMeterProvider::builder().with_reader(rd.clone()).build();
        let ordered = r.bool();
        let _g = mp
            .meter("m")
            .u64_observable_gauge("g")
            .with_cardinality_limit(limit)
            .with_callback(move |o| {
                for i in 0..n {
                    let a = if ordered { vec![KeyValue::new("a", 1i64), KeyValue::new("i", i as i64)] } else { vec![KeyValue::new("i", i as i64), KeyValue::new("a", 1i64)] };
                    o.observe(i as u64 + 1, &a);
                }
            })
            .build();
        for _ in 0..3 {
            let Ok(s) = rd.snap() else { return };
            let Some(g) = s.one("g") else {
                c.fail("missing-metric", "observable gauge not reported".to_string());
                return;
            };
            let ov = akey(&[KeyValue::new("otel.metric.overflow", true)]);
            let own = g.pts.keys().filter(|k| **k != ov).count();
            c.check(own == n.min(limit), "over-limit", || format!("observable gauge: {own} sets reported, limit {limit}, {n} observed"));
            for i in 0..n.min(limit) {
                let k = akey(&[KeyValue::new("a", 1i64), KeyValue::new("i", i as i64)]);
                c.check(g.pts.get(&k) == Some(&Pt::Num(Num::U(i as u64 + 1))), "own-point", || format!("[{k}] {:?}", g.pts));
            }
            c.check(g.pts.contains_key(&ov) == (n > limit), "overflow-point", || format!("limit {limit}, {n} sets: {:?}", g.pts));
            if n > limit {
                c.count("overflow_points", 1);
                c.check(g.pts.get(&ov) == Some(&Pt::Num(Num::U(n as u64))), "overflow-point", || format!("limit {limit}, {n} sets: {:?}", g.pts));
            }
            c.seen(h64(&("obs", limit, n, t == Temporality::Delta, ordered)), true);
        }
    });
}
