//! M02: one thread, arbitrary history of measurements and collections by several
//! readers, differential against a reference aggregation.
use hsdk::mlib::*;
use hsdk::*;
use opentelemetry::metrics::MeterProvider;
use opentelemetry_sdk::metrics::*;
use std::collections::BTreeMap;

struct Model {
    scope: String,
    ik: IK,
    bounds: Vec<f64>,
    acc: BTreeMap<String, Acc>,
}

pub fn run(ctx: &Ctx) {
    ctx.require("points_compared", 1000);
    ctx.require("collections", 200);
    ctx.require("conflicting_lists", 500);
    ctx.section("conflicting-keys", 0.1, 4, 100, conflicting);
    ctx.section("history", 0.9, 6, 200, |c, r| {
        let nread = 1 + r.idx(3);
        let temps: Vec<Temporality> = (0..nread).map(|_| temporality_of(r.u64())).collect();
        let readers: Vec<R> = temps.iter().map(|t| R::new(*t)).collect();
        let mut b = SdkMeterProvider::builder();
        for x in &readers {
            b = b.with_reader(x.clone());
        }
        let mp = b.build();
        let meters = [mp.meter("m0"), mp.meter("m1"), mp.meter("m2")];
        let nmeters = 1 + r.idx(3);
        let ninst = 1 + r.idx(6);
        let mut insts = vec![];
        let mut models: Vec<Vec<Model>> = (0..nread).map(|_| vec![]).collect();
        for i in 0..ninst {
            let ik = *r.pick(&ALL_IK);
            let bounds: Option<Vec<f64>> = if ik.is_hist() && r.bool() {
                let n = r.idx(8);
                let mut v: Vec<f64> = (0..n).map(|_| r.range(-4000, 40000) as f64 / 4.0).collect();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                v.dedup();
                if r.chance(1, 6) {
                    v.push(1e15);
                }
                Some(v)
            } else {
                None
            };
            let real = bounds.clone().unwrap_or(DEFAULT_BOUNDS.to_vec());
            insts.push((ik, ik.build(&meters[i % nmeters], format!("i{i}"), &format!("d{i}"), &format!("u{i}"), None, bounds)));
            for m in &mut models {
                m.push(Model { ik, scope: format!("m{}", i % nmeters), bounds: real.clone(), acc: BTreeMap::new() });
            }
        }
        let nsets = r.size_near(6, 12).max(1);
        let with_empty = r.bool();
        let sets = attr_sets(r, nsets, with_empty);
        let mut bufs: Vec<_> = readers.iter().map(|_| R::rm()).collect();
        let reuse = r.bool();
        let ops = 10 + r.idx(150);
        let pcollect = 1 + r.below(20);
        let mut trace = String::new();
        let mut recorded = 0u64;
        let mut compared = 0u64;
        let mut collects = 0u64;
        for step in 0..ops {
            if step + 1 == ops || r.chance(pcollect, 60) {
                let which = r.idx(nread);
                let times = if r.chance(1, 5) { 2 } else { 1 };
                for _ in 0..times {
                    let snap = if reuse { readers[which].snap_into(&mut bufs[which]) } else { readers[which].snap() };
                    collects += 1;
                    trace += &format!(" C{which}");
                    let snap = match snap {
                        Ok(s) => s,
                        Err(e) => {
                            c.fail("collect-error", format!("collect failed: {e}; {trace}"));
                            return;
                        }
                    };
                    compared += compare(c, &snap, temps[which], &mut models[which], &trace);
                }
            } else {
                let i = r.idx(ninst);
                let s = r.idx(sets.len());
                let v = insts[i].0.value(r);
                let attrs = restore(r, &sets[s]);
                insts[i].1.record(v, &attrs);
                recorded += 1;
                if trace.len() < 6000 {
                    trace += &format!(" i{i}.{:?}({v:?},{})", insts[i].0, akey(&attrs));
                }
                for m in &mut models {
                    let md = &mut m[i];
                    let nb = md.bounds.len() + 1;
                    let bounds = md.bounds.clone();
                    md.acc.entry(akey(&attrs)).or_insert_with(|| Acc::new(v, nb)).add(v, &bounds);
                }
            }
        }
        c.count("measurements", recorded);
        c.count("collections", collects);
        c.count("points_compared", compared);
        c.seen(h64(&trace), recorded > 0 && collects > 1 && compared > 0);
        c.sample(|| format!("readers {temps:?}:{trace}"));
    });
}

fn compare(c: &Case, snap: &Snap, t: Temporality, models: &mut [Model], trace: &str) -> u64 {
    let mut n = 0;
    let mut expected_metrics = 0;
    for (i, m) in models.iter_mut().enumerate() {
        let name = format!("i{i}");
        let delta = m.ik.is_delta(t);
        let got = snap.named(&name);
        if m.acc.is_empty() {
            c.check(got.is_empty(), "phantom-metric", || format!("{:?} {name} reported {:?} though nothing was recorded; {trace}", m.ik, got));
            continue;
        }
        expected_metrics += 1;
        if !c.check(got.len() == 1, "metric-count", || format!("{:?} {name} reported {} times, reader {t:?}; {trace}", m.ik, got.len())) {
            continue;
        }
        let g = got[0];
        c.check(g.kind == m.ik.kind() && g.ty == m.ik.ty(), "kind", || format!("{:?} reported as {:?}/{}", m.ik, g.kind, g.ty));
        c.check(g.desc == format!("d{i}") && g.unit == format!("u{i}"), "meta", || format!("description and unit of {name}: {g:?}; {trace}"));
        c.check(g.scope.starts_with(&m.scope), "scope", || format!("{name} of meter {} reported under {:?}; {trace}", m.scope, g.scope));
        if let Some(d) = g.delta {
            c.check(d == delta, "temporality", || format!("{:?} on {t:?} reader reported delta={d}", m.ik));
        }
        c.check(g.dups.is_empty(), "duplicate-points", || format!("{:?} sets reported twice {:?}; {trace}", m.ik, g.dups));
        for (k, a) in &m.acc {
            n += 1;
            match g.pts.get(k) {
                None => c.fail("missing-point", format!("{:?} reader {t:?}: no point for [{k}], want {:?}; got {:?}; {trace}", m.ik, a.point(m.ik, &m.bounds), g.pts)),
                Some(p) => {
                    let w = a.point(m.ik, &m.bounds);
                    c.check(*p == w, "wrong-point", || format!("{:?} reader {t:?} [{k}]: got {p:?}, want {w:?}; {trace}", m.ik));
                }
            }
        }
        for k in g.pts.keys() {
            c.check(m.acc.contains_key(k), "extra-point", || format!("{:?} reader {t:?}: unexpected point [{k}] {:?}; {trace}", m.ik, g.pts[k]));
        }
        if delta {
            m.acc.clear();
        }
    }
    c.check(snap.mets.len() == expected_metrics, "metric-total", || format!("{} metrics reported, {expected_metrics} expected; {trace}", snap.mets.len()));
    c.check(snap.empty_scopes == 0, "empty-scope", || "a scope without metrics was reported".to_string());
    n
}

/// Attribute lists giving one key several values: which value stays is the SDK's choice,
/// but keys are unique, no measurement is lost and a list always counts to one point.
fn conflicting(c: &Case, r: &mut Rng) {
    use opentelemetry::KeyValue;
    let temp = temporality_of(r.u64());
    let rd = R::new(temp);
    let mp = SdkMeterProvider::builder().with_reader(rd.clone()).build();
    let ik = *r.pick(&[IK::CU, IK::CF, IK::UI, IK::HU]);
    let inst = ik.build(&mp.meter("m"), "i".into(), "", "", None, None);
    let nl = 1 + r.idx(5);
    let lists: Vec<Vec<KeyValue>> = (0..nl)
        .map(|l| {
            let top = if r.chance(1, 8) { 40 } else { 5 };
            let n = 2 + r.idx(top);
            let ks = 1 + r.idx(n);
            (0..n).map(|_| KeyValue::new(format!("k{}", r.idx(ks)), (l * 100 + r.idx(20)) as i64)).chain([KeyValue::new("list", l as i64)]).collect()
        })
        .collect();
    let rounds = 1 + r.idx(3);
    let mut total = vec![0u64; nl];
    let mut seen: Vec<std::collections::BTreeSet<String>> = vec![Default::default(); nl];
    for _ in 0..rounds {
        let mut now = vec![0u64; nl];
        for _ in 0..1 + r.idx(20) {
            let l = r.idx(nl);
            let v = match ik {
                IK::CF => Num::F(1.0),
                IK::UI => Num::I(1),
                _ => Num::U(1),
            };
            inst.record(v, &lists[l]);
            now[l] += 1;
            total[l] += 1;
        }
        c.count("conflicting_lists", now.iter().filter(|n| **n > 0).count() as u64);
        let Ok(snap) = rd.snap() else { return c.fail("collect-error", "collect") };
        let mut got = vec![0u64; nl];
        for m in &snap.mets {
            for (raw, (k, p)) in m.raw.iter().map(|a| (a, akey(a))).filter_map(|(a, k)| m.pts.get(&k).map(|p| (a, (k, p)))) {
                let keys: std::collections::BTreeSet<&str> = raw.iter().map(|kv| kv.key.as_str()).collect();
                if !c.check(keys.len() == raw.len(), "repeated-key", || format!("a point has the attributes {raw:?}; lists {lists:?}")) {
                    return;
                }
                let l = raw.iter().find(|kv| kv.key.as_str() == "list").and_then(|kv| if let opentelemetry::Value::I64(x) = kv.value { Some(x as usize) } else { None });
                let Some(l) = l.filter(|l| *l < nl) else { return c.fail("wrong-attributes", format!("{raw:?}; lists {lists:?}")) };
                let want: std::collections::BTreeSet<&str> = lists[l].iter().map(|kv| kv.key.as_str()).collect();
                if !c.check(keys == want && raw.iter().all(|kv| lists[l].contains(kv)), "wrong-attributes", || format!("a point has {raw:?} for the list {:?}", lists[l])) {
                    return;
                }
                seen[l].insert(k);
                got[l] += match p {
                    Pt::Num(n) => n.f() as u64,
                    Pt::Hist { count, .. } => *count,
                    _ => 0,
                };
            }
        }
        let want = if ik.is_delta(temp) { &now } else { &total };
        if !c.check(&got == want, "conflicting-lost", || format!("{ik:?} {temp:?}: {want:?} measurements per list, reported {got:?}; lists {lists:?}")) {
            return;
        }
    }
    c.check(seen.iter().all(|s| s.len() <= 1), "list-split", || format!("one list was reported under several attribute sets: {seen:?}; lists {lists:?}"));
    c.seen(h64(&format!("{ik:?}{lists:?}{total:?}")), true);
}
