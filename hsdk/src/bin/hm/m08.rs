//! M08: which measurements share a stream. Instruments are created again and again under
//! identities drawn from a small colliding pool (also from several threads at once), plus
//! invalid ones, and every collection is compared with a reference keyed by identity.
use hsdk::mlib::*;
use hsdk::*;
use opentelemetry::metrics::{Meter, MeterProvider};
use opentelemetry::{InstrumentationScope, KeyValue};
use opentelemetry_sdk::metrics::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Barrier, Mutex};

#[derive(Clone, Debug)]
struct Scope {
    name: String,
    version: Option<String>,
    schema: Option<String>,
    attrs: Vec<KeyValue>,
}
impl Scope {
    fn text(&self) -> String {
        format!("{}/{:?}/{:?}/{}", self.name, self.version, self.schema, akey(&self.attrs))
    }
    fn meter(&self, r: &mut Rng, mp: &SdkMeterProvider) -> Meter {
        let mut b = InstrumentationScope::builder(self.name.clone());
        if let Some(v) = &self.version {
            b = b.with_version(v.clone());
        }
        if let Some(v) = &self.schema {
            b = b.with_schema_url(v.clone());
        }
        if !self.attrs.is_empty() {
            b = b.with_attributes(restore(r, &self.attrs));
        } else if self.version.is_none() && self.schema.is_none() && r.bool() {
            return mp.meter(leak(&self.name));
        }
        mp.meter_with_scope(b.build())
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Id {
    scope: String,
    name: String,
    ik: IK,
    unit: String,
    desc: String,
}
struct St {
    names: BTreeSet<String>,
    acc: BTreeMap<String, Acc>,
}

fn name_ok(n: &str) -> bool {
    let b = n.as_bytes();
    (1..=255).contains(&b.len()) && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || b"_.-/".contains(c))
}
fn bounds_ok(b: &[f64]) -> bool {
    b.iter().all(|x| x.is_finite()) && b.windows(2).all(|w| w[0] < w[1])
}
fn flip(r: &mut Rng, n: &str) -> String {
    n.chars().map(|c| if r.chance(1, 3) { if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } } else { c }).collect()
}
fn gen_name(r: &mut Rng, base: &[String]) -> String {
    match r.below(14) {
        0 => match r.below(12) {
            0 => String::new(),
            1 => "1abc".into(),
            2 => "_abc".into(),
            3 => "a b".into(),
            4 => "a\u{e9}".into(),
            5 => "\u{e9}a".into(),
            6 => format!("x{}", "y".repeat(255)),
            7 => "a*".into(),
            8 => "a\0".into(),
            9 => "a:b".into(),
            10 => "-".into(),
            _ => {
                // one forbidden character anywhere
                let mut s: Vec<char> = base[0].chars().collect();
                let i = r.idx(s.len() + 1);
                s.insert(i, *r.pick(&['!', '@', ',', '+', '(', '\\', '\n', '\u{130}', '\u{212a}', '~', '`', '[', '{']));
                s.into_iter().collect()
            }
        },
        1 => format!("x{}", "y".repeat(254)),
        2 => {
            let mut s: String = (b'a' + r.below(26) as u8).to_string().replace(|c: char| c.is_ascii_digit(), "");
            s.push('q');
            for _ in 0..r.idx(6) {
                s.push(*r.pick(&['_', '.', '-', '/', '9', 'Z', 'k', '0']));
            }
            s
        }
        _ => {
            let n = r.pick(base).clone();
            flip(r, &n)
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.require("shared_streams", 200);
    ctx.require("invalid_created", 100);
    ctx.require("streams_compared", 1000);
    ctx.require("case_variants", 100);
    for (sec, share, par) in [("one-thread", 0.6, false), ("creation-races", 0.4, true)] {
        ctx.section(sec, share, if par { 2 } else { 6 }, 100, |c, r| {
            let temps: Vec<Temporality> = (0..1 + r.idx(2)).map(|_| temporality_of(r.u64())).collect();
            let readers: Vec<R> = temps.iter().map(|t| R::new(*t)).collect();
            let mut b = SdkMeterProvider::builder();
            for x in &readers {
                b = b.with_reader(x.clone());
            }
            let mp = b.build();
            let mut scopes: Vec<Scope> = vec![];
            for _ in 0..1 + r.idx(4) {
                let s = Scope {
                    name: r.pick(&["lib", "Lib", "lib2", "", " lib", "lib ", " "]).to_string(),
                    version: r.pick(&[None, Some("1"), Some("2"), Some("")]).map(String::from),
                    schema: r.pick(&[None, None, Some("http://s/1"), Some("")]).map(String::from),
                    attrs: match r.below(4) {
                        0 => vec![KeyValue::new("k", 1i64)],
                        1 => vec![KeyValue::new("k", 1i64), KeyValue::new("j", "x")],
                        2 => vec![KeyValue::new("k", 2i64)],
                        _ => vec![],
                    },
                };
                if !scopes.iter().any(|o| o.text() == s.text()) {
                    scopes.push(s);
                }
            }
            let base: Vec<String> = ["reqs", "Reqs.Total", "x/y-z_9", "A"].iter().take(1 + r.idx(4)).map(|s| s.to_string()).collect();
            let kinds: Vec<IK> = (0..1 + r.idx(4)).map(|_| *r.pick(&ALL_IK)).filter(|k| !par || !k.is_gauge()).chain([IK::CU]).collect();
            let nt = if par { 2 + r.idx(5) } else { 1 };
            let sets = attr_sets(r, 3, true);
            let rounds = if par { 1 } else { 1 + r.idx(3) };
            let states: Vec<Mutex<BTreeMap<Id, St>>> = readers.iter().map(|_| Mutex::new(BTreeMap::new())).collect();
            let log = Mutex::new(String::new());
            let invalid = std::sync::atomic::AtomicU64::new(0);
            let mut bufs: Vec<_> = readers.iter().map(|_| R::rm()).collect();
            let reuse = r.bool();
            let mut compared = 0;
            for round in 0..rounds {
                let barrier = Barrier::new(nt);
                let seeds: Vec<u64> = (0..nt).map(|_| r.u64()).collect();
                let res: Vec<Result<(), (String, String)>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = seeds
                        .iter()
                        .map(|seed| {
                            let (mp, scopes, base, kinds, sets, states, log, barrier, invalid) = (&mp, &scopes, &base, &kinds, &sets, &states, &log, &barrier, &invalid);
                            let work = move || {
                                let mut r = Rng::new(*seed, 8);
                                let mut held: Vec<(Option<Id>, String, Inst)> = vec![];
                                if par {
                                    barrier.wait();
                                }
                                for _ in 0..10 + r.idx(40) {
                                    if held.is_empty() || r.chance(1, 2) {
                                        let s = r.pick(scopes).clone();
                                        let ik = *r.pick(kinds);
                                        let name = gen_name(&mut r, base);
                                        let unit: String = match r.below(8) {
                                            0 => "\u{b5}s".into(),
                                            1 => "u".repeat(63 + r.idx(2)),
                                            2 | 3 => "ms".into(),
                                            4 => "MS".into(),
                                            _ => String::new(),
                                        };
                                        let desc = r.pick(&["", "", "d", "D"]).to_string();
                                        let bounds: Option<Vec<f64>> = if ik.is_hist() && r.chance(1, 6) {
                                            Some(r.pick(&[vec![2.0, 1.0], vec![1.0, 1.0], vec![f64::NAN], vec![0.0, f64::INFINITY], vec![f64::NEG_INFINITY, 0.0], vec![0.0, 5.0, 4.0]]).clone())
                                        } else {
                                            None
                                        };
                                        let ok = name_ok(&name) && unit.len() <= 63 && unit.is_ascii() && bounds.as_ref().map(|b| bounds_ok(b)).unwrap_or(true);
                                        let m = s.meter(&mut r, mp);
                                        let inst = ik.build(&m, name.clone(), &desc, &unit, None, bounds);
                                        let id = Id { scope: s.text(), name: name.to_ascii_lowercase(), ik, unit, desc };
                                        if !ok {
                                            invalid.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                        }
                                        held.push((if ok { Some(id.clone()) } else { None }, name.clone(), inst));
                                        // a stream keeps the name it was first created under
                                        if ok && !par {
                                            for st in states {
                                                st.lock().unwrap().entry(id.clone()).or_insert_with(|| St { names: [name.clone()].into(), acc: BTreeMap::new() });
                                            }
                                        } else if ok {
                                            for st in states {
                                                st.lock().unwrap().entry(id.clone()).or_insert_with(|| St { names: BTreeSet::new(), acc: BTreeMap::new() }).names.insert(name.clone());
                                            }
                                        }
                                    }
                                    let h = r.idx(held.len());
                                    let (id, name, inst) = &held[h];
                                    let set = restore(&mut r, &sets[h % sets.len()]);
                                    let ik = match inst {
                                        Inst::CU(_) => IK::CU,
                                        Inst::CF(_) => IK::CF,
                                        Inst::UI(_) => IK::UI,
                                        Inst::UF(_) => IK::UF,
                                        Inst::GU(_) => IK::GU,
                                        Inst::GI(_) => IK::GI,
                                        Inst::GF(_) => IK::GF,
                                        Inst::HU(_) => IK::HU,
                                        Inst::HF(_) => IK::HF,
                                    };
                                    let v = ik.value(&mut r);
                                    inst.record(v, &set);
                                    {
                                        let mut l = log.lock().unwrap();
                                        if l.len() < 5000 {
                                            *l += &match id {
                                                Some(id) => format!(" {}:{name}:{ik:?}:{}:{}={v:?}", id.scope, id.unit, id.desc),
                                                None => format!(" invalid {name:?}:{ik:?}={v:?}"),
                                            };
                                        }
                                    }
                                    if let Some(id) = id {
                                        let bounds: &[f64] = if ik.is_hist() { &DEFAULT_BOUNDS } else { &[] };
                                        for st in states {
                                            let mut st = st.lock().unwrap();
                                            st.get_mut(id).unwrap().acc.entry(akey(&set)).or_insert_with(|| Acc::new(v, bounds.len() + 1)).add(v, bounds);
                                        }
                                    }
                                }
                            };
                            sc.spawn(move || guarded(work))
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(("thread".into(), "panicked".into())))).collect()
                });
                for e in res.into_iter().flat_map(|x| x.err()) {
                    c.fail(&e.0, e.1);
                }
                let which: Vec<usize> = if round + 1 == rounds { (0..readers.len()).collect() } else { vec![r.idx(readers.len())] };
                for w in which {
                    let snap = match if reuse { readers[w].snap_into(&mut bufs[w]) } else { readers[w].snap() } {
                        Ok(s) => s,
                        Err(e) => {
                            c.fail("collect-error", e);
                            return;
                        }
                    };
                    let log = log.lock().unwrap().clone();
                    compared += compare(c, &snap, temps[w], &mut states[w].lock().unwrap(), &log);
                }
            }
            let log = log.into_inner().unwrap();
            let st = states[0].lock().unwrap();
            c.count("shared_streams", st.values().filter(|s| s.acc.values().map(|a| a.count).sum::<u64>() > 1).count() as u64);
            c.count("case_variants", st.keys().filter(|k| k.name != k.name.to_ascii_uppercase() && log.contains(&k.name.to_ascii_uppercase()[..1])).count() as u64);
            c.count("invalid_created", invalid.into_inner());
            c.count("streams_compared", compared);
            c.seen(h64(&log), compared > 1);
            c.sample(|| log.clone());
        });
    }
}

fn compare(c: &Case, snap: &Snap, t: Temporality, st: &mut BTreeMap<Id, St>, log: &str) -> u64 {
    let mut used = vec![false; snap.mets.len()];
    let mut n = 0;
    for (id, s) in st.iter_mut() {
        let hits: Vec<usize> = snap
            .mets
            .iter()
            .enumerate()
            .filter(|(_, m)| m.scope == id.scope && m.name.to_ascii_lowercase() == id.name && m.unit == id.unit && m.desc == id.desc && m.ty == id.ik.ty() && m.kind == id.ik.kind())
            .map(|x| x.0)
            .collect();
        if s.acc.is_empty() {
            c.check(hits.is_empty(), "phantom-stream", || format!("{id:?} reported though nothing was recorded; {log}"));
            continue;
        }
        n += 1;
        if !c.check(hits.len() == 1, "stream-count", || format!("{id:?} is reported {} times; reported: {:?}; {log}", hits.len(), snap.mets.iter().map(|m| format!("{} {} {} {} {:?}", m.scope, m.name, m.unit, m.desc, m.kind)).collect::<Vec<_>>())) {
            hits.iter().for_each(|h| used[*h] = true);
            continue;
        }
        used[hits[0]] = true;
        let m = &snap.mets[hits[0]];
        c.check(s.names.contains(&m.name), "first-name", || format!("{id:?} reported as {:?}, created as {:?}; {log}", m.name, s.names));
        c.check(m.dups.is_empty(), "duplicate-points", || format!("{m:?}"));
        let bounds: &[f64] = if id.ik.is_hist() { &DEFAULT_BOUNDS } else { &[] };
        let want: BTreeMap<String, Pt> = s.acc.iter().map(|(k, a)| (k.clone(), a.point(id.ik, bounds))).collect();
        c.check(want == m.pts, "stream-value", || format!("{id:?}: want {want:?}, got {:?}; {log}", m.pts));
        if id.ik.is_delta(t) {
            s.acc.clear();
        }
    }
    for (i, u) in used.iter().enumerate() {
        c.check(*u, "extra-stream", || format!("unexpected metric {:?}; {log}", snap.mets[i]));
    }
    let scopes: BTreeSet<&String> = snap.mets.iter().map(|m| &m.scope).collect();
    c.check(scopes.len() == snap.scopes, "scope-count", || format!("{} scope entries for {} scopes; {log}", snap.scopes, scopes.len()));
    n
}
