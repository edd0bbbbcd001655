//! M07: random views (criteria + masks, and closure views) over random instruments,
//! differential against a reference of matching, stream identity, attribute
//! filtering, aggregation and cardinality limit.
use hsdk::mlib::*;
use hsdk::*;
use opentelemetry::metrics::MeterProvider;
use opentelemetry::{InstrumentationScope, Key, KeyValue};
use opentelemetry_sdk::metrics::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum Agg {
    Default,
    Drop,
    Sum,
    Last,
    Hist(Vec<f64>, bool),
    Exp(u32, i8, bool),
}
#[derive(Clone, Debug)]
struct V {
    name: String,
    desc: String,
    kind: Option<u8>,
    unit: String,
    scope: Option<(String, Option<String>, Option<String>)>,
    m_name: String,
    m_desc: String,
    m_unit: String,
    m_agg: Option<Agg>,
    m_keys: Option<Vec<String>>,
    m_limit: Option<usize>,
    closure: bool,
    /// a combination new_view documents as applying to nothing
    void: bool,
}
#[derive(Clone, Debug)]
struct I {
    name: String,
    desc: String,
    unit: String,
    ik: IK,
    scope: usize,
    bounds: Option<Vec<f64>>,
    limit: Option<usize>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Id {
    scope: usize,
    name: String,
    kind: u8,
    ty: char,
    unit: String,
    desc: String,
}
#[derive(Clone, Debug)]
struct S {
    name: String,
    agg: Agg,
    keys: Option<Vec<String>>,
    limit: usize,
    ik: IK,
}

fn kind_no(ik: IK) -> u8 {
    if ik.is_mono() {
        0
    } else if ik.is_updown() {
        1
    } else if ik.is_hist() {
        2
    } else {
        3
    }
}
fn kind_of(k: u8) -> InstrumentKind {
    [InstrumentKind::Counter, InstrumentKind::UpDownCounter, InstrumentKind::Histogram, InstrumentKind::Gauge][k as usize]
}

/// reference wildcard match
fn glob(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|i| glob(&p[1..], &s[i..])),
        Some(b'?') => !s.is_empty() && glob(&p[1..], &s[1..]),
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}

const NAMES: [&str; 12] = ["reqs", "requests", "req.count", "http/server.dur", "a", "ab", "abc", "Latency-x", "x_y", "xx.y", "A.b", "reqs.total"];
const UNITS: [&str; 3] = ["", "1", "ms"];
const SCOPES: [(&str, Option<&str>, Option<&str>); 6] =
    [("s1", None, None), ("s2", Some("1.0"), None), ("s2", Some("2.0"), None), ("s2", Some("2.0"), Some("http://a")), ("s3", None, Some("http://a")), ("s3", None, Some("http://b"))];
const DESCS: [&str; 5] = ["", "d", "other", "dx", "D"];

fn pattern(r: &mut Rng) -> String {
    let n = *r.pick(&NAMES);
    match r.below(6) {
        0 => "*".into(),
        1 => format!("{}*", &n[..r.idx(n.len() + 1)]),
        2 => format!("*{}", &n[r.idx(n.len())..]),
        3 => {
            let mut b = n.as_bytes().to_vec();
            let i = r.idx(b.len());
            b[i] = b'?';
            String::from_utf8(b).unwrap()
        }
        4 => {
            let i = r.idx(n.len());
            let j = i + r.idx(n.len() - i + 1);
            format!("{}*{}", &n[..i], &n[j..])
        }
        _ => "?".repeat(1 + r.idx(4)) + "*",
    }
    .replace("**", "*")
}

fn gen_view(r: &mut Rng) -> V {
    let closure = r.chance(1, 4);
    let mut v = V {
        name: String::new(),
        desc: String::new(),
        kind: None,
        unit: String::new(),
        scope: None,
        m_name: String::new(),
        m_desc: String::new(),
        m_unit: String::new(),
        m_agg: None,
        m_keys: None,
        m_limit: None,
        closure,
        void: false,
    };
    match r.below(4) {
        0 => v.name = r.pick(&NAMES).to_string(),
        1 | 2 => v.name = pattern(r),
        _ => {}
    }
    if r.chance(1, 3) {
        v.kind = Some(r.below(4) as u8);
    }
    if r.chance(1, 5) {
        v.unit = r.pick(&UNITS).to_string();
    }
    if r.chance(1, 8) {
        v.desc = r.pick(&DESCS).to_string();
    }
    if r.chance(1, 4) {
        let s = r.pick(&SCOPES);
        let mut opt = |x: Option<&str>| x.filter(|_| r.bool()).map(|x| x.to_string());
        let (ver, url) = (opt(s.1), opt(s.2));
        // a scope criterion may leave the name open
        let name = if (ver.is_some() || url.is_some()) && r.chance(1, 4) { "" } else { s.0 };
        v.scope = Some((name.into(), ver, url));
    }
    if v.name.is_empty() && v.kind.is_none() && v.unit.is_empty() && v.desc.is_empty() && v.scope.is_none() {
        if closure || r.chance(3, 4) {
            v.kind = Some(r.below(4) as u8);
        } else {
            v.void = true; // criteria that say nothing match nothing
        }
    }
    let wild = v.name.contains(['*', '?']);
    if r.chance(1, if wild && !closure { 6 } else { 2 }) {
        v.void |= wild && !closure;
        v.m_name = r.pick(&["renamed", "Renamed", "other", "reqs", "z/z"]).to_string();
    }
    if r.chance(1, 3) {
        v.m_desc = "view desc".into();
    }
    if r.chance(1, 3) {
        v.m_unit = "By".into();
    }
    if r.chance(2, 3) {
        v.m_agg = Some(match r.below(8) {
            0 => Agg::Default,
            1 => Agg::Drop,
            2 => Agg::Sum,
            3 => Agg::Last,
            4 | 5 => {
                let mut b: Vec<f64> = (0..r.idx(5)).map(|_| r.range(-100, 12000) as f64 / 2.0).collect();
                b.sort_by(|a, b| a.partial_cmp(b).unwrap());
                b.dedup();
                Agg::Hist(b, r.bool())
            }
            _ => Agg::Exp(20 + r.below(140) as u32, r.range(-10, 20) as i8, r.bool()),
        });
        if !closure && r.chance(1, 8) {
            // an aggregation that is not valid
            v.void = true;
            v.m_agg = Some(match r.below(4) {
                0 => Agg::Exp(160, 21 + r.below(100) as i8, r.bool()),
                1 => Agg::Exp(160, -11 - r.below(100) as i8, r.bool()),
                2 => {
                    let mut b: Vec<f64> = (0..1 + r.idx(4)).map(|i| 10.0 * i as f64).collect();
                    let i = r.idx(b.len());
                    b.insert(i, b[i]);
                    Agg::Hist(b, r.bool())
                }
                _ => {
                    let mut b: Vec<f64> = (0..2 + r.idx(4)).map(|i| 10.0 * i as f64).collect();
                    let i = r.idx(b.len() - 1);
                    b.swap(i, i + 1);
                    Agg::Hist(b, r.bool())
                }
            });
        }
    }
    if r.chance(1, 2) {
        let mut k: Vec<String> = ["a", "b", "c", "http.method", "k_1", "é", "Z"].iter().filter(|_| r.chance(1, 3)).map(|s| s.to_string()).collect();
        r.shuffle(&mut k);
        v.m_keys = Some(k);
    }
    if r.chance(1, 3) {
        v.m_limit = Some(1 + r.idx(4));
    }
    v
}
fn matches(v: &V, i: &I) -> bool {
    if v.void {
        return false;
    }
    let name_ok = v.name.is_empty() || if v.name.contains(['*', '?']) { glob(v.name.as_bytes(), i.name.as_bytes()) } else { v.name == i.name };
    let sc = SCOPES[i.scope];
    name_ok
        && (v.desc.is_empty() || v.desc == i.desc)
        && v.kind.map(|k| k == kind_no(i.ik)).unwrap_or(true)
        && (v.unit.is_empty() || v.unit == i.unit)
        && v.scope.as_ref().map(|(n, ver, url)| (n.is_empty() || n == sc.0) && (ver.is_none() || ver.as_deref() == sc.1) && (url.is_none() || url.as_deref() == sc.2)).unwrap_or(true)
}
/// streams of one instrument; None when a view asks for an aggregation the instrument kind does not support
fn streams_of(views: &[V], i: &I) -> Option<Vec<(Id, S)>> {
    let mut out = vec![];
    let mut matched = false;
    let own = || match &i.bounds {
        Some(b) if i.ik.is_hist() => Agg::Hist(b.clone(), true),
        _ => Agg::Default,
    };
    for v in views.iter().filter(|v| matches(v, i)) {
        matched = true;
        let agg = match v.m_agg.clone() {
            None | Some(Agg::Default) => own(),
            Some(a) => a,
        };
        match (&agg, i.ik.is_gauge()) {
            (Agg::Sum, true) | (Agg::Last, false) => return None,
            _ => {}
        }
        let or = |a: &String, b: &String| if a.is_empty() { b.clone() } else { a.clone() };
        let name = or(&v.m_name, &i.name);
        out.push((
            Id { scope: i.scope, name: name.to_ascii_lowercase(), kind: kind_no(i.ik), ty: i.ik.ty(), unit: or(&v.m_unit, &i.unit), desc: or(&v.m_desc, &i.desc) },
            S { name, agg, keys: v.m_keys.clone(), limit: v.m_limit.or(i.limit).unwrap_or(2000), ik: i.ik },
        ));
    }
    if !matched {
        out.push((
            Id { scope: i.scope, name: i.name.to_ascii_lowercase(), kind: kind_no(i.ik), ty: i.ik.ty(), unit: i.unit.clone(), desc: i.desc.clone() },
            S { name: i.name.clone(), agg: own(), keys: None, limit: i.limit.unwrap_or(2000), ik: i.ik },
        ));
    }
    Some(out)
}
/// all streams; None if the configuration is one the property does not settle: streams with
/// the same identity but different transformations
fn resolve(views: &[V], insts: &[I]) -> Option<(BTreeMap<Id, S>, Vec<Vec<Id>>)> {
    let mut all: BTreeMap<Id, S> = BTreeMap::new();
    let mut per = vec![];
    for i in insts {
        let mut ids: Vec<Id> = vec![];
        for (id, s) in streams_of(views, i)? {
            if let Some(o) = all.get(&id) {
                let norm = |k: &Option<Vec<String>>| k.as_ref().map(|k| k.iter().cloned().collect::<BTreeSet<_>>());
                if o.agg != s.agg || norm(&o.keys) != norm(&s.keys) || o.limit != s.limit {
                    return None;
                }
            } else {
                all.insert(id.clone(), s);
            }
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
        per.push(ids);
    }
    Some((all, per))
}
fn to_agg(a: &Agg) -> Aggregation {
    match a {
        Agg::Default => Aggregation::Default,
        Agg::Drop => Aggregation::Drop,
        Agg::Sum => Aggregation::Sum,
        Agg::Last => Aggregation::LastValue,
        Agg::Hist(b, m) => Aggregation::ExplicitBucketHistogram { boundaries: b.clone(), record_min_max: *m },
        Agg::Exp(s, sc, m) => Aggregation::Base2ExponentialHistogram { max_size: *s, max_scale: *sc, record_min_max: *m },
    }
}
fn scope_of(i: usize) -> InstrumentationScope {
    let (n, v, u) = SCOPES[i];
    scope(n, v, u)
}

fn scope(n: &str, v: Option<&str>, u: Option<&str>) -> InstrumentationScope {
    let mut b = InstrumentationScope::builder(n.to_string());
    if let Some(v) = v {
        b = b.with_version(v.to_string());
    }
    if let Some(u) = u {
        b = b.with_schema_url(u.to_string());
    }
    b.build()
}

struct St {
    acc: BTreeMap<String, Acc>,
    nonempty: BTreeSet<String>,
}
const OVER: &str = "otel.metric.overflow=b:true";

pub fn run(ctx: &Ctx) {
    ctx.require("streams_compared", 500);
    ctx.require("view_matches", 200);
    ctx.require("merged_by_filter", 50);
    ctx.require("renamed_streams", 50);
    ctx.require("dropped_streams", 20);
    ctx.require("void_views", 20);
    ctx.require("kind_criteria", 200);
    ctx.section("kinds", 0.2, 2, 50, kinds);
    ctx.section("views", 0.8, 6, 200, |c, r| {
        // instruments: distinct identities; the same one may be created again later
        let ni = 1 + r.idx(6);
        let mut insts: Vec<I> = vec![];
        for _ in 0..ni {
            let ik = *r.pick(&ALL_IK);
            let name = match r.below(4) {
                0 => {
                    let mut s = r.pick(&NAMES).to_string();
                    s.push_str(r.pick(&[".z", "x", "0", "/q"]));
                    s
                }
                _ => r.pick(&NAMES).to_string(),
            };
            let i = I {
                name,
                desc: r.pick(&DESCS).to_string(),
                unit: r.pick(&UNITS).to_string(),
                ik,
                scope: r.idx(SCOPES.len()),
                bounds: if ik.is_hist() && r.chance(1, 3) { Some(vec![1.0, 100.5, 9000.0]) } else { None },
                limit: if r.chance(1, 5) { Some(2) } else { None },
            };
            insts.push(i);
        }
        let mut views: Vec<V> = (0..1 + r.idx(4)).map(|_| gen_view(r)).collect();
        if r.chance(1, 3) {
            // another view with the same effect, possibly under a name differing in case only
            let mut v = r.pick(&views).clone();
            if v.m_name == "renamed" {
                v.m_name = "RENAMED".into();
            }
            views.push(v);
        }
        let (all, per) = loop {
            match resolve(&views, &insts) {
                Some(x) => break x,
                None => {
                    if views.is_empty() {
                        insts.pop();
                    } else {
                        let n = r.idx(views.len());
                        views.remove(n);
                    }
                }
            }
        };
        let nread = 1 + r.idx(2);
        let temps: Vec<Temporality> = (0..nread).map(|_| temporality_of(r.u64())).collect();
        let readers: Vec<R> = temps.iter().map(|t| R::new(*t)).collect();
        let mut b = SdkMeterProvider::builder();
        for x in &readers {
            b = b.with_reader(x.clone());
        }
        for v in &views {
            if v.closure {
                let v = v.clone();
                b = b.with_view(move |i: &Instrument| {
                    let me = I {
                        name: i.name.to_string(),
                        desc: i.description.to_string(),
                        unit: i.unit.to_string(),
                        ik: match i.kind {
                            Some(InstrumentKind::Counter) => IK::CU,
                            Some(InstrumentKind::UpDownCounter) => IK::UI,
                            Some(InstrumentKind::Histogram) => IK::HU,
                            _ => IK::GU,
                        },
                        scope: SCOPES.iter().position(|s| s.0 == i.scope.name() && s.1 == i.scope.version() && s.2 == i.scope.schema_url()).unwrap_or(0),
                        bounds: None,
                        limit: None,
                    };
                    if !matches(&v, &me) {
                        return None;
                    }
                    let or = |a: &String, b: &str| if a.is_empty() { b.to_string() } else { a.clone() };
                    let mut s = Stream::new().name(or(&v.m_name, &i.name)).description(or(&v.m_desc, &i.description)).unit(or(&v.m_unit, &i.unit));
                    if let Some(a) = &v.m_agg {
                        s = s.aggregation(to_agg(a));
                    }
                    if let Some(k) = &v.m_keys {
                        s = s.allowed_attribute_keys(k.iter().map(|k| Key::from(k.clone())));
                    }
                    if let Some(l) = v.m_limit {
                        s = s.cardinality_limit(l);
                    }
                    Some(s)
                });
            } else {
                let mut cr = Instrument::new();
                cr.kind = v.kind.map(kind_of);
                cr = cr.name(v.name.clone()).description(v.desc.clone()).unit(v.unit.clone());
                if let Some((n, ver, url)) = &v.scope {
                    cr = cr.scope(scope(n, ver.as_deref(), url.as_deref()));
                }
                let mut s = Stream::new();
                if !v.m_name.is_empty() {
                    s = s.name(v.m_name.clone());
                }
                if !v.m_desc.is_empty() {
                    s = s.description(v.m_desc.clone());
                }
                if !v.m_unit.is_empty() {
                    s = s.unit(v.m_unit.clone());
                }
                if let Some(a) = &v.m_agg {
                    s = s.aggregation(to_agg(a));
                }
                if let Some(k) = &v.m_keys {
                    s = s.allowed_attribute_keys(k.iter().map(|k| Key::from(k.clone())));
                }
                if let Some(l) = v.m_limit {
                    s = s.cardinality_limit(l);
                }
                match new_view(cr, s) {
                    Ok(view) => b = b.with_view(view),
                    Err(_) if v.void => {}
                    Err(e) => {
                        c.fail("view-rejected", format!("{v:?}: {e}"));
                        return;
                    }
                }
            }
        }
        let mp = b.build();
        let handles: Vec<Inst> = insts
            .iter()
            .map(|i| {
                let m = mp.meter_with_scope(scope_of(i.scope));
                i.ik.build(&m, i.name.clone(), &i.desc, &i.unit, i.limit, i.bounds.clone())
            })
            .collect();
        let ns = 1 + r.idx(8);
        let with_empty = r.bool();
        let sets = attr_sets(r, ns, with_empty);
        let mut st: Vec<BTreeMap<Id, St>> = (0..nread).map(|_| all.keys().map(|k| (k.clone(), St { acc: BTreeMap::new(), nonempty: BTreeSet::new() })).collect()).collect();
        let mut trace = format!("views {views:?}; instruments {insts:?}; readers {temps:?};");
        let mut merged = 0u64;
        let mut compared = 0u64;
        let ops = 5 + r.idx(60);
        for step in 0..ops {
            if step + 1 == ops || r.chance(1, 20) {
                let w = r.idx(nread);
                trace += &format!(" C{w}");
                let snap = match readers[w].snap() {
                    Ok(s) => s,
                    Err(e) => {
                        c.fail("collect-error", format!("{e}; {trace}"));
                        return;
                    }
                };
                compared += compare(c, &snap, temps[w], &all, &mut st[w], &trace);
                continue;
            }
            let i = r.idx(insts.len());
            // gauges may be aggregated as histograms here: values of the summable kinds
            let v = match insts[i].ik {
                IK::GU => IK::HU,
                IK::GI => IK::UI,
                IK::GF => IK::UF,
                k => k,
            }
            .value(r);
            let attrs = restore(r, r_pick(&sets, step));
            if trace.len() < 5000 {
                trace += &format!(" i{i}({v:?},{})", akey(&attrs));
            }
            handles[i].record(v, &attrs);
            for w in 0..nread {
                for id in &per[i] {
                    let s = &all[id];
                    if matches!(s.agg, Agg::Drop) {
                        continue;
                    }
                    if let (Agg::Exp(..), Num::F(f)) = (&s.agg, v) {
                        if !f.is_finite() {
                            continue;
                        }
                    }
                    let kept: Vec<KeyValue> = match &s.keys {
                        None => attrs.clone(),
                        Some(k) => attrs.iter().filter(|kv| k.iter().any(|x| x == kv.key.as_str())).cloned().collect(),
                    };
                    if kept.len() < attrs.len() {
                        merged += 1;
                    }
                    let m = st[w].get_mut(id).unwrap();
                    let mut key = akey(&kept);
                    if !key.is_empty() && !m.nonempty.contains(&key) {
                        if m.nonempty.len() < s.limit {
                            m.nonempty.insert(key.clone());
                        } else {
                            key = OVER.into();
                        }
                    }
                    let bounds = bounds_of(s);
                    m.acc.entry(key).or_insert_with(|| Acc::new(v, bounds.len() + 1)).add(v, &bounds);
                }
            }
        }
        c.count("streams_compared", compared);
        c.count("merged_by_filter", merged);
        c.count("view_matches", views.iter().map(|v| insts.iter().filter(|i| matches(v, i)).count() as u64).sum());
        c.count("void_views", views.iter().filter(|v| v.void).count() as u64);
        c.count("renamed_streams", all.iter().filter(|(_, s)| insts.iter().all(|i| i.name != s.name)).count() as u64);
        c.count("dropped_streams", all.values().filter(|s| s.agg == Agg::Drop).count() as u64);
        c.seen(h64(&trace), !views.is_empty() && compared > 0);
        c.sample(|| trace.clone());
    });
}
/// a criterion on the instrument kind picks out exactly the instruments of that kind,
/// synchronous or observable
fn kinds(c: &Case, r: &mut Rng) {
    const KINDS: [InstrumentKind; 7] = [
        InstrumentKind::Counter,
        InstrumentKind::UpDownCounter,
        InstrumentKind::Histogram,
        InstrumentKind::Gauge,
        InstrumentKind::ObservableCounter,
        InstrumentKind::ObservableUpDownCounter,
        InstrumentKind::ObservableGauge,
    ];
    let rd = R::new(temporality_of(r.u64()));
    let mut b = SdkMeterProvider::builder().with_reader(rd.clone());
    let k = r.idx(7);
    let by_name = r.bool();
    let seen: std::sync::Arc<std::sync::Mutex<BTreeMap<String, Option<usize>>>> = Default::default();
    if r.bool() {
        // a view of the user's own is shown each instrument as it was created
        let seen = seen.clone();
        b = b.with_view(move |i: &Instrument| {
            seen.lock().unwrap().insert(format!("{}|{}|{}", i.name, i.description, i.unit), i.kind.and_then(|k| KINDS.iter().position(|x| *x == k)));
            (i.kind == Some(KINDS[k])).then(|| Stream::new().name(i.name.clone()).unit(i.unit.clone()).description("picked"))
        });
    } else {
        let mut cr = Instrument::new();
        cr.kind = Some(KINDS[k]);
        if by_name {
            cr = cr.name("i*");
        }
        match new_view(cr, Stream::new().description("picked")) {
            Ok(v) => b = b.with_view(v),
            Err(e) => {
                c.fail("view-rejected", format!("kind {:?}: {e}", KINDS[k]));
                return;
            }
        }
    }
    let mp = b.build();
    let m = mp.meter("kinds");
    let ni = 3 + r.idx(8);
    let mut of: BTreeMap<String, (usize, String)> = BTreeMap::new();
    let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
    for n in 0..ni {
        let q = r.idx(7);
        let name = format!("i{n}");
        let d = ["", "own"][r.idx(2)];
        let u = *r.pick(&UNITS);
        of.insert(name.clone(), (q, format!("{name}|{d}|{u}")));
        macro_rules! b {
            ($m:ident) => {
                m.$m(name).with_description(d).with_unit(u)
            };
        }
        let alt = r.bool();
        keep.push(match (q, alt) {
            (0, true) => {
                let i = b!(u64_counter).build();
                i.add(1, &[]);
                Box::new(i)
            }
            (0, _) => {
                let i = b!(f64_counter).build();
                i.add(1.0, &[]);
                Box::new(i)
            }
            (1, true) => {
                let i = b!(i64_up_down_counter).build();
                i.add(-1, &[]);
                Box::new(i)
            }
            (1, _) => {
                let i = b!(f64_up_down_counter).build();
                i.add(-1.0, &[]);
                Box::new(i)
            }
            (2, true) => {
                let i = b!(u64_histogram).build();
                i.record(1, &[]);
                Box::new(i)
            }
            (2, _) => {
                let i = b!(f64_histogram).build();
                i.record(1.0, &[]);
                Box::new(i)
            }
            (3, true) => {
                let i = b!(i64_gauge).build();
                i.record(1, &[]);
                Box::new(i)
            }
            (3, _) => {
                let i = b!(f64_gauge).build();
                i.record(1.0, &[]);
                Box::new(i)
            }
            (4, true) => Box::new(b!(u64_observable_counter).with_callback(|o| o.observe(3, &[])).build()),
            (4, _) => Box::new(b!(f64_observable_counter).with_callback(|o| o.observe(3.0, &[])).build()),
            (5, true) => Box::new(b!(i64_observable_up_down_counter).with_callback(|o| o.observe(3, &[])).build()),
            (5, _) => Box::new(b!(f64_observable_up_down_counter).with_callback(|o| o.observe(3.0, &[])).build()),
            (6, true) => Box::new(b!(i64_observable_gauge).with_callback(|o| o.observe(3, &[])).build()),
            (_, _) => Box::new(b!(f64_observable_gauge).with_callback(|o| o.observe(3.0, &[])).build()),
        });
    }
    let snap = match rd.snap() {
        Ok(s) => s,
        Err(e) => {
            c.fail("collect-error", format!("{e}"));
            return;
        }
    };
    let got: BTreeSet<String> = snap.mets.iter().map(|m| format!("{}|{}|{}", m.name, m.desc, m.unit)).collect();
    let want: BTreeSet<String> = of
        .iter()
        .map(|(n, (q, full))| {
            let mut p = full.split('|');
            let (_, d, u) = (p.next(), p.next().unwrap(), p.next().unwrap());
            format!("{n}|{}|{u}", if *q == k { "picked" } else { d })
        })
        .collect();
    c.check(got == want && snap.mets.len() == of.len(), "kind-criterion", || format!("view on {:?} (with name: {by_name}); reported {got:?}, expected {want:?}", KINDS[k]));
    for (full, kind) in seen.lock().unwrap().iter() {
        let want = of.values().find(|(_, f)| f == full).map(|(q, _)| *q);
        c.check(want.is_some() && *kind == want, "kind-shown", || format!("the view was shown {full:?} of kind {kind:?}, created as {want:?}"));
    }
    c.count("kind_criteria", ni as u64);
    c.seen(h64(&format!("{k}{of:?}")), true);
    drop(keep);
}
fn r_pick(s: &[Vec<KeyValue>], step: usize) -> &[KeyValue] {
    &s[(step.wrapping_mul(0x9E37_79B9) >> 7) % s.len()]
}
fn bounds_of(s: &S) -> Vec<f64> {
    match &s.agg {
        Agg::Hist(b, _) => b.clone(),
        Agg::Default if s.ik.is_hist() => DEFAULT_BOUNDS.to_vec(),
        _ => vec![],
    }
}

fn compare(c: &Case, snap: &Snap, t: Temporality, all: &BTreeMap<Id, S>, st: &mut BTreeMap<Id, St>, trace: &str) -> u64 {
    let mut want: Vec<String> = vec![];
    // up-down counters' histograms have no sum (it is reported as zero); a gauge's is not judged
    let nosum = |ik: IK| ik.is_gauge();
    let zero = |ik: IK| match ik.ty() {
        'u' => Num::U(0),
        'i' => Num::I(0),
        _ => Num::F(0.0),
    };
    for (id, s) in all {
        let m = st.get_mut(id).unwrap();
        if m.acc.is_empty() {
            continue;
        }
        let mut pts = vec![];
        for (k, a) in &m.acc {
            let sum = if nosum(s.ik) { "-".to_string() } else if s.ik.is_updown() { format!("{:?}", zero(s.ik)) } else { format!("{:?}", z(a.total())) };
            let mm = |on: bool| if on { format!("{:?}..{:?}", z(a.min), z(a.max)) } else { "none".to_string() };
            pts.push(match (&s.agg, s.ik.is_hist()) {
                (Agg::Hist(b, on), _) => format!("[{k}] hist n={} sum={sum} mm={} b={b:?} {:?}", a.count, mm(*on), a.buckets),
                (Agg::Default, true) => format!("[{k}] hist n={} sum={sum} mm={} b={DEFAULT_BOUNDS:?} {:?}", a.count, mm(true), a.buckets),
                (Agg::Exp(_, _, on), _) => format!("[{k}] exp n={} sum={sum} mm={}", a.count, mm(*on)),
                (Agg::Last, _) => format!("[{k}] {:?}", z(a.last)),
                (Agg::Default, _) if s.ik.is_gauge() => format!("[{k}] {:?}", z(a.last)),
                _ => format!("[{k}] {:?}", z(a.total())),
            });
        }
        let kind = match (&s.agg, s.ik.is_hist()) {
            (Agg::Hist(..), _) | (Agg::Default, true) => K::Hist,
            (Agg::Exp(..), _) => K::Exp,
            (Agg::Sum, _) => K::Sum { mono: s.ik.is_mono() || s.ik.is_hist() },
            _ => s.ik.kind(),
        };
        let delta = s.ik.is_delta(t);
        let sc = format!("{}/{:?}/{:?}/", SCOPES[id.scope].0, SCOPES[id.scope].1, SCOPES[id.scope].2);
        want.push(format!("{sc} {} u={} d={} {} {kind:?} delta={:?} {}", s.name, id.unit, id.desc, id.ty, if kind == K::Gauge { None } else { Some(delta) }, pts.join(" ; ")));
        if delta {
            m.acc.clear();
            m.nonempty.clear();
        }
    }
    let mut got: Vec<String> = vec![];
    for m in &snap.mets {
        if m.npts == 0 {
            c.fail("empty-metric", format!("{m:?}; {trace}"));
        }
        // the stream's instrument decides whether a sum is recorded
        let cand = |mono_like: &dyn Fn(&S) -> bool| all.iter().any(|(id, s)| s.name == m.name && id.unit == m.unit && id.desc == m.desc && id.ty == m.ty && m.scope.starts_with(&format!("{}/{:?}/{:?}/", SCOPES[id.scope].0, SCOPES[id.scope].1, SCOPES[id.scope].2)) && mono_like(s));
        let has_sum = cand(&|s| !nosum(s.ik));
        let has_nosum = cand(&|s| nosum(s.ik));
        if matches!(m.kind, K::Hist | K::Exp) && has_sum && has_nosum {
            return 0; // two instruments with one visible identity: ambiguous for this oracle
        }
        c.check(m.dups.is_empty(), "duplicate-points", || format!("{m:?}; {trace}"));
        let mut pts = vec![];
        for (k, p) in &m.pts {
            let sm = |x: Num| if has_nosum { "-".to_string() } else { format!("{:?}", z(x)) };
            let mm = |a: Option<Num>, b: Option<Num>| match (a, b) {
                (Some(a), Some(b)) => format!("{:?}..{:?}", z(a), z(b)),
                (None, None) => "none".into(),
                x => format!("half {x:?}"),
            };
            pts.push(match p {
                Pt::Num(v) => format!("[{k}] {:?}", z(*v)),
                Pt::Hist { count, sum, min, max, bounds, buckets } => format!("[{k}] hist n={count} sum={} mm={} b={bounds:?} {buckets:?}", sm(*sum), mm(*min, *max)),
                Pt::Exp(e) => {
                    let n: u64 = e.zero + e.pos.1.iter().sum::<u64>() + e.neg.1.iter().sum::<u64>();
                    c.check(n == e.count, "exp-inconsistent", || format!("{e:?}; {trace}"));
                    format!("[{k}] exp n={} sum={} mm={}", e.count, sm(e.sum), mm(e.min, e.max))
                }
            });
        }
        got.push(format!("{} {} u={} d={} {} {:?} delta={:?} {}", m.scope, m.name, m.unit, m.desc, m.ty, m.kind, m.delta, pts.join(" ; ")));
    }
    want.sort();
    got.sort();
    if want != got {
        let miss: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
        c.fail("streams-differ", format!("{} expected, {} reported; missing {miss:#?}; unexpected {extra:#?}; {trace}", want.len(), got.len()));
    }
    want.len() as u64
}
/// +0.0 and -0.0 alike
fn z(n: Num) -> Num {
    match n {
        Num::F(f) if f == 0.0 => Num::F(0.0),
        x => x,
    }
}
