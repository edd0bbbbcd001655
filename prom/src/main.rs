//! E07: what a Prometheus server scraping the exporter reads.
use opentelemetry::metrics::{Counter, Gauge, Histogram, Meter, MeterProvider as _, UpDownCounter};
use opentelemetry::{Array, InstrumentationScope, Key, KeyValue, StringValue, Value};
use opentelemetry_prometheus::ResourceSelector;
use opentelemetry_sdk::metrics::{Instrument, SdkMeterProvider, Stream};
use opentelemetry_sdk::Resource;
use prometheus::{Encoder as _, Registry, TextEncoder};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use vcore::*;

// ---- an independent reader of the text exposition format (version 0.0.4)
#[derive(Clone, Debug, PartialEq)]
struct Line {
    name: String,
    labels: Vec<(String, String)>,
    value: f64,
}
#[derive(Clone, Debug)]
struct Fam {
    name: String,
    kind: String,
    help: Option<String>,
    lines: Vec<Line>,
}
fn metric_name(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_' || c == ':') && c.all(|c| c.is_ascii_alphanumeric() || c == '_' || c == ':')
}
fn label_name(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && c.all(|c| c.is_ascii_alphanumeric() || c == '_')
}
fn unescape(s: &str, quote: bool) -> Result<String, String> {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        match x {
            '\\' => match c.next() {
                Some('\\') => o.push('\\'),
                Some('n') => o.push('\n'),
                Some('"') if quote => o.push('"'),
                y => return Err(format!("bad escape {y:?} in {s:?}")),
            },
            _ => o.push(x),
        }
    }
    Ok(o)
}
fn parse(t: &str) -> Result<Vec<Fam>, (&'static str, String)> {
    let mut out: Vec<Fam> = vec![];
    let mut help: Option<(String, String)> = None;
    let mut names = HashSet::new();
    if !t.is_empty() && !t.ends_with('\n') {
        return Err(("no-final-newline", t.chars().rev().take(80).collect()));
    }
    for l in t.split('\n').filter(|l| !l.is_empty()) {
        if let Some(x) = l.strip_prefix("# HELP ") {
            let (n, h) = x.split_once(' ').unwrap_or((x, ""));
            help = Some((n.into(), unescape(h, false).map_err(|e| ("help-escape", e))?));
        } else if let Some(x) = l.strip_prefix("# TYPE ") {
            let (n, k) = x.split_once(' ').ok_or(("type-line", l.to_string()))?;
            if !metric_name(n) {
                return Err(("metric-name-invalid", format!("{n:?}")));
            }
            if !names.insert(n.to_string()) {
                return Err(("family-repeated", n.into()));
            }
            let h = match help.take() {
                Some((hn, h)) if hn == n => Some(h),
                Some(x) => return Err(("help-without-type", format!("{x:?}"))),
                None => None,
            };
            out.push(Fam { name: n.into(), kind: k.into(), help: h, lines: vec![] });
        } else if l.starts_with('#') {
            return Err(("comment", l.into()));
        } else {
            let end = l.find(['{', ' ']).ok_or(("sample-line", l.to_string()))?;
            let name = &l[..end];
            if !metric_name(name) {
                return Err(("metric-name-invalid", format!("{l:?}")));
            }
            let mut rest = &l[end..];
            let mut labels: Vec<(String, String)> = vec![];
            if let Some(mut x) = rest.strip_prefix('{') {
                loop {
                    if let Some(y) = x.strip_prefix('}') {
                        rest = y;
                        break;
                    }
                    let (n, y) = x.split_once("=\"").ok_or(("label", l.to_string()))?;
                    if !label_name(n) {
                        return Err(("label-name-invalid", format!("label {n:?} in {l:?}")));
                    }
                    let mut esc = false;
                    let q = y.char_indices().find(|(_, c)| {
                        let q = *c == '"' && !esc;
                        esc = *c == '\\' && !esc;
                        q
                    });
                    let (q, _) = q.ok_or(("label-value-unterminated", l.to_string()))?;
                    if labels.iter().any(|x| x.0 == n) {
                        return Err(("label-name-repeated", format!("label {n:?} in {l:?}")));
                    }
                    labels.push((n.into(), unescape(&y[..q], true).map_err(|e| ("label-escape", e))?));
                    x = &y[q + 1..];
                    x = x.strip_prefix(',').unwrap_or(x);
                }
            }
            let v = rest.strip_prefix(' ').ok_or(("sample-line", l.to_string()))?;
            let v = v.parse::<f64>().map_err(|e| ("sample-value", format!("{l:?}: {e}")))?;
            let Some(f) = out.last_mut() else { return Err(("sample-before-type", l.into())) };
            let fits = name == f.name || f.kind == "histogram" && ["_bucket", "_sum", "_count"].iter().any(|s| name.strip_suffix(s) == Some(&f.name));
            if !fits {
                return Err(("sample-outside-family", format!("{l:?} under {}", f.name)));
            }
            f.lines.push(Line { name: name.into(), labels, value: v });
        }
    }
    Ok(out)
}

// ---- naming rules
fn unit_suffix(u: &str) -> Option<String> {
    // (unit, whole, as a first part of "x/y")
    const U: &[(&str, &str)] = &[
        ("d", "days"), ("h", "hours"), ("min", "minutes"), ("s", "seconds"), ("ms", "milliseconds"), ("us", "microseconds"), ("ns", "nanoseconds"),
        ("By", "bytes"), ("KiBy", "kibibytes"), ("MiBy", "mebibytes"), ("GiBy", "gibibytes"), ("TiBy", "tibibytes"),
        ("KBy", "kilobytes"), ("MBy", "megabytes"), ("GBy", "gigabytes"), ("TBy", "terabytes"),
        ("B", "bytes"), ("KB", "kilobytes"), ("MB", "megabytes"), ("GB", "gigabytes"), ("TB", "terabytes"),
        ("m", "meters"), ("V", "volts"), ("A", "amperes"), ("J", "joules"), ("W", "watts"), ("g", "grams"),
        ("Cel", "celsius"), ("Hz", "hertz"), ("1", "ratio"), ("%", "percent"),
    ];
    const PER: &[(&str, &str)] = &[("s", "second"), ("m", "minute"), ("h", "hour"), ("d", "day"), ("w", "week"), ("mo", "month"), ("y", "year")];
    let find = |t: &[(&str, &str)], k: &str| t.iter().find(|x| x.0 == k).map(|x| x.1.to_string());
    if let Some(x) = find(U, u) {
        return Some(x);
    }
    let (a, b) = u.split_once('/')?;
    let b = find(PER, b)?;
    match find(U, a) {
        Some(a2) if a != "1" => Some(format!("{a2}_per_{b}")),
        _ => Some(format!("per_{b}")),
    }
}
const UNITS: &[&str] = &[
    "", "", "", "s", "ms", "us", "ns", "min", "h", "d", "By", "KiBy", "MiBy", "GiBy", "TiBy", "KBy", "MBy", "GBy", "TBy", "B", "KB", "MB", "GB", "TB", "m", "V", "A", "J", "W",
    "g", "Cel", "Hz", "1", "%", "{request}", "By/s", "m/s", "1/s", "{call}/s", "{a}/m", "By/h", "g/d", "km/w", "1/mo", "x/y", "J/y", "invalid", "a/b", "S", "by", "/", "By/", "/s/s", "furlong/fortnight",
];
fn clean(s: &str) -> String {
    let mut o: String = s.chars().map(|c| if c.is_ascii_alphanumeric() || c == '_' || c == ':' { c } else { '_' }).collect();
    if o.starts_with(|c: char| c.is_ascii_digit()) {
        o.insert(0, '_');
    }
    o
}
fn clean_label(s: &str) -> Vec<String> {
    let o: String = s.chars().map(|c| if c.is_ascii_alphanumeric() || c == '_' { c } else { '_' }).collect();
    if o.starts_with(|c: char| c.is_ascii_digit()) {
        vec![format!("_{o}"), format!("key_{o}")]
    } else {
        vec![o]
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Cu,
    Cf,
    Ui,
    Uf,
    Gu,
    Gi,
    Gf,
    Hu,
    Hf,
    OcU,
    OcF,
    OuI,
    OgF,
}
const KINDS: &[K] = &[K::Cu, K::Cf, K::Ui, K::Uf, K::Gu, K::Gi, K::Gf, K::Hu, K::Hf, K::OcU, K::OcF, K::OuI, K::OgF];
impl K {
    fn prom(self) -> &'static str {
        match self {
            K::Cu | K::Cf | K::OcU | K::OcF => "counter",
            K::Hu | K::Hf => "histogram",
            _ => "gauge",
        }
    }
}
enum Handle {
    Cu(Counter<u64>),
    Cf(Counter<f64>),
    Ui(UpDownCounter<i64>),
    Uf(UpDownCounter<f64>),
    Gu(Gauge<u64>),
    Gi(Gauge<i64>),
    Gf(Gauge<f64>),
    Hu(Histogram<u64>),
    Hf(Histogram<f64>),
    Obs(Arc<Mutex<Vec<(Vec<KeyValue>, f64)>>>),
}
type Obs = Arc<Mutex<Vec<(Vec<KeyValue>, f64)>>>;
#[derive(Clone, Debug)]
enum Val {
    Num(f64),
    Hist { buckets: Vec<u64>, sum: f64, count: u64 },
}
struct Ins {
    kind: K,
    final_name: String,
    desc: String,
    scope: usize,
    bounds: Vec<f64>,
    h: Handle,
    /// by canonical attribute set
    pts: BTreeMap<String, (Vec<KeyValue>, Val)>,
}
const DEF: [f64; 15] = [0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0];

fn make(m: &Meter, k: K, name: String, desc: &str, unit: &str, bounds: Option<Vec<f64>>) -> Handle {
    let obs: Obs = Default::default();
    macro_rules! b {
        ($f:ident, $v:ident) => {
            Handle::$v(m.$f(name).with_description(desc.to_string()).with_unit(unit.to_string()).build())
        };
    }
    macro_rules! h {
        ($f:ident, $v:ident) => {{
            let mut x = m.$f(name).with_description(desc.to_string()).with_unit(unit.to_string());
            if let Some(b) = bounds {
                x = x.with_boundaries(b);
            }
            Handle::$v(x.build())
        }};
    }
    macro_rules! o {
        ($f:ident, $t:ty) => {{
            let o2 = obs.clone();
            let _ = m
                .$f(name)
                .with_description(desc.to_string())
                .with_unit(unit.to_string())
                .with_callback(move |i| {
                    for (a, v) in o2.lock().unwrap().iter() {
                        i.observe(*v as $t, a);
                    }
                })
                .build();
            Handle::Obs(obs)
        }};
    }
    match k {
        K::Cu => b!(u64_counter, Cu),
        K::Cf => b!(f64_counter, Cf),
        K::Ui => b!(i64_up_down_counter, Ui),
        K::Uf => b!(f64_up_down_counter, Uf),
        K::Gu => b!(u64_gauge, Gu),
        K::Gi => b!(i64_gauge, Gi),
        K::Gf => b!(f64_gauge, Gf),
        K::Hu => h!(u64_histogram, Hu),
        K::Hf => h!(f64_histogram, Hf),
        K::OcU => o!(u64_observable_counter, u64),
        K::OcF => o!(f64_observable_counter, f64),
        K::OuI => o!(i64_observable_up_down_counter, i64),
        K::OgF => o!(f64_observable_gauge, f64),
    }
}
fn akey(a: &[KeyValue]) -> String {
    let mut v: Vec<String> = a.iter().map(|k| format!("{:?}={:?}", k.key.as_str(), k.value)).collect();
    v.sort();
    v.join(",")
}
impl Ins {
    /// one measurement, given to the instrument and to the model
    fn record(&mut self, r: &mut Rng, a: &[KeyValue]) {
        // sums stay exact: multiples of 1/1024 far below 2^42
        let small = if r.chance(1, 5) { r.below(1 << 44) as f64 / 1024.0 } else { r.range(0, 4000) as f64 / 8.0 };
        let int = small.floor();
        let e = self.pts.entry(akey(a)).or_insert_with(|| {
            let v = if self.kind.prom() == "histogram" { Val::Hist { buckets: vec![0; self.bounds.len() + 1], sum: 0.0, count: 0 } } else { Val::Num(0.0) };
            (a.to_vec(), v)
        });
        let add = |e: &mut Val, x: f64| {
            if let Val::Num(v) = e {
                *v += x;
            }
        };
        let set = |e: &mut Val, x: f64| *e = Val::Num(x);
        let bounds = &self.bounds;
        let hist = |e: &mut Val, x: f64| {
            if let Val::Hist { buckets, sum, count } = e {
                buckets[bounds.iter().position(|b| x <= *b).unwrap_or(bounds.len())] += 1;
                *sum += x;
                *count += 1;
            }
        };
        match &self.h {
            Handle::Cu(i) => {
                i.add(int as u64, a);
                add(&mut e.1, int);
            }
            Handle::Cf(i) => {
                i.add(small, a);
                add(&mut e.1, small);
            }
            Handle::Ui(i) => {
                let x = int as i64 - 250;
                i.add(x, a);
                add(&mut e.1, x as f64);
            }
            Handle::Uf(i) => {
                let x = small - 250.0;
                i.add(x, a);
                add(&mut e.1, x);
            }
            Handle::Gu(i) => {
                let x = if r.chance(1, 6) { r.u64() } else { int as u64 };
                i.record(x, a);
                set(&mut e.1, x as f64);
            }
            Handle::Gi(i) => {
                let x = if r.chance(1, 6) { r.i64_edge() } else { int as i64 };
                i.record(x, a);
                set(&mut e.1, x as f64);
            }
            Handle::Gf(i) => {
                let x = if r.chance(1, 3) { r.f64_edge(true) } else { small };
                i.record(x, a);
                set(&mut e.1, x);
            }
            Handle::Hu(i) => {
                let x = if r.chance(1, 2) && !bounds.is_empty() { r.pick(bounds).max(0.0).floor() } else { int };
                i.record(x as u64, a);
                hist(&mut e.1, x);
            }
            Handle::Hf(i) => {
                let x = if r.chance(1, 2) && !bounds.is_empty() { *r.pick(bounds) } else { small };
                i.record(x, a);
                hist(&mut e.1, x);
            }
            Handle::Obs(o) => {
                let x = match (self.kind, &e.1) {
                    (K::OcU, Val::Num(v)) => v + int,
                    (K::OcF, Val::Num(v)) => v + small,
                    (K::OuI, _) => int - 250.0,
                    _ => small - 100.0,
                };
                set(&mut e.1, x);
                let mut o = o.lock().unwrap();
                match o.iter_mut().find(|y| akey(&y.0) == akey(a)) {
                    Some(y) => y.1 = x,
                    None => o.push((a.to_vec(), x)),
                }
            }
        }
    }
}

fn value(r: &mut Rng) -> Value {
    match r.idx(9) {
        0 => Value::Bool(r.bool()),
        1 => Value::I64(r.i64_edge()),
        2 => Value::F64(r.range(0, 100) as f64 / 4.0),
        3 => Value::Array(Array::I64(vec![r.i64_edge(), 3])),
        4 => Value::Array(Array::String(vec![StringValue::from("a"), StringValue::from(r.text(4))])),
        5 => Value::Array(Array::Bool(vec![true; r.idx(3)])),
        6 => Value::String(StringValue::from((*r.pick(&["", "\"", "\\", "a\nb", "x;y", "{}", "a\\nb", "é世", " sp "])).to_string())),
        _ => Value::String(StringValue::from(r.text(8))),
    }
}
const KEYS: &[&str] = &[
    "a", "b", "A", "a.b", "a_b", "a/b", "a b", "http.method", "x:y", "x_y", "1st", "9", "_z", "é", "ключ", "a-b", "service.name", "otel.scope.name", "otel_scope_version", "host.name", "net:peer", "UPPER", "0a", "_0a", "a..b",
];
fn attrs(r: &mut Rng, max: usize) -> Vec<KeyValue> {
    let mut keys: Vec<&str> = KEYS.to_vec();
    r.shuffle(&mut keys);
    let n = r.idx(max + 1);
    keys[..n].iter().map(|k| KeyValue::new(*k, value(r))).collect()
}
fn text(v: &Value) -> String {
    v.as_str().into_owned()
}
#[derive(Clone, Debug)]
struct Want {
    name: String,
    kind: &'static str,
    labels: Vec<Group>,
    val: Val,
    bounds: Vec<f64>,
}
/// values that meet under one label name
#[derive(Clone, Debug)]
struct Group {
    names: Vec<String>,
    attrs: Vec<String>,
    extra: Vec<String>,
}
fn group(g: &mut Vec<Group>, key: &str, v: String, extra: bool) {
    let names = clean_label(key);
    let i = g.iter().position(|x| x.names.iter().any(|n| names.contains(n))).unwrap_or_else(|| {
        g.push(Group { names: names.clone(), attrs: vec![], extra: vec![] });
        g.len() - 1
    });
    g[i].names.retain(|n| names.contains(n));
    if extra { &mut g[i].extra } else { &mut g[i].attrs }.push(v);
}
fn perms(v: &[String]) -> Vec<String> {
    if v.len() <= 1 {
        return vec![v.concat()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        out.extend(perms(&rest).into_iter().map(|p| format!("{x};{p}")));
    }
    out
}
impl Group {
    fn ok(&self, n: &str, v: &str) -> bool {
        if !self.names.iter().any(|x| x == n) {
            return false;
        }
        if self.extra.is_empty() {
            let mut a = self.attrs.clone();
            a.sort();
            return a.join(";") == v;
        }
        let all: Vec<String> = self.attrs.iter().chain(&self.extra).cloned().collect();
        all.len() > 6 || perms(&all).iter().any(|p| p == v)
    }
}
fn fits(g: &[Group], l: &[(String, String)]) -> bool {
    g.len() == l.len() && g.iter().all(|g| l.iter().any(|(n, v)| g.ok(n, v)))
}
fn same(a: f64, b: f64) -> bool {
    a == b || a.is_nan() && b.is_nan()
}

/// names that only a view can give
fn viewed(n: &str) -> String {
    match n {
        "7" => "7".into(),
        "8x" => "8x.é".into(),
        "sp" => " s p ".into(),
        "co" => ":c:".into(),
        _ => format!("é.{n}:ö"),
    }
}

struct World {
    reg: Registry,
    provider: SdkMeterProvider,
    resource: Vec<(Key, Value)>,
    target_info: bool,
    scope_info: bool,
    units: bool,
    suffix: bool,
    ns: Option<String>,
    sel: Option<HashSet<Key>>,
    scopes: Vec<(InstrumentationScope, Meter)>,
}
fn world(r: &mut Rng) -> World {
    let reg = Registry::new();
    let (target_info, scope_info, units, suffix) = (r.chance(3, 4), r.chance(3, 4), r.chance(3, 4), r.chance(3, 4));
    let mut b = opentelemetry_prometheus::exporter().with_registry(reg.clone());
    if !target_info {
        b = b.without_target_info();
    }
    if !scope_info {
        b = b.without_scope_info();
    }
    if !units {
        b = b.without_units();
    }
    if !suffix {
        b = b.without_counter_suffixes();
    }
    let ns = r.chance(1, 3).then(|| r.pick(&["app", "app_", "my.ns", "a-b", "1ns", "a:b", "é", "a:", "a_:", "__", "A9"]).to_string());
    if let Some(n) = &ns {
        b = b.with_namespace(n.clone());
    }
    let res = if r.chance(1, 5) { vec![] } else { attrs(r, 6) };
    let sel = match r.idx(4) {
        0 | 1 => None,
        2 => {
            b = b.with_resource_selector(ResourceSelector::All);
            Some(res.iter().map(|k| k.key.clone()).collect())
        }
        _ => {
            let none = r.chance(1, 5);
            let s: HashSet<Key> = KEYS.iter().filter(|_| !none && r.bool()).map(|k| Key::new(*k)).collect();
            b = b.with_resource_selector(s.clone());
            Some(s)
        }
    };
    let exporter = b.build().expect("vh build");
    let provider = SdkMeterProvider::builder()
        .with_reader(exporter)
        .with_resource(Resource::builder_empty().with_attributes(res.clone()).build())
        .with_view(|i: &Instrument| i.name.strip_prefix("viewed_").map(|n| Stream::new().name(viewed(n)).description(i.description.clone()).unit(i.unit.clone())))
        .build();
    let mut scopes = vec![];
    for i in 0..1 + r.idx(3) {
        let mut s = InstrumentationScope::builder(format!("{}{i}", r.pick(&["lib", "my.lib/", "q\"\\\n"])));
        if r.bool() {
            s = s.with_version(format!("v{}", r.text(3)));
        }
        if r.bool() {
            s = s.with_attributes([KeyValue::new("k", i as i64)]);
        }
        let s = s.build();
        let m = provider.meter_with_scope(s.clone());
        scopes.push((s, m));
    }
    World { reg, provider, resource: res.into_iter().map(|k| (k.key, k.value)).collect(), target_info, scope_info, units, suffix, ns, sel, scopes }
}
impl World {
    fn final_name(&self, k: K, name: &str, unit: &str) -> String {
        let shown = match name.strip_prefix("viewed_") {
            Some(n) => viewed(n),
            None => name.into(),
        };
        let mut n = clean(&shown);
        if let Some(ns) = &self.ns {
            let p = clean(ns);
            n = if p.ends_with('_') { format!("{p}{n}") } else { format!("{p}_{n}") };
        }
        if self.units {
            if let Some(s) = unit_suffix(unit) {
                n = format!("{n}_{s}");
            }
        }
        if k.prom() == "counter" && self.suffix {
            n += "_total";
        }
        n
    }
    fn labels(&self, a: &[KeyValue], scope: usize) -> Vec<Group> {
        let mut g = vec![];
        for k in a {
            group(&mut g, k.key.as_str(), text(&k.value), false);
        }
        if self.scope_info {
            let s = &self.scopes[scope].0;
            group(&mut g, "otel_scope_name", s.name().into(), true);
            if let Some(v) = s.version() {
                group(&mut g, "otel_scope_version", v.into(), true);
            }
        }
        if let Some(sel) = &self.sel {
            for (k, v) in self.resource.iter().filter(|x| sel.contains(&x.0)) {
                group(&mut g, k.as_str(), text(v), true);
            }
        }
        g
    }
    fn scrape(&self) -> Result<Vec<Fam>, (&'static str, String)> {
        let mut b = vec![];
        TextEncoder::new().encode(&self.reg.gather(), &mut b).map_err(|e| ("encode", format!("{e}")))?;
        parse(&String::from_utf8(b).map_err(|e| ("not-utf8", format!("{e}")))?)
    }
}
/// what the exporter settled on for a name
type Settled = HashMap<String, (&'static str, String)>;

fn check(c: &Case, w: &World, ins: &[Ins], settled: &mut Settled, got: Vec<Fam>) -> bool {
    // families this scrape should hold
    let mut by: BTreeMap<&str, Vec<&Ins>> = BTreeMap::new();
    for i in ins.iter().filter(|i| !i.pts.is_empty()) {
        by.entry(&i.final_name).or_default().push(i);
    }
    let mut want_infos: Vec<(&str, Vec<Vec<Group>>)> = vec![];
    if w.target_info && !w.resource.is_empty() {
        let mut g = vec![];
        for (k, v) in &w.resource {
            group(&mut g, k.as_str(), text(v), false);
        }
        want_infos.push(("target_info", vec![g]));
    }
    if w.scope_info {
        let mut l = vec![];
        for (n, (s, _)) in w.scopes.iter().enumerate() {
            if s.attributes().count() > 0 && ins.iter().any(|i| i.scope == n && !i.pts.is_empty()) {
                let mut g = vec![];
                group(&mut g, "otel_scope_name", s.name().into(), false);
                if let Some(v) = s.version() {
                    group(&mut g, "otel_scope_version", v.into(), false);
                }
                l.push(g);
            }
        }
        if !l.is_empty() {
            want_infos.push(("otel_scope_info", l));
        }
    }
    let names: Vec<&str> = got.iter().map(|f| f.name.as_str()).collect();
    let mut expected: Vec<&str> = by.keys().copied().chain(want_infos.iter().map(|x| x.0)).collect();
    expected.sort();
    let mut sorted = names.clone();
    sorted.sort();
    if !c.check(sorted == expected, "families-differ", || format!("expected families {expected:?}, scraped {sorted:?}; {}", dump(w))) {
        return false;
    }
    for (n, l) in &want_infos {
        let f = got.iter().find(|f| f.name == *n).unwrap();
        let mut left: Vec<&Line> = f.lines.iter().collect();
        for g in l {
            let Some(p) = left.iter().position(|x| x.value == 1.0 && fits(g, &x.labels)) else {
                c.fail("info-metric-wrong", format!("{n}: expected a line with {g:?} and value 1, scraped {:?}", f.lines));
                return false;
            };
            left.remove(p);
        }
        if !c.check(left.is_empty() && f.kind == "gauge", "info-metric-wrong", || format!("{n}: unexpected {left:?}, kind {}", f.kind)) {
            return false;
        }
    }
    for (name, l) in by {
        let f = got.iter().find(|f| f.name == name).unwrap();
        // which kind and description count: those of the first seen; across scopes within one scrape, either
        let firsts: Vec<&&Ins> = (0..w.scopes.len()).filter_map(|s| l.iter().find(|i| i.scope == s)).collect();
        let (kind, desc) = match settled.get(name) {
            Some(x) => x.clone(),
            None => {
                let h = f.help.clone().unwrap_or_default();
                let Some(i) = firsts.iter().find(|i| i.kind.prom() == f.kind && i.desc == h) else {
                    c.fail("kind-or-help-wrong", format!("{name}: shown as {} with help {h:?}, but the instruments under that name are {:?}", f.kind, l.iter().map(|i| (i.kind, &i.desc, i.scope)).collect::<Vec<_>>()));
                    return false;
                };
                settled.insert(name.into(), (i.kind.prom(), i.desc.clone()));
                if l.iter().any(|x| x.kind.prom() != i.kind.prom()) {
                    c.count("conflicts.kind", 1);
                }
                if l.iter().any(|x| x.desc != i.desc) {
                    c.count("conflicts.help", 1);
                }
                (i.kind.prom(), i.desc.clone())
            }
        };
        if !c.check(f.kind == kind && f.help.clone().unwrap_or_default() == desc, "kind-or-help-changed", || {
            format!("{name}: settled as {kind} with help {desc:?}, now {} with {:?}", f.kind, f.help)
        }) {
            return false;
        }
        let mut wants = vec![];
        for i in l.iter().filter(|i| i.kind.prom() == kind) {
            for (a, v) in i.pts.values() {
                wants.push(Want { name: name.into(), kind, labels: w.labels(a, i.scope), val: v.clone(), bounds: i.bounds.clone() });
            }
        }
        if let Some((key, why)) = lines(&wants, &f.lines) {
            c.fail(key, format!("{name}: {why}; {}", dump(w)));
            return false;
        }
        c.count("points", wants.len() as u64);
        c.count(&format!("points.{kind}"), wants.len() as u64);
        c.count("labels.joined", wants.iter().flat_map(|x| &x.labels).filter(|g| g.attrs.len() + g.extra.len() > 1).count() as u64);
        c.count("labels.scope-or-resource-collision", wants.iter().flat_map(|x| &x.labels).filter(|g| !g.attrs.is_empty() && !g.extra.is_empty()).count() as u64);
    }
    true
}
fn dump(w: &World) -> String {
    format!(
        "options: target_info {} scope_info {} units {} suffixes {} namespace {:?} selected {:?}, resource {:?}",
        w.target_info, w.scope_info, w.units, w.suffix, w.ns, w.sel, w.resource
    )
}
/// every wanted point has its sample(s), and there are no others
fn lines(wants: &[Want], got: &[Line]) -> Option<(&'static str, String)> {
    let mut used = vec![false; got.len()];
    for w in wants {
        match &w.val {
            Val::Num(v) => {
                let p = (0..got.len()).find(|i| !used[*i] && same(got[*i].value, *v) && fits(&w.labels, &got[*i].labels));
                match p {
                    Some(p) => used[p] = true,
                    None => {
                        let near: Vec<&Line> = got.iter().filter(|l| same(l.value, *v) || fits(&w.labels, &l.labels)).take(4).collect();
                        return Some((if near.iter().any(|l| fits(&w.labels, &l.labels)) { "value-wrong" } else { "point-missing-or-labels-wrong" }, format!("no sample with value {v} and labels {:?}; nearest {near:?}", w.labels)));
                    }
                }
            }
            Val::Hist { buckets, sum, count } => {
                let base = |l: &Line| -> Vec<(String, String)> { l.labels.iter().filter(|x| x.0 != "le").cloned().collect() };
                let find = |suffix: &str, le: Option<f64>, v: f64, used: &mut Vec<bool>| {
                    let p = (0..got.len()).find(|i| {
                        let l = &got[*i];
                        !used[*i]
                            && l.name == format!("{}{suffix}", w.name)
                            && same(l.value, v)
                            && match le {
                                Some(b) => l.labels.iter().any(|x| x.0 == "le" && x.1.parse::<f64>() == Ok(b)),
                                None => l.labels.iter().all(|x| x.0 != "le"),
                            }
                            && fits(&w.labels, &base(l))
                    });
                    match p {
                        Some(p) => {
                            used[p] = true;
                            None
                        }
                        None => Some(("histogram-wrong", format!("no {suffix} sample with le {le:?}, value {v}, labels {:?}; expected buckets {buckets:?} bounds {:?} sum {sum} count {count}; scraped {:?}", w.labels, w.bounds, got.iter().take(40).collect::<Vec<_>>()))),
                    }
                };
                let mut cum = 0;
                for (i, b) in buckets.iter().enumerate() {
                    cum += b;
                    let le = w.bounds.get(i).copied().unwrap_or(f64::INFINITY);
                    if let Some(e) = find("_bucket", Some(le), cum as f64, &mut used) {
                        return Some(e);
                    }
                }
                if let Some(e) = find("_sum", None, *sum, &mut used).or_else(|| find("_count", None, *count as f64, &mut used)) {
                    return Some(e);
                }
            }
        }
    }
    used.iter().position(|u| !u).map(|p| ("sample-unexpected", format!("{:?} (wanted {:?})", got[p], wants)))
}

fn histories(c: &Case, r: &mut Rng) {
    let w = world(r);
    let mut ins: Vec<Ins> = vec![];
    let mut ids: HashSet<(usize, String, String)> = HashSet::new();
    let mut trace = format!("{}", dump(&w));
    let mut settled = Settled::new();
    let mut scrapes = 0;
    for _ in 0..4 + r.idx(30) {
        match r.idx(8) {
            0 | 1 if ins.len() < 12 => {
                let scope = r.idx(w.scopes.len());
                let k = *r.pick(KINDS);
                let name = r.pick(&["req", "req.time", "req-time", "req/time", "Lat_ency", "viewed_x", "viewed_1", "viewed_a/b", "x", "y.z", "mem", "a_b_c", "viewed_c", "viewed_7", "viewed_8x", "viewed_sp", "viewed_co"]).to_string();
                let unit = *r.pick(UNITS);
                let desc = r.pick(&["", "plain", "two\nlines", "back\\slash", "quo\"te", "other"]).to_string();
                // one instrument per (scope, name): identity conflicts inside the SDK are not the exporter's
                let shown = name.to_lowercase();
                if !ids.insert((scope, shown, String::new())) {
                    continue;
                }
                let final_name = w.final_name(k, &name, unit);
                let bounds = match k.prom() {
                    "histogram" if r.bool() && !name.starts_with("viewed_") => {
                        let mut b: Vec<f64> = (0..if r.chance(1, 8) { r.idx(60) } else { r.idx(6) }).map(|_| r.range(0, 800) as f64 / 2.0).collect();
                        b.sort_by(f64::total_cmp);
                        b.dedup();
                        Some(b)
                    }
                    _ => None,
                };
                // a view without an aggregation uses the default boundaries
                let shown_bounds = if k.prom() == "histogram" { bounds.clone().unwrap_or(DEF.to_vec()) } else { vec![] };
                trace += &format!(";+{k:?}{name}{unit}{desc}{bounds:?}");
                let h = make(&w.scopes[scope].1, k, name, &desc, unit, bounds);
                ins.push(Ins { kind: k, final_name, desc, scope, bounds: shown_bounds, h, pts: BTreeMap::new() });
            }
            7 => {
                trace += ";scrape";
                match w.scrape() {
                    Ok(f) => {
                        scrapes += 1;
                        if !check(c, &w, &ins, &mut settled, f) {
                            return;
                        }
                    }
                    Err((k, e)) => return c.fail(k, format!("{e}; {}", dump(&w))),
                }
            }
            _ if !ins.is_empty() => {
                let n = r.idx(ins.len());
                let seen: Vec<Vec<KeyValue>> = ins[n].pts.values().map(|x| x.0.clone()).collect();
                let a = if !seen.is_empty() && (seen.len() > 3 || r.bool()) { r.pick(&seen).clone() } else { attrs(r, 5) };
                trace += &format!(";{n}:{}", akey(&a));
                ins[n].record(r, &a);
            }
            _ => {}
        }
    }
    match w.scrape() {
        Ok(f) => {
            check(c, &w, &ins, &mut settled, f);
            scrapes += 1;
        }
        Err((k, e)) => return c.fail(k, format!("{e}; {}", dump(&w))),
    }
    c.count("scrapes", scrapes);
    c.seen(h64(&trace), !ins.is_empty());
    c.sample(|| format!("{} instruments, {scrapes} scrapes, {}", ins.len(), dump(&w)));
}

/// scrapes racing with recording: each is valid, consistent, and never goes back; the last one is exact
fn racing(c: &Case, r: &mut Rng) {
    let w = world(r);
    let m = &w.scopes[0].1;
    let ctr = m.u64_counter("ctr").build();
    let hist = m.f64_histogram("hst").with_boundaries(vec![1.0, 2.0, 3.0]).build();
    let (cn, hn) = (w.final_name(K::Cu, "ctr", ""), w.final_name(K::Hf, "hst", ""));
    let threads = 2 + r.idx(3);
    let per = 200 + r.below(800);
    let stop = AtomicBool::new(false);
    let counts = std::thread::scope(|s| {
        let writers: Vec<_> = (0..threads)
            .map(|t| {
                let (ctr, hist) = (ctr.clone(), hist.clone());
                s.spawn(move || {
                    for i in 0..per {
                        ctr.add(1, &[KeyValue::new("t", t as i64 % 2)]);
                        hist.record((i % 5) as f64, &[KeyValue::new("t", t as i64 % 2)]);
                    }
                })
            })
            .collect();
        let scrapers: Vec<_> = (0..2)
            .map(|_| {
                let (w, cn, hn, stop) = (&w, &cn, &hn, &stop);
                s.spawn(move || {
                    let mut last: HashMap<String, f64> = HashMap::new();
                    let mut n = 0u64;
                    loop {
                        let end = stop.load(Ordering::SeqCst);
                        match w.scrape() {
                            Err((k, e)) => return Err((k, e)),
                            Ok(f) => {
                                n += 1;
                                for l in f.iter().filter(|f| f.name == *cn || f.name == *hn).flat_map(|f| &f.lines) {
                                    let id = format!("{}{:?}", l.name, l.labels);
                                    let p = last.insert(id.clone(), l.value).unwrap_or(0.0);
                                    if l.value < p {
                                        return Err(("went-back", format!("{id} was {p}, now {}", l.value)));
                                    }
                                }
                                for f in f.iter().filter(|f| f.name == *hn) {
                                    for cnt in f.lines.iter().filter(|l| l.name.ends_with("_count")) {
                                        let b: Vec<f64> = f
                                            .lines
                                            .iter()
                                            .filter(|l| l.name.ends_with("_bucket") && cnt.labels.iter().all(|x| l.labels.contains(x)))
                                            .map(|l| l.value)
                                            .collect();
                                        if b.windows(2).any(|p| p[0] > p[1]) || b.last() != Some(&cnt.value) || b.len() != 4 {
                                            return Err(("histogram-inconsistent", format!("buckets {b:?}, count {}", cnt.value)));
                                        }
                                    }
                                }
                            }
                        }
                        if end {
                            return Ok(n);
                        }
                    }
                })
            })
            .collect();
        for x in writers {
            x.join().unwrap();
        }
        stop.store(true, Ordering::SeqCst);
        scrapers.into_iter().map(|x| x.join().unwrap()).collect::<Vec<_>>()
    });
    let mut n = 0;
    for x in counts {
        match x {
            Ok(k) => n += k,
            Err((k, e)) => return c.fail(k, format!("{e}; {}", dump(&w))),
        }
    }
    match w.scrape() {
        Ok(f) => {
            let total = |name: &str| f.iter().flat_map(|f| &f.lines).filter(|l| l.name == name).map(|l| l.value).sum::<f64>();
            let want = (threads as u64 * per) as f64;
            c.check(total(&cn) == want, "total-wrong", || format!("{cn}: {want} added, {} shown", total(&cn)));
            let hc = format!("{hn}_count");
            c.check(total(&hc) == want, "total-wrong", || format!("{hc}: {want} recorded, {} shown", total(&hc)));
        }
        Err((k, e)) => return c.fail(k, e),
    }
    c.count("races", 1);
    c.count("races.scrapes", n);
    c.seen(h64(&(threads, per, n)), n > 2);
    if r.chance(1, 4) {
        let _ = w.provider.shutdown();
        match w.scrape() {
            Ok(f) => {
                c.check(f.iter().all(|f| f.name != cn), "shown-after-shutdown", || format!("{f:?}"));
            }
            Err((k, e)) => c.fail(k, e),
        }
    }
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::from_env(&prop);
    ctx.section("histories", 0.8, 6, 100, histories);
    ctx.section("racing", 0.2, 1, 5, racing);
    for (n, m) in [("scrapes", 300), ("points", 1000), ("points.counter", 100), ("points.gauge", 100), ("points.histogram", 100), ("labels.joined", 30), ("labels.scope-or-resource-collision", 20), ("conflicts.kind", 5), ("conflicts.help", 5), ("races.scrapes", 20)] {
        ctx.require(n, m);
    }
    std::process::exit(ctx.finish());
}
