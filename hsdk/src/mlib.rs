//! Metrics: custom manual reader, canonical snapshots, numeric abstraction.
use opentelemetry::metrics::{Counter, Gauge, Histogram, Meter, UpDownCounter};
use opentelemetry::{Array, Key, KeyValue, StringValue, Value};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::*;
use opentelemetry_sdk::Resource;
use std::collections::BTreeMap;
use std::sync::{Arc, Weak};
use std::time::{Duration, SystemTime};
use vcore::Rng;

#[derive(Clone, Debug)]
pub struct R(pub Arc<ManualReader>);
impl R {
    pub fn new(t: Temporality) -> R {
        R(Arc::new(ManualReader::builder().with_temporality(t).build()))
    }
    pub fn rm() -> ResourceMetrics {
        ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] }
    }
    /// collect into a fresh buffer
    pub fn snap(&self) -> Result<Snap, String> {
        let mut rm = R::rm();
        self.0.collect(&mut rm).map_err(|e| format!("{e:?}"))?;
        Ok(Snap::of(&rm))
    }
    /// collect into a reused buffer
    pub fn snap_into(&self, rm: &mut ResourceMetrics) -> Result<Snap, String> {
        self.0.collect(rm).map_err(|e| format!("{e:?}"))?;
        Ok(Snap::of(rm))
    }
}
impl MetricReader for R {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn shutdown_with_timeout(&self, t: Duration) -> OTelSdkResult {
        self.0.shutdown_with_timeout(t)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Num {
    U(u64),
    I(i64),
    F(f64),
}
impl PartialEq for Num {
    fn eq(&self, o: &Num) -> bool {
        match (self, o) {
            (Num::U(a), Num::U(b)) => a == b,
            (Num::I(a), Num::I(b)) => a == b,
            // by value; +0.0 and -0.0 count as equal, NaN equals NaN
            (Num::F(a), Num::F(b)) => a == b || (a.is_nan() && b.is_nan()),
            _ => false,
        }
    }
}
impl Num {
    pub fn f(&self) -> f64 {
        match self {
            Num::U(a) => *a as f64,
            Num::I(a) => *a as f64,
            Num::F(a) => *a,
        }
    }
}
pub trait N: Copy + Send + Sync + 'static + PartialEq + std::fmt::Debug {
    const T: char;
    fn num(self) -> Num;
}
impl N for u64 {
    const T: char = 'u';
    fn num(self) -> Num {
        Num::U(self)
    }
}
impl N for i64 {
    const T: char = 'i';
    fn num(self) -> Num {
        Num::I(self)
    }
}
impl N for f64 {
    const T: char = 'f';
    fn num(self) -> Num {
        Num::F(self)
    }
}

/// canonical text of an attribute set: sorted by key; duplicates of a key stay visible
pub fn akey(a: &[KeyValue]) -> String {
    let mut v: Vec<String> = a.iter().map(|kv| format!("{}={}", kv.key.as_str(), vtext(&kv.value))).collect();
    v.sort();
    v.join("|")
}
pub fn vtext(v: &Value) -> String {
    match v {
        Value::Bool(b) => format!("b:{b}"),
        Value::I64(i) => format!("i:{i}"),
        Value::F64(f) => format!("f:{:016x}", f.to_bits()),
        Value::String(s) => format!("s:{:?}", s.as_str()),
        Value::Array(a) => match a {
            Array::Bool(x) => format!("B:{x:?}"),
            Array::I64(x) => format!("I:{x:?}"),
            Array::F64(x) => format!("F:{:?}", x.iter().map(|f| f.to_bits()).collect::<Vec<_>>()),
            Array::String(x) => format!("S:{:?}", x.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
            _ => "?".into(),
        },
        _ => "?".into(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pt {
    Num(Num),
    Hist { count: u64, sum: Num, min: Option<Num>, max: Option<Num>, bounds: Vec<f64>, buckets: Vec<u64> },
    Exp(ExpPt),
}
#[derive(Clone, Debug, PartialEq)]
pub struct ExpPt {
    pub count: u64,
    pub sum: Num,
    pub min: Option<Num>,
    pub max: Option<Num>,
    pub scale: i8,
    pub zero: u64,
    pub zthr: f64,
    pub pos: (i32, Vec<u64>),
    pub neg: (i32, Vec<u64>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
    Sum { mono: bool },
    Gauge,
    Hist,
    Exp,
}
#[derive(Clone, Debug)]
pub struct Met {
    pub scope: String,
    pub name: String,
    pub desc: String,
    pub unit: String,
    pub ty: char,
    pub kind: K,
    pub delta: Option<bool>,
    pub start: Option<SystemTime>,
    pub time: SystemTime,
    pub pts: BTreeMap<String, Pt>,
    /// attribute sets reported by more than one point
    pub dups: Vec<String>,
    pub npts: usize,
    /// raw attributes as reported
    pub raw: Vec<Vec<KeyValue>>,
}
#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub mets: Vec<Met>,
    pub resource: Vec<(String, String)>,
    pub scopes: usize,
    pub empty_scopes: usize,
}
impl Snap {
    pub fn of(rm: &ResourceMetrics) -> Snap {
        let mut s = Snap::default();
        for (k, v) in rm.resource.iter() {
            s.resource.push((k.to_string(), vtext(v)));
        }
        for sm in &rm.scope_metrics {
            s.scopes += 1;
            if sm.metrics.is_empty() {
                s.empty_scopes += 1;
            }
            let sc = format!(
                "{}/{:?}/{:?}/{}",
                sm.scope.name(),
                sm.scope.version(),
                sm.scope.schema_url(),
                akey(&sm.scope.attributes().cloned().collect::<Vec<_>>())
            );
            for m in &sm.metrics {
                let mut out = Met {
                    scope: sc.clone(),
                    name: m.name.to_string(),
                    desc: m.description.to_string(),
                    unit: m.unit.to_string(),
                    ty: '?',
                    kind: K::Gauge,
                    delta: None,
                    start: None,
                    time: SystemTime::UNIX_EPOCH,
                    pts: BTreeMap::new(),
                    dups: vec![],
                    npts: 0,
                    raw: vec![],
                };
                match &m.data {
                    AggregatedMetrics::F64(d) => conv(&mut out, d),
                    AggregatedMetrics::U64(d) => conv(&mut out, d),
                    AggregatedMetrics::I64(d) => conv(&mut out, d),
                }
                s.mets.push(out);
            }
        }
        s
    }
    pub fn named(&self, n: &str) -> Vec<&Met> {
        self.mets.iter().filter(|m| m.name == n).collect()
    }
    pub fn one(&self, n: &str) -> Option<&Met> {
        let v = self.named(n);
        if v.len() == 1 {
            Some(v[0])
        } else {
            None
        }
    }
}
fn put(out: &mut Met, a: &[KeyValue], p: Pt) {
    let k = akey(a);
    out.npts += 1;
    out.raw.push(a.to_vec());
    if out.pts.insert(k.clone(), p).is_some() {
        out.dups.push(k);
    }
}
fn conv<T: N>(out: &mut Met, d: &MetricData<T>) {
    out.ty = T::T;
    match d {
        MetricData::Gauge(g) => {
            out.kind = K::Gauge;
            out.start = g.start_time;
            out.time = g.time;
            for p in &g.data_points {
                put(out, &p.attributes, Pt::Num(p.value.num()));
            }
        }
        MetricData::Sum(g) => {
            out.kind = K::Sum { mono: g.is_monotonic };
            out.delta = Some(g.temporality == Temporality::Delta);
            out.start = Some(g.start_time);
            out.time = g.time;
            for p in &g.data_points {
                put(out, &p.attributes, Pt::Num(p.value.num()));
            }
        }
        MetricData::Histogram(h) => {
            out.kind = K::Hist;
            out.delta = Some(h.temporality == Temporality::Delta);
            out.start = Some(h.start_time);
            out.time = h.time;
            for p in &h.data_points {
                put(
                    out,
                    &p.attributes,
                    Pt::Hist {
                        count: p.count,
                        sum: p.sum.num(),
                        min: p.min.map(|x| x.num()),
                        max: p.max.map(|x| x.num()),
                        bounds: p.bounds.clone(),
                        buckets: p.bucket_counts.clone(),
                    },
                );
            }
        }
        MetricData::ExponentialHistogram(h) => {
            out.kind = K::Exp;
            out.delta = Some(h.temporality == Temporality::Delta);
            out.start = Some(h.start_time);
            out.time = h.time;
            for p in &h.data_points {
                put(
                    out,
                    &p.attributes,
                    Pt::Exp(ExpPt {
                        count: p.count as u64,
                        sum: p.sum.num(),
                        min: p.min.map(|x| x.num()),
                        max: p.max.map(|x| x.num()),
                        scale: p.scale,
                        zero: p.zero_count,
                        zthr: p.zero_threshold,
                        pos: (p.positive_bucket.offset, p.positive_bucket.counts.clone()),
                        neg: (p.negative_bucket.offset, p.negative_bucket.counts.clone()),
                    }),
                );
            }
        }
    }
}

/// A random attribute value of any supported type (no NaN: NaN != NaN makes sets incomparable).
pub fn rvalue(r: &mut Rng) -> Value {
    // arrays are short, now and then long
    let n = if r.chance(1, 150) { [63, 64, 65, 66, 127, 128, 129, 130, 257, 300][r.idx(10)] } else { r.idx(4) };
    match r.below(9) {
        0 => Value::Bool(r.bool()),
        1 => Value::I64(r.i64_edge()),
        2 => Value::F64(match r.f64_edge(true) {
            x if x.is_nan() => 1.5,
            x if x == 0.0 => 0.0,
            x => x,
        }),
        3 | 4 => Value::String(rstring(r)),
        5 => Value::Array(Array::I64((0..n).map(|_| r.i64_edge()).collect())),
        6 => Value::Array(Array::String((0..n).map(|_| rstring(r)).collect())),
        7 => Value::Array(Array::Bool((0..n).map(|_| r.bool()).collect())),
        _ => Value::Array(Array::F64((0..n).map(|_| r.range(-50, 50) as f64 / 4.0).collect())),
    }
}
/// the same text in static, owned or shared storage
pub fn store(r: &mut Rng, s: &str) -> StringValue {
    match r.below(3) {
        0 => StringValue::from(leak(s)),
        1 => StringValue::from(s.to_string()),
        _ => StringValue::from(Arc::<str>::from(s)),
    }
}
pub fn store_key(r: &mut Rng, s: &str) -> Key {
    match r.below(3) {
        0 => Key::from(leak(s)),
        1 => Key::from(s.to_string()),
        _ => Key::from(Arc::<str>::from(s)),
    }
}
pub fn leak(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static POOL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = POOL.lock().unwrap_or_else(|e| e.into_inner());
    let p = g.get_or_insert_with(HashSet::new);
    if let Some(x) = p.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    p.insert(l);
    l
}
pub fn rstring(r: &mut Rng) -> StringValue {
    let t = r.text(8);
    // keep the static pool small
    match r.below(3) {
        0 => StringValue::from(["", "a", "b", "value", "%41", "é"][r.idx(6)]),
        1 => StringValue::from(t),
        _ => StringValue::from(Arc::<str>::from(t)),
    }
}
/// the same attributes, differently stored and ordered
pub fn restore(r: &mut Rng, a: &[KeyValue]) -> Vec<KeyValue> {
    let mut v: Vec<KeyValue> = a
        .iter()
        .map(|kv| {
            let k = store_key(r, kv.key.as_str());
            let val = match &kv.value {
                Value::String(s) if s.as_str().len() < 12 => Value::String(match r.below(2) {
                    0 => StringValue::from(s.as_str().to_string()),
                    _ => StringValue::from(Arc::<str>::from(s.as_str())),
                }),
                v => v.clone(),
            };
            KeyValue::new(k, val)
        })
        .collect();
    r.shuffle(&mut v);
    v
}
/// `n` distinct attribute sets (as canonical text), possibly including the empty one
pub fn attr_sets(r: &mut Rng, n: usize, with_empty: bool) -> Vec<Vec<KeyValue>> {
    let keys = ["a", "b", "c", "http.method", "k_1", "é", "Z"];
    let mut out: Vec<Vec<KeyValue>> = vec![];
    let mut seen = std::collections::HashSet::new();
    if with_empty {
        seen.insert(String::new());
        out.push(vec![]);
    }
    let mut tries = 0;
    while out.len() < n && tries < 50 * n + 50 {
        tries += 1;
        let mut ks: Vec<String> = keys.iter().map(|k| k.to_string()).collect();
        let mut k = 1 + r.idx(4);
        if r.chance(1, 15) {
            ks.extend((0..30).map(|i| format!("w{i}")));
            k = 1 + r.idx(ks.len());
        }
        r.shuffle(&mut ks);
        let set: Vec<KeyValue> = ks[..k]
            .iter()
            .map(|k| {
                let k = store_key(r, k);
                if r.chance(1, 2) {
                    KeyValue::new(k, r.below(3) as i64)
                } else {
                    KeyValue::new(k, rvalue(r))
                }
            })
            .collect();
        if seen.insert(akey(&set)) {
            out.push(set);
        }
    }
    out
}

/// Number types an instrument can have, behind one interface.
pub enum Inst {
    CU(Counter<u64>),
    CF(Counter<f64>),
    UI(UpDownCounter<i64>),
    UF(UpDownCounter<f64>),
    GU(Gauge<u64>),
    GI(Gauge<i64>),
    GF(Gauge<f64>),
    HU(Histogram<u64>),
    HF(Histogram<f64>),
}
impl Inst {
    pub fn record(&self, v: Num, a: &[KeyValue]) {
        match (self, v) {
            (Inst::CU(c), Num::U(v)) => c.add(v, a),
            (Inst::CF(c), Num::F(v)) => c.add(v, a),
            (Inst::UI(c), Num::I(v)) => c.add(v, a),
            (Inst::UF(c), Num::F(v)) => c.add(v, a),
            (Inst::GU(c), Num::U(v)) => c.record(v, a),
            (Inst::GI(c), Num::I(v)) => c.record(v, a),
            (Inst::GF(c), Num::F(v)) => c.record(v, a),
            (Inst::HU(c), Num::U(v)) => c.record(v, a),
            (Inst::HF(c), Num::F(v)) => c.record(v, a),
            _ => panic!("harness: number type mismatch"),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum IK {
    CU,
    CF,
    UI,
    UF,
    GU,
    GI,
    GF,
    HU,
    HF,
}
pub const ALL_IK: [IK; 9] = [IK::CU, IK::CF, IK::UI, IK::UF, IK::GU, IK::GI, IK::GF, IK::HU, IK::HF];
impl IK {
    pub fn is_hist(self) -> bool {
        matches!(self, IK::HU | IK::HF)
    }
    pub fn is_gauge(self) -> bool {
        matches!(self, IK::GU | IK::GI | IK::GF)
    }
    pub fn is_mono(self) -> bool {
        matches!(self, IK::CU | IK::CF)
    }
    pub fn is_updown(self) -> bool {
        matches!(self, IK::UI | IK::UF)
    }
    pub fn ty(self) -> char {
        match self {
            IK::CU | IK::GU | IK::HU => 'u',
            IK::UI | IK::GI => 'i',
            _ => 'f',
        }
    }
    pub fn kind(self) -> K {
        if self.is_hist() {
            K::Hist
        } else if self.is_gauge() {
            K::Gauge
        } else {
            K::Sum { mono: self.is_mono() }
        }
    }
    /// the documented preference table
    pub fn is_delta(self, t: Temporality) -> bool {
        match t {
            Temporality::Cumulative => false,
            Temporality::Delta => !self.is_updown(),
            _ => self.is_mono() || self.is_hist(),
        }
    }
    pub fn build(self, m: &Meter, name: String, desc: &str, unit: &str, limit: Option<usize>, bounds: Option<Vec<f64>>) -> Inst {
        macro_rules! go {
            ($f:ident, $v:ident) => {{
                let mut b = m.$f(name).with_description(desc.to_string()).with_unit(unit.to_string());
                if let Some(l) = limit {
                    b = b.with_cardinality_limit(l);
                }
                Inst::$v(b.build())
            }};
        }
        macro_rules! goh {
            ($f:ident, $v:ident) => {{
                let mut b = m.$f(name).with_description(desc.to_string()).with_unit(unit.to_string());
                if let Some(l) = limit {
                    b = b.with_cardinality_limit(l);
                }
                if let Some(x) = bounds {
                    b = b.with_boundaries(x);
                }
                Inst::$v(b.build())
            }};
        }
        match self {
            IK::CU => go!(u64_counter, CU),
            IK::CF => go!(f64_counter, CF),
            IK::UI => go!(i64_up_down_counter, UI),
            IK::UF => go!(f64_up_down_counter, UF),
            IK::GU => go!(u64_gauge, GU),
            IK::GI => go!(i64_gauge, GI),
            IK::GF => go!(f64_gauge, GF),
            IK::HU => goh!(u64_histogram, HU),
            IK::HF => goh!(f64_histogram, HF),
        }
    }
    /// a measurement; sums stay exact: integers small enough not to overflow, floats multiples of 1/8
    pub fn value(self, r: &mut Rng) -> Num {
        match self.ty() {
            'u' => Num::U(match r.below(5) {
                0 => r.below(3),
                1 => *r.pick(&[5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000, 10001]),
                2 if self.is_gauge() => r.u64(),
                2 => 1 << r.below(50),
                _ => r.below(12000),
            }),
            'i' => Num::I(match r.below(4) {
                0 => r.range(-3, 3),
                1 if self.is_gauge() => r.i64_edge(),
                1 => r.range(-(1 << 50), 1 << 50),
                _ => r.range(-10000, 10000),
            }),
            _ => Num::F({
                let x = match r.below(5) {
                    0 => r.range(-2, 2) as f64 / 8.0,
                    1 => *r.pick(&[0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0, 10000.125]),
                    2 if self.is_gauge() => r.f64_edge(true),
                    _ => r.range(-80000, 80000) as f64 / 8.0,
                };
                if self.is_mono() {
                    x.abs()
                } else {
                    x
                }
            }),
        }
    }
}
pub const DEFAULT_BOUNDS: [f64; 15] = [0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0];
pub fn temporality_of(i: u64) -> Temporality {
    match i % 3 {
        0 => Temporality::Cumulative,
        1 => Temporality::Delta,
        _ => Temporality::LowMemory,
    }
}
/// reference aggregation of one attribute set
#[derive(Clone, Debug)]
pub struct Acc {
    pub sum: f64,
    pub isum: i128,
    pub last: Num,
    pub count: u64,
    pub min: Num,
    pub max: Num,
    pub buckets: Vec<u64>,
}
impl Acc {
    pub fn new(v: Num, nb: usize) -> Acc {
        Acc { sum: 0.0, isum: 0, last: v, count: 0, min: v, max: v, buckets: vec![0; nb] }
    }
    pub fn add(&mut self, v: Num, bounds: &[f64]) {
        self.count += 1;
        self.last = v;
        match v {
            Num::U(x) => self.isum += x as i128,
            Num::I(x) => self.isum += x as i128,
            Num::F(x) => self.sum += x,
        }
        let f = v.f();
        let lt = |a: Num, b: Num| match (a, b) {
            (Num::U(a), Num::U(b)) => a < b,
            (Num::I(a), Num::I(b)) => a < b,
            (a, b) => a.f() < b.f(),
        };
        if lt(v, self.min) {
            self.min = v;
        }
        if lt(self.max, v) {
            self.max = v;
        }
        let i = bounds.iter().position(|b| f <= *b).unwrap_or(bounds.len());
        if i < self.buckets.len() {
            self.buckets[i] += 1;
        }
    }
    pub fn total(&self) -> Num {
        match self.last {
            Num::U(_) => Num::U(self.isum as u64),
            Num::I(_) => Num::I(self.isum as i64),
            Num::F(_) => Num::F(self.sum),
        }
    }
    pub fn point(&self, k: IK, bounds: &[f64]) -> Pt {
        if k.is_hist() {
            Pt::Hist { count: self.count, sum: self.total(), min: Some(self.min), max: Some(self.max), bounds: bounds.to_vec(), buckets: self.buckets.clone() }
        } else if k.is_gauge() {
            Pt::Num(self.last)
        } else {
            Pt::Num(self.total())
        }
    }
}
