//! E01, E02, E03: what OTLP requests hold, decoded independently, against what was exported.
use crate::wire::{self, f, i, m, s, y, T};
pub use hsdk::dgen::*;
use hsdk::slib::*;
use hsdk::*;
use opentelemetry::logs::{AnyValue, LogRecord as _, Severity};
use opentelemetry::trace::{Event, Link, SpanId, SpanKind, Status};
use opentelemetry::{Array, InstrumentationScope, KeyValue, Value};
use opentelemetry_otlp::{Protocol, WithExportConfig, WithHttpConfig};
use opentelemetry_sdk::logs::{LogBatch, LogExporter as _, SdkLogRecord};
use opentelemetry_sdk::metrics::data::*;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::Temporality;
use opentelemetry_sdk::trace::{SpanData, SpanEvents, SpanExporter as _, SpanLinks};
use opentelemetry_sdk::Resource;
use prost::Message;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// an HTTP client keeping the requests it is given and accepting all
#[derive(Debug, Default, Clone)]
pub struct Tap(pub Arc<Mutex<Vec<http::Request<bytes::Bytes>>>>);
#[async_trait::async_trait]
impl opentelemetry_http::HttpClient for Tap {
    async fn send_bytes(&self, q: http::Request<bytes::Bytes>) -> Result<http::Response<bytes::Bytes>, opentelemetry_http::HttpError> {
        self.0.lock().unwrap().push(q);
        Ok(http::Response::new(bytes::Bytes::new()))
    }
}

// --- expected trees ---
pub fn nanos(t: SystemTime) -> T {
    i(t.duration_since(UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0))
}
pub fn any(v: &Value) -> T {
    let one = |k, v| m("AnyValue", vec![(k, v)]);
    let arr = |l: Vec<T>| one("arrayValue", m("ArrayValue", vec![("values", T::List(l))]));
    match v {
        Value::Bool(b) => one("boolValue", T::B(*b)),
        Value::I64(x) => one("intValue", i(*x)),
        Value::F64(x) => one("doubleValue", f(*x)),
        Value::String(x) => one("stringValue", s(x.as_str())),
        Value::Array(Array::Bool(l)) => arr(l.iter().map(|b| one("boolValue", T::B(*b))).collect()),
        Value::Array(Array::I64(l)) => arr(l.iter().map(|x| one("intValue", i(*x))).collect()),
        Value::Array(Array::F64(l)) => arr(l.iter().map(|x| one("doubleValue", f(*x))).collect()),
        Value::Array(Array::String(l)) => arr(l.iter().map(|x| one("stringValue", s(x.as_str()))).collect()),
        _ => panic!("vh: value"),
    }
}
pub fn kvs<'a>(l: impl IntoIterator<Item = &'a KeyValue>) -> T {
    T::List(l.into_iter().map(|k| m("KeyValue", vec![("key", s(k.key.as_str())), ("value", any(&k.value))])).collect())
}
fn sorted(t: T) -> T {
    match t {
        T::List(mut l) => {
            l.sort();
            T::List(l)
        }
        t => t,
    }
}
pub fn lany(v: &AnyValue) -> T {
    let one = |k, v| m("AnyValue", vec![(k, v)]);
    match v {
        AnyValue::Int(x) => one("intValue", i(*x)),
        AnyValue::Double(x) => one("doubleValue", f(*x)),
        AnyValue::String(x) => one("stringValue", s(x.as_str())),
        AnyValue::Boolean(b) => one("boolValue", T::B(*b)),
        AnyValue::Bytes(b) => one("bytesValue", y(b)),
        AnyValue::ListAny(l) => one("arrayValue", m("ArrayValue", vec![("values", T::List(l.iter().map(lany).collect()))])),
        AnyValue::Map(x) => one(
            "kvlistValue",
            sort_maps(m("KvList", vec![("values", T::List(x.iter().map(|(k, v)| m("KeyValue", vec![("key", s(k.as_str())), ("value", lany(v))])).collect()))])),
        ),
        _ => panic!("vh: any value"),
    }
}
/// key-value lists inside values have no order
fn sort_maps(t: T) -> T {
    match t {
        T::Msg(o) => T::Msg(
            o.into_iter()
                .map(|(k, v)| {
                    let v = sort_maps(v);
                    match (k, v) {
                        ("kvlistValue", T::Msg(mut o)) => {
                            if let Some(l) = o.remove("values") {
                                o.insert("values", sorted(l));
                            }
                            (k, T::Msg(o))
                        }
                        (k, v) => (k, v),
                    }
                })
                .collect(),
        ),
        T::List(l) => T::List(l.into_iter().map(sort_maps).collect()),
        t => t,
    }
}
pub fn scope(sc: &InstrumentationScope) -> T {
    m("Scope", vec![("name", s(sc.name())), ("version", s(sc.version().unwrap_or(""))), ("attributes", sorted(kvs(sc.attributes())))])
}
pub fn resource(res: &Resource) -> (T, String) {
    let l: Vec<KeyValue> = res.iter().map(|(k, v)| KeyValue::new(k.clone(), v.clone())).collect();
    (m("Resource", vec![("attributes", sorted(kvs(&l)))]), res.schema_url().unwrap_or("").to_string())
}
pub fn span(d: &SpanData) -> T {
    let c = &d.span_context;
    let kind = match d.span_kind {
        SpanKind::Internal => 1,
        SpanKind::Server => 2,
        SpanKind::Client => 3,
        SpanKind::Producer => 4,
        SpanKind::Consumer => 5,
    };
    let status = match &d.status {
        Status::Unset => m("Status", vec![]),
        Status::Ok => m("Status", vec![("code", i(1))]),
        Status::Error { description } => m("Status", vec![("code", i(2)), ("message", s(description.as_ref()))]),
    };
    m(
        "Span",
        vec![
            ("traceId", y(&c.trace_id().to_bytes())),
            ("spanId", y(&c.span_id().to_bytes())),
            ("traceState", s(c.trace_state().header())),
            ("parentSpanId", if d.parent_span_id == SpanId::INVALID { y(&[]) } else { y(&d.parent_span_id.to_bytes()) }),
            ("name", s(d.name.as_ref())),
            ("kind", i(kind)),
            ("startTimeUnixNano", nanos(d.start_time)),
            ("endTimeUnixNano", nanos(d.end_time)),
            ("attributes", kvs(&d.attributes)),
            ("droppedAttributesCount", i(d.dropped_attributes_count)),
            (
                "events",
                T::List(
                    d.events
                        .events
                        .iter()
                        .map(|e| {
                            m(
                                "Event",
                                vec![
                                    ("timeUnixNano", nanos(e.timestamp)),
                                    ("name", s(e.name.as_ref())),
                                    ("attributes", kvs(&e.attributes)),
                                    ("droppedAttributesCount", i(e.dropped_attributes_count)),
                                ],
                            )
                        })
                        .collect(),
                ),
            ),
            ("droppedEventsCount", i(d.events.dropped_count)),
            (
                "links",
                T::List(
                    d.links
                        .links
                        .iter()
                        .map(|l| {
                            let c = &l.span_context;
                            m(
                                "Link",
                                vec![
                                    ("traceId", y(&c.trace_id().to_bytes())),
                                    ("spanId", y(&c.span_id().to_bytes())),
                                    ("traceState", s(c.trace_state().header())),
                                    ("attributes", kvs(&l.attributes)),
                                    ("droppedAttributesCount", i(l.dropped_attributes_count)),
                                    ("flags", i(c.trace_flags().to_u8())),
                                ],
                            )
                        })
                        .collect(),
                ),
            ),
            ("droppedLinksCount", i(d.links.dropped_count)),
            ("status", status),
            ("flags", i(c.trace_flags().to_u8())),
        ],
    )
}
fn sev(x: Option<Severity>) -> i32 {
    use Severity::*;
    let all = [
        Trace, Trace2, Trace3, Trace4, Debug, Debug2, Debug3, Debug4, Info, Info2, Info3, Info4, Warn, Warn2, Warn3, Warn4, Error, Error2, Error3, Error4, Fatal, Fatal2, Fatal3,
        Fatal4,
    ];
    x.map_or(0, |x| all.iter().position(|y| *y == x).unwrap() as i32 + 1)
}
pub fn log(d: &SdkLogRecord) -> T {
    let tc = d.trace_context();
    sort_maps(m(
        "LogRecord",
        vec![
            ("timeUnixNano", d.timestamp().map_or(i(0), nanos)),
            ("observedTimeUnixNano", d.observed_timestamp().map_or(i(0), nanos)),
            ("severityNumber", i(sev(d.severity_number()))),
            ("severityText", s(d.severity_text().unwrap_or(""))),
            ("body", d.body().map_or(m("AnyValue", vec![]), lany)),
            ("attributes", T::List(d.attributes_iter().map(|(k, v)| m("KeyValue", vec![("key", s(k.as_str())), ("value", lany(v))])).collect())),
            ("flags", i(tc.and_then(|t| t.trace_flags).map_or(0, |f| f.to_u8()))),
            ("traceId", tc.map_or(y(&[]), |t| y(&t.trace_id.to_bytes()))),
            ("spanId", tc.map_or(y(&[]), |t| y(&t.span_id.to_bytes()))),
            ("eventName", s(d.event_name().unwrap_or(""))),
        ],
    ))
}
pub trait Pv: Gen {
    fn key() -> &'static str;
    fn t(self) -> T;
    fn fl(self) -> f64;
}
impl Pv for f64 {
    fn key() -> &'static str {
        "asDouble"
    }
    fn t(self) -> T {
        f(self)
    }
    fn fl(self) -> f64 {
        self
    }
}
impl Pv for i64 {
    fn key() -> &'static str {
        "asInt"
    }
    fn t(self) -> T {
        i(self)
    }
    fn fl(self) -> f64 {
        self as f64
    }
}
impl Pv for u64 {
    fn key() -> &'static str {
        "asInt"
    }
    fn t(self) -> T {
        i(self)
    }
    fn fl(self) -> f64 {
        self as f64
    }
}
fn temp(t: Temporality) -> T {
    i(match t {
        Temporality::Delta => 1,
        _ => 2,
    })
}
fn exem<V: Pv>(l: &[Exemplar<V>]) -> T {
    T::List(
        l.iter()
            .map(|e| {
                m(
                    "Exemplar",
                    vec![
                        ("timeUnixNano", nanos(e.time)),
                        (V::key(), e.value.t()),
                        ("spanId", y(&e.span_id)),
                        ("traceId", y(&e.trace_id)),
                        ("filteredAttributes", kvs(&e.filtered_attributes)),
                    ],
                )
            })
            .collect(),
    )
}
fn opt<V: Pv>(v: &mut Vec<(&'static str, T)>, k: &'static str, x: Option<V>) {
    if let Some(x) = x {
        v.push((k, f(x.fl())));
    }
}
fn data<V: Pv>(d: &MetricData<V>) -> (&'static str, T) {
    match d {
        MetricData::Gauge(g) => (
            "gauge",
            m(
                "Gauge",
                vec![(
                    "dataPoints",
                    T::List(
                        g.data_points
                            .iter()
                            .map(|p| {
                                m(
                                    "Number",
                                    vec![
                                        ("startTimeUnixNano", g.start_time.map_or(i(0), nanos)),
                                        ("timeUnixNano", nanos(g.time)),
                                        (V::key(), p.value.t()),
                                        ("exemplars", exem(&p.exemplars)),
                                        ("attributes", kvs(&p.attributes)),
                                    ],
                                )
                            })
                            .collect(),
                    ),
                )],
            ),
        ),
        MetricData::Sum(g) => (
            "sum",
            m(
                "Sum",
                vec![
                    (
                        "dataPoints",
                        T::List(
                            g.data_points
                                .iter()
                                .map(|p| {
                                    m(
                                        "Number",
                                        vec![
                                            ("startTimeUnixNano", nanos(g.start_time)),
                                            ("timeUnixNano", nanos(g.time)),
                                            (V::key(), p.value.t()),
                                            ("exemplars", exem(&p.exemplars)),
                                            ("attributes", kvs(&p.attributes)),
                                        ],
                                    )
                                })
                                .collect(),
                        ),
                    ),
                    ("aggregationTemporality", temp(g.temporality)),
                    ("isMonotonic", T::B(g.is_monotonic)),
                ],
            ),
        ),
        MetricData::Histogram(h) => (
            "histogram",
            m(
                "Histogram",
                vec![
                    (
                        "dataPoints",
                        T::List(
                            h.data_points
                                .iter()
                                .map(|p| {
                                    let mut v = vec![
                                        ("startTimeUnixNano", nanos(h.start_time)),
                                        ("timeUnixNano", nanos(h.time)),
                                        ("count", i(p.count)),
                                        ("sum", f(p.sum.fl())),
                                        ("bucketCounts", T::List(p.bucket_counts.iter().map(|x| i(*x)).collect())),
                                        ("explicitBounds", T::List(p.bounds.iter().map(|x| f(*x)).collect())),
                                        ("exemplars", exem(&p.exemplars)),
                                        ("attributes", kvs(&p.attributes)),
                                    ];
                                    opt(&mut v, "min", p.min);
                                    opt(&mut v, "max", p.max);
                                    m("HistPoint", v)
                                })
                                .collect(),
                        ),
                    ),
                    ("aggregationTemporality", temp(h.temporality)),
                ],
            ),
        ),
        MetricData::ExponentialHistogram(h) => (
            "exponentialHistogram",
            m(
                "ExpHistogram",
                vec![
                    (
                        "dataPoints",
                        T::List(
                            h.data_points
                                .iter()
                                .map(|p| {
                                    let b = |b: &ExponentialBucket| m("Buckets", vec![("offset", i(b.offset)), ("bucketCounts", T::List(b.counts.iter().map(|x| i(*x)).collect()))]);
                                    let mut v = vec![
                                        ("startTimeUnixNano", nanos(h.start_time)),
                                        ("timeUnixNano", nanos(h.time)),
                                        ("count", i(p.count as u64)),
                                        ("sum", f(p.sum.fl())),
                                        ("scale", i(p.scale)),
                                        ("zeroCount", i(p.zero_count)),
                                        ("positive", b(&p.positive_bucket)),
                                        ("negative", b(&p.negative_bucket)),
                                        ("exemplars", exem(&p.exemplars)),
                                        ("attributes", kvs(&p.attributes)),
                                        ("zeroThreshold", f(p.zero_threshold)),
                                    ];
                                    opt(&mut v, "min", p.min);
                                    opt(&mut v, "max", p.max);
                                    m("ExpPoint", v)
                                })
                                .collect(),
                        ),
                    ),
                    ("aggregationTemporality", temp(h.temporality)),
                ],
            ),
        ),
    }
}
pub fn metric(x: &Metric) -> T {
    let d = match &x.data {
        AggregatedMetrics::F64(d) => data(d),
        AggregatedMetrics::I64(d) => data(d),
        AggregatedMetrics::U64(d) => data(d),
    };
    m("Metric", vec![("name", s(x.name.as_ref())), ("description", s(x.description.as_ref())), ("unit", s(x.unit.as_ref())), d])
}

// --- canonical form of a request: (resource, its schema) -> (scope, its schema) -> items in order ---
pub type Groups = BTreeMap<(T, String), BTreeMap<(T, String), Vec<T>>>;
const NAMES: [(&str, &str, &str, &str); 3] =
    [("TraceReq", "resourceSpans", "scopeSpans", "spans"), ("MetricReq", "resourceMetrics", "scopeMetrics", "metrics"), ("LogReq", "resourceLogs", "scopeLogs", "logRecords")];
pub fn groups(sig: usize, t: &T) -> Groups {
    let (_, rs, ss, items) = NAMES[sig];
    let mut g = Groups::new();
    for r in t.list(rs) {
        let mut res = r.get("resource").cloned().unwrap_or(m("Resource", vec![]));
        if let Some(a) = res.take("attributes") {
            res.set("attributes", sorted(a));
        }
        let e = g.entry((res, r.text("schemaUrl"))).or_default();
        for sc in r.list(ss) {
            let mut so = sc.get("scope").cloned().unwrap_or(m("Scope", vec![]));
            if let Some(a) = so.take("attributes") {
                so.set("attributes", sorted(a));
            }
            let v = e.entry((so, sc.text("schemaUrl"))).or_default();
            for mut x in sc.list(items) {
                // only the low byte of flags are the trace flags
                for k in ["flags"] {
                    if let Some(T::I(n)) = x.take(k) {
                        if sig == 1 || n & 0xff != 0 {
                            x.set("flags", T::I(n & 0xff));
                        }
                    }
                }
                if sig == 1 {
                    v.push(x)
                } else {
                    v.push(sort_maps(x));
                }
            }
        }
    }
    g
}
fn gdiff(e: &Groups, g: &Groups) -> Option<String> {
    for (k, v) in e {
        let Some(w) = g.get(k) else {
            return Some(format!("resource {k:?} not found, but {:?}", g.keys().collect::<Vec<_>>()));
        };
        for (k, l) in v {
            let Some(x) = w.get(k) else {
                if l.is_empty() {
                    continue;
                }
                return Some(format!("scope {k:?} not found, but {:?}", w.keys().collect::<Vec<_>>()));
            };
            if let Some(d) = T::List(l.clone()).diff(&T::List(x.clone())) {
                return Some(format!("in scope {k:?}: {d}"));
            }
        }
        if let Some(k) = w.keys().find(|k| !v.contains_key(k)) {
            return Some(format!("extra scope {k:?}"));
        }
    }
    g.keys().find(|k| !e.contains_key(k)).map(|k| format!("extra resource {k:?}"))
}
/// the values JSON numbers cannot express, outside attribute values
fn without_nonfinite(t: &T, hits: &mut u64) -> T {
    match t {
        T::Msg(o) => T::Msg(
            o.iter()
                .filter_map(|(k, v)| {
                    if matches!(*k, "attributes" | "filteredAttributes") {
                        return Some((*k, v.clone()));
                    }
                    if let T::F(b) = v {
                        if !f64::from_bits(*b).is_finite() {
                            *hits += 1;
                            return (!matches!(*k, "sum" | "min" | "max")).then(|| (*k, f(f64::NAN)));
                        }
                    }
                    Some((*k, without_nonfinite(v, hits)))
                })
                .collect(),
        ),
        T::List(l) => T::List(l.iter().map(|v| without_nonfinite(v, hits)).collect()),
        T::F(b) if !f64::from_bits(*b).is_finite() => {
            *hits += 1;
            f(f64::NAN)
        }
        t => t.clone(),
    }
}
fn gmap(g: &Groups, hits: &mut u64) -> Groups {
    g.iter().map(|(k, v)| (k.clone(), v.iter().map(|(k, l)| (k.clone(), l.iter().map(|x| without_nonfinite(x, hits)).collect())).collect())).collect()
}

/// decode a request body and compare it with what was exported; then through the crate's own
/// decoders and encoders once more
/// the request holds exactly what was expected (non-finite points aside in JSON)
pub fn decode(sig: usize, is_json: bool, body: &[u8]) -> Result<T, String> {
    let ty = NAMES[sig].0;
    if is_json {
        wire::parse_json(body).and_then(|j| wire::json(ty, &j, &mut Default::default()))
    } else {
        wire::proto(ty, body)
    }
}
pub fn compare(sig: usize, want: &Groups, is_json: bool, body: &[u8]) -> Result<(), String> {
    let ty = NAMES[sig].0;
    let tree = if is_json { wire::parse_json(body).and_then(|j| wire::json(ty, &j, &mut Default::default())) } else { wire::proto(ty, body) }?;
    let got = groups(sig, &tree);
    let mut h = 0;
    match if is_json { gdiff(&gmap(want, &mut h), &gmap(&got, &mut h)) } else { gdiff(want, &got) } {
        None => Ok(()),
        Some(d) => Err(d),
    }
}
pub fn judge(c: &Case, sig: usize, want: &Groups, is_json: bool, body: &[u8]) -> bool {
    let ty = NAMES[sig].0;
    let mut odd = wire::Odd::new();
    let tree = if is_json { wire::parse_json(body).and_then(|j| wire::json(ty, &j, &mut odd)) } else { wire::proto(ty, body) };
    let enc = if is_json { "json" } else { "protobuf" };
    let tree = match tree {
        Ok(t) => t,
        Err(e) => {
            c.fail(&format!("{enc}-undecodable"), format!("{e}; body {:?}", String::from_utf8_lossy(&body[..body.len().min(600)])));
            return false;
        }
    };
    c.count(&format!("{enc}_bodies"), 1);
    let got = groups(sig, &tree);
    let d = gdiff(want, &got);
    let mut hits = 0;
    if is_json && d.is_some() {
        let (w, g) = (gmap(want, &mut hits), gmap(&got, &mut 0));
        if hits > 0 {
            c.fail("json-nonfinite", format!("a data point's NaN or infinity did not survive OTLP-JSON: {}", d.as_deref().unwrap_or("")));
        }
        if let Some(d) = gdiff(&w, &g) {
            c.fail(&format!("{enc}-differs"), d);
            return false;
        }
    } else if let Some(d) = d {
        c.fail(&format!("{enc}-differs"), d);
        return false;
    }
    if odd.contains("json-nonfinite") && hits == 0 {
        hits = 1;
        c.fail("json-nonfinite", "a data point's NaN is null in OTLP-JSON");
    }
    if odd.contains("json-exemplar-value") {
        c.fail("json-exemplar-value", "an exemplar's value is nested in \"value\" in OTLP-JSON");
    }
    // the crate's own decoding and re-encoding, both ways
    if hits > 0 {
        return true;
    }
    let re = match again(sig, is_json, body) {
        Ok(x) => x,
        Err(e) => {
            c.fail("own-decoding", format!("the crate cannot decode its own {enc}: {e}; body {:?}", String::from_utf8_lossy(&body[..body.len().min(600)])));
            return false;
        }
    };
    match wire::proto(ty, &re) {
        Ok(t) if t.near(&tree) => {
            c.count("own_round_trips", 1);
            true
        }
        Ok(t) => {
            c.fail("own-round-trip", format!("{enc} -> {}", tree.diff(&t).unwrap_or_default()));
            false
        }
        Err(e) => {
            c.fail("own-round-trip", e);
            false
        }
    }
}
fn again(sig: usize, is_json: bool, body: &[u8]) -> Result<Vec<u8>, String> {
    use opentelemetry_proto::tonic::collector::{logs::v1::*, metrics::v1::*, trace::v1::*};
    fn one<X: Message + Default + PartialEq + serde_json_de::De>(is_json: bool, body: &[u8]) -> Result<Vec<u8>, String> {
        let x: X = if is_json { X::from_json(body)? } else { X::decode(body).map_err(|e| e.to_string())? };
        // protobuf -> JSON -> protobuf as well
        if !is_json {
            let j = x.to_json()?;
            if let Ok(b) = X::from_json(&j) {
                if b == x {
                    return Ok(b.encode_to_vec());
                }
            }
        }
        Ok(x.encode_to_vec())
    }
    match sig {
        0 => one::<ExportTraceServiceRequest>(is_json, body),
        1 => one::<ExportMetricsServiceRequest>(is_json, body),
        _ => one::<ExportLogsServiceRequest>(is_json, body),
    }
}
mod serde_json_de {
    use opentelemetry_proto::tonic::collector::{logs::v1::*, metrics::v1::*, trace::v1::*};
    pub trait De: Sized {
        fn from_json(b: &[u8]) -> Result<Self, String>;
        fn to_json(&self) -> Result<Vec<u8>, String>;
    }
    macro_rules! de {
        ($($t:ty),*) => {$(impl De for $t {
            fn from_json(b: &[u8]) -> Result<Self, String> {
                serde_json::from_slice(b).map_err(|e| e.to_string())
            }
            fn to_json(&self) -> Result<Vec<u8>, String> {
                serde_json::to_vec(self).map_err(|e| e.to_string())
            }
        })*};
    }
    de!(ExportTraceServiceRequest, ExportMetricsServiceRequest, ExportLogsServiceRequest);
}

// --- generators ---
/// distinct keys, any value
fn rdrop(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => r.u64() as u32,
        1 => 1,
        _ => 0,
    }
}
pub fn rspan(r: &mut Rng, sc: &[InstrumentationScope]) -> SpanData {
    let mut events = SpanEvents::default();
    events.events = (0..if r.bool() { 0 } else { r.idx(4) }).map(|_| Event::new(r.text(8), rtime(r), ra(r, 3), rdrop(r))).collect();
    events.dropped_count = rdrop(r);
    let mut links = SpanLinks::default();
    links.links = (0..if r.bool() { 0 } else { r.idx(4) }).map(|_| Link::new(rctx(r), ra(r, 3), rdrop(r))).collect();
    links.dropped_count = rdrop(r);
    SpanData {
        span_context: rctx(r),
        parent_span_id: match r.below(3) {
            0 => SpanId::INVALID,
            1 => sid_of(1),
            _ => sid_of(r.u64()),
        },
        span_kind: rkind(r),
        name: r.text(12).into(),
        start_time: rtime(r),
        end_time: rtime(r),
        attributes: ra(r, 6),
        dropped_attributes_count: rdrop(r),
        events,
        links,
        status: match r.below(3) {
            0 => Status::Unset,
            1 => Status::Ok,
            _ => Status::error(r.text(10)),
        },
        instrumentation_scope: r.pick(sc).clone(),
    }
}
pub fn rscopes(r: &mut Rng) -> Vec<InstrumentationScope> {
    // scopes that differ although their encodings do not (in the type of an empty array) would
    // leave the order among their items open
    let mut l: Vec<InstrumentationScope> = vec![];
    for _ in 0..1 + r.idx(4) {
        let s = rscope(r);
        let same = l.iter().find(|u| sort_maps(scope(u)) == sort_maps(scope(&s)) && u.schema_url().unwrap_or("") == s.schema_url().unwrap_or("")).cloned();
        l.push(same.unwrap_or(s));
    }
    l
}
pub fn rmetrics(r: &mut Rng, res: Resource) -> ResourceMetrics {
    let n = r.idx(4);
    let mut scopes = rscopes(r);
    scopes.truncate(n);
    // the SDK hands over each scope once
    let mut uniq: Vec<InstrumentationScope> = vec![];
    for s in scopes {
        if !uniq.iter().any(|u| scope(u) == scope(&s) && u.schema_url().unwrap_or("") == s.schema_url().unwrap_or("")) {
            uniq.push(s);
        }
    }
    ResourceMetrics { resource: res, scope_metrics: uniq.into_iter().map(|scope| ScopeMetrics { scope, metrics: (0..r.idx(4)).map(|_| rmetric(r)).collect() }).collect() }
}
pub fn rlogs(r: &mut Rng) -> Vec<(SdkLogRecord, InstrumentationScope)> {
    use opentelemetry::logs::LoggerProvider as _;
    let sc = rscopes(r);
    let lg = opentelemetry_sdk::logs::SdkLoggerProvider::builder().build().logger("x");
    (0..r.idx(8))
        .map(|_| {
            let mut rec = llib::new_record(&lg);
            let mut md = llib::LModel::default();
            for _ in 0..r.idx(9) {
                md.set(r, &mut rec);
            }
            if r.bool() {
                let d = 3;
                rec.set_body(llib::rany(r, d));
            }
            if r.chance(1, 3) {
                rec.add_attribute(["deep", "é"][r.idx(2)], llib::rany(r, 3));
            }
            if rec.observed_timestamp().is_none() {
                rec.set_observed_timestamp(rtime(r));
            }
            (rec, r.pick(&sc).clone())
        })
        .collect()
}
pub fn want_spans(l: &[SpanData], res: &Resource) -> Groups {
    let mut g = Groups::new();
    let e = g.entry(resource(res)).or_default();
    for d in l {
        e.entry((scope(&d.instrumentation_scope), d.instrumentation_scope.schema_url().unwrap_or("").into())).or_default().push(span(d));
    }
    g
}
pub fn want_metrics(x: &ResourceMetrics) -> Groups {
    let mut g = Groups::new();
    let e = g.entry(resource(&x.resource)).or_default();
    for sm in &x.scope_metrics {
        e.entry((scope(&sm.scope), sm.scope.schema_url().unwrap_or("").into())).or_default().extend(sm.metrics.iter().map(metric));
    }
    g
}
/// Records of one target come from different scopes: order is judged within (target, scope), so
/// target groups are compared as multisets with the order of each scope's records kept.
pub fn want_logs(l: &[(SdkLogRecord, InstrumentationScope)], res: &Resource) -> (Groups, Vec<(T, Vec<Vec<T>>)>) {
    let mut g = Groups::new();
    let mut targets: Vec<(T, Vec<(String, Vec<T>)>)> = vec![];
    let e = g.entry(resource(res)).or_default();
    for (d, sc) in l {
        match d.target() {
            Some(t) => {
                let k = m("Scope", vec![("name", s(t.as_ref()))]);
                let key = format!("{:?}", (scope(sc), sc.schema_url().unwrap_or("")));
                let tg = match targets.iter().position(|x| x.0 == k) {
                    Some(p) => p,
                    None => {
                        targets.push((k, vec![]));
                        targets.len() - 1
                    }
                };
                match targets[tg].1.iter_mut().find(|x| x.0 == key) {
                    Some(x) => x.1.push(log(d)),
                    None => targets[tg].1.push((key, vec![log(d)])),
                }
            }
            None => e.entry((scope(sc), sc.schema_url().unwrap_or("").into())).or_default().push(log(d)),
        }
    }
    (g, targets.into_iter().map(|(k, v)| (k, v.into_iter().map(|x| x.1).collect())).collect())
}
/// is `got` an interleaving of the sequences?
fn interleaving(seqs: &[Vec<T>], got: &[T]) -> bool {
    if seqs.iter().map(Vec::len).sum::<usize>() != got.len() {
        return false;
    }
    // positions reachable after each item (equal items in several sequences branch)
    let mut states = std::collections::BTreeSet::from([vec![0usize; seqs.len()]]);
    for x in got {
        let mut next = std::collections::BTreeSet::new();
        for st in &states {
            for (n, q) in seqs.iter().enumerate() {
                if q.get(st[n]) == Some(x) {
                    let mut t = st.clone();
                    t[n] += 1;
                    next.insert(t);
                }
            }
        }
        states = next;
    }
    !states.is_empty()
}
/// take the target groups out of what was received, whatever their schema URL
pub fn split_targets(c: &Case, got: &mut Groups, want: &Groups, targets: &[(T, Vec<Vec<T>>)]) -> bool {
    for (k, seqs) in targets {
        let mut found: Vec<T> = vec![];
        for e in got.values_mut() {
            for (key, l) in e.iter_mut().filter(|(key, _)| key.0 == *k) {
                // records without a target under an equal scope stay
                let stay: Vec<T> = want.values().filter_map(|w| w.get(key)).flatten().cloned().collect();
                let mut left = stay.clone();
                let mut keep = vec![];
                for x in l.drain(..) {
                    match left.iter().position(|y| *y == x) {
                        Some(p) => {
                            left.remove(p);
                            keep.push(x);
                        }
                        None => found.push(x),
                    }
                }
                *l = keep;
            }
            e.retain(|key, l| key.0 != *k || !l.is_empty());
        }
        if !interleaving(seqs, &found) {
            c.fail("target-group", format!("target {k:?}: expected the records {seqs:?}, received {found:?}"));
            return false;
        }
        c.count("target_groups", 1);
    }
    true
}

const PROTOS: [Protocol; 2] = [Protocol::HttpBinary, Protocol::HttpJson];
fn one_body(c: &Case, tap: &Tap, path: &str, json: bool) -> Option<bytes::Bytes> {
    let l = std::mem::take(&mut *tap.0.lock().unwrap());
    if l.len() != 1 {
        c.fail("requests", format!("{} requests sent for one export", l.len()));
        return None;
    }
    let q = &l[0];
    let ct = q.headers().get("content-type").map(|v| v.as_bytes().to_vec());
    let want_ct: &[u8] = if json { b"application/json" } else { b"application/x-protobuf" };
    c.check(q.uri().path() == path && ct.as_deref() == Some(want_ct) && q.method() == "POST", "request-line", || {
        format!("{} {} content-type {:?}", q.method(), q.uri(), ct.map(|c| String::from_utf8_lossy(&c).into_owned()))
    });
    Some(q.body().clone())
}

/// the z-pages messages carry what they hold of a span unchanged
fn zpages(c: &Case, d: &SpanData) -> bool {
    use opentelemetry_proto::tonic::tracez::v1::{ErrorData, LatencyData, RunningData};
    use prost::Message;
    let sp = span(d);
    let pick = |ty: &'static str, end: bool| {
        let mut l = vec![
            ("traceId", y(&d.span_context.trace_id().to_bytes())),
            ("spanId", y(&d.span_context.span_id().to_bytes())),
            ("parentId", y(&d.parent_span_id.to_bytes())),
            ("startTime", nanos(d.start_time)),
            ("attributes", T::List(sp.list("attributes"))),
            ("events", T::List(sp.list("events"))),
            ("links", T::List(sp.list("links"))),
        ];
        if end {
            l.push(("endTime", nanos(d.end_time)));
        }
        if let (true, Status::Error { description }) = (ty == "ErrorData", &d.status) {
            l.push(("status", m("Status", vec![("code", i(2)), ("message", s(description.as_ref()))])));
        }
        m(ty, l)
    };
    for (ty, b, end) in [
        ("LatencyData", LatencyData::from(d.clone()).encode_to_vec(), true),
        ("RunningData", RunningData::from(d.clone()).encode_to_vec(), false),
        ("ErrorData", ErrorData::from(d.clone()).encode_to_vec(), false),
    ] {
        let want = pick(ty, end);
        let got = wire::proto(ty, &b);
        if !c.check(got.as_ref() == Ok(&want), "z-pages", || format!("{ty} of {d:?}: expected {want:?}, decoded {got:?}")) {
            return false;
        }
    }
    c.count("zpages_conversions", 3);
    true
}
pub fn e01(ctx: &Ctx) {
    ctx.require("zpages_conversions", 500);
    ctx.require("protobuf_bodies", 2000);
    ctx.require("json_bodies", 2000);
    ctx.require("own_round_trips", 2000);
    ctx.require("spans", 10_000);
    ctx.require("grpc_bodies", 30);
    ctx.section("grpc", 0.15, 4, 20, |c, r| crate::e04::grpc_encoded(c, r, 0));
    ctx.section("encode", 0.85, 6, 500, |c, r| {
        let res = rresource(r);
        let p = r.idx(2);
        let tap = Tap::default();
        let mut ex = opentelemetry_otlp::SpanExporter::builder().with_http().with_http_client(tap.clone()).with_protocol(PROTOS[p]).build().unwrap();
        ex.set_resource(&res);
        let mut sig = 0;
        for _ in 0..3 {
            let sc = rscopes(r);
            let l: Vec<SpanData> = (0..r.idx(7)).map(|_| rspan(r, &sc)).collect();
            c.count("spans", l.len() as u64);
            let want = want_spans(&l, &res);
            sig = h64(&(sig, &format!("{want:?}")));
            if let Some(x) = l.first() {
                // a span encoded on its own
                use opentelemetry_proto::tonic::{collector::trace::v1::ExportTraceServiceRequest, trace::v1::ResourceSpans};
                use prost::Message;
                let one = ExportTraceServiceRequest { resource_spans: vec![ResourceSpans::new(x.clone(), &(&res).into())] };
                if !judge(c, 0, &want_spans(&l[..1], &res), false, &one.encode_to_vec()) {
                    return;
                }
                c.count("single_span_conversions", 1);
                if !zpages(c, x) {
                    return;
                }
            }
            let res = futures_executor::block_on(ex.export(l));
            c.check(res.is_ok(), "export", || format!("{res:?}"));
            let Some(b) = one_body(c, &tap, "/v1/traces", p == 1) else { return };
            if !judge(c, 0, &want, p == 1, &b) {
                return;
            }
        }
        c.seen(sig, true);
    });
}
pub fn e02(ctx: &Ctx) {
    ctx.require("protobuf_bodies", 2000);
    ctx.require("json_bodies", 2000);
    ctx.require("own_round_trips", 2000);
    ctx.require("sdk_collections", 100);
    ctx.require("grpc_bodies", 30);
    ctx.section("grpc", 0.15, 4, 20, |c, r| crate::e04::grpc_encoded(c, r, 1));
    ctx.section("encode", 0.65, 6, 500, |c, r| {
        let res = rresource(r);
        let p = r.idx(2);
        let tap = Tap::default();
        let ex = opentelemetry_otlp::MetricExporter::builder().with_http().with_http_client(tap.clone()).with_protocol(PROTOS[p]).build().unwrap();
        let mut sig = 0;
        for _ in 0..3 {
            let mut x = rmetrics(r, res.clone());
            let want = want_metrics(&x);
            sig = h64(&(sig, &format!("{want:?}")));
            let res = futures_executor::block_on(ex.export(&mut x));
            c.check(res.is_ok(), "export", || format!("{res:?}"));
            let Some(b) = one_body(c, &tap, "/v1/metrics", p == 1) else { return };
            if !judge(c, 1, &want, p == 1, &b) {
                return;
            }
        }
        c.seen(sig, true);
    });
    ctx.section("collected", 0.2, 2, 20, collected);
}
/// what a real reader collects, through the exporter
fn collected(c: &Case, r: &mut Rng) {
    use opentelemetry::metrics::MeterProvider as _;
    use opentelemetry_sdk::metrics::{PeriodicReader, SdkMeterProvider};
    /// exports through the OTLP exporter, keeping the tree of what it was given
    #[derive(Clone)]
    struct Both(Arc<opentelemetry_otlp::MetricExporter>, Arc<Mutex<Vec<Groups>>>);
    impl PushMetricExporter for Both {
        async fn export(&self, m: &mut ResourceMetrics) -> opentelemetry_sdk::error::OTelSdkResult {
            self.1.lock().unwrap().push(want_metrics(m));
            self.0.export(m).await
        }
        fn force_flush(&self) -> opentelemetry_sdk::error::OTelSdkResult {
            self.0.force_flush()
        }
        fn shutdown_with_timeout(&self, t: Duration) -> opentelemetry_sdk::error::OTelSdkResult {
            self.0.shutdown_with_timeout(t)
        }
        fn temporality(&self) -> Temporality {
            self.0.temporality()
        }
    }
    let p = r.idx(2);
    let t = if r.bool() { Temporality::Delta } else { Temporality::Cumulative };
    let tap = Tap::default();
    let ex = opentelemetry_otlp::MetricExporter::builder().with_http().with_http_client(tap.clone()).with_protocol(PROTOS[p]).with_temporality(t).build().unwrap();
    c.check(ex.temporality() == t, "temporality", || format!("{:?} configured, {:?} used", t, ex.temporality()));
    let b = Both(Arc::new(ex), Arc::default());
    let res = rresource(r);
    let mp = SdkMeterProvider::builder().with_resource(res).with_reader(PeriodicReader::builder(b.clone()).with_interval(Duration::from_secs(3600)).build()).build();
    let m = mp.meter_with_scope(rscope(r));
    let mut sig = 0;
    for _ in 0..3 {
        m.u64_counter("c").build().add(r.below(100), &ra(r, 3));
        m.f64_histogram("h").build().record(r.below(100) as f64 / 8.0, &ra(r, 3));
        m.i64_gauge("g").build().record(r.range(-9, 9), &ra(r, 3));
        m.f64_up_down_counter("u").build().add(r.range(-9, 9) as f64, &ra(r, 3));
        let f = mp.force_flush();
        c.check(f.is_ok(), "export", || format!("{f:?}"));
        let Some(want) = b.1.lock().unwrap().pop() else {
            c.fail("requests", "nothing collected at flush");
            return;
        };
        let Some(body) = one_body(c, &tap, "/v1/metrics", p == 1) else { return };
        sig = h64(&(sig, body.len(), p));
        c.count("sdk_collections", 1);
        if !judge(c, 1, &want, p == 1, &body) {
            return;
        }
    }
    let _ = mp.shutdown();
    c.seen(sig, true);
}
pub fn e03(ctx: &Ctx) {
    ctx.require("protobuf_bodies", 2000);
    ctx.require("json_bodies", 2000);
    ctx.require("own_round_trips", 2000);
    ctx.require("records", 10_000);
    ctx.require("target_groups", 1000);
    ctx.require("grpc_bodies", 30);
    ctx.section("grpc", 0.15, 4, 20, |c, r| crate::e04::grpc_encoded(c, r, 2));
    ctx.section("encode", 0.85, 6, 500, |c, r| {
        let res = rresource(r);
        let p = r.idx(2);
        let tap = Tap::default();
        let mut ex = opentelemetry_otlp::LogExporter::builder().with_http().with_http_client(tap.clone()).with_protocol(PROTOS[p]).build().unwrap();
        ex.set_resource(&res);
        let mut sig = 0;
        for _ in 0..3 {
            let l = rlogs(r);
            c.count("records", l.len() as u64);
            let (want, targets) = want_logs(&l, &res);
            sig = h64(&(sig, &format!("{want:?}{targets:?}")));
            let refs: Vec<_> = l.iter().map(|(a, b)| (a, b)).collect();
            let res = futures_executor::block_on(ex.export(LogBatch::new(&refs)));
            c.check(res.is_ok(), "export", || format!("{res:?}"));
            let Some(b) = one_body(c, &tap, "/v1/logs", p == 1) else { return };
            // the target groups first, the rest like the other signals
            let ty = NAMES[2].0;
            let tree = if p == 1 { wire::parse_json(&b).and_then(|j| wire::json(ty, &j, &mut Default::default())) } else { wire::proto(ty, &b) };
            if let Ok(t) = &tree {
                let mut got = groups(2, t);
                if !split_targets(c, &mut got, &want, &targets) {
                    return;
                }
                if let Some(d) = gdiff(&want, &got) {
                    c.fail("differs", d);
                    return;
                }
                // decoding by the crate itself
                if !judge(c, 2, &groups(2, t), p == 1, &b) {
                    return;
                }
            } else {
                c.fail("undecodable", format!("{tree:?}; body {:?}", String::from_utf8_lossy(&b[..b.len().min(600)])));
                return;
            }
        }
        c.seen(sig, true);
    });
}
