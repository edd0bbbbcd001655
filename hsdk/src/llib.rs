//! Log records: generated content, a reference model, recording processors and exporter.
use crate::*;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, Severity};
use opentelemetry::trace::{SpanId, TraceFlags, TraceId};
use opentelemetry::{InstrumentationScope, Key};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::SystemTime;

pub fn rany(r: &mut Rng, depth: u32) -> AnyValue {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => AnyValue::Int(r.i64_edge()),
        1 => AnyValue::Double(r.f64_edge(true)),
        2 => AnyValue::String(mlib::rstring(r)),
        3 => AnyValue::Boolean(r.bool()),
        4 => {
            let n = r.idx(6);
            AnyValue::Bytes(Box::new((0..n).map(|_| r.u64() as u8).collect()))
        }
        5 => {
            let n = if r.chance(1, 100) { 60 + r.idx(80) } else { r.idx(5) };
            let depth = if n > 5 { 1 } else { depth };
            AnyValue::ListAny(Box::new((0..n).map(|_| rany(r, depth - 1)).collect()))
        }
        _ => {
            let n = r.idx(5);
            let empty = r.chance(1, 6);
            AnyValue::Map(Box::new((0..n).map(|i| (Key::new(if i == 0 && empty { String::new() } else { format!("m{i}{}", r.text(2)) }), rany(r, depth - 1))).collect::<HashMap<_, _>>()))
        }
    }
}
/// deterministic text of a value, floats by their bits
pub fn atext(v: &AnyValue) -> String {
    match v {
        AnyValue::Int(x) => format!("i{x}"),
        AnyValue::Double(x) => format!("d{:016x}", x.to_bits()),
        AnyValue::String(s) => format!("s{:?}", s.as_str()),
        AnyValue::Boolean(b) => format!("b{b}"),
        AnyValue::Bytes(b) => format!("y{b:?}"),
        AnyValue::ListAny(l) => format!("[{}]", l.iter().map(atext).collect::<Vec<_>>().join(",")),
        AnyValue::Map(m) => {
            let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{:?}:{}", k.as_str(), atext(v))).collect();
            v.sort();
            format!("{{{}}}", v.join(","))
        }
        _ => "?".into(),
    }
}
pub fn rsev(r: &mut Rng) -> Severity {
    use Severity::*;
    *r.pick(&[
        Trace, Trace2, Trace3, Trace4, Debug, Debug2, Debug3, Debug4, Info, Info2, Info3, Info4, Warn, Warn2, Warn3, Warn4, Error, Error2, Error3, Error4, Fatal, Fatal2, Fatal3,
        Fatal4,
    ])
}

#[derive(Clone, Debug, Default)]
pub struct LModel {
    pub event: Option<&'static str>,
    pub target: Option<String>,
    pub ts: Option<SystemTime>,
    pub ots: Option<SystemTime>,
    pub ots_window: Option<(SystemTime, SystemTime)>,
    pub tc: Option<(TraceId, SpanId, Option<TraceFlags>)>,
    pub sev_text: Option<&'static str>,
    pub sev: Option<Severity>,
    pub body: Option<String>,
    pub attrs: Vec<(String, String)>,
}
const NAMES: [&str; 5] = ["", "ev", "another.event", "\u{1F4A5}", "t"];
pub const SEVS: [&str; 4] = ["INFO", "", "custom", "ERROR"];
impl LModel {
    /// applies one random field setting to `rec` and the model
    pub fn set(&mut self, r: &mut Rng, rec: &mut SdkLogRecord) -> String {
        match r.below(12) {
            0 => {
                let n = *r.pick(&NAMES);
                rec.set_event_name(n);
                self.event = Some(n);
                format!("event={n:?}")
            }
            1 => {
                let t = r.text(6);
                if r.bool() {
                    rec.set_target(t.clone());
                } else {
                    rec.set_target(mlib::leak(&t));
                }
                self.target = Some(t.clone());
                format!("target={t:?}")
            }
            2 => {
                let t = slib::rtime(r);
                rec.set_timestamp(t);
                self.ts = Some(t);
                format!("ts={t:?}")
            }
            3 => {
                let t = slib::rtime(r);
                rec.set_observed_timestamp(t);
                self.ots = Some(t);
                format!("ots={t:?}")
            }
            4 => {
                let t = *r.pick(&SEVS);
                rec.set_severity_text(t);
                self.sev_text = Some(t);
                format!("sevtext={t:?}")
            }
            5 => {
                let s = rsev(r);
                rec.set_severity_number(s);
                self.sev = Some(s);
                format!("sev={s:?}")
            }
            6 => {
                let b = rany(r, 2);
                self.body = Some(atext(&b));
                rec.set_body(b);
                format!("body={:?}", self.body)
            }
            7 if r.bool() => {
                let t = slib::tid_of(if r.chance(1, 6) { 0 } else { r.u128() });
                let s = slib::sid_of(if r.chance(1, 6) { 0 } else { r.u64() });
                let f = if r.bool() { Some(TraceFlags::new(r.u64() as u8)) } else { None };
                rec.set_trace_context(t, s, f);
                self.tc = Some((t, s, f));
                format!("tc={t}-{s}-{f:?}")
            }
            8 => {
                let n = r.idx(4);
                let mut v = vec![];
                for _ in 0..n {
                    let k = r.text(4);
                    let a = rany(r, 1);
                    self.attrs.push((k.clone(), atext(&a)));
                    v.push((k, a));
                }
                rec.add_attributes(v);
                format!("attrs+{n}")
            }
            _ => {
                let k = r.text(4);
                let a = rany(r, 1);
                self.attrs.push((k.clone(), atext(&a)));
                let k = mlib::store_key(r, &k);
                rec.add_attribute(k, a);
                "attr+1".into()
            }
        }
    }
    pub fn diff(&self, d: &SdkLogRecord) -> Option<String> {
        macro_rules! eq {
            ($n:literal, $a:expr, $b:expr) => {
                if $a != $b {
                    return Some(format!("{} {:?}, expected {:?}", $n, $a, $b));
                }
            };
        }
        eq!("event name", d.event_name(), self.event);
        eq!("target", d.target().map(|t| t.to_string()), self.target);
        eq!("timestamp", d.timestamp(), self.ts);
        eq!("severity text", d.severity_text(), self.sev_text);
        eq!("severity", d.severity_number(), self.sev);
        eq!("body", d.body().map(atext), self.body);
        eq!("attributes", d.attributes_iter().map(|(k, v)| (k.as_str().to_string(), atext(v))).collect::<Vec<_>>(), self.attrs);
        eq!("trace context", d.trace_context().map(|t| (t.trace_id, t.span_id, t.trace_flags)), self.tc);
        match (d.observed_timestamp(), self.ots, self.ots_window) {
            (Some(a), Some(b), _) if a == b => None,
            (Some(a), None, Some((x, y))) if x <= a && a <= y => None,
            (a, b, w) => Some(format!("observed timestamp {a:?}, expected {b:?} or within {w:?}")),
        }
    }
}

/// what a processor does to the records passing through it
#[derive(Clone, Debug)]
pub enum Mutation {
    None,
    Body(i64),
    Attr(i64),
    Sev(Severity),
    Target(String),
    Event(&'static str),
    Many(usize),
}
impl Mutation {
    pub fn random(r: &mut Rng) -> Mutation {
        match r.below(8) {
            0 => Mutation::Body(r.i64_edge()),
            1 => Mutation::Attr(r.i64_edge()),
            2 => Mutation::Sev(rsev(r)),
            3 => Mutation::Target(r.text(5)),
            4 => Mutation::Event(r.pick(&NAMES)),
            5 => Mutation::Many(1 + r.idx(8)),
            _ => Mutation::None,
        }
    }
    pub fn apply(&self, d: &mut SdkLogRecord) {
        match self.clone() {
            Mutation::None => {}
            Mutation::Body(x) => d.set_body(AnyValue::Int(x)),
            Mutation::Attr(x) => d.add_attribute("mut", x),
            Mutation::Sev(s) => d.set_severity_number(s),
            Mutation::Target(t) => d.set_target(t),
            Mutation::Event(e) => d.set_event_name(e),
            Mutation::Many(n) => d.add_attributes((0..n).map(|i| (format!("many{i}"), i as i64))),
        }
    }
    pub fn model(&self, m: &mut LModel) {
        match self.clone() {
            Mutation::None => {}
            Mutation::Body(x) => m.body = Some(format!("i{x}")),
            Mutation::Attr(x) => m.attrs.push(("mut".into(), format!("i{x}"))),
            Mutation::Sev(s) => m.sev = Some(s),
            Mutation::Target(t) => m.target = Some(t),
            Mutation::Event(e) => m.event = Some(e),
            Mutation::Many(n) => (0..n).for_each(|i| m.attrs.push((format!("many{i}"), format!("i{i}")))),
        }
    }
}
#[derive(Clone, Debug)]
pub enum LEv {
    Emit(usize, Box<SdkLogRecord>, InstrumentationScope),
    Flush(usize),
    Shutdown(usize),
}
#[derive(Debug)]
pub struct RecL {
    pub idx: usize,
    pub log: Arc<Mutex<Vec<LEv>>>,
    pub mutation: Mutation,
    /// 0 nothing, 1 everything, otherwise by hash
    pub enabled: u64,
    pub fail: Arc<AtomicBool>,
    pub delay_us: u64,
}
impl RecL {
    pub fn new(idx: usize, log: &Arc<Mutex<Vec<LEv>>>) -> RecL {
        RecL { idx, log: log.clone(), mutation: Mutation::None, enabled: 1, fail: Default::default(), delay_us: 0 }
    }
    pub fn wants(enabled: u64, l: Severity, t: &str, n: Option<&str>) -> bool {
        match enabled {
            0 => false,
            1 => true,
            x => h64(&(x, l as i32, t, n)) % 2 == 0,
        }
    }
    fn res(&self) -> OTelSdkResult {
        if self.delay_us > 0 {
            std::thread::sleep(std::time::Duration::from_micros(self.delay_us));
        }
        if self.fail.load(SeqCst) {
            Err(OTelSdkError::InternalFailure(format!("vh scripted failure {}", self.idx)))
        } else {
            Ok(())
        }
    }
}
impl LogProcessor for RecL {
    fn emit(&self, d: &mut SdkLogRecord, s: &InstrumentationScope) {
        self.log.lock().unwrap().push(LEv::Emit(self.idx, Box::new(d.clone()), s.clone()));
        self.mutation.apply(d);
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.log.lock().unwrap().push(LEv::Flush(self.idx));
        self.res()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.log.lock().unwrap().push(LEv::Shutdown(self.idx));
        self.res()
    }
    fn event_enabled(&self, l: Severity, t: &str, n: Option<&str>) -> bool {
        RecL::wants(self.enabled, l, t, n)
    }
}
/// keeps whole records
#[derive(Debug, Clone, Default)]
pub struct KeepLogs(pub Arc<Mutex<Vec<(SdkLogRecord, InstrumentationScope)>>>);
impl LogExporter for KeepLogs {
    async fn export(&self, b: LogBatch<'_>) -> OTelSdkResult {
        let mut g = self.0.lock().unwrap();
        b.iter().for_each(|(r, s)| g.push((r.clone(), s.clone())));
        Ok(())
    }
}
pub fn rscope(r: &mut Rng) -> InstrumentationScope {
    let mut b = InstrumentationScope::builder(r.text(6));
    if r.bool() {
        b = b.with_version(r.text(4));
    }
    if r.bool() {
        b = b.with_schema_url(r.text(4));
    }
    if r.bool() {
        b = b.with_attributes(vec![opentelemetry::KeyValue::new("sc", r.below(5) as i64)]);
    }
    b.build()
}
pub fn scope_text(s: &InstrumentationScope) -> String {
    let mut a: Vec<String> = s.attributes().map(|k| format!("{}={}", k.key, mlib::vtext(&k.value))).collect();
    a.sort();
    format!("{:?} {:?} {:?} {a:?}", s.name(), s.version(), s.schema_url())
}
pub fn new_record(l: &SdkLogger) -> SdkLogRecord {
    l.create_log_record()
}
