//! Spans: generated operations, a sequential reference model, recording processors.
use crate::*;
use opentelemetry::trace::*;
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::trace::{Span as SdkSpan, SpanData, SpanLimits, SpanProcessor};
use opentelemetry_sdk::Resource;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug)]
pub enum PEv {
    Start(usize, SpanId, Option<SpanData>),
    End(usize, SpanData),
    Flush(usize),
    Shutdown(usize),
}
/// A processor that logs everything into a log shared with its siblings.
#[derive(Debug)]
pub struct Rec {
    pub idx: usize,
    pub log: Arc<Mutex<Vec<PEv>>>,
    pub mark: bool,
    pub fail: Arc<AtomicBool>,
    pub res: Arc<Mutex<Option<Resource>>>,
    pub delay_us: Arc<AtomicU64>,
}
impl Rec {
    pub fn new(idx: usize, log: &Arc<Mutex<Vec<PEv>>>) -> Rec {
        Rec { idx, log: log.clone(), mark: false, fail: Default::default(), res: Default::default(), delay_us: Default::default() }
    }
    fn res(&self) -> OTelSdkResult {
        if self.fail.load(SeqCst) {
            Err(OTelSdkError::InternalFailure(format!("vh scripted failure {}", self.idx)))
        } else {
            Ok(())
        }
    }
    fn nap(&self) {
        let d = self.delay_us.load(SeqCst);
        if d > 0 {
            std::thread::sleep(Duration::from_micros(d));
        }
    }
}
impl SpanProcessor for Rec {
    fn on_start(&self, span: &mut SdkSpan, _cx: &Context) {
        if self.mark {
            span.set_attribute(KeyValue::new("mark", self.idx as i64));
        }
        let d = span.exported_data();
        self.log.lock().unwrap().push(PEv::Start(self.idx, span.span_context().span_id(), d));
    }
    fn on_end(&self, span: SpanData) {
        self.log.lock().unwrap().push(PEv::End(self.idx, span));
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.log.lock().unwrap().push(PEv::Flush(self.idx));
        self.nap();
        self.res()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.log.lock().unwrap().push(PEv::Shutdown(self.idx));
        self.nap();
        self.res()
    }
    fn set_resource(&mut self, r: &Resource) {
        *self.res.lock().unwrap() = Some(r.clone());
    }
}

pub fn rctx(r: &mut Rng) -> SpanContext {
    let tid = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => (r.u64() as u128) << 64,
        _ => r.u128(),
    };
    let sid = match r.below(6) {
        0 => 0,
        1 => 1,
        _ => r.u64(),
    };
    SpanContext::new(tid_of(tid), sid_of(sid), TraceFlags::new(r.u64() as u8), r.bool(), rstate(r))
}
pub fn valid_ctx(r: &mut Rng) -> SpanContext {
    SpanContext::new(tid_of(r.u128() | 1), sid_of(r.u64() | 1), TraceFlags::new(*r.pick(&[0, 1, 1, 1, 255, 2, 3])), r.bool(), rstate(r))
}
pub fn rstate(r: &mut Rng) -> TraceState {
    if r.bool() {
        return TraceState::NONE;
    }
    TraceState::from_key_value((0..1 + r.idx(4)).map(|i| (format!("k{i}"), format!("v{}", r.below(100))))).unwrap()
}
pub fn tid_of(x: u128) -> TraceId {
    TraceId::from_bytes(x.to_be_bytes())
}
pub fn sid_of(x: u64) -> SpanId {
    SpanId::from_bytes(x.to_be_bytes())
}
pub fn rkv(r: &mut Rng) -> KeyValue {
    // few keys, so that repeated ones occur
    let k = ["a", "b", "", "key with space", "c.d"][r.idx(5)];
    let k = mlib::store_key(r, k);
    KeyValue::new(k, mlib::rvalue(r))
}
pub fn rkvs(r: &mut Rng, edge: usize) -> Vec<KeyValue> {
    let n = match r.below(4) {
        0 => 0,
        1 => r.idx(4),
        _ => r.size_near(edge, edge + 6),
    };
    (0..n).map(|_| rkv(r)).collect()
}
/// as many attributes as sit near a limit; now and then far more
pub fn rkvs_lim(r: &mut Rng, limit: u32) -> Vec<KeyValue> {
    if r.chance(1, 150) {
        let n = match r.below(40) {
            0 => 65_530 + r.idx(400),
            1..=8 => r.size_near((limit as usize).min(300), 310),
            _ => r.idx(700),
        };
        let few: Vec<KeyValue> = (0..4).map(|_| rkv(r)).collect();
        return (0..n).map(|i| if n < 1000 && i % 3 == 0 { KeyValue::new(format!("k{i}"), i as i64) } else { few[i % 4].clone() }).collect();
    }
    rkvs(r, (limit as usize).min(40))
}
pub fn rtime(r: &mut Rng) -> SystemTime {
    match r.below(12) {
        0 => SystemTime::UNIX_EPOCH,
        1 => SystemTime::UNIX_EPOCH - Duration::from_secs(1),
        2 => SystemTime::UNIX_EPOCH + Duration::new(r.below(4_000_000_000), [999_999_999, 999_999_000, 999_000_000, 1, 0][r.idx(5)]),
        _ => SystemTime::UNIX_EPOCH + Duration::from_nanos(r.u64() >> 2),
    }
}
pub fn rkind(r: &mut Rng) -> SpanKind {
    r.pick(&[SpanKind::Client, SpanKind::Server, SpanKind::Producer, SpanKind::Consumer, SpanKind::Internal]).clone()
}
pub fn rstatus(r: &mut Rng) -> Status {
    match r.below(4) {
        0 => Status::Unset,
        1 => Status::Ok,
        _ => Status::error(["", "z", "a", "an error", "\u{1F4A5}"][r.idx(5)].to_string()),
    }
}

/// One operation on a live span.
#[derive(Clone, Debug)]
pub enum Op {
    Attr(KeyValue),
    Attrs(Vec<KeyValue>),
    Event(String, Vec<KeyValue>),
    EventAt(String, SystemTime, Vec<KeyValue>),
    Error(String),
    Status(Status),
    Name(String),
    Link(SpanContext, Vec<KeyValue>),
    End,
    EndAt(SystemTime),
}
#[derive(Debug)]
pub struct E(pub String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}

pub fn rop(r: &mut Rng, l: &SpanLimits, ends: bool) -> Op {
    let ev = l.max_attributes_per_event;
    match r.below(if ends { 15 } else { 13 }) {
        0..=2 => Op::Attr(rkv(r)),
        3 => Op::Attrs(rkvs(r, 3)),
        4 | 5 => Op::Event(r.text(8), rkvs_lim(r, ev)),
        6 => Op::EventAt(r.text(8), rtime(r), rkvs_lim(r, ev)),
        7 => Op::Error(r.text(10)),
        8 | 9 => Op::Status(rstatus(r)),
        10 => Op::Name(r.text(12)),
        11 | 12 => {
            Op::Link(if r.chance(1, 4) { rctx(r) } else { valid_ctx(r) }, rkvs_lim(r, l.max_attributes_per_link))
        }
        13 => Op::End,
        _ => Op::EndAt(rtime(r)),
    }
}
pub fn apply<S: Span>(s: &mut S, op: Op, via_ref: bool) {
    let _ = via_ref;
    match op {
        Op::Attr(a) => s.set_attribute(a),
        Op::Attrs(a) => s.set_attributes(a),
        Op::Event(n, a) => s.add_event(n, a),
        Op::EventAt(n, t, a) => s.add_event_with_timestamp(n, t, a),
        Op::Error(m) => s.record_error(&E(m)),
        Op::Status(x) => s.set_status(x),
        Op::Name(n) => s.update_name(n),
        Op::Link(c, a) => s.add_link(c, a),
        Op::End => s.end(),
        Op::EndAt(t) => s.end_with_timestamp(t),
    }
}
/// through the context: everything but links, which have no such method
pub fn apply_ref(s: &SpanRef<'_>, op: Op) {
    match op {
        Op::Attr(a) => s.set_attribute(a),
        Op::Attrs(a) => s.set_attributes(a),
        Op::Event(n, a) => s.add_event(n, a),
        Op::EventAt(n, t, a) => s.add_event_with_timestamp(n, t, a),
        Op::Error(m) => s.record_error(&E(m)),
        Op::Status(x) => s.set_status(x),
        Op::Name(n) => s.update_name(n),
        Op::Link(..) => {}
        Op::End => s.end(),
        Op::EndAt(t) => s.end_with_timestamp(t),
    }
}

#[derive(Clone, Debug)]
pub enum At {
    Exact(SystemTime),
    Between(SystemTime, SystemTime),
}
impl At {
    pub fn ok(&self, t: SystemTime) -> bool {
        match self {
            At::Exact(x) => *x == t,
            At::Between(a, b) => *a <= t && t <= *b,
        }
    }
}
pub struct MEv {
    pub name: String,
    pub at: At,
    pub attrs: Vec<KeyValue>,
    pub dropped: u32,
}
/// What a span must look like.
pub struct Model {
    pub limits: SpanLimits,
    pub name: String,
    pub kind: SpanKind,
    pub attrs: Vec<KeyValue>,
    pub dropped: u32,
    pub events: Vec<MEv>,
    pub dropped_events: u32,
    pub links: Vec<(SpanContext, Vec<KeyValue>, u32)>,
    pub dropped_links: u32,
    pub status: Status,
    pub start: At,
    pub end: Option<At>,
}
impl Model {
    pub fn attr(&mut self, a: KeyValue) {
        if self.attrs.len() < self.limits.max_attributes_per_span as usize {
            self.attrs.push(a);
        } else {
            self.dropped += 1;
        }
    }
    pub fn event(&mut self, name: String, at: At, a: Vec<KeyValue>) {
        if self.events.len() < self.limits.max_events_per_span as usize {
            let (attrs, dropped) = cut(a, self.limits.max_attributes_per_event);
            self.events.push(MEv { name, at, attrs, dropped });
        } else {
            self.dropped_events += 1;
        }
    }
    pub fn link(&mut self, c: SpanContext, a: Vec<KeyValue>) {
        if self.links.len() < self.limits.max_links_per_span as usize {
            let (a, d) = cut(a, self.limits.max_attributes_per_link);
            self.links.push((c, a, d));
        } else {
            self.dropped_links += 1;
        }
    }
    pub fn status(&mut self, s: Status) {
        match (&self.status, &s) {
            (Status::Ok, _) | (_, Status::Unset) => {}
            _ => self.status = s,
        }
    }
    /// `w` is the time window the operation ran in
    pub fn op(&mut self, op: &Op, w: (SystemTime, SystemTime)) {
        if self.end.is_some() {
            return;
        }
        let bt = At::Between(w.0, w.1);
        match op.clone() {
            Op::Attr(a) => self.attr(a),
            Op::Attrs(a) => a.into_iter().for_each(|a| self.attr(a)),
            Op::Event(n, a) => self.event(n, bt, a),
            Op::EventAt(n, t, a) => self.event(n, At::Exact(t), a),
            Op::Error(m) => self.event("exception".into(), bt, vec![KeyValue::new("exception.message", m)]),
            Op::Status(s) => self.status(s),
            Op::Name(n) => self.name = n,
            Op::Link(c, a) => self.link(c, a),
            Op::End => self.end = Some(bt),
            Op::EndAt(t) => self.end = Some(At::Exact(t)),
        }
    }
    /// differences from `d`, if any
    pub fn diff(&self, d: &SpanData, ended: bool) -> Option<String> {
        if d.name != self.name {
            return Some(format!("name {:?}, expected {:?}", d.name, self.name));
        }
        if d.span_kind != self.kind {
            return Some(format!("kind {:?}, expected {:?}", d.span_kind, self.kind));
        }
        if txt(&d.attributes) != txt(&self.attrs) || d.dropped_attributes_count != self.dropped {
            return Some(format!(
                "attributes {} (dropped {}), expected {} (dropped {})",
                txt(&d.attributes),
                d.dropped_attributes_count,
                txt(&self.attrs),
                self.dropped
            ));
        }
        if d.events.events.len() != self.events.len() || d.events.dropped_count != self.dropped_events {
            return Some(format!("{} events (dropped {}), expected {} (dropped {})", d.events.events.len(), d.events.dropped_count, self.events.len(), self.dropped_events));
        }
        for (i, (e, m)) in d.events.events.iter().zip(&self.events).enumerate() {
            if e.name != m.name || txt(&e.attributes) != txt(&m.attrs) || e.dropped_attributes_count != m.dropped || !m.at.ok(e.timestamp) {
                return Some(format!(
                    "event {i}: {:?} {} dropped {} at {:?}, expected {:?} {} dropped {} at {:?}",
                    e.name,
                    txt(&e.attributes),
                    e.dropped_attributes_count,
                    e.timestamp,
                    m.name,
                    txt(&m.attrs),
                    m.dropped,
                    m.at
                ));
            }
        }
        if d.links.links.len() != self.links.len() || d.links.dropped_count != self.dropped_links {
            return Some(format!("{} links (dropped {}), expected {} (dropped {})", d.links.links.len(), d.links.dropped_count, self.links.len(), self.dropped_links));
        }
        for (i, (l, m)) in d.links.links.iter().zip(&self.links).enumerate() {
            if l.span_context != m.0 || txt(&l.attributes) != txt(&m.1) || l.dropped_attributes_count != m.2 {
                return Some(format!("link {i}: {l:?}, expected {m:?}"));
            }
        }
        if d.status != self.status {
            return Some(format!("status {:?}, expected {:?}", d.status, self.status));
        }
        if !self.start.ok(d.start_time) {
            return Some(format!("start {:?}, expected {:?}", d.start_time, self.start));
        }
        match &self.end {
            Some(e) if ended && !e.ok(d.end_time) => Some(format!("end {:?}, expected {e:?}", d.end_time)),
            None if ended => Some("ended unexpectedly".into()),
            _ => None,
        }
    }
}
fn cut(mut a: Vec<KeyValue>, n: u32) -> (Vec<KeyValue>, u32) {
    let d = a.len().saturating_sub(n as usize);
    a.truncate(n as usize);
    (a, d as u32)
}
/// NaN-proof rendering
pub fn txt(a: &[KeyValue]) -> String {
    let v: Vec<String> = a.iter().map(|k| format!("{}={}", k.key, mlib::vtext(&k.value))).collect();
    format!("[{}]", v.join(","))
}
pub fn now() -> SystemTime {
    SystemTime::now()
}

/// A builder together with the model of what it says (`sampler_attrs` come after its own).
pub fn rbuilder(r: &mut Rng, l: SpanLimits, tracer_default: bool) -> (SpanBuilder, Model) {
    let name = r.text(10);
    let mut m = Model {
        limits: l,
        name: name.clone(),
        kind: SpanKind::Internal,
        attrs: vec![],
        dropped: 0,
        events: vec![],
        dropped_events: 0,
        links: vec![],
        dropped_links: 0,
        status: Status::Unset,
        start: At::Exact(SystemTime::UNIX_EPOCH),
        end: None,
    };
    let mut b = SpanBuilder::from_name(name);
    let t = now();
    m.start = At::Between(t, t);
    if tracer_default {
        return (b, m);
    }
    if r.bool() {
        let k = rkind(r);
        m.kind = k.clone();
        b = b.with_kind(k);
    }
    if r.bool() {
        let s = rtime(r);
        m.start = At::Exact(s);
        b = b.with_start_time(s);
    }
    if r.bool() {
        let a = rkvs_lim(r, l.max_attributes_per_span);
        a.iter().for_each(|x| m.attr(x.clone()));
        b = b.with_attributes(a);
    }
    if r.bool() {
        let n = if r.bool() { r.idx(3) } else { r.size_near((l.max_events_per_span as usize).min(40), 46) };
        let evs: Vec<Event> = (0..n)
            .map(|_| {
                let a = rkvs_lim(r, l.max_attributes_per_event);
                Event::new(r.text(6), rtime(r), a, 0)
            })
            .collect();
        evs.iter().for_each(|e| m.event(e.name.to_string(), At::Exact(e.timestamp), e.attributes.clone()));
        b = b.with_events(evs);
    }
    if r.bool() {
        let n = if r.bool() { r.idx(3) } else { r.size_near((l.max_links_per_span as usize).min(40), 46) };
        let ls: Vec<Link> = (0..n)
            .map(|_| {
                let a = rkvs_lim(r, l.max_attributes_per_link);
                Link::new(valid_ctx(r), a, 0)
            })
            .collect();
        ls.iter().for_each(|e| m.link(e.span_context.clone(), e.attributes.clone()));
        b = b.with_links(ls);
    }
    if r.chance(1, 3) {
        let s = rstatus(r);
        m.status = s.clone();
        b = b.with_status(s);
    }
    (b, m)
}

/// Samples everything and adds attributes.
#[derive(Clone, Debug)]
pub struct SamplerWith(pub Vec<KeyValue>);
impl opentelemetry_sdk::trace::ShouldSample for SamplerWith {
    fn should_sample(&self, cx: Option<&Context>, _t: TraceId, _n: &str, _k: &SpanKind, _a: &[KeyValue], _l: &[Link]) -> SamplingResult {
        SamplingResult {
            decision: SamplingDecision::RecordAndSample,
            attributes: self.0.clone(),
            trace_state: cx.map(|c| c.span().span_context().trace_state().clone()).unwrap_or_default(),
        }
    }
}
