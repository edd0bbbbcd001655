//! Recording exporters and a uniform view of every span / log pipeline: items carry a
//! u64 id (thread << 32 | sequence), exporters log what they were handed and when.
use crate::*;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::trace::{
    Span as _, SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState, Tracer as _, TracerProvider as _,
};
use opentelemetry::{Context, InstrumentationScope, KeyValue, Value};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::*;
use opentelemetry_sdk::trace::*;
use opentelemetry_sdk::Resource;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct ExpLog {
    pub inflight: AtomicI64,
    pub overlaps: AtomicU64,
    pub exports: AtomicU64,
    pub failed: AtomicU64,
    pub shutdowns: AtomicU64,
    pub after_shutdown: AtomicU64,
    pub empty: AtomicU64,
    pub unsuppressed: AtomicU64,
    pub closed: AtomicBool,
    pub begun: AtomicU64,
    pub order: Mutex<Vec<u64>>,
    pub batches: Mutex<Vec<usize>>,
    pub flaky: AtomicU64,
    pub fail: AtomicBool,
    /// which of the coming exports fail; used up front first
    pub script: Mutex<std::collections::VecDeque<bool>>,
    pub fail_shutdown: AtomicBool,
    /// which errors failing exports return: 0 one kind, 1 also AlreadyShutdown, 2 also Timeout
    pub kinds: AtomicU64,
    pub delay_us: AtomicU64,
    pub async_delay_us: AtomicU64,
    gate: Mutex<(bool, u64)>,
    cond: Condvar,
    pub resource: Mutex<Option<Resource>>,
    pub cancelled: AtomicU64,
    /// latest id (sequence part) whose export finished, per thread
    pub finished: Mutex<std::collections::HashMap<u64, u64>>,
    pub hook: Mutex<Option<Arc<dyn Fn() + Send + Sync>>>,
}
impl std::fmt::Debug for ExpLog {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ExpLog")
    }
}
impl ExpLog {
    pub fn close_gate(&self) {
        self.gate.lock().unwrap().0 = true;
    }
    pub fn open_gate(&self) {
        self.gate.lock().unwrap().0 = false;
        self.cond.notify_all();
    }
    pub fn at_gate(&self) -> u64 {
        self.gate.lock().unwrap().1
    }
    fn begin(&self, ids: &[u64]) -> u64 {
        if self.inflight.fetch_add(1, SeqCst) != 0 {
            self.overlaps.fetch_add(1, SeqCst);
        }
        if self.closed.load(SeqCst) {
            self.after_shutdown.fetch_add(1, SeqCst);
        }
        if ids.is_empty() {
            self.empty.fetch_add(1, SeqCst);
        }
        if !Context::is_current_telemetry_suppressed() {
            self.unsuppressed.fetch_add(1, SeqCst);
        }
        {
            let mut o = self.order.lock().unwrap();
            o.extend_from_slice(ids);
            self.batches.lock().unwrap().push(ids.len());
            self.begun.fetch_add(ids.len() as u64, SeqCst);
        }
        let hook = self.hook.lock().unwrap().clone();
        if let Some(h) = hook {
            h();
        }
        {
            let mut g = self.gate.lock().unwrap();
            if g.0 {
                g.1 += 1;
                while g.0 {
                    g = self.cond.wait(g).unwrap();
                }
                g.1 -= 1;
            }
        }
        let d = self.delay_us.load(SeqCst);
        if d > 0 {
            std::thread::sleep(Duration::from_micros(d));
        }
        self.exports.fetch_add(1, SeqCst)
    }
    fn end(&self, n: u64, ids: &[u64]) -> OTelSdkResult {
        {
            let mut f = self.finished.lock().unwrap();
            for i in ids {
                f.insert(i >> 32, i & 0xffff_ffff);
            }
        }
        self.inflight.fetch_sub(1, SeqCst);
        let scripted = self.script.lock().unwrap().pop_front() == Some(true);
        if scripted || self.fail.load(SeqCst) || h64(&n) % 100 < self.flaky.load(SeqCst) {
            self.failed.fetch_add(1, SeqCst);
            return Err(match h64(&(n, 5)) % (self.kinds.load(SeqCst) + 1) {
                1 => OTelSdkError::AlreadyShutdown,
                2 => OTelSdkError::Timeout(Duration::from_millis(3)),
                _ => OTelSdkError::InternalFailure("vh scripted failure".into()),
            });
        }
        Ok(())
    }
    fn down(&self) -> OTelSdkResult {
        self.shutdowns.fetch_add(1, SeqCst);
        self.closed.store(true, SeqCst);
        if self.fail_shutdown.load(SeqCst) {
            return Err(OTelSdkError::InternalFailure("vh scripted failure".into()));
        }
        Ok(())
    }
}
struct Cancel<'a>(&'a ExpLog, bool);
impl Drop for Cancel<'_> {
    fn drop(&mut self) {
        if self.1 {
            self.0.cancelled.fetch_add(1, SeqCst);
            self.0.inflight.fetch_sub(1, SeqCst);
        }
    }
}
async fn export(l: &ExpLog, ids: Vec<u64>) -> OTelSdkResult {
    let n = l.begin(&ids);
    let mut c = Cancel(l, true);
    let d = l.async_delay_us.load(SeqCst);
    if d > 0 {
        tokio::time::sleep(Duration::from_micros(d)).await;
    }
    c.1 = false;
    l.end(n, &ids)
}

#[derive(Debug)]
pub struct SpanExp(pub Arc<ExpLog>);
impl SpanExporter for SpanExp {
    async fn export(&self, batch: Vec<SpanData>) -> OTelSdkResult {
        let ids = batch.iter().map(span_id_of).collect();
        export(&self.0, ids).await
    }
    fn shutdown(&mut self) -> OTelSdkResult {
        self.0.down()
    }
    fn set_resource(&mut self, r: &Resource) {
        *self.0.resource.lock().unwrap() = Some(r.clone());
    }
}
pub fn span_id_of(s: &SpanData) -> u64 {
    s.attributes
        .iter()
        .find_map(|kv| match (&kv.key.as_str(), &kv.value) {
            (&"id", Value::I64(x)) => Some(*x as u64),
            _ => None,
        })
        .unwrap_or(u64::MAX)
}
#[derive(Debug)]
pub struct LogExp(pub Arc<ExpLog>);
impl LogExporter for LogExp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        let ids = batch
            .iter()
            .map(|(r, _)| match r.body() {
                Some(AnyValue::Int(x)) => *x as u64,
                _ => u64::MAX,
            })
            .collect();
        export(&self.0, ids).await
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.0.down()
    }
    fn set_resource(&mut self, r: &Resource) {
        *self.0.resource.lock().unwrap() = Some(r.clone());
    }
}

pub trait Pipe: Send + Sync {
    fn emit(&self, id: u64);
    fn flush(&self) -> OTelSdkResult;
    fn shutdown(&self) -> OTelSdkResult;
    /// what dropping the last handle does is specified (providers), as opposed to bare processors
    fn is_provider(&self) -> bool;
}
pub struct TracePipe {
    pub tp: SdkTracerProvider,
    pub tracer: SdkTracer,
}
impl Pipe for TracePipe {
    fn emit(&self, id: u64) {
        let mut s = self.tracer.span_builder("s").with_attributes(vec![KeyValue::new("id", id as i64)]).start(&self.tracer);
        s.end();
    }
    fn flush(&self) -> OTelSdkResult {
        self.tp.force_flush()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.tp.shutdown()
    }
    fn is_provider(&self) -> bool {
        true
    }
}
pub fn trace_pipe<P: SpanProcessor + 'static>(p: P) -> TracePipe {
    let tp = SdkTracerProvider::builder().with_span_processor(p).with_sampler(Sampler::AlwaysOn).build();
    let tracer = tp.tracer("t");
    TracePipe { tp, tracer }
}
pub struct RawSpan<P>(pub P);
impl<P: SpanProcessor> Pipe for RawSpan<P> {
    fn emit(&self, id: u64) {
        self.0.on_end(span_data(id));
    }
    fn flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.0.shutdown()
    }
    fn is_provider(&self) -> bool {
        false
    }
}
pub fn span_data(id: u64) -> SpanData {
    SpanData {
        span_context: SpanContext::new(TraceId::from_bytes((id as u128 + 1).to_be_bytes()), SpanId::from_bytes((id + 1).to_be_bytes()), TraceFlags::SAMPLED, false, TraceState::NONE),
        parent_span_id: SpanId::INVALID,
        span_kind: SpanKind::Internal,
        name: "s".into(),
        start_time: std::time::SystemTime::UNIX_EPOCH,
        end_time: std::time::SystemTime::UNIX_EPOCH,
        attributes: vec![KeyValue::new("id", id as i64)],
        dropped_attributes_count: 0,
        events: SpanEvents::default(),
        links: SpanLinks::default(),
        status: Status::Unset,
        instrumentation_scope: InstrumentationScope::builder("t").build(),
    }
}
pub struct LogPipe {
    pub lp: SdkLoggerProvider,
    pub logger: SdkLogger,
}
impl Pipe for LogPipe {
    fn emit(&self, id: u64) {
        let mut r = self.logger.create_log_record();
        r.set_body(AnyValue::Int(id as i64));
        self.logger.emit(r);
    }
    fn flush(&self) -> OTelSdkResult {
        self.lp.force_flush()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.lp.shutdown()
    }
    fn is_provider(&self) -> bool {
        true
    }
}
pub fn log_pipe<P: LogProcessor + 'static>(p: P) -> LogPipe {
    let lp = SdkLoggerProvider::builder().with_log_processor(p).build();
    let logger = lp.logger("l");
    LogPipe { lp, logger }
}
pub struct RawLog<P> {
    pub p: P,
    src: SdkLogger,
    scope: InstrumentationScope,
}
impl<P: LogProcessor> Pipe for RawLog<P> {
    fn emit(&self, id: u64) {
        let mut r = self.src.create_log_record();
        r.set_body(AnyValue::Int(id as i64));
        self.p.emit(&mut r, &self.scope);
    }
    fn flush(&self) -> OTelSdkResult {
        self.p.force_flush()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.p.shutdown()
    }
    fn is_provider(&self) -> bool {
        false
    }
}
pub fn raw_log<P: LogProcessor>(p: P) -> RawLog<P> {
    let src = SdkLoggerProvider::builder().build().logger("l");
    RawLog { p, src, scope: InstrumentationScope::builder("l").build() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PK {
    Span,
    Log,
    SimpleSpan,
    SimpleLog,
    AsyncSpan,
    AsyncLog,
    CtSpan,
    CtLog,
}
impl PK {
    pub fn is_async(self) -> bool {
        matches!(self, PK::AsyncSpan | PK::AsyncLog | PK::CtSpan | PK::CtLog)
    }
    pub fn is_log(self) -> bool {
        matches!(self, PK::Log | PK::SimpleLog | PK::AsyncLog | PK::CtLog)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub q: usize,
    pub b: usize,
    pub delay: Duration,
    pub timeout: Duration,
    pub conc: usize,
}
fn span_cfg(c: Cfg) -> opentelemetry_sdk::trace::BatchConfig {
    opentelemetry_sdk::trace::BatchConfigBuilder::default()
        .with_max_queue_size(c.q)
        .with_max_export_batch_size(c.b)
        .with_scheduled_delay(c.delay)
        .with_max_export_timeout(c.timeout)
        .with_max_concurrent_exports(c.conc)
        .build()
}
fn log_cfg(c: Cfg) -> opentelemetry_sdk::logs::BatchConfig {
    opentelemetry_sdk::logs::BatchConfigBuilder::default()
        .with_max_queue_size(c.q)
        .with_max_export_batch_size(c.b)
        .with_scheduled_delay(c.delay)
        .with_max_export_timeout(c.timeout)
        .build()
}
pub fn rt() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap())
}
pub fn make(k: PK, c: Cfg, provider: bool) -> (Box<dyn Pipe>, Arc<ExpLog>) {
    let log = Arc::new(ExpLog::default());
    let l = log.clone();
    let _g = rt().enter();
    macro_rules! span {
        ($p:expr) => {{
            let p = $p;
            if provider {
                Box::new(trace_pipe(p)) as Box<dyn Pipe>
            } else {
                Box::new(RawSpan(p))
            }
        }};
    }
    macro_rules! logp {
        ($p:expr) => {{
            let p = $p;
            if provider {
                Box::new(log_pipe(p)) as Box<dyn Pipe>
            } else {
                Box::new(raw_log(p))
            }
        }};
    }
    use opentelemetry_sdk::logs::log_processor_with_async_runtime as al;
    use opentelemetry_sdk::runtime::{Tokio, TokioCurrentThread};
    use opentelemetry_sdk::trace::span_processor_with_async_runtime as asp;
    let p = match k {
        PK::Span => span!(BatchSpanProcessor::builder(SpanExp(l)).with_batch_config(span_cfg(c)).build()),
        PK::Log => logp!(BatchLogProcessor::builder(LogExp(l)).with_batch_config(log_cfg(c)).build()),
        PK::SimpleSpan => span!(SimpleSpanProcessor::new(SpanExp(l))),
        PK::SimpleLog => logp!(SimpleLogProcessor::new(LogExp(l))),
        PK::AsyncSpan => span!(asp::BatchSpanProcessor::builder(SpanExp(l), Tokio).with_batch_config(span_cfg(c)).build()),
        PK::CtSpan => span!(asp::BatchSpanProcessor::builder(SpanExp(l), TokioCurrentThread).with_batch_config(span_cfg(c)).build()),
        PK::AsyncLog => logp!(al::BatchLogProcessor::builder(LogExp(l), Tokio).with_batch_config(log_cfg(c)).build()),
        PK::CtLog => logp!(al::BatchLogProcessor::builder(LogExp(l), TokioCurrentThread).with_batch_config(log_cfg(c)).build()),
    };
    (p, log)
}

/// waits until `f` holds, at most `s` seconds
pub fn eventually(s: f64, f: impl Fn() -> bool) -> bool {
    let t0 = Instant::now();
    let mut n = 0;
    loop {
        if f() {
            return true;
        }
        if t0.elapsed().as_secs_f64() > s {
            return f();
        }
        n += 1;
        std::thread::sleep(Duration::from_micros(if n < 50 { 20 } else { 500 }));
    }
}
pub fn is_already(r: &OTelSdkResult) -> bool {
    matches!(r, Err(OTelSdkError::AlreadyShutdown))
}
pub fn is_timeout(r: &OTelSdkResult) -> bool {
    match r {
        Err(OTelSdkError::Timeout(_)) => true,
        Err(e) => format!("{e}").contains("imeout") || format!("{e}").contains("imed out"),
        _ => false,
    }
}
