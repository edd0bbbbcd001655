//! U01: settings follow code over environment over default. One worker: the process
//! environment is the input. What a setting amounts to is observed from behaviour.
use hsdk::plib::*;
use hsdk::slib::*;
use hsdk::*;
use opentelemetry::logs::LoggerProvider as _;
use opentelemetry::trace::{Link, SamplingDecision, Span as _, SpanBuilder, SpanKind, TraceContextExt as _, Tracer as _, TracerProvider as _};
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::log_processor_with_async_runtime as al;
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::{SdkMeterProvider, Temporality};
use opentelemetry_sdk::runtime::Tokio;
use opentelemetry_sdk::trace::span_processor_with_async_runtime as asp;
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider, ShouldSample, SpanLimits};
use std::ffi::OsString;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn run(ctx: &Ctx) {
    ctx.require("sizes_from_env", 25);
    ctx.require("sizes_from_code_over_env", 15);
    ctx.require("sizes_by_default", 5);
    ctx.require("queue_drops", 20);
    ctx.require("delay_from_env", 5);
    ctx.require("delay_from_code_over_env", 10);
    ctx.require("timeouts_from_env", 2);
    ctx.require("interval_from_env", 1);
    ctx.require("delay_not_early", 1);
    ctx.require("default_delays", 10);
    ctx.require("limits_from_env", 40);
    ctx.require("limits_from_code", 25);
    ctx.require("sampler_decisions", 500);
    ctx.require("unparsable", 50);
    // the default delays pass while the rest runs
    let pending: Mutex<Option<Pending>> = Mutex::new(None);
    ctx.enumerate("defaults", 1, 1, |_, r| *pending.lock().unwrap() = Some(defaults_begin(r)));
    ctx.section("limits", 0.12, 1, 100, limits);
    ctx.section("sampler", 0.12, 1, 100, sampler);
    ctx.section("sizes", 0.3, 1, 60, sizes);
    ctx.section("delay", 0.14, 1, 30, delay);
    ctx.section("timeout", 0.1, 1, 6, timeout);
    ctx.section("metrics", 0.12, 1, 6, metrics);
    ctx.enumerate("defaults-observed", 1, 1, |c, _| defaults_end(c, pending.lock().unwrap().take().unwrap()));
}

const ALL: [&str; 18] = [
    "OTEL_BSP_MAX_QUEUE_SIZE",
    "OTEL_BSP_MAX_EXPORT_BATCH_SIZE",
    "OTEL_BSP_SCHEDULE_DELAY",
    "OTEL_BSP_EXPORT_TIMEOUT",
    "OTEL_BSP_MAX_CONCURRENT_EXPORTS",
    "OTEL_BLRP_MAX_QUEUE_SIZE",
    "OTEL_BLRP_MAX_EXPORT_BATCH_SIZE",
    "OTEL_BLRP_SCHEDULE_DELAY",
    "OTEL_BLRP_EXPORT_TIMEOUT",
    "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT",
    "OTEL_SPAN_EVENT_COUNT_LIMIT",
    "OTEL_SPAN_LINK_COUNT_LIMIT",
    "OTEL_TRACES_SAMPLER",
    "OTEL_TRACES_SAMPLER_ARG",
    "OTEL_METRIC_EXPORT_INTERVAL",
    "OTEL_METRIC_EXPORT_TIMEOUT",
    "OTEL_SERVICE_NAME",
    "OTEL_RESOURCE_ATTRIBUTES",
];
fn clear() {
    ALL.iter().for_each(|v| std::env::remove_var(v));
}
/// text that is not a number of the wanted kind
fn junk(r: &mut Rng, bits: u32) -> OsString {
    if r.chance(1, 12) {
        use std::os::unix::ffi::OsStringExt;
        return OsString::from_vec(vec![b'5', 0xff, b'0']);
    }
    if r.bool() {
        // nearly a number
        let n = 1 + r.below(12);
        return match r.below(8) {
            0 | 1 => format!("-{n}"),
            2 => format!(" {n}"),
            3 => format!("{n} "),
            4 => format!("{n}.0"),
            5 => format!("{n}ms"),
            6 => format!("{n}_0"),
            _ => format!("\"{n}\""),
        }
        .into();
    }
    let over = if bits == 32 { ["4294967296", "99999999999"] } else { ["18446744073709551616", "99999999999999999999999"] };
    ["", " ", "abc", "-1", "1.5", " 5", "5 ", "0x10", "1e3", "5,", "٣", "five", over[0], over[1]][r.idx(14)].into()
}
fn number(r: &mut Rng, n: u64) -> String {
    match r.below(5) {
        0 => format!("+{n}"),
        1 => format!("00{n}"),
        _ => n.to_string(),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
    Default,
    Junk,
    Env,
    Code,
}
/// where one setting comes from and what it must be
struct Set {
    src: Src,
    /// given to the builder
    code: Option<u64>,
    /// given in the environment, parsable
    env: Option<u64>,
    want: u64,
    text: String,
}
/// picks the sources of a numeric setting and puts the variable in place
fn setting(c: &Case, r: &mut Rng, var: &str, default: u64, bits: u32, from: &[Src], pick: impl Fn(&mut Rng) -> u64) -> Set {
    let src = *r.pick(from);
    let mut s = Set { src, code: None, env: None, want: default, text: String::new() };
    let put = |s: &mut Set, r: &mut Rng, c: &Case| match r.below(3) {
        0 => {
            let v = pick(r);
            let t = number(r, v);
            std::env::set_var(var, &t);
            s.env = Some(v);
            s.text = format!("{var}={t:?}");
        }
        1 => {
            let t = junk(r, bits);
            std::env::set_var(var, &t);
            s.text = format!("{var}={t:?}");
            c.count("unparsable", 1);
        }
        _ => {}
    };
    match src {
        Src::Default => {}
        Src::Junk => {
            let t = junk(r, bits);
            std::env::set_var(var, &t);
            s.text = format!("{var}={t:?}");
            c.count("unparsable", 1);
        }
        Src::Env => {
            let v = pick(r);
            let t = number(r, v);
            std::env::set_var(var, &t);
            s.text = format!("{var}={t:?}");
            s.env = Some(v);
            s.want = v;
        }
        Src::Code => {
            put(&mut s, r, c);
            let v = pick(r);
            s.code = Some(v);
            s.want = v;
            s.text += &format!(" code({v})");
        }
    }
    s
}

// ------------------------------------------------------------------ batch processors

#[derive(Clone, Copy, Default, Debug)]
struct Code {
    q: Option<u64>,
    b: Option<u64>,
    delay: Option<u64>,
    timeout: Option<u64>,
    conc: Option<u64>,
}
const KINDS: [PK; 4] = [PK::Span, PK::Log, PK::AsyncSpan, PK::AsyncLog];
/// settings given in code, in any order; none at all leaves the builder alone
fn build(k: PK, code: Code, order: u64, via_provider: bool) -> (Box<dyn Pipe>, Arc<ExpLog>) {
    let log = Arc::new(ExpLog::default());
    let l = log.clone();
    let _g = rt().enter();
    let any = code.q.is_some() || code.b.is_some() || code.delay.is_some() || code.timeout.is_some() || code.conc.is_some();
    let ms = Duration::from_millis;
    macro_rules! cfg {
        ($b:expr, $conc:expr) => {{
            let mut b = $b;
            for i in 0..5u64 {
                match (i + order) % 5 {
                    0 => b = if let Some(x) = code.q { b.with_max_queue_size(x as usize) } else { b },
                    1 => b = if let Some(x) = code.b { b.with_max_export_batch_size(x as usize) } else { b },
                    2 => b = if let Some(x) = code.delay { b.with_scheduled_delay(ms(x)) } else { b },
                    3 => b = if let Some(x) = code.timeout { b.with_max_export_timeout(ms(x)) } else { b },
                    _ => b = if let Some(x) = code.conc { $conc(b, x as usize) } else { b },
                }
            }
            b.build()
        }};
    }
    let sc = || cfg!(opentelemetry_sdk::trace::BatchConfigBuilder::default(), |b: opentelemetry_sdk::trace::BatchConfigBuilder, n| b.with_max_concurrent_exports(n));
    let lc = || cfg!(opentelemetry_sdk::logs::BatchConfigBuilder::default(), |b, _| b);
    macro_rules! go {
        ($b:expr, $c:ident) => {{
            let b = $b;
            if any || order % 2 == 0 {
                b.with_batch_config($c()).build()
            } else {
                b.build()
            }
        }};
    }
    let p: Box<dyn Pipe> = match k {
        PK::Span if via_provider && !any => {
            let tp = SdkTracerProvider::builder().with_batch_exporter(SpanExp(l)).with_sampler(Sampler::AlwaysOn).build();
            let tracer = tp.tracer("t");
            Box::new(TracePipe { tp, tracer })
        }
        PK::Log if via_provider && !any => {
            let lp = opentelemetry_sdk::logs::SdkLoggerProvider::builder().with_batch_exporter(LogExp(l)).build();
            let logger = lp.logger("t");
            Box::new(LogPipe { lp, logger })
        }
        PK::Span => Box::new(trace_pipe(go!(opentelemetry_sdk::trace::BatchSpanProcessor::builder(SpanExp(l)), sc))),
        PK::Log => Box::new(log_pipe(go!(opentelemetry_sdk::logs::BatchLogProcessor::builder(LogExp(l)), lc))),
        PK::AsyncSpan => Box::new(trace_pipe(go!(asp::BatchSpanProcessor::builder(SpanExp(l), Tokio), sc))),
        _ => Box::new(log_pipe(go!(al::BatchLogProcessor::builder(LogExp(l), Tokio), lc))),
    };
    (p, log)
}
fn prefix(k: PK) -> &'static str {
    if k.is_log() {
        "OTEL_BLRP"
    } else {
        "OTEL_BSP"
    }
}
/// the other signal's variables must not matter
fn other(r: &mut Rng, k: PK) {
    let p = prefix(if k.is_log() { PK::Span } else { PK::Log });
    for s in ["MAX_QUEUE_SIZE", "MAX_EXPORT_BATCH_SIZE", "SCHEDULE_DELAY", "EXPORT_TIMEOUT"] {
        if r.bool() {
            std::env::set_var(format!("{p}_{s}"), (1 + r.below(40)).to_string());
        }
    }
}
/// what is set after a component was built does not reach it
fn afterwards(r: &mut Rng) {
    clear();
    if r.bool() {
        for v in &ALL[..9] {
            std::env::set_var(v, (1 + r.below(30)).to_string());
        }
    }
}
const ANY: [Src; 6] = [Src::Default, Src::Junk, Src::Env, Src::Env, Src::Code, Src::Code];
const HOUR: u64 = 3_600_000;

/// the first batch holds B items; while it is held back exactly Q more fit
fn sizes(c: &Case, r: &mut Rng) {
    clear();
    let k = *r.pick(&KINDS);
    other(r, k);
    let p = prefix(k);
    let q = setting(c, r, &format!("{p}_MAX_QUEUE_SIZE"), 2048, 64, &ANY, |r| if r.chance(1, 8) { 600 + r.below(3000) } else { 1 + r.below(40) });
    let b = setting(c, r, &format!("{p}_MAX_EXPORT_BATCH_SIZE"), 512, 64, &ANY, |r| if r.chance(1, 8) { 500 + r.below(2000) } else { 1 + r.below(30) });
    // nothing is exported by the clock here
    let d = setting(c, r, &format!("{p}_SCHEDULE_DELAY"), 0, 64, &[Src::Env, Src::Code], |r| HOUR + r.below(1000));
    let order = r.below(10);
    let trace = format!("{k:?} [{}] [{}] [{}] order {order}", q.text, b.text, d.text);
    let (pipe, log) = build(k, Code { q: q.code, b: b.code, delay: d.code, ..Default::default() }, order, r.bool());
    afterwards(r);
    let qs = q.want;
    let mut bs = vec![b.want.min(qs)];
    // with the queue enlarged in code only, whether an unset batch size was already cut to
    // the environment's queue size is not judged
    if let (Some(e), true, None) = (q.env, q.code.is_some(), b.code) {
        bs.push(b.want.min(e).min(qs));
    }
    log.close_gate();
    let mut n = 0;
    let lo = *bs.iter().min().unwrap();
    let hi = *bs.iter().max().unwrap();
    let emit = |n: &mut u64| {
        pipe.emit(*n);
        *n += 1;
    };
    while n < lo - 1 {
        // the asynchronous processors take items off a channel of Q: do not outrun them
        emit(&mut n);
        if k.is_async() && n % 8 == 0 {
            std::thread::sleep(Duration::from_micros(200));
        }
        if k.is_async() && qs < 20 {
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    std::thread::sleep(Duration::from_millis(3));
    if !c.check(log.at_gate() == 0, "batch-too-small", || format!("an export began with {n} items waiting, the batch size is {bs:?}; {trace}")) {
        log.open_gate();
        let _ = pipe.shutdown();
        return;
    }
    let t0 = Instant::now();
    // items may miss the channel of an asynchronous processor: until its export begins
    while log.at_gate() == 0 && (n < hi || (k.is_async() && t0.elapsed().as_secs() < 20)) {
        emit(&mut n);
        if bs.len() > 1 || k.is_async() {
            std::thread::sleep(Duration::from_millis(if bs.len() > 1 { 10 } else { 1 }));
        }
    }
    if !c.check(eventually(20.0, || log.at_gate() > 0), "batch-too-large", || format!("no export with {n} items waiting, the batch size is {bs:?}; {trace}")) {
        log.open_gate();
        let _ = pipe.shutdown();
        return;
    }
    let first = log.batches.lock().unwrap()[0] as u64;
    c.check(bs.contains(&first), "batch-size", || format!("the first batch holds {first} items, the batch size is {bs:?}; {trace}"));
    for _ in 0..qs + 3 {
        emit(&mut n);
    }
    log.open_gate();
    // a full channel has no room for the flush message of the asynchronous processors
    let mut res = pipe.flush();
    let t0 = Instant::now();
    while k.is_async() && res.is_err() && t0.elapsed().as_secs() < 20 {
        std::thread::sleep(Duration::from_millis(1));
        res = pipe.flush();
    }
    let got = log.order.lock().unwrap().len() as u64;
    c.check(res.is_ok(), "flush", || format!("force_flush returned {res:?}; {trace}"));
    // items emitted between the B-th and the export's start are in the queue as well
    c.check(got == first + qs, "queue-size", || format!("{got} items of {n} were exported: a batch of {first} held back and a queue of {qs}; {trace}"));
    let m = log.batches.lock().unwrap().iter().copied().max().unwrap_or(0) as u64;
    c.check(m <= hi, "batch-size", || format!("a batch of {m} items, the batch size is {bs:?}; {trace}"));
    let _ = pipe.shutdown();
    for s in [&q, &b, &d] {
        match s.src {
            Src::Env => c.count("sizes_from_env", 1),
            Src::Code if s.text.contains('=') => c.count("sizes_from_code_over_env", 1),
            Src::Code => {}
            _ => c.count("sizes_by_default", 1),
        }
    }
    c.count("queue_drops", n.saturating_sub(got));
    c.seen(h64(&trace), true);
    c.sample(|| trace.clone());
}

/// a short delay exports by itself; a long one set in code over a short one in the
/// environment does not
fn delay(c: &Case, r: &mut Rng) {
    clear();
    let k = *r.pick(&KINDS);
    other(r, k);
    let p = prefix(k);
    let var = format!("{p}_SCHEDULE_DELAY");
    let short = 10 + r.below(40);
    let from_env = r.bool();
    // the largest delay that still says the default was not used
    let limit = if k.is_log() { 0.9 } else { 4.5 };
    let (mut late, mut n) = (0, 0);
    loop {
        clear();
        let (code, trace) = if from_env {
            std::env::set_var(&var, number(r, short));
            (Code::default(), format!("{k:?} {var}={short}"))
        } else {
            let t = match r.below(3) {
                0 => OsString::from(HOUR.to_string()),
                1 => junk(r, 64),
                _ => "".into(),
            };
            std::env::set_var(&var, &t);
            (Code { delay: Some(short), ..Default::default() }, format!("{k:?} {var}={t:?} code({short})"))
        };
        let (pipe, log) = build(k, code, r.below(10), r.bool());
        afterwards(r);
        let t0 = Instant::now();
        pipe.emit(n);
        n += 1;
        let ok = eventually(30.0, || log.begun.load(SeqCst) == 1);
        let took = t0.elapsed();
        let _ = pipe.shutdown();
        if !c.check(ok, "delay-ignored", || format!("nothing was exported within 30 s; {trace}")) {
            return;
        }
        if took.as_secs_f64() < limit {
            c.count(if from_env { "delay_from_env" } else { "delay_from_code_over_env" }, 1);
            c.seen(h64(&trace), true);
            break;
        }
        late += 1;
        if late == 4 {
            c.fail("delay-ignored", format!("{late} times in a row an item was exported only after {limit} s, the last time after {took:?}; {trace}"));
            return;
        }
    }
    // the other way round
    clear();
    std::env::set_var(&var, number(r, short));
    let (pipe, log) = build(k, Code { delay: Some(HOUR), ..Default::default() }, r.below(10), false);
    afterwards(r);
    pipe.emit(0);
    std::thread::sleep(Duration::from_millis(short * 2 + 30));
    c.check(log.begun.load(SeqCst) == 0, "delay-not-overridden", || format!("exported by the clock although the delay set in code is an hour; {k:?} {var}={short}"));
    let _ = pipe.shutdown();
    c.count("delay_from_code_over_env", 1);
    if !r.chance(1, 3) {
        return;
    }
    // nothing is exported by the clock before the delay has passed
    clear();
    let d = 200 + r.below(500);
    let (code, trace) = if r.bool() {
        std::env::set_var(&var, number(r, d));
        (Code::default(), format!("{k:?} {var}={d}"))
    } else {
        std::env::set_var(&var, {
            let x = 1 + r.below(20);
            number(r, x)
        });
        (Code { delay: Some(d), ..Default::default() }, format!("{k:?} short {var} code({d})"))
    };
    let t0 = Instant::now();
    let (pipe, log) = build(k, code, r.below(10), false);
    afterwards(r);
    pipe.emit(0);
    eventually(d as f64 * 0.7 / 1000.0, || log.begun.load(SeqCst) > 0);
    let (n, took) = (log.begun.load(SeqCst), t0.elapsed());
    c.check(n == 0 || took.as_secs_f64() > 0.9 * d as f64 / 1000.0, "delay-cut-short", || format!("exported by the clock after {took:?}; {trace}"));
    let _ = pipe.shutdown();
    c.count("delay_not_early", 1);
}

/// an exporter that does not finish is given up after the timeout (asynchronous processors)
fn timeout(c: &Case, r: &mut Rng) {
    clear();
    let k = *r.pick(&[PK::AsyncSpan, PK::AsyncLog]);
    other(r, k);
    let p = prefix(k);
    let var = format!("{p}_EXPORT_TIMEOUT");
    std::env::set_var(format!("{p}_SCHEDULE_DELAY"), HOUR.to_string());
    let short = 30 + r.below(60);
    let mut code = Code::default();
    let trace = match r.below(3) {
        0 => {
            std::env::set_var(&var, number(r, short));
            c.count("timeouts_from_env", 1);
            format!("{k:?} {var}={short}")
        }
        1 => {
            std::env::set_var(&var, HOUR.to_string());
            code.timeout = Some(short);
            format!("{k:?} {var}=1h code({short})")
        }
        _ => {
            // not given up before the hour (or the default of 30 s) is over
            if r.bool() {
                std::env::set_var(&var, number(r, short));
                code.timeout = Some(HOUR);
            } else if r.bool() {
                std::env::set_var(&var, junk(r, 64));
            }
            let (pipe, log) = build(k, code, r.below(10), false);
            afterwards(r);
            log.async_delay_us.store(short * 1000 + 100_000, SeqCst);
            pipe.emit(0);
            let res = pipe.flush();
            c.check(res.is_ok() && log.cancelled.load(SeqCst) == 0, "timeout-too-early", || format!("an export of {} ms was given up: force_flush returned {res:?}; {k:?} {var} code {code:?}", short + 100));
            let _ = pipe.shutdown();
            c.seen(h64(&(c.id(), short)), true);
            return;
        }
    };
    let (pipe, log) = build(k, code, r.below(10), false);
    afterwards(r);
    log.async_delay_us.store(25_000_000, SeqCst);
    pipe.emit(0);
    let t0 = Instant::now();
    let res = pipe.flush();
    let took = t0.elapsed();
    c.check(res.is_err() && log.cancelled.load(SeqCst) == 1, "timeout-ignored", || format!("an export that takes 25 s ended after {took:?}: force_flush returned {res:?}, {} exports cancelled; {trace}", log.cancelled.load(SeqCst)));
    c.check(took >= Duration::from_millis(short * 9 / 10), "timeout-too-early", || format!("given up after {took:?}; {trace}"));
    log.async_delay_us.store(0, SeqCst);
    let _ = pipe.shutdown();
    c.seen(h64(&trace), true);
}

// ------------------------------------------------------------------ metric readers

#[derive(Clone, Default)]
struct ME {
    n: Arc<AtomicU64>,
    slow_ms: Arc<AtomicU64>,
    first: Arc<Mutex<Option<Instant>>>,
}
impl PushMetricExporter for ME {
    async fn export(&self, _m: &mut ResourceMetrics) -> OTelSdkResult {
        self.n.fetch_add(1, SeqCst);
        self.first.lock().unwrap().get_or_insert_with(Instant::now);
        let s = self.slow_ms.load(SeqCst);
        if s > 0 {
            tokio::time::sleep(Duration::from_millis(s)).await;
        }
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Cumulative
    }
}
fn reader(asynch: bool, e: &ME, interval: Option<u64>, zero: bool, timeout: Option<u64>, provider: bool) -> SdkMeterProvider {
    let _g = rt().enter();
    let ms = Duration::from_millis;
    let b = SdkMeterProvider::builder();
    let mp = if asynch {
        let mut x = opentelemetry_sdk::metrics::periodic_reader_with_async_runtime::PeriodicReader::builder(e.clone(), Tokio);
        if let Some(i) = interval {
            x = x.with_interval(ms(i));
        }
        if zero {
            // no value at all
            x = x.with_interval(Duration::ZERO).with_timeout(Duration::ZERO);
        }
        if let Some(t) = timeout {
            x = x.with_timeout(ms(t));
        }
        b.with_reader(x.build()).build()
    } else if provider && interval.is_none() && !zero {
        b.with_periodic_exporter(e.clone()).build()
    } else {
        let mut x = opentelemetry_sdk::metrics::PeriodicReader::builder(e.clone());
        if let Some(i) = interval {
            x = x.with_interval(ms(i));
        }
        if zero {
            x = x.with_interval(Duration::ZERO);
        }
        b.with_reader(x.build()).build()
    };
    use opentelemetry::metrics::MeterProvider as _;
    mp.meter("m").u64_counter("c").build().add(1, &[]);
    mp
}
/// several readers, each built under an environment of its own, then judged by what they do
fn metrics(c: &Case, r: &mut Rng) {
    let var = "OTEL_METRIC_EXPORT_INTERVAL";
    let tv = "OTEL_METRIC_EXPORT_TIMEOUT";
    struct One {
        mode: usize,
        asynch: bool,
        env: bool,
        zero: bool,
        short: u64,
        text: OsString,
        e: ME,
        t0: Instant,
        mp: SdkMeterProvider,
    }
    let mut l: Vec<One> = vec![];
    for k in 0..8 {
        clear();
        // 0: the environment decides, 1: code decides on a short interval, 2: code decides on a
        // long one, 3: the timeout of the asynchronous reader
        let mode = [0, 1, 2, 0, 1, 0, 3, 3][k];
        let asynch = mode == 3 || if k < 6 { k % 2 == 1 } else { r.bool() };
        let short = if mode < 2 { 2 + r.below(20) } else { 10 + r.below(30) };
        let e = ME::default();
        let env = match mode {
            0 => true,
            3 => r.bool(),
            _ => false,
        };
        let text: OsString = match mode {
            0 | 2 => number(r, short).into(),
            1 if r.bool() => junk(r, 64),
            _ => HOUR.to_string().into(),
        };
        std::env::set_var(var, &text);
        if mode == 3 {
            std::env::set_var(tv, if env { number(r, short) } else { HOUR.to_string() });
        }
        let zero = env && r.bool();
        let t0 = Instant::now();
        let (i, t) = match mode {
            1 => (Some(short), None),
            2 => (Some(HOUR), None),
            3 if !env => (None, Some(short)),
            _ => (None, None),
        };
        let mp = reader(asynch, &e, i, zero, t, r.bool());
        afterwards(r);
        l.push(One { mode, asynch, env, zero, short, text, e, t0, mp });
    }
    for One { mode, asynch, env, zero, short, text, e, t0, mp } in l {
        match mode {
            0 | 1 => {
                c.check(eventually(20.0, || e.n.load(SeqCst) >= 15), "interval-ignored", || format!("{} exports in 20 s; async {asynch} {var}={text:?}, interval {short} in code {} zero {zero}", e.n.load(SeqCst), !env));
                let (n, t) = (e.n.load(SeqCst), t0.elapsed());
                c.check(n as u128 <= t.as_millis() / short as u128 + 2, "interval-too-short", || format!("{n} exports within {t:?}; interval {short} ms; async {asynch} {var}={text:?} in code {}", !env));
                c.count(if env { "interval_from_env" } else { "interval_from_code" }, 1);
            }
            2 => {
                let need = Duration::from_millis(short * 3 + 30);
                std::thread::sleep(need.saturating_sub(t0.elapsed()));
                c.check(e.n.load(SeqCst) == 0, "interval-not-overridden", || format!("exported by the clock although the interval set in code is an hour; async {asynch} {var}={short}"));
                c.count("interval_from_code_over_env", 1);
            }
            _ => {
                e.slow_ms.store(25_000, SeqCst);
                let t0 = Instant::now();
                let res = mp.force_flush();
                let took = t0.elapsed();
                c.check(res.is_err() && took < Duration::from_secs(20), "metric-timeout-ignored", || format!("an export that takes 25 s: force_flush returned {res:?} after {took:?}; {tv} from environment {env}, {short} ms, zero {zero}"));
                c.check(took >= Duration::from_millis(short * 9 / 10), "metric-timeout-early", || format!("given up after {took:?}; {tv} from environment {env}, {short} ms"));
                e.slow_ms.store(0, SeqCst);
                if env {
                    c.count("timeouts_from_env", 1);
                }
            }
        }
        let _ = mp.shutdown();
        c.seen(h64(&(c.id(), mode, short)), true);
    }
}

/// components built with nothing usable in the environment
struct Pending {
    ps: Vec<(PK, String, Box<dyn Pipe>, Instant, Arc<Mutex<Option<Instant>>>)>,
    ms: Vec<(String, SdkMeterProvider, ME, Instant)>,
}
fn defaults_begin(r: &mut Rng) -> Pending {
    let (mut ps, mut ms) = (vec![], vec![]);
    for i in 0..24 {
        clear();
        let k = KINDS[i % 4];
        let var = format!("{}_SCHEDULE_DELAY", prefix(k));
        let t = if i < 4 { None } else { Some(junk(r, 64)) };
        if let Some(t) = &t {
            std::env::set_var(&var, t);
        }
        other(r, k);
        let (pipe, log) = build(k, Code::default(), r.below(10), r.bool());
        let at: Arc<Mutex<Option<Instant>>> = Default::default();
        let a = at.clone();
        *log.hook.lock().unwrap() = Some(Arc::new(move || {
            a.lock().unwrap().get_or_insert_with(Instant::now);
        }));
        let t0 = Instant::now();
        pipe.emit(0);
        ps.push((k, format!("{var}={t:?}"), pipe, t0, at));
    }
    for i in 0..8 {
        clear();
        let t = if i < 2 { None } else { Some(junk(r, 64)) };
        if let Some(t) = &t {
            std::env::set_var("OTEL_METRIC_EXPORT_INTERVAL", t);
        }
        let e = ME::default();
        let t0 = Instant::now();
        ms.push((format!("OTEL_METRIC_EXPORT_INTERVAL={t:?}"), reader(i % 2 == 1, &e, None, i % 4 == 3, None, r.bool()), e, t0));
    }
    clear();
    Pending { ps, ms }
}
/// nothing was exported much before the default delay; the batch processors did export
fn defaults_end(c: &Case, p: Pending) {
    clear();
    for (k, text, pipe, t0, at) in p.ps {
        let d = if k.is_log() { 1.0 } else { 5.0 };
        // the asynchronous processors skip their first tick
        let done = eventually(2.0 * d + 40.0, || at.lock().unwrap().is_some());
        let took = at.lock().unwrap().map(|t| t.duration_since(t0).as_secs_f64());
        c.check(done && took.is_some_and(|t| t > 0.8 * d - 0.1 && t < 2.0 * d + 40.0), "default-delay", || format!("exported after {took:?} s, the default is {d} s; {k:?} {text}"));
        let _ = pipe.shutdown();
        c.count("default_delays", 1);
    }
    for (text, mp, e, t0) in p.ms {
        let took = e.first.lock().unwrap().map(|t| t.duration_since(t0).as_secs_f64());
        c.check(took.is_none_or(|t| t > 50.0), "default-interval", || format!("exported after {took:?} s, the default interval is a minute; {text}"));
        let _ = mp.shutdown();
        c.count("default_delays", 1);
    }
    c.seen(1, true);
}

// ------------------------------------------------------------------ span limits, sampler

fn limits(c: &Case, r: &mut Rng) {
    clear();
    let pick = |r: &mut Rng| match r.below(4) {
        0 => r.below(3),
        1 => 127 + r.below(4),
        2 => u32::MAX as u64,
        _ => r.below(20),
    };
    let a = setting(c, r, "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", 128, 32, &ANY, pick);
    let e = setting(c, r, "OTEL_SPAN_EVENT_COUNT_LIMIT", 128, 32, &ANY, pick);
    let l = setting(c, r, "OTEL_SPAN_LINK_COUNT_LIMIT", 128, 32, &ANY, pick);
    let log: Arc<Mutex<Vec<PEv>>> = Default::default();
    let whole = a.code.is_some() && e.code.is_some() && l.code.is_some() && r.bool();
    // the variables count when the provider's builder is made
    let mut b = SdkTracerProvider::builder();
    afterwards(r);
    if r.bool() {
        b = b.with_sampler(Sampler::AlwaysOn);
    }
    if whole {
        let mut s = SpanLimits::default();
        s.max_attributes_per_span = a.want as u32;
        s.max_events_per_span = e.want as u32;
        s.max_links_per_span = l.want as u32;
        b = b.with_span_limits(s);
    } else {
        if let Some(x) = a.code {
            b = b.with_max_attributes_per_span(x as u32);
        }
        if let Some(x) = e.code {
            b = b.with_max_events_per_span(x as u32);
        }
        if let Some(x) = l.code {
            b = b.with_max_links_per_span(x as u32);
        }
    }
    let tp = b.with_span_processor(Rec::new(0, &log)).build();
    let trace = format!("[{}] [{}] [{}] whole {whole}", a.text, e.text, l.text);
    let t = tp.tracer("t");
    for _ in 0..2 {
        let count = |r: &mut Rng, w: u64| if w > 200 { 140 } else { w + r.below(4) };
        let (na, ne, nl) = (count(r, a.want), count(r, e.want), count(r, l.want));
        let mut sb = SpanBuilder::from_name("s");
        let first = r.below(na + 1);
        sb.attributes = Some((0..first).map(|i| KeyValue::new(format!("k{i}"), i as i64)).collect());
        let fl = r.below(nl + 1);
        sb.links = Some((0..fl).map(|_| Link::new(valid_ctx(r), vec![], 0)).collect());
        let mut s = t.build_with_context(sb, &Context::new());
        for i in first..na {
            s.set_attribute(KeyValue::new(format!("k{i}"), i as i64));
        }
        for i in 0..ne {
            s.add_event(format!("e{i}"), vec![]);
        }
        for _ in fl..nl {
            s.add_link(valid_ctx(r), vec![]);
        }
        s.end();
        let g = log.lock().unwrap();
        let Some(PEv::End(_, d)) = g.iter().rev().find(|e| matches!(e, PEv::End(..))) else {
            c.fail("limits", format!("no span arrived; {trace}"));
            return;
        };
        for (what, n, limit, kept, dropped) in [
            ("attributes", na, a.want, d.attributes.len() as u64, d.dropped_attributes_count as u64),
            ("events", ne, e.want, d.events.events.len() as u64, d.events.dropped_count as u64),
            ("links", nl, l.want, d.links.links.len() as u64, d.links.dropped_count as u64),
        ] {
            c.check(kept == n.min(limit) && kept + dropped == n, "limits", || format!("{n} {what} under a limit of {limit}: {kept} kept, {dropped} dropped; {trace}"));
        }
    }
    for s in [&a, &e, &l] {
        match s.src {
            Src::Env => c.count("limits_from_env", 1),
            Src::Code => c.count("limits_from_code", 1),
            _ => {}
        }
    }
    c.seen(h64(&trace), true);
}

fn sampler(c: &Case, r: &mut Rng) {
    clear();
    let names = ["always_on", "always_off", "traceidratio", "traceidratio", "parentbased_always_on", "parentbased_always_off", "parentbased_traceidratio", "parentbased_traceidratio", "jaeger_remote", "parentbased_jaeger_remote", "xray", "", "nonsense", "traceidratio "];
    let name = r.chance(7, 8).then(|| names[r.idx(names.len())]);
    let args = ["0.5", "0.25", "1", "0", "1.0", "0.0", "1e-1", "-1", "2", "inf", "0.000001", "0.999", "+0.5", ".5"];
    let bad = ["", "abc", " 0.5", "0.5 ", "50%", "0,5", "1/2"];
    let arg = match r.below(4) {
        0 => None,
        1 => Some(bad[r.idx(bad.len())]),
        _ => Some(args[r.idx(args.len())]),
    };
    let ratio = arg.and_then(|a| if bad.contains(&a) { None } else { a.parse::<f64>().ok() }).unwrap_or(1.0);
    if let Some(n) = name {
        std::env::set_var("OTEL_TRACES_SAMPLER", n);
    }
    if let Some(a) = arg {
        std::env::set_var("OTEL_TRACES_SAMPLER_ARG", a);
    }
    let pb = |s| Sampler::ParentBased(Box::new(s));
    let from_code = r.chance(1, 4);
    let code = [Sampler::AlwaysOn, Sampler::AlwaysOff, pb(Sampler::AlwaysOff), Sampler::TraceIdRatioBased(0.5)][r.idx(4)].clone();
    let want = if from_code {
        code.clone()
    } else {
        match name {
            Some("always_on") => Sampler::AlwaysOn,
            Some("always_off") => Sampler::AlwaysOff,
            Some("traceidratio") => Sampler::TraceIdRatioBased(ratio),
            Some("parentbased_always_off") => pb(Sampler::AlwaysOff),
            Some("parentbased_traceidratio") => pb(Sampler::TraceIdRatioBased(ratio)),
            _ => pb(Sampler::AlwaysOn),
        }
    };
    let trace = format!("OTEL_TRACES_SAMPLER={name:?} OTEL_TRACES_SAMPLER_ARG={arg:?} code {:?}", from_code.then_some(&code));
    let mut b = SdkTracerProvider::builder();
    afterwards(r);
    std::env::remove_var("OTEL_TRACES_SAMPLER");
    if from_code {
        b = b.with_sampler(code);
    }
    let log: Arc<Mutex<Vec<PEv>>> = Default::default();
    let tp = b.with_span_processor(Rec::new(0, &log)).build();
    let t = tp.tracer("t");
    for _ in 0..6 {
        let parent = match r.below(3) {
            0 => Context::new(),
            _ => Context::new().with_remote_span_context(valid_ctx(r)),
        };
        let has = parent.has_active_span();
        let mut s = t.build_with_context(SpanBuilder::from_name("s"), &parent);
        let id = s.span_context().trace_id();
        let d = want.should_sample(has.then_some(&parent), id, "s", &SpanKind::Internal, &[], &[]).decision;
        let yes = d == SamplingDecision::RecordAndSample;
        let got = s.span_context().is_sampled();
        s.end();
        c.check(got == yes && s.span_context().is_sampled() == yes, "sampler", || format!("a span of trace {id:?} under parent {:?} is sampled: {got}, {want:?} says {yes}; {trace}", parent.span().span_context()));
        c.count("sampler_decisions", 1);
    }
    let ends = log.lock().unwrap().iter().filter(|e| matches!(e, PEv::End(..))).count();
    let _ = ends;
    c.seen(h64(&(c.id(), &trace)), true);
}
