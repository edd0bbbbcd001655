//! F01: a small fleet of services, each with its own providers, processors and OTLP exporters,
//! serving requests for one another; what reaches the collector is compared with what the
//! services did.
use crate::coll::{Act, Coll, GAct, GColl};
use crate::e04::{rt, HTTP_PATH};
use crate::enc::{self, groups};
use crate::wire::{self, T};
use hsdk::*;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::metrics::{Counter, Histogram, MeterProvider as _, UpDownCounter};
use opentelemetry::propagation::{TextMapCompositePropagator, TextMapPropagator};
use opentelemetry::trace::{Link, SpanContext, SpanKind, Status, TraceContextExt, Tracer as _, TracerProvider as _};
use opentelemetry::{Context, KeyValue};
use opentelemetry_otlp::{Compression, LogExporter, MetricExporter, Protocol, SpanExporter, WithExportConfig, WithHttpConfig, WithTonicConfig};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::SdkLoggerProvider;
use opentelemetry_sdk::metrics::{SdkMeterProvider, Temporality};
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use opentelemetry_sdk::runtime::Tokio;
use opentelemetry_sdk::trace::{Sampler, SdkTracer, SdkTracerProvider};
use opentelemetry_sdk::Resource;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

const LONG: Duration = Duration::from_secs(25);

struct Svc {
    name: String,
    tp: SdkTracerProvider,
    mp: SdkMeterProvider,
    lp: SdkLoggerProvider,
    tracer: SdkTracer,
    logger: opentelemetry_sdk::logs::SdkLogger,
    count: Counter<u64>,
    hist: Histogram<f64>,
    level: UpDownCounter<i64>,
    how: String,
}
/// what a span must look like at the collector
#[derive(Clone, Debug, PartialEq)]
struct Sp {
    svc: usize,
    trace: String,
    parent: String,
    name: String,
    kind: i128,
    state: String,
    attrs: String,
    events: Vec<String>,
    links: Vec<String>,
    code: i128,
}
#[derive(Default)]
struct Model {
    spans: BTreeMap<String, Sp>,
    unsampled: u64,
    /// marker -> service, trace id, span id, sampled
    logs: BTreeMap<String, (usize, String, String, bool)>,
    sums: BTreeMap<(usize, &'static str, String), (u64, f64)>,
    wrong: Vec<(&'static str, String)>,
    remote: u64,
}
struct World {
    svcs: Vec<Svc>,
    prop: TextMapCompositePropagator,
    header_map: bool,
    m: Mutex<Model>,
    n: AtomicU64,
    /// messages taken up by some service later
    later: Mutex<Vec<(usize, Car, Up)>>,
}
#[derive(Clone)]
enum Car {
    Map(HashMap<String, String>),
    Http(http::HeaderMap),
}
#[derive(Clone, Debug)]
struct Up {
    cx: SpanContext,
    bag: BTreeMap<String, String>,
    depth: usize,
}
fn hex(s: &SpanContext) -> (String, String) {
    (format!("{:x}", Hx(&s.trace_id().to_bytes())), format!("{:x}", Hx(&s.span_id().to_bytes())))
}
struct Hx<'a>(&'a [u8]);
impl std::fmt::LowerHex for Hx<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
    }
}
const KINDS: [(SpanKind, i128); 5] = [(SpanKind::Internal, 1), (SpanKind::Server, 2), (SpanKind::Client, 3), (SpanKind::Producer, 4), (SpanKind::Consumer, 5)];

impl World {
    fn id(&self) -> u64 {
        self.n.fetch_add(1, SeqCst)
    }
    fn wrong(&self, k: &'static str, d: String) {
        self.m.lock().unwrap().wrong.push((k, d));
    }
    /// starts a span of service `s` below `cx` and puts it on the books
    fn start(&self, s: usize, cx: &Context, kind: usize, r: &mut Rng) -> (Context, String) {
        let v = &self.svcs[s];
        let id = self.id();
        let name = format!("op-{id}");
        let parent = cx.span().span_context().clone();
        let link = r.chance(1, 5).then(|| SpanContext::new(r.u128().max(1).into(), r.u64().max(1).into(), Default::default(), false, Default::default()));
        let text = r.text(6);
        let mut b = v.tracer.span_builder(name.clone()).with_kind(KINDS[kind].0.clone()).with_attributes([KeyValue::new("vh.id", id as i64), KeyValue::new("vh.text", text.clone())]);
        if let Some(l) = &link {
            b = b.with_links(vec![Link::new(l.clone(), vec![], 0)]);
        }
        let span = b.start_with_context(&v.tracer, cx);
        use opentelemetry::trace::Span as _;
        let sc = span.span_context().clone();
        let rec = span.is_recording();
        let cx = cx.with_span(span);
        if parent.is_valid() && (sc.trace_id() != parent.trace_id() || sc.is_sampled() != parent.is_sampled() || sc.trace_state() != parent.trace_state()) {
            self.wrong("not-linked", format!("{}: {sc:?} below {parent:?}", v.how));
        }
        if rec != sc.is_sampled() || !sc.is_valid() {
            self.wrong("recording", format!("{}: {sc:?} recording {rec}", v.how));
        }
        let (t, p) = hex(&sc);
        let mut m = self.m.lock().unwrap();
        if sc.is_sampled() {
            let sp = Sp {
                svc: s,
                trace: t,
                parent: if parent.is_valid() { hex(&parent).1 } else { String::new() },
                name,
                kind: KINDS[kind].1,
                state: sc.trace_state().header(),
                attrs: format!("{id}/{text:?}"),
                events: vec![],
                links: link.iter().map(|l| { let (a, b) = hex(l); format!("{a}/{b}") }).collect(),
                code: 0,
            };
            if m.spans.insert(p.clone(), sp).is_some() {
                m.wrong.push(("span-id-reused", p.clone()));
            }
        } else {
            m.unsampled += 1;
        }
        (cx, p)
    }
    fn on(&self, key: &str, f: impl FnOnce(&mut Sp)) {
        if let Some(s) = self.m.lock().unwrap().spans.get_mut(key) {
            f(s)
        }
    }
    fn inject(&self, cx: &Context) -> Car {
        if self.header_map {
            let mut h = http::HeaderMap::new();
            self.prop.inject_context(cx, &mut opentelemetry_http::HeaderInjector(&mut h));
            Car::Http(h)
        } else {
            let mut h = HashMap::new();
            self.prop.inject_context(cx, &mut h);
            Car::Map(h)
        }
    }
    fn call(&self, s: usize, cx: &Context, depth: usize, r: &mut Rng) {
        let later = r.chance(1, 4);
        let (cx, key) = self.start(s, cx, if later { 3 } else { 2 }, r);
        let mut bag: BTreeMap<String, String> = cx.baggage().iter().map(|(k, (v, _))| (k.to_string(), v.to_string())).collect();
        let cx2 = if r.chance(1, 3) {
            let (k, v) = (format!("k{}", r.below(5)), r.text(5));
            bag.insert(k.clone(), v.clone());
            let all: Vec<KeyValue> = bag.iter().map(|(k, v)| KeyValue::new(k.clone(), v.clone())).collect();
            cx.with_baggage(all)
        } else {
            cx.clone()
        };
        let car = self.inject(&cx2);
        let up = Up { cx: cx.span().span_context().clone(), bag, depth: depth + 1 };
        let to = r.idx(self.svcs.len());
        if later {
            self.later.lock().unwrap().push((to, car, up));
        } else if r.chance(1, 3) {
            let mut q = Rng::new(r.u64(), 1);
            std::thread::scope(|x| {
                x.spawn(|| self.serve(to, &car, Some(&up), &mut q));
                if r.bool() {
                    cx.span().add_event("waiting", vec![]);
                    self.on(&key, |s| s.events.push("waiting".into()));
                }
            });
        } else {
            self.serve(to, &car, Some(&up), r);
        }
        if r.chance(1, 3) {
            cx.span().set_status(Status::error("vh"));
            self.on(&key, |s| s.code = 2);
        }
        cx.span().end();
    }
    fn serve(&self, s: usize, car: &Car, up: Option<&Up>, r: &mut Rng) {
        let v = &self.svcs[s];
        // whatever the thread was doing has nothing to do with it
        let cx = match car {
            Car::Map(m) => self.prop.extract_with_context(&Context::new(), m),
            Car::Http(m) => self.prop.extract_with_context(&Context::new(), &opentelemetry_http::HeaderExtractor(m)),
        };
        if let Some(up) = up {
            let sc = cx.span().span_context().clone();
            if sc.trace_id() != up.cx.trace_id() || sc.span_id() != up.cx.span_id() || sc.is_sampled() != up.cx.is_sampled() || !sc.is_remote() {
                self.wrong("context-lost", format!("sent {:?}, received {sc:?}", up.cx));
            }
            let bag: BTreeMap<String, String> = cx.baggage().iter().map(|(k, (v, _))| (k.to_string(), v.to_string())).collect();
            if bag != up.bag {
                self.wrong("baggage-lost", format!("sent {:?}, received {bag:?}", up.bag));
            }
            self.m.lock().unwrap().remote += 1;
        }
        let depth = up.map_or(0, |u| u.depth);
        let kind = if r.chance(1, 5) { 4 } else { 1 };
        let route = *r.pick(&["/a", "/b", "/c"]);
        let at = [KeyValue::new("route", route)];
        v.level.add(1, &[]);
        let (cx, key) = self.start(s, &cx, kind, r);
        {
            let _g = cx.clone().attach();
            self.steps(s, &key, depth, r, 2);
        }
        v.count.add(1, &at);
        let val = r.below(2000) as f64 / 4.0;
        v.hist.record(val, &at);
        {
            let mut m = self.m.lock().unwrap();
            m.sums.entry((s, "requests", route.into())).or_default().0 += 1;
            let h = m.sums.entry((s, "latency", route.into())).or_default();
            h.0 += 1;
            h.1 += val;
            m.sums.entry((s, "inflight", String::new())).or_default();
        }
        if r.bool() {
            cx.span().end();
        }
        v.level.add(-1, &[]);
    }
    fn steps(&self, s: usize, key: &str, depth: usize, r: &mut Rng, inner: usize) {
        for _ in 0..r.idx(5) {
            match r.below(7) {
                0 | 1 => self.log(s, r),
                2 => {
                    let n = format!("e{}", self.id());
                    let cx = Context::current();
                    cx.span().add_event(n.clone(), vec![]);
                    self.on(key, |s| s.events.push(n));
                }
                3 if inner > 0 => {
                    let (cx, k) = self.start(s, &Context::current(), 0, r);
                    let _g = cx.attach();
                    self.steps(s, &k, depth, r, inner - 1);
                }
                4 | 5 if depth < 3 => self.call(s, &Context::current(), depth, r),
                6 => {
                    Context::current().span().set_status(Status::Ok);
                    self.on(key, |s| s.code = 1);
                }
                _ => {}
            }
        }
    }
    fn log(&self, s: usize, r: &mut Rng) {
        let v = &self.svcs[s];
        let n = format!("log-{}", self.id());
        let sc = Context::current().span().span_context().clone();
        let (t, p) = if sc.is_valid() { hex(&sc) } else { Default::default() };
        self.m.lock().unwrap().logs.insert(n.clone(), (s, t, p, sc.is_sampled()));
        let mut l = v.logger.create_log_record();
        l.set_body(AnyValue::from(n));
        l.set_severity_number([Severity::Info, Severity::Error][r.idx(2)]);
        v.logger.emit(l);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Proc {
    Thread,
    Async,
    Simple,
}
#[derive(Clone, Copy, Debug)]
enum Tr {
    Proto,
    Json,
    Grpc(Option<u8>),
}
fn pick(r: &mut Rng) -> (Proc, Tr, u8) {
    let t = match r.below(4) {
        0 => Tr::Json,
        1 => Tr::Proto,
        2 => Tr::Grpc(None),
        _ => Tr::Grpc(Some(r.below(2) as u8)),
    };
    (*r.pick(&[Proc::Thread, Proc::Thread, Proc::Async, Proc::Simple]), t, r.below(2) as u8)
}
macro_rules! exporter {
    ($t:ty, $sig:expr, $pick:expr, $coll:expr, $gcoll:expr $(, $m:ident($a:expr))?) => {{
        let (p, t, cl) = $pick;
        match t {
            Tr::Grpc(comp) => {
                let _g = rt().enter();
                let b = <$t>::builder().with_tonic().with_endpoint($gcoll.url()).with_timeout(LONG)$(.$m($a))?;
                match comp {
                    Some(0) => b.with_compression(Compression::Gzip),
                    Some(_) => b.with_compression(Compression::Zstd),
                    None => b,
                }
                .build()
            }
            _ => {
                let proto = if matches!(t, Tr::Json) { Protocol::HttpJson } else { Protocol::HttpBinary };
                let b = <$t>::builder().with_http().with_endpoint($coll.url(HTTP_PATH[$sig])).with_protocol(proto).with_timeout(LONG)$(.$m($a))?;
                match (p, cl) {
                    (Proc::Async, 0) => b.with_http_client(reqwest::Client::builder().timeout(LONG).build().unwrap()),
                    (Proc::Async, _) => b.with_http_client(opentelemetry_http::hyper::HyperClient::with_default_connector(LONG, None)),
                    _ => b,
                }
                .build()
            }
        }
        .unwrap()
    }};
}
fn service(r: &mut Rng, n: usize, coll: &Coll, gcoll: &GColl) -> Svc {
    let name = format!("svc-{n}");
    let res = || Resource::builder_empty().with_service_name(name.clone()).with_attribute(KeyValue::new("vh.n", n as i64)).build();
    let batch = 1 + r.idx(64);
    let delay = Duration::from_millis([5, 50, 60_000][r.idx(3)]);
    let sampler = match r.below(4) {
        0 => Sampler::ParentBased(Box::new(Sampler::AlwaysOff)),
        1 => Sampler::ParentBased(Box::new(Sampler::TraceIdRatioBased(0.5))),
        _ => Sampler::ParentBased(Box::new(Sampler::AlwaysOn)),
    };
    let ps = pick(r);
    let pl = pick(r);
    let mut pm = pick(r);
    if pm.0 == Proc::Simple {
        pm.0 = Proc::Thread;
    }
    let temp = [Temporality::Cumulative, Temporality::Delta, Temporality::LowMemory][r.idx(3)];
    let how = format!("service {n}: spans {ps:?}, logs {pl:?}, metrics {pm:?} {temp:?}, batch {batch}, delay {delay:?}, {sampler:?}");
    let _g = rt().enter();
    use opentelemetry_sdk::logs::log_processor_with_async_runtime as al;
    use opentelemetry_sdk::trace::span_processor_with_async_runtime as asp;
    let e = on_plain(|| exporter!(SpanExporter, 0, ps, coll, gcoll));
    let tb = SdkTracerProvider::builder().with_resource(res()).with_sampler(sampler);
    let cfg = opentelemetry_sdk::trace::BatchConfigBuilder::default().with_max_export_batch_size(batch).with_scheduled_delay(delay).build();
    let tp = match ps.0 {
        Proc::Simple => tb.with_simple_exporter(e).build(),
        Proc::Thread => tb.with_span_processor(opentelemetry_sdk::trace::BatchSpanProcessor::builder(e).with_batch_config(cfg).build()).build(),
        Proc::Async => tb.with_span_processor(asp::BatchSpanProcessor::builder(e, Tokio).with_batch_config(cfg).build()).build(),
    };
    let e = on_plain(|| exporter!(LogExporter, 2, pl, coll, gcoll));
    let lb = SdkLoggerProvider::builder().with_resource(res());
    let cfg = opentelemetry_sdk::logs::BatchConfigBuilder::default().with_max_export_batch_size(batch).with_scheduled_delay(delay).build();
    let lp = match pl.0 {
        Proc::Simple => lb.with_simple_exporter(e).build(),
        Proc::Thread => lb.with_log_processor(opentelemetry_sdk::logs::BatchLogProcessor::builder(e).with_batch_config(cfg).build()).build(),
        Proc::Async => lb.with_log_processor(al::BatchLogProcessor::builder(e, Tokio).with_batch_config(cfg).build()).build(),
    };
    let e = on_plain(|| exporter!(MetricExporter, 1, pm, coll, gcoll, with_temporality(temp)));
    let mb = SdkMeterProvider::builder().with_resource(res());
    let mp = match pm.0 {
        Proc::Async => mb.with_reader(opentelemetry_sdk::metrics::periodic_reader_with_async_runtime::PeriodicReader::builder(e, Tokio).with_interval(delay).build()).build(),
        _ => mb.with_reader(opentelemetry_sdk::metrics::PeriodicReader::builder(e).with_interval(delay).build()).build(),
    };
    let m = mp.meter("fleet");
    Svc {
        tracer: tp.tracer("fleet"),
        logger: lp.logger("fleet"),
        count: m.u64_counter("requests").build(),
        hist: m.f64_histogram("latency").build(),
        level: m.i64_up_down_counter("inflight").build(),
        name,
        tp,
        mp,
        lp,
        how,
    }
}
/// exporters are built outside of any runtime (those that need one enter it)
fn on_plain<X: Send>(f: impl FnOnce() -> X + Send) -> X {
    std::thread::scope(|s| s.spawn(f).join().unwrap())
}
fn at(x: &T, k: &str) -> Option<T> {
    x.list("attributes").iter().find(|a| a.text("key") == k).and_then(|a| a.get("value").cloned())
}
fn svc_of(res: &T) -> Option<usize> {
    let n = at(res, "vh.n")?.int("intValue") as usize;
    (at(res, "service.name")?.text("stringValue") == format!("svc-{n}") && res.list("attributes").len() == 2).then_some(n)
}
fn hexb(t: &T, k: &str) -> String {
    match t.get(k) {
        Some(T::Y(b)) => format!("{:x}", Hx(b)),
        _ => String::new(),
    }
}
fn fleet(c: &Case, r: &mut Rng) {
    let coll = Coll::new();
    let gcoll = match rt().block_on(GColl::on("127.0.0.1:0")) {
        Ok(g) => g,
        Err(e) => return c.ctx.inconclusive(&format!("no listener: {e}")),
    };
    let ns = 1 + r.idx(3);
    let svcs: Vec<Svc> = (0..ns).map(|n| service(r, n, &coll, &gcoll)).collect();
    let w3c = r.chance(2, 3);
    let mut props: Vec<Box<dyn TextMapPropagator + Send + Sync>> = vec![if w3c {
        Box::new(TraceContextPropagator::new())
    } else {
        use opentelemetry_zipkin::{B3Encoding, Propagator};
        Box::new(Propagator::with_encoding([B3Encoding::SingleHeader, B3Encoding::MultipleHeader, B3Encoding::SingleAndMultiHeader][r.idx(3)].clone()))
    }];
    let i = r.idx(2);
    props.insert(i, Box::new(BaggagePropagator::new()));
    let w = World { svcs, prop: TextMapCompositePropagator::new(props), header_map: r.bool(), m: Default::default(), n: AtomicU64::new(1), later: Default::default() };
    let seeds: Vec<u64> = (0..1 + r.idx(4)).map(|_| r.u64()).collect();
    let timed = AtomicU64::new(0);
    // a collector that refuses now and then still sees everything once: nothing is sent again,
    // and what was refused holds nothing else up
    let moody = r.chance(1, 3);
    let trace = || format!("{:?}; W3C {w3c}, refusals {moody}", w.svcs.iter().map(|s| s.how.clone()).collect::<Vec<_>>());
    let mood = |r: &mut Rng| {
        if moody {
            coll.act(Act::Answer([200, 200, 400, 429, 500, 503][r.idx(6)], vec![], 0, false, false));
            gcoll.act(GAct::Status([0, 0, 4, 8, 13, 14][r.idx(6)], 0));
        }
    };
    let judge = |what: &str, x: OTelSdkResult| {
        if plib::is_timeout(&x) {
            timed.fetch_add(1, SeqCst);
        } else {
            c.check(moody || x.is_ok(), "result", || format!("{what}: {x:?}; {}", trace()));
        }
    };
    std::thread::scope(|x| {
        for s in &seeds {
            let (w, judge, mood) = (&w, &judge, &mood);
            x.spawn(move || {
                let mut r = Rng::new(*s, 7);
                for _ in 0..1 + r.idx(6) {
                    let to = r.idx(w.svcs.len());
                    mood(&mut r);
                    if r.chance(1, 6) {
                        w.log(to, &mut r); // outside of any request
                    }
                    if w3c && r.chance(1, 3) {
                        // from somewhere else
                        let sc = SpanContext::new(r.u128().max(1).into(), r.u64().max(1).into(), opentelemetry::TraceFlags::new(r.below(2) as u8), true, "vendor=1,other=x y".parse().unwrap());
                        let cx = Context::new().with_remote_span_context(sc.clone());
                        let car = w.inject(&cx);
                        w.serve(to, &car, Some(&Up { cx: sc, bag: BTreeMap::new(), depth: 0 }), &mut r);
                    } else {
                        w.serve(to, &Car::Map(HashMap::new()), None, &mut r);
                    }
                    if r.chance(1, 8) {
                        let s = &w.svcs[to];
                        match r.below(3) {
                            0 => judge("flush spans", watched("flush", || s.tp.force_flush())),
                            1 => judge("flush logs", watched("flush", || s.lp.force_flush())),
                            _ => judge("flush metrics", watched("flush", || s.mp.force_flush())),
                        }
                    }
                }
            });
        }
    });
    let mut q = Rng::new(seeds[0], 9);
    loop {
        let Some((to, car, up)) = w.later.lock().unwrap().pop() else { break };
        w.serve(to, &car, Some(&up), &mut q);
    }
    for s in &w.svcs {
        mood(&mut q);
        let mut o = [0, 1, 2];
        r.shuffle(&mut o);
        for k in o {
            match k {
                0 => judge("shut down spans", watched("shutdown", || s.tp.shutdown())),
                1 => judge("shut down logs", watched("shutdown", || s.lp.shutdown())),
                _ => judge("shut down metrics", watched("shutdown", || s.mp.shutdown())),
            }
        }
    }
    if timed.load(SeqCst) > 0 {
        c.count("timed_out", 1);
        c.ctx.count_max("timed_out_calls", timed.load(SeqCst));
        return;
    }
    // what the collector received
    let mut trees: Vec<(usize, T)> = vec![];
    for q in coll.take() {
        let Some(sig) = HTTP_PATH.iter().position(|p| *p == q.path) else {
            c.fail("path", q.path.clone());
            continue;
        };
        let json = q.header("content-type") == ["application/json"];
        match enc::decode(sig, json, &q.body) {
            Ok(t) => trees.push((sig, t)),
            Err(e) => c.fail("undecodable", format!("{e}; {}", trace())),
        }
        c.count(if json { "json_requests" } else { "protobuf_requests" }, 1);
    }
    let (l, bad) = gcoll.take();
    c.check(bad.is_empty(), "grpc", || format!("{bad:?}"));
    for q in l {
        let sig = if q.path.contains("trace") { 0 } else if q.path.contains("metrics") { 1 } else { 2 };
        match enc::decode(sig, false, &q.body) {
            Ok(t) => trees.push((sig, t)),
            Err(e) => c.fail("undecodable", format!("{e}; {}", trace())),
        }
        c.count("grpc_requests", 1);
    }
    let mut m = w.m.lock().unwrap();
    for (k, d) in m.wrong.drain(..) {
        c.fail(k, format!("{d}; {}", trace()));
    }
    let mut spans: BTreeMap<String, Sp> = BTreeMap::new();
    let mut logs: BTreeMap<String, (usize, String, String, bool)> = BTreeMap::new();
    // (service, metric, route) -> points by time: (time, delta, n, sum)
    let mut pts: BTreeMap<(usize, String, String), Vec<(i128, bool, u64, f64)>> = BTreeMap::new();
    for (sig, t) in &trees {
        for ((res, _), scopes) in groups(*sig, t) {
            let Some(svc) = svc_of(&res) else {
                c.fail("resource", format!("{res:?}; {}", trace()));
                continue;
            };
            for ((sc, _), items) in scopes {
                c.check(sc.text("name") == "fleet", "scope", || format!("{sc:?}"));
                for x in items {
                    match sig {
                        0 => {
                            let sp = Sp {
                                svc,
                                trace: hexb(&x, "traceId"),
                                parent: hexb(&x, "parentSpanId"),
                                name: x.text("name"),
                                kind: x.int("kind"),
                                state: x.text("traceState"),
                                attrs: format!("{}/{:?}", at(&x, "vh.id").map_or(-1, |v| v.int("intValue")), at(&x, "vh.text").map_or("?".into(), |v| v.text("stringValue"))),
                                events: x.list("events").iter().map(|e| e.text("name")).collect(),
                                links: x.list("links").iter().map(|l| format!("{}/{}", hexb(l, "traceId"), hexb(l, "spanId"))).collect(),
                                code: x.get("status").map_or(0, |s| s.int("code")),
                            };
                            let id = hexb(&x, "spanId");
                            if let Some(o) = spans.insert(id, sp) {
                                c.fail("span-twice", format!("{o:?}; {}", trace()));
                            }
                        }
                        2 => {
                            let b = x.get("body").map_or(String::new(), |b| b.text("stringValue"));
                            let v = (svc, hexb(&x, "traceId"), hexb(&x, "spanId"), x.int("flags") & 1 == 1);
                            if logs.insert(b.clone(), v).is_some() {
                                c.fail("log-twice", format!("{b}; {}", trace()));
                            }
                        }
                        _ => {
                            let name = x.text("name");
                            for (k, hist) in [("sum", false), ("histogram", true)] {
                                let Some(d) = x.get(k) else { continue };
                                let delta = d.int("aggregationTemporality") == 1;
                                for p in d.list("dataPoints") {
                                    let route = at(&p, "route").map_or(String::new(), |v| v.text("stringValue"));
                                    let v = if hist {
                                        let s = match p.get("sum") {
                                            Some(T::F(b)) => f64::from_bits(*b),
                                            _ => 0.0,
                                        };
                                        (p.int("timeUnixNano"), delta, p.int("count") as u64, s)
                                    } else {
                                        (p.int("timeUnixNano"), delta, p.int("asInt") as u64, 0.0)
                                    };
                                    pts.entry((svc, name.clone(), route)).or_default().push(v);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    for (id, want) in &m.spans {
        let got = spans.remove(id);
        c.check(got.as_ref() == Some(want), if got.is_some() { "span-differs" } else { "span-lost" }, || format!("expected {want:?}, received {got:?}; {}", trace()));
    }
    c.check(spans.is_empty(), "span-unexpected", || format!("{spans:?}; {}", trace()));
    for (id, want) in &m.logs {
        let got = logs.remove(id);
        c.check(got.as_ref() == Some(want), if got.is_some() { "log-differs" } else { "log-lost" }, || format!("{id}: expected {want:?}, received {got:?}; {}", trace()));
    }
    c.check(logs.is_empty(), "log-unexpected", || format!("{logs:?}; {}", trace()));
    for ((s, name, route), want) in &m.sums {
        let l = pts.remove(&(*s, name.to_string(), route.clone())).unwrap_or_default();
        let got = if l.iter().all(|p| p.1) {
            l.iter().fold((0u64, 0.0), |a, p| (a.0 + p.2, a.1 + p.3))
        } else {
            l.iter().max_by_key(|p| p.0).map_or((0, 0.0), |p| (p.2, p.3))
        };
        c.check(!l.is_empty() && got == *want, "metric", || format!("{name} {route} of service {s}: expected {want:?}, received {got:?} in {l:?}; {}", trace()));
    }
    c.check(pts.is_empty(), "metric-unexpected", || format!("{pts:?}; {}", trace()));
    c.count("spans_delivered", m.spans.len() as u64);
    c.count("spans_not_sampled", m.unsampled);
    c.count("logs_delivered", m.logs.len() as u64);
    c.count("metric_points", m.sums.len() as u64);
    c.count("remote_parents", m.remote);
    c.count("fleets", 1);
    if moody {
        c.count("fleets_with_refusals", 1);
    }
    c.seen(h64(&format!("{:?}{}{:?}", m.spans.len(), m.logs.len(), seeds)), m.spans.len() + m.logs.len() > 0);
    let t = trace();
    c.sample(|| t);
    drop(m);
    for s in w.svcs {
        drop((s.tp, s.mp, s.lp));
        let _ = s.name;
    }
}
pub fn f01(ctx: &Ctx) {
    ctx.require("fleets", 20);
    ctx.require("spans_delivered", 300);
    ctx.require("spans_not_sampled", 50);
    ctx.require("logs_delivered", 100);
    ctx.require("metric_points", 100);
    ctx.require("remote_parents", 100);
    ctx.require("grpc_requests", 20);
    ctx.require("json_requests", 20);
    ctx.require("protobuf_requests", 20);
    ctx.require("fleets_with_refusals", 5);
    ctx.section("fleet", 0.6, 4, 24, fleet);
    let _inj = hsdk::perturb::Injector::start(ctx.seed, 150);
    ctx.section("fleet-perturbed", 0.4, 4, 12, fleet);
}
