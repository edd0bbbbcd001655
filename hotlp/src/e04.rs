//! E04: what an export call returns against what the collector was sent and did.
use crate::coll::{Act, Coll, GAct, GColl, Seen};
use crate::enc::{self, Groups};
use hsdk::*;
use opentelemetry::logs::{AnyValue, LogRecord as _, LoggerProvider as _};
use opentelemetry::InstrumentationScope;
use opentelemetry_otlp::{Compression, LogExporter, MetricExporter, Protocol, SpanExporter, WithExportConfig, WithHttpConfig, WithTonicConfig};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogBatch, LogExporter as _, SdkLogRecord};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::trace::{SpanData, SpanExporter as _};
use opentelemetry_sdk::Resource;
use std::future::Future;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub fn rt() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap())
}
pub const SIG: [&str; 3] = ["spans", "metrics", "logs"];
pub const HTTP_PATH: [&str; 3] = ["/v1/traces", "/v1/metrics", "/v1/logs"];
pub const GRPC_PATH: [&str; 3] = [
    "/opentelemetry.proto.collector.trace.v1.TraceService/Export",
    "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export",
    "/opentelemetry.proto.collector.logs.v1.LogsService/Export",
];
pub enum Data {
    S(Vec<SpanData>),
    M(ResourceMetrics),
    L(Vec<(SdkLogRecord, InstrumentationScope)>),
}
impl Data {
    /// holds `marker` as a span's name, a metric's name or a record's body
    pub fn new(r: &mut Rng, sig: usize, res: &Resource, marker: &str, more: usize) -> Data {
        let sc = enc::rscopes(r);
        match sig {
            0 => {
                let mut l: Vec<SpanData> = (0..1 + more).map(|_| enc::rspan(r, &sc)).collect();
                l[0].name = marker.to_string().into();
                Data::S(l)
            }
            1 => {
                let mut x = enc::rmetrics(r, res.clone());
                while x.scope_metrics.is_empty() {
                    x = enc::rmetrics(r, res.clone());
                }
                let mut y = enc::rmetric(r);
                y.name = marker.to_string().into();
                x.scope_metrics[0].metrics.push(y);
                Data::M(x)
            }
            _ => {
                let lg = opentelemetry_sdk::logs::SdkLoggerProvider::builder().build().logger("x");
                Data::L(
                    (0..1 + more)
                        .map(|k| {
                            let mut x = llib::new_record(&lg);
                            x.set_observed_timestamp(slib::rtime(r));
                            x.set_body(AnyValue::from(if k == 0 { marker.to_string() } else { r.text(6) }));
                            for n in 0..r.idx(4) {
                                x.add_attribute(format!("a{n}"), llib::rany(r, 2));
                            }
                            (x, sc[r.idx(sc.len())].clone())
                        })
                        .collect(),
                )
            }
        }
    }
    pub fn want(&self, res: &Resource) -> Groups {
        match self {
            Data::S(l) => enc::want_spans(l, res),
            Data::M(x) => enc::want_metrics(x),
            Data::L(l) => enc::want_logs(l, res).0,
        }
    }
}
pub enum Ex {
    S(SpanExporter),
    M(MetricExporter),
    L(LogExporter),
}
impl Ex {
    pub async fn export(&self, d: &mut Data) -> OTelSdkResult {
        match (self, d) {
            (Ex::S(e), Data::S(l)) => e.export(l.clone()).await,
            (Ex::M(e), Data::M(x)) => e.export(x).await,
            (Ex::L(e), Data::L(l)) => {
                let refs: Vec<_> = l.iter().map(|(a, b)| (a, b)).collect();
                e.export(LogBatch::new(&refs)).await
            }
            _ => panic!("vh signals"),
        }
    }
    pub fn shutdown(&mut self) -> OTelSdkResult {
        match self {
            Ex::S(e) => e.shutdown(),
            Ex::M(e) => e.shutdown(),
            Ex::L(e) => e.shutdown(),
        }
    }
    pub fn set_resource(&mut self, res: &Resource) {
        match self {
            Ex::S(e) => e.set_resource(res),
            Ex::M(_) => {}
            Ex::L(e) => e.set_resource(res),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Client {
    Default,
    Async,
    Hyper,
}
fn http(sig: usize, kind: Client, url: &str, proto: Protocol, timeout: Duration) -> Ex {
    macro_rules! b {
        ($t:ty) => {{
            let b = <$t>::builder().with_http().with_endpoint(url).with_protocol(proto).with_timeout(timeout);
            match kind {
                Client::Default => b,
                Client::Async => b.with_http_client(reqwest::Client::builder().timeout(timeout).redirect(reqwest::redirect::Policy::none()).build().unwrap()),
                Client::Hyper => b.with_http_client(opentelemetry_http::hyper::HyperClient::with_default_connector(timeout, None)),
            }
            .build()
            .unwrap()
        }};
    }
    match sig {
        0 => Ex::S(b!(SpanExporter)),
        1 => Ex::M(b!(MetricExporter)),
        _ => Ex::L(b!(LogExporter)),
    }
}
fn grpc(sig: usize, url: &str, timeout: Duration, comp: Option<Compression>) -> Ex {
    let _g = rt().enter();
    macro_rules! b {
        ($t:ty) => {{
            let b = <$t>::builder().with_tonic().with_endpoint(url).with_timeout(timeout);
            match comp {
                Some(c) => b.with_compression(c),
                None => b,
            }
            .build()
            .unwrap()
        }};
    }
    match sig {
        0 => Ex::S(b!(SpanExporter)),
        1 => Ex::M(b!(MetricExporter)),
        _ => Ex::L(b!(LogExporter)),
    }
}
pub fn on<T>(kind: Client, f: impl Future<Output = T>) -> T {
    match kind {
        Client::Default => futures_executor::block_on(f),
        _ => rt().block_on(f),
    }
}
/// a request of this export, nothing else
fn right(c: &Case, sig: usize, json: bool, grpc: bool, want: &Groups, q: &Seen) {
    let (path, ct) = match (grpc, json) {
        (true, _) => (GRPC_PATH[sig], "application/grpc"),
        (_, true) => (HTTP_PATH[sig], "application/json"),
        (_, false) => (HTTP_PATH[sig], "application/x-protobuf"),
    };
    c.check(q.method == "POST" && q.path == path && q.header("content-type") == [ct], "request-line", || {
        format!("expected POST {path} with one content-type {ct}, received {} {} with {:?}", q.method, q.path, q.headers)
    });
    if let Err(e) = enc::compare(sig, want, json, &q.body) {
        c.fail("wrong-data", e);
    }
    c.count("delivered", 1);
}
const PROTOS: [Protocol; 2] = [Protocol::HttpBinary, Protocol::HttpJson];
const LONG: Duration = Duration::from_secs(10);
pub fn good(r: &mut Rng) -> Act {
    let code = [200, 200, 200, 202, 204, 201, 299][r.idx(7)];
    // accepted answers: empty, an empty response message, a partial success
    let body = [vec![], vec![0x0a, 0x00], vec![0x0a, 0x02, 0x08, 0x01]][r.idx(3)].clone();
    Act::Answer(code, body, if r.chance(1, 6) { r.below(40) } else { 0 }, r.bool(), r.chance(1, 4))
}
pub fn bad(r: &mut Rng) -> Act {
    match r.idx(12) {
        0..=5 => {
            let code = match r.idx(4) {
                0 => *r.pick(&[400u16, 401, 403, 404, 408, 413, 429, 500, 501, 502, 503, 504]),
                1 => 300 + [0, 4, 5, 6][r.idx(4)],
                2 => 400 + r.below(100) as u16,
                _ => 500 + r.below(100) as u16,
            };
            let n = r.idx(40);
            Act::Answer(code, (0..n).map(|_| r.below(256) as u8).collect(), 0, r.bool(), r.chance(1, 3))
        }
        6 => Act::Redirect([301, 302, 303][r.idx(3)]),
        7 => Act::CutAfter,
        8 => Act::CutHead,
        9 => Act::CutBody([200, 202][r.idx(2)]),
        10 => {
            let n = r.idx(200) + 1;
            let g: Vec<u8> = match r.idx(4) {
                0 => (0..n).map(|_| r.below(256) as u8).collect(),
                1 => b"HTTP/9.9 200 OK\r\n\r\n".to_vec(),
                2 => b"HTTP/1.1 abc OK\r\nContent-Length: 0\r\n\r\n".to_vec(),
                _ => b"HTTP/1.1 200 OK\r\nContent-Length: nine\r\n\r\n".to_vec(),
            };
            Act::Garbage(g)
        }
        _ => Act::CutBefore,
    }
}
pub fn act_code(a: &Act) -> u64 {
    match a {
        Act::Answer(c, ..) => *c as u64,
        x => h64(&format!("{x:?}").split('(').next()),
    }
}
fn http_case(c: &Case, r: &mut Rng, coll: &Coll) {
    let sig = r.idx(3);
    let p = r.idx(2);
    let kind = [Client::Default, Client::Async, Client::Hyper][r.idx(3)];
    let slow = r.chance(1, 8);
    let timeout = if slow { Duration::from_millis(120 + r.below(150)) } else { LONG };
    let res = enc::rresource(r);
    let refused = !slow && r.chance(1, 20);
    let url = if refused { format!("http://127.77.0.9:1{}", HTTP_PATH[sig]) } else { coll.url(HTTP_PATH[sig]) };
    let mut ex = http(sig, kind, &url, PROTOS[p], timeout);
    ex.set_resource(&res);
    coll.take();
    let mut trace = vec![];
    let steps = if slow { 1 } else { 1 + r.idx(5) };
    for n in 0..steps {
        let ok = !slow && !refused && r.chance(3, 5);
        let a = if slow {
            match r.idx(4) {
                0 => Act::HoldHead,
                1 => Act::HoldBody([200, 202, 500][r.idx(3)]),
                2 => Act::Trickle(200),
                _ => Act::Answer(200, vec![], 3000, false, false),
            }
        } else if ok {
            good(r)
        } else {
            bad(r)
        };
        coll.act(a.clone());
        let more = if r.chance(1, 25) { r.idx(200) } else { r.idx(3) };
        let mut d = Data::new(r, sig, &res, &format!("vh{n}"), more);
        let want = d.want(&res);
        let t = Instant::now();
        let got = watched("export", || on(kind, ex.export(&mut d)));
        let took = t.elapsed();
        let label = || format!("{} over {kind:?}, {:?}, step {n}, collector {}: {got:?} after {took:?}", SIG[sig], PROTOS[p], if refused { "refuses".into() } else { format!("{a:?}").chars().take(200).collect::<String>() });
        trace.push((act_code(&a), got.is_ok()));
        let seen = coll.take();
        if ok {
            c.count("accepted", 1);
            if !c.check(got.is_ok(), "failed-though-accepted", label) {
                return;
            }
            c.check(seen.len() == 1, "requests-per-export", || format!("{} requests: {}", seen.len(), label()));
        } else {
            c.count(if slow { "timeouts" } else { "refusals" }, 1);
            if !c.check(got.is_err(), "success-though-refused", label) {
                return;
            }
            c.check(took < timeout.min(Duration::from_secs(3)) + Duration::from_secs(4), "slow-error", label);
        }
        for q in seen.iter().filter(|q| q.path != "/elsewhere") {
            right(c, sig, p == 1, false, &want, q);
        }
    }
    if r.chance(1, 2) {
        coll.act(Act::Answer(200, vec![], 0, false, false));
        after_shutdown(c, r, sig, kind, &res, &mut ex);
        // stragglers: a collector that delays sees earlier requests only
        let n = coll.take().len();
        c.check(n == 0, "sent-after-shutdown", || format!("{n} requests after shutdown of the {} exporter over {kind:?}", SIG[sig]));
    }
    if slow {
        // connections still held by the collector end with the client
        drop(ex);
    }
    c.seen(h64(&(sig, p, kind, slow, refused, trace.clone())), !trace.is_empty());
    c.sample(|| format!("{} {kind:?} {:?}: {trace:?}", SIG[sig], PROTOS[p]));
}
fn after_shutdown(c: &Case, r: &mut Rng, sig: usize, kind: Client, res: &Resource, ex: &mut Ex) {
    let s = ex.shutdown();
    c.check(s.is_ok(), "shutdown", || format!("{} exporter's first shutdown: {s:?}", SIG[sig]));
    for _ in 0..1 + r.idx(2) {
        let mut d = Data::new(r, sig, res, "late", 0);
        let got = watched("export after shutdown", || on(kind, ex.export(&mut d)));
        c.check(plib::is_already(&got), "export-after-shutdown", || format!("{} exporter over {kind:?} after shutdown: {got:?}", SIG[sig]));
        c.count("after_shutdown", 1);
    }
    // metric exporters accept a second shutdown
    let s = ex.shutdown();
    c.check(if sig == 1 { s.is_ok() || plib::is_already(&s) } else { plib::is_already(&s) }, "second-shutdown", || format!("{} exporter's second shutdown over {kind:?}: {s:?}", SIG[sig]));
}
/// several threads share one exporter; the collector decides by what each request holds
fn http_concurrent(c: &Case, r: &mut Rng, coll: &Coll) {
    let sig = r.idx(3);
    let p = r.idx(2);
    let kind = [Client::Default, Client::Async, Client::Hyper][r.idx(3)];
    let res = enc::rresource(r);
    let mut ex = http(sig, kind, &coll.url(HTTP_PATH[sig]), PROTOS[p], LONG);
    ex.set_resource(&res);
    coll.take();
    coll.pick(|q| marker(&q.body).map_or(Act::CutAfter, |(_, code)| if code == 0 { Act::CutAfter } else { Act::Answer(code, vec![], 0, false, false) }));
    let mut jobs = vec![];
    let threads = 2 + r.idx(3);
    for t in 0..threads {
        let mut l = vec![];
        for k in 0..1 + r.idx(4) {
            let code = [200u16, 200, 200, 503, 404, 0][r.idx(6)];
            l.push((format!("vhm-{}-{code}-", t * 100 + k), code, Data::new(r, sig, &res, &format!("vhm-{}-{code}-", t * 100 + k), 0)));
        }
        jobs.push(l);
    }
    let want: std::collections::BTreeMap<usize, (u16, Groups)> = jobs.iter().flatten().map(|(m, code, d)| (marker(m.as_bytes()).unwrap().0, (*code, d.want(&res)))).collect();
    let ex = &ex;
    std::thread::scope(|s| {
        for l in jobs.iter_mut() {
            s.spawn(move || {
                for (m, code, d) in l.iter_mut() {
                    let got = watched("concurrent export", || on(kind, ex.export(d)));
                    c.check(got.is_ok() == (*code == 200), "concurrent-result", || format!("{} over {kind:?}: answered {code} to {m}, export returned {got:?}", SIG[sig]));
                    c.count("concurrent_exports", 1);
                }
            });
        }
    });
    let mut times = std::collections::BTreeMap::<usize, usize>::new();
    for q in coll.take() {
        match marker(&q.body) {
            Some((id, _)) if want.contains_key(&id) => {
                *times.entry(id).or_default() += 1;
                right(c, sig, p == 1, false, &want[&id].1, &q);
            }
            x => c.fail("wrong-data", format!("a request of no export: {x:?}")),
        }
    }
    for (id, (code, _)) in &want {
        let n = times.get(id).copied().unwrap_or(0);
        c.check(*code != 200 || n == 1, "requests-per-export", || format!("export {id} was answered {code} and seen {n} times"));
    }
    c.seen(h64(&(sig, p, kind, format!("{times:?}"))), true);
}
fn marker(b: &[u8]) -> Option<(usize, u16)> {
    let p = b.windows(4).position(|w| w == b"vhm-")?;
    let t = String::from_utf8_lossy(&b[p + 4..(p + 20).min(b.len())]).into_owned();
    let mut it = t.split('-');
    Some((it.next()?.parse().ok()?, it.next()?.parse().ok()?))
}
fn grpc_case(c: &Case, r: &mut Rng, coll: &GColl, raw: &Coll) {
    let sig = r.idx(3);
    let comp = [None, None, Some(Compression::Gzip), Some(Compression::Zstd)][r.idx(4)];
    let slow = r.chance(1, 8);
    let timeout = if slow { Duration::from_millis(120 + r.below(150)) } else { LONG };
    let res = enc::rresource(r);
    // 0: scripted gRPC; 1: refused; 2: not gRPC at all
    let mode = if slow { 0 } else { [0, 0, 0, 0, 0, 0, 0, 1, 2, 2][r.idx(10)] };
    let url = [coll.url(), "http://127.77.0.9:1".into(), raw.url("")][mode].clone();
    let mut ex = grpc(sig, &url, timeout, comp);
    ex.set_resource(&res);
    coll.take();
    let mut trace = vec![];
    let steps = if slow { 1 } else { 1 + r.idx(5) };
    let mut ended = false;
    for n in 0..steps {
        let ok = !slow && mode == 0 && r.chance(3, 5);
        let a = if slow {
            [GAct::HoldHead, GAct::Status(0, 3000), GAct::HoldBody][if r.chance(1, 12) { 2 } else { r.idx(2) }].clone()
        } else if ok {
            GAct::Status(0, if r.chance(1, 6) { r.below(40) } else { 0 })
        } else {
            match r.idx(10) {
                0..=3 => GAct::Status(1 + r.below(16) as i32, 0),
                4 => GAct::LateStatus(1 + r.below(16) as i32),
                5 => GAct::Http([400, 401, 404, 429, 500, 502, 503][r.idx(7)]),
                6 => [GAct::NoMessage, GAct::BadMessage][r.idx(2)].clone(),
                7 => GAct::Reset,
                8 => GAct::ResetAll,
                _ => GAct::Close,
            }
        };
        coll.act(a.clone());
        let ra = if mode == 2 { [Act::CutBefore, Act::CutAfter, Act::Garbage(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".to_vec()), Act::Garbage(vec![0; 40]), Act::Answer(200, vec![], 0, false, false)][r.idx(5)].clone() } else { Act::CutAfter };
        raw.act(ra.clone());
        let more = if r.chance(1, 25) { r.idx(200) } else { r.idx(3) };
        let mut d = Data::new(r, sig, &res, &format!("vh{n}"), more);
        let want = d.want(&res);
        let mut t = Instant::now();
        let limit = timeout + Duration::from_secs(4);
        let mut got = rt().block_on(async { tokio::time::timeout(limit, ex.export(&mut d)).await });
        let mut taken = coll.take();
        for _ in 0..3 {
            // the connection the last refusal ended may be given one more request before the
            // channel notices: that request was never sent, and its error is the truth
            let unsent = ended && ok && taken.0.is_empty() && matches!(&got, Ok(Err(e)) if e.to_string().contains("operation was canceled"));
            if !unsent {
                break;
            }
            c.count("grpc_reconnects", 1);
            std::thread::sleep(Duration::from_millis(20));
            t = Instant::now();
            got = rt().block_on(async { tokio::time::timeout(limit, ex.export(&mut d)).await });
            taken = coll.take();
        }
        ended = !ok;
        let took = t.elapsed();
        let label = || {
            format!("{} over gRPC ({comp:?}), timeout {timeout:?}, step {n}, {}: {got:?} after {took:?}", SIG[sig], match mode {
                0 => format!("collector {a:?}"),
                1 => "refused".into(),
                _ => format!("not gRPC: {ra:?}"),
            })
        };
        let Ok(got) = &got else {
            let key = if a == GAct::HoldBody { "grpc-body-never-times-out" } else { "no-answer" };
            c.fail(key, format!("no result: {}", label()));
            coll.take();
            return;
        };
        trace.push((format!("{a:?}"), mode, got.is_ok()));
        let (seen, odd) = taken;
        c.check(odd.is_empty(), "malformed-grpc", || format!("{odd:?}: {}", label()));
        if ok {
            c.count("grpc_accepted", 1);
            if !c.check(got.is_ok(), "failed-though-accepted", label) {
                return;
            }
            c.check(seen.len() == 1, "requests-per-export", || format!("{} requests: {}", seen.len(), label()));
        } else {
            c.count(if slow { "grpc_timeouts" } else { "grpc_refusals" }, 1);
            if !c.check(got.is_err(), "success-though-refused", label) {
                return;
            }
            c.check(took < timeout.min(Duration::from_secs(3)) + Duration::from_secs(4), "slow-error", label);
        }
        for q in seen {
            let e = q.header("grpc-encoding").first().map(|x| x.to_string());
            let w = comp.map(|x| if x == Compression::Gzip { "gzip" } else { "zstd" }.to_string());
            c.check(e == w, "grpc-encoding", || format!("compression {comp:?} was sent as {e:?}"));
            right(c, sig, false, true, &want, &q);
        }
    }
    if r.bool() {
        coll.act(GAct::Status(0, 0));
        after_shutdown(c, r, sig, Client::Async, &res, &mut ex);
        let n = coll.take().0.len();
        c.check(n == 0, "sent-after-shutdown", || format!("{n} requests after shutdown of the gRPC {} exporter", SIG[sig]));
    }
    c.seen(h64(&(sig, mode, slow, format!("{comp:?}{trace:?}"))), !trace.is_empty());
    c.sample(|| format!("{} gRPC {comp:?}: {trace:?}", SIG[sig]));
}
/// one accepted gRPC export of random data, for the encoding properties
pub fn grpc_encoded(c: &Case, r: &mut Rng, sig: usize) {
    GCOLL.with(|coll| {
        let comp = [None, Some(Compression::Gzip), Some(Compression::Zstd)][r.idx(3)];
        let res = enc::rresource(r);
        coll.act(GAct::Status(0, 0));
        coll.take();
        let mut ex = grpc(sig, &coll.url(), LONG, comp);
        ex.set_resource(&res);
        for _ in 0..3 {
            let more = r.idx(8);
            let mut d = Data::new(r, sig, &res, "vh", more);
            let want = d.want(&res);
            let got = watched("gRPC export", || rt().block_on(ex.export(&mut d)));
            if !c.check(got.is_ok(), "grpc-export", || format!("{got:?}")) {
                return;
            }
            let l = coll.take().0;
            c.check(l.len() == 1, "grpc-requests", || format!("{} requests for one export", l.len()));
            for q in &l {
                if let Err(e) = enc::compare(sig, &want, false, &q.body) {
                    c.fail("grpc-differs", e);
                }
                c.count("grpc_bodies", 1);
            }
            c.seen(h64(&format!("{want:?}")), true);
        }
    });
}
fn grpc_concurrent(c: &Case, r: &mut Rng, coll: &GColl) {
    let sig = r.idx(3);
    let comp = [None, Some(Compression::Gzip), Some(Compression::Zstd)][r.idx(3)];
    let res = enc::rresource(r);
    let mut ex = grpc(sig, &coll.url(), LONG, comp);
    ex.set_resource(&res);
    coll.take();
    coll.pick(|q| marker(&q.body).map_or(GAct::ResetAll, |(_, code)| if code == 99 { GAct::ResetAll } else { GAct::Status(code as i32, 0) }));
    let mut jobs = vec![];
    for t in 0..2 + r.idx(3) {
        let mut l = vec![];
        for k in 0..1 + r.idx(4) {
            let code = [0u16, 0, 0, 14, 3, 99][r.idx(6)];
            let m = format!("vhm-{}-{code}-", t * 100 + k);
            l.push((m.clone(), code, Data::new(r, sig, &res, &m, 0)));
        }
        jobs.push(l);
    }
    let want: std::collections::BTreeMap<usize, (u16, Groups)> = jobs.iter().flatten().map(|(m, code, d)| (marker(m.as_bytes()).unwrap().0, (*code, d.want(&res)))).collect();
    let exr = &ex;
    std::thread::scope(|s| {
        for l in jobs.iter_mut() {
            s.spawn(move || {
                for (m, code, d) in l.iter_mut() {
                    let got = watched("concurrent gRPC export", || rt().block_on(exr.export(d)));
                    c.check(got.is_ok() == (*code == 0), "concurrent-result", || format!("{} over gRPC: answered {code} to {m}, export returned {got:?}", SIG[sig]));
                    c.count("concurrent_exports", 1);
                }
            });
        }
    });
    let mut times = std::collections::BTreeMap::<usize, usize>::new();
    for q in coll.take().0 {
        match marker(&q.body) {
            Some((id, _)) if want.contains_key(&id) => {
                *times.entry(id).or_default() += 1;
                right(c, sig, false, true, &want[&id].1, &q);
            }
            x => c.fail("wrong-data", format!("a request of no export: {x:?}")),
        }
    }
    for (id, (code, _)) in &want {
        let n = times.get(id).copied().unwrap_or(0);
        c.check(*code != 0 || n == 1, "requests-per-export", || format!("export {id} was answered {code} and seen {n} times"));
    }
    c.seen(h64(&(sig, format!("{comp:?}{times:?}"))), true);
}
/// a client of the application's own, answering with what it was told
#[derive(Debug)]
struct Fixed(u16, std::sync::Mutex<Vec<http::Request<bytes::Bytes>>>);
#[async_trait::async_trait]
impl opentelemetry_http::HttpClient for Fixed {
    async fn send_bytes(&self, q: http::Request<bytes::Bytes>) -> Result<http::Response<bytes::Bytes>, opentelemetry_http::HttpError> {
        self.1.lock().unwrap().push(q);
        match self.0 {
            0 => Err("vh-no-answer".into()),
            code => Ok(http::Response::builder().status(code).body(bytes::Bytes::from_static(b"vh answer")).unwrap()),
        }
    }
}
#[derive(Debug, Clone)]
struct Shared(std::sync::Arc<Fixed>);
#[async_trait::async_trait]
impl opentelemetry_http::HttpClient for Shared {
    async fn send_bytes(&self, q: http::Request<bytes::Bytes>) -> Result<http::Response<bytes::Bytes>, opentelemetry_http::HttpError> {
        self.0.send_bytes(q).await
    }
}
/// every status a client can hand back (0: the client's error), every signal and encoding
fn statuses(c: &Case, r: &mut Rng) {
    let (sig, p, code) = (c.idx as usize % 3, c.idx as usize / 3 % 2, [0, 199 + c.idx as u16 / 6][(c.idx >= 6) as usize]);
    let tap = Shared(std::sync::Arc::new(Fixed(code, Default::default())));
    macro_rules! b {
        ($t:ty) => {
            <$t>::builder().with_http().with_http_client(tap.clone()).with_endpoint("http://vh.example/x").with_protocol(PROTOS[p]).build().unwrap()
        };
    }
    let mut ex = match sig {
        0 => Ex::S(b!(SpanExporter)),
        1 => Ex::M(b!(MetricExporter)),
        _ => Ex::L(b!(LogExporter)),
    };
    let res = enc::rresource(r);
    ex.set_resource(&res);
    let mut d = Data::new(r, sig, &res, "x", 0);
    let got = futures_executor::block_on(ex.export(&mut d));
    let n = tap.0 .1.lock().unwrap().len();
    let success = (200..300).contains(&code);
    c.check(got.is_ok() == success, "status", || format!("{} {:?}: the client answered {code} (0: an error), the export returned {got:?}", SIG[sig], PROTOS[p]));
    c.check(n == 1, "requests-per-export", || format!("{n} requests for one export answered {code}"));
    c.count("client_statuses", 1);
    c.seen(h64(&(sig, p, code)), true);
}
thread_local! {
    static COLL: Coll = Coll::new();
    static RAW: Coll = Coll::new();
    static GCOLL: GColl = rt().block_on(GColl::on("127.0.0.1:0")).unwrap();
}
pub fn e04(ctx: &Ctx) {
    for (k, n) in [("accepted", 100), ("refusals", 60), ("timeouts", 10), ("grpc_accepted", 100), ("grpc_refusals", 60), ("grpc_timeouts", 8), ("after_shutdown", 50), ("concurrent_exports", 100), ("delivered", 300), ("client_statuses", 2406)] {
        ctx.require(k, n);
    }
    ctx.enumerate("statuses", 2406, 4, |c, r| statuses(c, r));
    ctx.section("http", 0.4, 8, 60, |c, r| COLL.with(|k| http_case(c, r, k)));
    ctx.section("grpc", 0.4, 8, 60, |c, r| GCOLL.with(|g| RAW.with(|k| grpc_case(c, r, g, k))));
    ctx.section("http-concurrent", 0.1, 4, 10, |c, r| COLL.with(|k| http_concurrent(c, r, k)));
    ctx.section("grpc-concurrent", 0.1, 4, 10, |c, r| GCOLL.with(|g| grpc_concurrent(c, r, g)));
}
