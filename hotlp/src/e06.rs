//! E06: what a Zipkin collector is sent, and what the export call says about it.
use crate::coll::{Act, Coll};
use crate::e04::{bad, good, on, Client};
use crate::enc::{self, Tap};
use crate::wire::{parse_json, J};
use hsdk::*;
use opentelemetry::trace::{SpanId, SpanKind, Status};
use opentelemetry::{Array, Value};
use opentelemetry_sdk::trace::{SpanData, SpanExporter as _};
use opentelemetry_zipkin::ZipkinExporter;
use std::collections::BTreeMap;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

fn text(v: &Value) -> String {
    let list = |l: Vec<String>| format!("[{}]", l.join(","));
    match v {
        Value::Bool(true) => "true".into(),
        Value::Bool(false) => "false".into(),
        Value::I64(x) => format!("{x}"),
        Value::F64(x) => format!("{x}"),
        Value::String(s) => s.as_str().to_string(),
        Value::Array(Array::Bool(l)) => list(l.iter().map(|x| format!("{x}")).collect()),
        Value::Array(Array::I64(l)) => list(l.iter().map(|x| format!("{x}")).collect()),
        Value::Array(Array::F64(l)) => list(l.iter().map(|x| format!("{x}")).collect()),
        Value::Array(Array::String(l)) => list(l.iter().map(|x| format!("\"{}\"", x.as_str())).collect()),
        _ => panic!("vh value"),
    }
}
fn micros(t: SystemTime) -> u64 {
    t.duration_since(UNIX_EPOCH).map_or(0, |d| d.as_micros() as u64)
}
/// the span's fields one by one
fn wrong(d: &SpanData, addr: Option<std::net::SocketAddr>, j: &J) -> Option<String> {
    let J::Obj(o) = j else { return Some(format!("not an object: {j:?}")) };
    let mut keys: Vec<&String> = o.iter().map(|x| &x.0).collect();
    keys.sort();
    if keys.windows(2).any(|w| w[0] == w[1]) {
        return Some(format!("repeated member: {keys:?}"));
    }
    let s = |k: &str| j.get(k).and_then(J::str).map(str::to_string);
    let want = |k: &str, w: Option<String>, g: Option<String>| (w != g).then(|| format!("{k}: expected {w:?}, sent {g:?}"));
    let c = &d.span_context;
    let zero = "0".repeat(16);
    let parent = s("parentId").filter(|x| *x != zero);
    let own_kind = d.attributes.iter().any(|k| k.key.as_str() == "span.kind");
    let kind = match d.span_kind {
        // said by an attribute, which becomes a tag
        _ if own_kind => None,
        SpanKind::Client => Some("CLIENT"),
        SpanKind::Server => Some("SERVER"),
        SpanKind::Producer => Some("PRODUCER"),
        SpanKind::Consumer => Some("CONSUMER"),
        SpanKind::Internal => None,
    };
    // the tag `error` is for spans with status Error only
    let mut tags: BTreeMap<String, String> = d.attributes.iter().filter(|k| k.key.as_str() != "error").map(|k| (k.key.to_string(), text(&k.value))).collect();
    let sc = &d.instrumentation_scope;
    tags.insert("otel.library.name".into(), sc.name().into());
    if let Some(v) = sc.version() {
        tags.insert("otel.library.version".into(), v.into());
    }
    match &d.status {
        Status::Unset => {}
        Status::Ok => {
            tags.insert("otel.status_code".into(), "OK".into());
        }
        Status::Error { description } => {
            tags.insert("otel.status_code".into(), "ERROR".into());
            tags.insert("error".into(), description.to_string());
        }
    }
    let mut got = BTreeMap::new();
    match j.get("tags") {
        Some(J::Obj(l)) => {
            for (k, v) in l {
                let Some(v) = v.str() else { return Some(format!("tag {k} is {v:?}")) };
                if got.insert(k.clone(), v.to_string()).is_some() {
                    return Some(format!("tag {k} repeated"));
                }
            }
        }
        None => {}
        x => return Some(format!("tags are {x:?}")),
    }
    if sc.name().is_empty() {
        got.entry("otel.library.name".into()).or_default();
    }
    if tags != got {
        return Some(format!("tags: expected {tags:?}, sent {got:?}"));
    }
    let ann: Vec<(Option<u64>, Option<String>)> = match j.get("annotations") {
        Some(J::Arr(l)) => l.iter().map(|a| (a.get("timestamp").and_then(J::u64), a.get("value").and_then(J::str).map(str::to_string))).collect(),
        None => vec![],
        x => return Some(format!("annotations are {x:?}")),
    };
    let wann: Vec<_> = d.events.iter().map(|e| (Some(micros(e.timestamp)), Some(e.name.to_string()))).collect();
    if ann != wann {
        return Some(format!("annotations: expected {wann:?}, sent {ann:?}"));
    }
    let ep = j.get("localEndpoint");
    let field = |k: &str| ep.and_then(|e| e.get(k)).and_then(J::str).map(str::to_string);
    let (v4, v6) = match addr {
        Some(std::net::SocketAddr::V4(a)) => (Some(a.ip().to_string()), None),
        Some(std::net::SocketAddr::V6(a)) => (None, Some(a.ip().to_string())),
        None => (None, None),
    };
    let num = |k: &str| j.get(k).and_then(J::u64).map(|x| x.to_string());
    let dur = d.end_time.duration_since(d.start_time).map_or(0, |x| x.as_micros() as u64);
    want("traceId", Some(format!("{:032x}", u128::from_be_bytes(c.trace_id().to_bytes()))), s("traceId"))
        .or_else(|| want("id", Some(format!("{:016x}", u64::from_be_bytes(c.span_id().to_bytes()))), s("id")))
        .or_else(|| want("parentId", (d.parent_span_id != SpanId::INVALID).then(|| format!("{:016x}", u64::from_be_bytes(d.parent_span_id.to_bytes()))), parent))
        .or_else(|| want("name", Some(d.name.to_string()), s("name")))
        .or_else(|| want("kind", kind.map(str::to_string), s("kind")))
        .or_else(|| want("timestamp", Some(micros(d.start_time).to_string()), num("timestamp")))
        .or_else(|| want("duration", Some(dur.to_string()), num("duration")))
        .or_else(|| want("localEndpoint.ipv4", v4, field("ipv4")))
        .or_else(|| want("localEndpoint.ipv6", v6, field("ipv6")))
        .or_else(|| want("localEndpoint.port", addr.map(|a| a.port().to_string()), ep.and_then(|e| e.get("port")).and_then(J::u64).map(|x| x.to_string())))
}
fn body(c: &Case, l: &[SpanData], addr: Option<std::net::SocketAddr>, b: &[u8]) {
    match parse_json(b) {
        Ok(J::Arr(x)) => {
            if !c.check(x.len() == l.len(), "span-count", || format!("{} spans exported, {} sent", l.len(), x.len())) {
                return;
            }
            for (d, j) in l.iter().zip(&x) {
                c.count("spans", 1);
                if let Some(e) = wrong(d, addr, j) {
                    c.fail("span-differs", format!("{e}; span {d:?}; sent {j:?}"));
                    return;
                }
            }
        }
        x => c.fail("not-a-json-array", format!("{x:?}; body {:?}", String::from_utf8_lossy(&b[..b.len().min(500)]))),
    }
}
fn addr(r: &mut Rng) -> Option<std::net::SocketAddr> {
    match r.idx(3) {
        0 => None,
        1 if r.chance(1, 6) => Some((*r.pick(&[std::net::Ipv4Addr::LOCALHOST, std::net::Ipv4Addr::BROADCAST, std::net::Ipv4Addr::UNSPECIFIED]), 80).into()),
        2 if r.chance(1, 6) => Some((*r.pick(&[std::net::Ipv6Addr::LOCALHOST, std::net::Ipv6Addr::UNSPECIFIED, std::net::Ipv6Addr::from(0xffu128)]), 8080).into()),
        1 => Some((std::net::Ipv4Addr::from(r.u64() as u32), r.below(65536) as u16).into()),
        _ => Some((std::net::Ipv6Addr::from(r.u128() & !(0xffff << 32)), r.below(65536) as u16).into()),
    }
}
fn spans(r: &mut Rng, max: usize) -> Vec<SpanData> {
    let sc = enc::rscopes(r);
    let mut l: Vec<SpanData> = (0..r.idx(max)).map(|_| enc::rspan(r, &sc)).collect();
    for d in &mut l {
        // keys that mean something to Zipkin, and ones that only look so
        for k in ["error", "span.kind", "errors", "error.type", "Error", "Span.Kind", "span.kind2", "shared"] {
            if r.chance(1, 16) {
                let at = r.idx(d.attributes.len() + 1);
                let v = match r.idx(4) {
                    0 => "true".into(),
                    1 => "".into(),
                    _ => mlib::rvalue(r),
                };
                d.attributes.insert(at, opentelemetry::KeyValue::new(k, v));
            }
        }
    }
    l
}
fn encode(c: &Case, r: &mut Rng) {
    let tap = Tap::default();
    let a = addr(r);
    let mut b = ZipkinExporter::builder().with_http_client(tap.clone()).with_collector_endpoint("http://zipkin.example:1234/some/where");
    if let Some(a) = a {
        b = b.with_service_address(a);
    }
    let ex = b.build().unwrap();
    let mut sig = 0;
    for _ in 0..3 {
        let l = spans(r, 7);
        sig = h64(&(sig, format!("{l:?}")));
        let got = futures_executor::block_on(ex.export(l.clone()));
        c.check(got.is_ok(), "export", || format!("{got:?}"));
        let q = std::mem::take(&mut *tap.0.lock().unwrap());
        if !c.check(q.len() == 1, "requests", || format!("{} requests", q.len())) {
            return;
        }
        c.check(
            q[0].method() == "POST" && q[0].uri() == "http://zipkin.example:1234/some/where" && q[0].headers().get_all("content-type").iter().eq(["application/json"]),
            "request-line",
            || format!("{:?}", q[0]),
        );
        body(c, &l, a, q[0].body());
    }
    c.seen(sig, true);
}
fn results(c: &Case, r: &mut Rng, coll: &Coll) {
    let slow = r.chance(1, 8);
    let timeout = if slow { Duration::from_millis(120 + r.below(150)) } else { Duration::from_secs(10) };
    // the default client takes its timeout from the environment when built: set up by the caller
    let kind = if slow { [Client::Async, Client::Hyper][r.idx(2)] } else { [Client::Default, Client::Async, Client::Hyper][r.idx(3)] };
    let refused = !slow && r.chance(1, 20);
    let url = if refused { "http://127.77.0.9:1/api".to_string() } else { coll.url("/api/v2/spans") };
    let b = ZipkinExporter::builder().with_collector_endpoint(url);
    let ex = match kind {
        Client::Default => b,
        Client::Async => b.with_http_client(reqwest::Client::builder().timeout(timeout).redirect(reqwest::redirect::Policy::none()).build().unwrap()),
        Client::Hyper => b.with_http_client(opentelemetry_http::hyper::HyperClient::with_default_connector(timeout, None)),
    }
    .build()
    .unwrap();
    coll.take();
    let mut trace = vec![];
    for n in 0..if slow { 1 } else { 1 + r.idx(5) } {
        let ok = !slow && !refused && r.chance(3, 5);
        let a = if slow {
            [Act::HoldHead, Act::HoldBody(202), Act::Trickle(200), Act::Answer(202, vec![], 3000, false, false)][r.idx(4)].clone()
        } else if ok {
            good(r)
        } else {
            bad(r)
        };
        coll.act(a.clone());
        let mut l = spans(r, 4);
        l.extend(spans(r, 4));
        let t = Instant::now();
        let got = watched("export", || on(kind, ex.export(l.clone())));
        let took = t.elapsed();
        let label = || format!("Zipkin over {kind:?}, step {n}, collector {}: {got:?} after {took:?}", if refused { "refuses".into() } else { format!("{a:?}").chars().take(200).collect::<String>() });
        trace.push((crate::e04::act_code(&a), got.is_ok()));
        let seen = coll.take();
        if ok {
            c.count("accepted", 1);
            c.check(got.is_ok(), "failed-though-accepted", label);
            c.check(seen.len() == 1, "requests-per-export", || format!("{} requests: {}", seen.len(), label()));
        } else {
            c.count(if slow { "timeouts" } else { "refusals" }, 1);
            c.check(got.is_err(), "success-though-refused", label);
            c.check(took < timeout.min(Duration::from_secs(3)) + Duration::from_secs(4), "slow-error", label);
        }
        for q in seen.iter().filter(|q| q.path != "/elsewhere") {
            c.check(q.method == "POST" && q.path == "/api/v2/spans" && q.header("content-type") == ["application/json"], "request-line", || format!("{} {} {:?}", q.method, q.path, q.headers));
            body(c, &l, None, &q.body);
        }
    }
    c.seen(h64(&(kind, slow, refused, trace.clone())), !trace.is_empty());
    c.sample(|| format!("Zipkin {kind:?}: {trace:?}"));
}
/// endpoint and timeout from code, environment or default; one worker
fn env(c: &Case, r: &mut Rng, coll: &Coll) {
    let code = r.bool().then(|| format!("http://code{}.example/x", r.below(100)));
    let var = match r.idx(3) {
        0 => None,
        1 => Some(String::new()),
        _ => Some(format!("http://env{}.example:99/y/z", r.below(100))),
    };
    if let Some(v) = &var {
        std::env::set_var("OTEL_EXPORTER_ZIPKIN_ENDPOINT", v);
    }
    let tap = Tap::default();
    let mut b = ZipkinExporter::builder();
    if let Some(u) = &code {
        b = b.with_collector_endpoint(u.clone());
    }
    let ex = b.with_http_client(tap.clone()).build();
    std::env::remove_var("OTEL_EXPORTER_ZIPKIN_ENDPOINT");
    let ex = match ex {
        Ok(ex) => ex,
        Err(e) => return c.fail("endpoint", format!("code {code:?}, environment {var:?}: {e}")),
    };
    let want = code.clone().or(var.clone().filter(|v| !v.is_empty())).unwrap_or("http://127.0.0.1:9411/api/v2/spans".into());
    let _ = futures_executor::block_on(ex.export(spans(r, 3)));
    let got: Vec<String> = tap.0.lock().unwrap().iter().map(|q| q.uri().to_string()).collect();
    c.check(got == [want.clone()], "endpoint", || format!("code {code:?}, environment {var:?}: sent to {got:?}, expected {want}"));
    c.count("endpoints", 1);
    c.seen(h64(&(code, var)), true);
    if c.idx % 60 == 0 {
        coll.act(Act::HoldHead);
        std::env::set_var("OTEL_EXPORTER_ZIPKIN_TIMEOUT", "200");
        let ex = ZipkinExporter::builder().with_collector_endpoint(coll.url("/t")).build().unwrap();
        std::env::remove_var("OTEL_EXPORTER_ZIPKIN_TIMEOUT");
        let t = Instant::now();
        let got = watched("export", || futures_executor::block_on(ex.export(spans(r, 3))));
        c.check(got.is_err() && t.elapsed() < Duration::from_secs(4), "timeout", || format!("{got:?} after {:?} with a timeout of 200 ms", t.elapsed()));
        c.count("env_timeouts", 1);
    }
}
thread_local!(static COLL: Coll = Coll::new());
pub fn e06(ctx: &Ctx) {
    for (k, n) in [("spans", 5000), ("accepted", 100), ("refusals", 60), ("timeouts", 8), ("endpoints", 50), ("env_timeouts", 1)] {
        ctx.require(k, n);
    }
    ctx.section("encode", 0.4, 6, 300, encode);
    ctx.section("results", 0.5, 8, 60, |c, r| COLL.with(|k| results(c, r, k)));
    ctx.section("env", 0.1, 1, 60, |c, r| COLL.with(|k| env(c, r, k)));
}
