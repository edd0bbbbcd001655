//! E05: which endpoint, headers, timeout and compression an exporter uses, given code and environment.
use crate::coll::{Act, Coll, GAct, GColl, Seen};
use crate::e04::{rt, Data, Ex, GRPC_PATH, HTTP_PATH, SIG};
use crate::enc::{self, Tap};
use hsdk::*;
use opentelemetry_otlp::{Compression, ExportConfig, LogExporter, MetricExporter, Protocol, SpanExporter, WithExportConfig, WithHttpConfig, WithTonicConfig};
use opentelemetry_sdk::Resource;
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;
use tonic::metadata::{MetadataKey, MetadataMap, MetadataValue};

const G: &str = "OTEL_EXPORTER_OTLP_";
const S: [&str; 3] = ["TRACES_", "METRICS_", "LOGS_"];
const PATHS: [&str; 3] = ["/v1/traces", "/v1/metrics", "/v1/logs"];

/// the environment of one build; other signals' variables hold something else
#[derive(Default, Debug)]
struct Env(BTreeMap<String, String>);
impl Env {
    fn sig(&mut self, sig: usize, what: &str, v: Option<String>) {
        if let Some(v) = v {
            self.0.insert(format!("{G}{}{what}", S[sig]), v);
        }
    }
    fn gen(&mut self, what: &str, v: Option<String>) {
        if let Some(v) = v {
            self.0.insert(format!("{G}{what}"), v);
        }
    }
    fn with<T>(&self, f: impl FnOnce() -> T) -> T {
        for (k, v) in &self.0 {
            std::env::set_var(k, v);
        }
        let x = f();
        for k in self.0.keys() {
            std::env::remove_var(k);
        }
        x
    }
}
fn url(r: &mut Rng, who: &str) -> String {
    let base = format!("http://{who}{}.example:{}", r.below(1000), 1 + r.below(65535));
    match r.idx(5) {
        0 => base,
        1 => format!("{base}/"),
        2 => format!("{base}/deep/path"),
        3 => format!("{base}/deep/path/"),
        _ => format!("https://{who}.example/x"),
    }
}
const BAD: [&str; 3] = ["http://a b/", "http://x.example/\u{7f}", "http://[::1"];
/// (value as given, valid) with an empty or unparsable one counting as not set
fn maybe_url(r: &mut Rng, who: &str) -> Option<(String, bool)> {
    match r.idx(8) {
        0..=2 => None,
        3 => Some((String::new(), false)),
        4 if r.bool() => Some((BAD[r.idx(3)].to_string(), false)),
        _ => Some((url(r, who), true)),
    }
}
type Headers = BTreeMap<String, Vec<String>>;
const KEYS: [&str; 7] = ["x-key", "X-Other", "api-key", "traceparent", "Authorization", "x_under", "user-agent"];
fn plain(r: &mut Rng) -> String {
    let n = 1 + r.idx(6);
    let s: String = (0..n).map(|_| *r.pick(&['a', 'Z', '0', '-', ':', '/', '=', ';', '~', '"', '\\'])).collect();
    s
}
/// an OTEL_EXPORTER_OTLP_HEADERS value and what it means
fn env_headers(r: &mut Rng) -> (String, Headers) {
    let mut want = Headers::new();
    let mut parts = vec![];
    let mut keys: Vec<&str> = KEYS.to_vec();
    r.shuffle(&mut keys);
    for _ in 0..1 + r.idx(4) {
        if r.chance(1, 4) {
            let nothing = *r.pick(&["novalue", "=noname", "noval=", "", " ", "bad name=v", "bäd=v", "ctl=a%0Ab", "ctl=%00", "=", "  = "]);
            parts.push(nothing.to_string());
            continue;
        }
        let k = keys.pop().unwrap();
        // decoded text: visible ASCII with inner spaces and separators
        let n = 1 + r.idx(7);
        let v: String = (0..n).map(|p| *r.pick(if p > 0 && p + 1 < n { &['a', ' ', ',', '%', '=', '9', ';', '+'][..] } else { &['a', 'B', '9', '-', '%', ','][..] })).collect();
        let mut e = String::new();
        for ch in v.chars() {
            if matches!(ch, ',' | '%') || r.chance(1, 5) {
                e.push_str(&if r.bool() { format!("%{:02X}", ch as u32) } else { format!("%{:02x}", ch as u32) });
            } else {
                e.push(ch);
            }
        }
        let (a, b) = (["", " "][r.idx(2)], ["", " ", "\t"][r.idx(3)]);
        parts.push(format!("{a}{k}{b}={a}{e}{b}"));
        want.insert(k.to_ascii_lowercase(), vec![v]);
    }
    (parts.join(",") + if r.chance(1, 6) { "," } else { "" }, want)
}
/// a general and/or a signal's header variable, and what is to be sent because of them
fn header_env(r: &mut Rng, sig: usize, env: &mut Env) -> Headers {
    let g = r.chance(1, 2).then(|| env_headers(r));
    let s = r.chance(1, 2).then(|| env_headers(r));
    env.gen("HEADERS", g.as_ref().map(|x| x.0.clone()));
    env.sig(sig, "HEADERS", s.as_ref().map(|x| x.0.clone()));
    env.sig((sig + 1) % 3, "HEADERS", Some("x-stray=1".into()));
    s.or(g).map(|x| x.1).unwrap_or_default()
}
fn check_headers(c: &Case, want: &Headers, got: &[(String, String)], grpc: bool, own_ua: bool, ctx: &str) {
    let mut g = Headers::new();
    for (k, v) in got {
        g.entry(k.to_ascii_lowercase()).or_default().push(v.clone());
    }
    for (k, v) in want {
        if k == "user-agent" {
            continue;
        }
        c.check(g.get(k) == Some(v), "header", || format!("header {k}: expected {v:?}, sent {:?}; {ctx}", g.get(k)));
        c.count("headers", 1);
    }
    for (k, v) in &g {
        let own = ["content-type", "user-agent", "te", "grpc-encoding", "grpc-accept-encoding", "grpc-timeout", "content-length", "host", "accept"].contains(&k.as_str());
        c.check(own || want.contains_key(k), "stray-header", || format!("header {k}: {v:?} was configured nowhere; {ctx}"));
    }
    let ua = g.get("user-agent").cloned().unwrap_or_default();
    let w = want.get("user-agent").map(|v| v[0].clone());
    // a ready-made channel brings its own
    let ok = !own_ua || ua.len() == 1
        && match &w {
            Some(w) if grpc => ua[0].starts_with(w.as_str()),
            Some(w) => ua[0] == *w,
            None => ua[0].starts_with("OTel OTLP Exporter Rust/"),
        };
    c.check(ok, "user-agent", || format!("User-Agent: configured {w:?}, sent {ua:?}; {ctx}"));
}
fn http_case(c: &Case, r: &mut Rng) {
    let sig = r.idx(3);
    let mut env = Env::default();
    // endpoints
    let code = maybe_url(r, "code");
    let se = maybe_url(r, "signal");
    let ge = maybe_url(r, "general");
    env.sig(sig, "ENDPOINT", se.as_ref().map(|x| x.0.clone()));
    env.gen("ENDPOINT", ge.as_ref().map(|x| x.0.clone()));
    env.sig((sig + 1) % 3, "ENDPOINT", Some(url(r, "stray")));
    let want = match (&code, &se, &ge) {
        (Some((u, false)), ..) if !u.is_empty() => None,
        (Some((u, true)), ..) => Some(u.clone()),
        (_, Some((u, true)), _) => Some(u.clone()),
        (_, _, Some((u, true))) => Some(format!("{}{}", u.strip_suffix('/').unwrap_or(u), PATHS[sig])),
        _ => Some(format!("http://localhost:4318{}", PATHS[sig])),
    };
    // headers
    let mut headers = HashMap::new();
    let mut want_h = Headers::new();
    let mut sets = vec![];
    for _ in 0..r.idx(3) {
        let mut one = HashMap::new();
        let mut keys: Vec<&str> = KEYS.to_vec();
        r.shuffle(&mut keys);
        for _ in 0..r.idx(4) {
            let k = keys.pop().unwrap();
            let k = if r.bool() { k.to_string() } else { k.to_ascii_uppercase() };
            let v = plain(r);
            want_h.insert(k.to_ascii_lowercase(), vec![v.clone()]);
            one.insert(k, v);
        }
        headers.extend(one.clone());
        sets.push(one);
    }
    let eh = header_env(r, sig, &mut env);
    want_h.extend(eh);
    let proto = [Protocol::HttpBinary, Protocol::HttpJson][r.idx(2)];
    let tap = Tap::default();
    let whole = r.chance(1, 4);
    macro_rules! b {
        ($t:ty) => {{
            let mut b = <$t>::builder().with_http();
            if r.bool() {
                b = b.with_http_client(tap.clone());
            }
            b = b.with_protocol(proto);
            for s in &sets {
                b = b.with_headers(s.clone());
            }
            if whole {
                b = b.with_endpoint("http://overridden.example").with_timeout(Duration::from_secs(1));
                b = b.with_export_config(ExportConfig { endpoint: code.as_ref().map(|x| x.0.clone()), protocol: proto, timeout: None });
            } else if let Some((u, _)) = &code {
                b = b.with_endpoint(u.clone());
            }
            b = b.with_http_client(tap.clone());
            env.with(|| b.build())
        }};
    }
    let what = || format!("{} code {code:?} headers {sets:?}, environment {:?}", SIG[sig], env);
    let ex = match sig {
        0 => b!(SpanExporter).map(Ex::S),
        1 => b!(MetricExporter).map(Ex::M),
        _ => b!(LogExporter).map(Ex::L),
    };
    c.seen(h64(&format!("{sig}{code:?}{sets:?}{env:?}")), !env.0.is_empty());
    c.sample(what);
    let ex = match (ex, &want) {
        (Err(e), None) => {
            c.check(format!("{e:?}").contains("InvalidUri"), "bad-endpoint-error", || format!("{e:?} for {}", what()));
            c.count("invalid_endpoints", 1);
            return;
        }
        (Ok(e), Some(_)) => e,
        (e, w) => {
            c.fail("build", format!("built: {:?}, expected {w:?}; {}", e.map(|_| ()), what()));
            return;
        }
    };
    let mut d = Data::new(r, sig, &Resource::builder_empty().build(), "x", 0);
    let got = futures_executor::block_on(ex.export(&mut d));
    c.check(got.is_ok(), "export", || format!("{got:?}"));
    let q = std::mem::take(&mut *tap.0.lock().unwrap());
    if !c.check(q.len() == 1, "requests", || format!("{} requests", q.len())) {
        return;
    }
    let want: http::Uri = want.unwrap().parse().unwrap();
    c.check(*q[0].uri() == want, "endpoint", || format!("sent to {}, expected {want}; {}", q[0].uri(), what()));
    c.count("endpoints", 1);
    let h: Vec<(String, String)> = q[0].headers().iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
    check_headers(c, &want_h, &h, false, true, &what());
    let ct = if proto == Protocol::HttpJson { "application/json" } else { "application/x-protobuf" };
    c.check(h.iter().filter(|x| x.0 == "content-type").map(|x| x.1.as_str()).eq([ct]), "content-type", || format!("{h:?} for {proto:?}"));
}
struct GSet {
    colls: Vec<GColl>,
    default: Option<GColl>,
}
thread_local! {
    static GS: GSet = GSet {
        colls: (0..3).map(|_| rt().block_on(GColl::on("127.0.0.1:0")).unwrap()).collect(),
        default: rt().block_on(GColl::on("127.0.0.1:4317")).ok(),
    };
    static COLL: Coll = Coll::new();
}
fn grpc_case(c: &Case, r: &mut Rng, gs: &GSet) {
    let sig = r.idx(3);
    let mut env = Env::default();
    // endpoints: which of the collectors is addressed
    let mut src: Vec<Option<Option<usize>>> = (0..3).map(|k| [None, Some(Some(k)), Some(Some(k)), Some(None)][r.idx(4)]).collect();
    let mut to = src.iter().flatten().flatten().next().copied();
    if to.is_none() && gs.default.is_none() {
        src[2] = Some(Some(2));
        to = Some(2);
    }
    let text = |x: Option<usize>| x.map_or(String::new(), |k| gs.colls[k].url());
    env.sig(sig, "ENDPOINT", src[1].map(text));
    env.gen("ENDPOINT", src[2].map(text));
    env.sig((sig + 1) % 3, "ENDPOINT", Some("http://127.77.0.9:1".into()));
    // compression
    let comps = [Some(Compression::Gzip), Some(Compression::Zstd), None];
    let (cc, cs, cg) = (comps[r.idx(3)], comps[r.idx(3)], comps[r.idx(3)]);
    let bad = r.chance(1, 10);
    env.sig(sig, "COMPRESSION", if bad { Some("lzma".into()) } else { cs.map(|x| x.to_string()) });
    env.gen("COMPRESSION", cg.map(|x| x.to_string()));
    env.sig((sig + 1) % 3, "COMPRESSION", Some("bogus".into()));
    let comp = cc.or(cs).or(cg);
    // headers
    let mut md = MetadataMap::new();
    let mut want_h = Headers::new();
    let mut keys: Vec<&str> = KEYS.to_vec();
    r.shuffle(&mut keys);
    for _ in 0..r.idx(4) {
        let k = keys.pop().unwrap().to_ascii_lowercase();
        let v = plain(r);
        md.insert(MetadataKey::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap());
        want_h.insert(k, vec![v]);
    }
    if r.chance(1, 4) {
        md.append("multi", "one".parse().unwrap());
        md.append("multi", "two".parse().unwrap());
        want_h.insert("multi".into(), vec!["one".into(), "two".into()]);
    }
    if r.chance(1, 4) {
        let raw: Vec<u8> = (0..r.idx(9)).map(|_| r.below(256) as u8).collect();
        md.insert_bin("blob-bin", MetadataValue::from_bytes(&raw));
        use base64::Engine;
        want_h.insert("blob-bin".into(), vec![base64::engine::general_purpose::STANDARD_NO_PAD.encode(&raw)]);
    }
    let eh = header_env(r, sig, &mut env);
    want_h.extend(eh);
    let inter = r.chance(1, 3);
    if inter {
        want_h.insert("x-int".into(), vec!["on".into()]);
    }
    let refuse = inter && r.chance(1, 6);
    let code = src[0].map(text);
    // a ready-made channel goes where it goes, whatever the endpoints
    let chan = r.chance(1, 5).then(|| r.idx(3));
    to = chan.or(to);
    let desc = format!("{} gRPC code {code:?} {cc:?} {md:?} interceptor {inter} (refusing: {refuse}), channel {chan:?}, environment {env:?}", SIG[sig]);
    let _g = rt().enter();
    macro_rules! b {
        ($t:ty) => {{
            let mut b = <$t>::builder().with_tonic().with_timeout(Duration::from_secs(10));
            if !md.is_empty() || r.bool() {
                b = b.with_metadata(md.clone());
            }
            if let Some(u) = &code {
                b = b.with_endpoint(u.clone());
            }
            if let Some(x) = cc {
                b = b.with_compression(x);
            }
            if let Some(k) = chan {
                b = b.with_channel(tonic::transport::Channel::from_shared(gs.colls[k].url()).unwrap().connect_lazy());
            }
            if inter {
                b = b.with_interceptor(move |mut q: tonic::Request<()>| {
                    if refuse {
                        return Err(tonic::Status::permission_denied("vh-refused"));
                    }
                    q.metadata_mut().insert("x-int", "on".parse().unwrap());
                    Ok(q)
                });
            }
            env.with(|| b.build())
        }};
    }
    let ex = match sig {
        0 => b!(SpanExporter).map(Ex::S),
        1 => b!(MetricExporter).map(Ex::M),
        _ => b!(LogExporter).map(Ex::L),
    };
    drop(_g);
    c.seen(h64(&desc.replace(|x: char| x.is_ascii_digit(), "")), !env.0.is_empty());
    let ex = match ex {
        Err(e) => {
            c.check(bad && cc.is_none() && format!("{e:?}").contains("UnsupportedCompression"), "build", || format!("{e:?}: {desc}"));
            c.count("invalid_compressions", 1);
            return;
        }
        Ok(e) => {
            if bad && cc.is_none() {
                c.fail("build", format!("built with an unsupported compression: {desc}"));
                return;
            }
            e
        }
    };
    for g in gs.colls.iter().chain(&gs.default) {
        g.act(GAct::Status(0, 0));
        g.take();
    }
    let mut d = Data::new(r, sig, &Resource::builder_empty().build(), "x", 0);
    let got = watched("export", || rt().block_on(ex.export(&mut d)));
    if refuse {
        let n: usize = gs.colls.iter().chain(&gs.default).map(|g| g.take().0.len()).sum();
        c.check(got.is_err() && n == 0, "interceptor-refusal", || format!("{got:?}, {n} requests: {desc}"));
        c.count("refused_by_interceptor", 1);
        return;
    }
    if !c.check(got.is_ok(), "export", || format!("{got:?}: {desc}")) {
        return;
    }
    if chan.is_some() {
        c.count("grpc_channels", 1);
    }
    let mut at: Vec<(Option<usize>, Seen)> = vec![];
    for (k, g) in gs.colls.iter().map(Some).enumerate().map(|(k, g)| (Some(k), g.unwrap())).chain(gs.default.iter().map(|g| (None, g))) {
        let (l, odd) = g.take();
        c.check(odd.is_empty(), "malformed-grpc", || format!("{odd:?}: {desc}"));
        at.extend(l.into_iter().map(|q| (k, q)));
    }
    if !c.check(at.len() == 1 && at[0].0 == to, "grpc-endpoint", || format!("expected collector {to:?}, requests at {:?}: {desc}", at.iter().map(|x| x.0).collect::<Vec<_>>())) {
        return;
    }
    c.count("grpc_endpoints", 1);
    if to.is_none() {
        c.count("grpc_default_endpoint", 1);
    }
    let q = &at[0].1;
    c.check(q.path == GRPC_PATH[sig], "grpc-path", || q.path.clone());
    let e = q.header("grpc-encoding").first().map(|x| x.to_string());
    c.check(e == comp.map(|x| x.to_string()), "compression", || format!("sent as {e:?}, expected {comp:?}: {desc}"));
    check_headers(c, &want_h, &q.headers, true, chan.is_none(), &desc);
}
/// the credentials given to the hyper client are sent with every request
/// a metrics exporter has the temporality chosen, whenever it is chosen
fn temporality(c: &Case, _: &mut Rng) {
    use opentelemetry_sdk::metrics::{exporter::PushMetricExporter as _, Temporality as T};
    let n = c.idx as usize;
    let want = [None, Some(T::Cumulative), Some(T::Delta), Some(T::LowMemory)][n % 4];
    let (grpc, late, twice) = (n / 4 % 2 == 1, n / 8 % 2 == 1, n / 16 % 2 == 1);
    let mut b = MetricExporter::builder();
    if twice {
        b = b.with_temporality(T::LowMemory);
    }
    if let (Some(t), false) = (want, late) {
        b = b.with_temporality(t);
    }
    macro_rules! end {
        ($b:expr) => {{
            let mut b = $b;
            if let (Some(t), true) = (want, late) {
                b = b.with_temporality(t);
            }
            Env::default().with(|| b.with_endpoint("http://127.0.0.1:9/x").with_timeout(Duration::from_secs(1)).build())
        }};
    }
    let _g = rt().enter();
    let x = match if grpc { end!(b.with_tonic()) } else { end!(b.with_http()) } {
        Ok(x) => x,
        Err(e) => return c.fail("temporality-build", format!("{e:?}")),
    };
    let want = want.unwrap_or(if twice { T::LowMemory } else { T::Cumulative });
    c.check(x.temporality() == want, "temporality", || format!("gRPC {grpc}, chosen late {late}, an earlier choice {twice}: {:?}, not {want:?}", x.temporality()));
    std::thread::scope(|s| {
        // the blocking client must not be dropped inside the runtime
        s.spawn(move || drop(x));
    });
    c.count("temporalities", 1);
    c.seen(h64(&(n, 77)), true);
}
fn credentials(c: &Case, r: &mut Rng, coll: &Coll) {
    let sig = r.idx(3);
    let own = r.bool();
    let auth = format!("Basic {}", r.ident(12));
    let client = opentelemetry_http::hyper::HyperClient::with_default_connector(Duration::from_secs(10), own.then(|| auth.parse().unwrap()));
    let mut hs = std::collections::HashMap::from([("x-tenant".to_string(), "t1".to_string())]);
    if !own {
        hs.insert("authorization".into(), auth.clone());
    }
    macro_rules! b {
        ($t:ty) => {
            Env::default().with(|| <$t>::builder().with_http().with_endpoint(coll.url(HTTP_PATH[sig])).with_headers(hs).with_http_client(client).build()).unwrap()
        };
    }
    let mut ex = match sig {
        0 => Ex::S(b!(SpanExporter)),
        1 => Ex::M(b!(MetricExporter)),
        _ => Ex::L(b!(LogExporter)),
    };
    coll.act(Act::Answer(200, vec![], 0, false, false));
    for _ in 0..3 {
        let mut d = Data::new(r, sig, &Resource::builder_empty().build(), "x", 0);
        let got = watched("export", || rt().block_on(ex.export(&mut d)));
        let l = coll.take();
        c.check(got.is_ok() && l.len() == 1, "export", || format!("{got:?}, {} requests", l.len()));
        for q in &l {
            let (a, t) = (q.header("authorization"), q.header("x-tenant"));
            c.check(a == [auth.as_str()] && t == ["t1"], "credentials", || format!("{auth:?} given to the {}: received authorization {a:?}, x-tenant {t:?}", if own { "client" } else { "exporter" }));
            c.count("credentials_checked", 1);
        }
    }
    c.seen(h64(&auth), true);
}
/// the collectors answer after DELAY: an export succeeds exactly if its timeout is a long one
fn timeouts(c: &Case, r: &mut Rng, coll: &Coll, gs: &GSet) {
    const DELAY: u64 = 1500;
    let mut l = vec![];
    let n = 48;
    coll.act(Act::Answer(200, vec![], DELAY, false, false));
    let g = &gs.colls[0];
    g.act(GAct::Status(0, DELAY));
    for _ in 0..n {
        let sig = r.idx(3);
        let over_grpc = r.bool();
        let mut env = Env::default();
        let pickms = |r: &mut Rng| if r.bool() { 100 + r.below(150) } else { 9000 + r.below(3000) };
        // what the code sets last is in force: a timeout, a whole configuration (perhaps without
        // a timeout), or nothing
        let mut code = None;
        let mut sets: Vec<(bool, Option<u64>)> = vec![];
        for _ in 0..[0, 0, 1, 1, 2][r.idx(5)] {
            let cfg = r.bool();
            let x = (!cfg || r.bool()).then(|| pickms(r));
            sets.push((cfg, x));
            code = x;
        }
        let var = |r: &mut Rng| -> Option<(String, Option<u64>)> {
            match r.idx(4) {
                0 => None,
                1 => Some((r.pick(&["", "abc", "-5", "1.5", "10s", "99999999999999999999999"]).to_string(), None)),
                _ => {
                    let x = pickms(r);
                    Some((x.to_string(), Some(x)))
                }
            }
        };
        let mut se = var(r);
        let mut ge = var(r);
        if r.chance(1, 4) {
            // only the general one can decide
            (code, sets) = (None, vec![]);
            se = Some((r.pick(&["", "abc", "-5", "1.5", "10s", "3_000", "0x10"]).to_string(), None));
            ge = Some(("120".into(), Some(120)));
        }
        env.sig(sig, "TIMEOUT", se.as_ref().map(|x| x.0.clone()));
        env.gen("TIMEOUT", ge.as_ref().map(|x| x.0.clone()));
        let eff = code.or(se.as_ref().and_then(|x| x.1)).or(ge.as_ref().and_then(|x| x.1)).unwrap_or(10_000);
        env.sig((sig + 1) % 3, "TIMEOUT", Some(if eff > 1000 { "100" } else { "9000" }.into()));
        let desc = format!("{} {} timeout: code (whole configuration?, ms) {sets:?}, environment {env:?}", SIG[sig], if over_grpc { "gRPC" } else { "HTTP" });
        let _g = rt().enter();
        macro_rules! b {
            ($t:ty) => {
                if over_grpc {
                    let mut b = <$t>::builder().with_tonic().with_endpoint(g.url());
                    for (cfg, x) in &sets {
                        let t = x.map(Duration::from_millis);
                        b = if *cfg { b.with_export_config(ExportConfig { endpoint: Some(g.url()), protocol: Protocol::Grpc, timeout: t }) } else { b.with_timeout(t.unwrap()) };
                    }
                    env.with(|| b.build())
                } else {
                    let mut b = <$t>::builder().with_http().with_endpoint(coll.url(HTTP_PATH[sig]));
                    for (cfg, x) in &sets {
                        let t = x.map(Duration::from_millis);
                        b = if *cfg { b.with_export_config(ExportConfig { endpoint: Some(coll.url(HTTP_PATH[sig])), protocol: Protocol::HttpBinary, timeout: t }) } else { b.with_timeout(t.unwrap()) };
                    }
                    env.with(|| b.build())
                }
            };
        }
        let ex = match sig {
            0 => Ex::S(b!(SpanExporter).unwrap()),
            1 => Ex::M(b!(MetricExporter).unwrap()),
            _ => Ex::L(b!(LogExporter).unwrap()),
        };
        let d = Data::new(r, sig, &Resource::builder_empty().build(), "x", 0);
        c.seen(h64(&desc), true);
        l.push((ex, d, eff, over_grpc, desc));
    }
    std::thread::scope(|s| {
        for (ex, d, eff, over_grpc, desc) in l.iter_mut() {
            s.spawn(move || {
                let t = std::time::Instant::now();
                let got = watched("export", || if *over_grpc { rt().block_on(ex.export(d)) } else { futures_executor::block_on(ex.export(d)) });
                let took = t.elapsed();
                c.check(got.is_ok() == (*eff > 1000), "timeout", || format!("answered after {DELAY} ms with a timeout of {eff} ms in effect: {got:?} after {took:?}; {desc}"));
                c.count(if *eff > 1000 { "long_timeouts" } else { "short_timeouts" }, 1);
            });
        }
    });
    let _ = enc::nanos;
    coll.take();
    g.take();
}
pub fn e05(ctx: &Ctx) {
    for (k, n) in [("headers", 5000), ("endpoints", 5000), ("grpc_endpoints", 300), ("short_timeouts", 15), ("long_timeouts", 15), ("invalid_endpoints", 50), ("credentials_checked", 20), ("invalid_compressions", 10)] {
        ctx.require(k, n);
    }
    // the environment belongs to the process: one worker
    ctx.require("temporalities", 32);
    ctx.enumerate("temporality", 32, 1, temporality);
    ctx.section("http", 0.25, 1, 500, http_case);
    ctx.section("grpc", 0.4, 1, 100, |c, r| GS.with(|g| grpc_case(c, r, g)));
    ctx.section("credentials", 0.04, 1, 10, |c, r| COLL.with(|k| credentials(c, r, k)));
    ctx.section("timeouts", 0.31, 1, 1, |c, r| COLL.with(|k| GS.with(|g| timeouts(c, r, k, g))));
}
