//! R01: resources.
use std::sync::Arc;
use hsdk::mlib::{rvalue, store_key, R};
use hsdk::plib::{ExpLog, LogExp, SpanExp};
use hsdk::*;
use opentelemetry::logs::{LogRecord, Logger, LoggerProvider};
use opentelemetry::metrics::MeterProvider;
use opentelemetry::trace::{Span, Tracer, TracerProvider};
use opentelemetry::{Key, KeyValue, Value};
use opentelemetry_sdk::logs::SdkLoggerProvider;
use opentelemetry_sdk::metrics::SdkMeterProvider;
use opentelemetry_sdk::resource::{EnvResourceDetector, Resource, ResourceDetector, SdkProvidedResourceDetector, TelemetryResourceDetector};
use opentelemetry_sdk::trace::SdkTracerProvider;
use std::collections::BTreeMap;

pub fn run(ctx: &Ctx) {
    ctx.require("resources", 2000);
    ctx.require("default_resources", 300);
    ctx.require("env_pairs_malformed", 200);
    ctx.require("urls_conflicting", 100);
    ctx.require("received_by_exporters", 500);
    // the environment belongs to the whole process: one worker
    ctx.section("build", 0.6, 1, 300, build);
    ctx.section("providers", 0.4, 1, 100, providers);
}
#[derive(Clone, Debug, Default, PartialEq)]
struct M {
    attrs: BTreeMap<String, Value>,
    url: Option<String>,
    /// keys whose value is not specified
    open: Vec<String>,
}
impl M {
    fn add(&mut self, kvs: &[KeyValue]) {
        for kv in kvs {
            self.attrs.insert(kv.key.as_str().into(), kv.value.clone());
            self.open.retain(|k| k != kv.key.as_str());
        }
    }
    fn url(&mut self, u: Option<&str>) {
        if let Some(u) = u.filter(|u| !u.is_empty()) {
            self.url = match &self.url {
                None => Some(u.into()),
                Some(x) if x == u => Some(u.into()),
                Some(_) => None,
            };
        }
    }
    fn merge(&mut self, o: &M) {
        for (k, v) in &o.attrs {
            self.attrs.insert(k.clone(), v.clone());
            self.open.retain(|x| x != k);
        }
        self.open.extend(o.open.iter().cloned());
        self.url(o.url.as_deref());
    }
    fn diff(&self, r: &Resource) -> Option<String> {
        let got: BTreeMap<String, Value> = r.iter().map(|(k, v)| (k.as_str().to_string(), v.clone())).collect();
        let strip = |m: &BTreeMap<String, Value>| m.iter().filter(|(k, _)| !self.open.contains(k)).map(|(k, v)| (k.clone(), format!("{v:?}"))).collect::<BTreeMap<_, _>>();
        if strip(&got) != strip(&self.attrs) {
            return Some(format!("attributes {:?}, expected {:?}", strip(&got), strip(&self.attrs)));
        }
        if got.len() != self.attrs.len() || r.len() != self.attrs.len() || r.is_empty() != self.attrs.is_empty() || r.iter().count() != r.len() || r.into_iter().count() != r.len() {
            return Some(format!("{} attributes (len() {}), expected {}", got.len(), r.len(), self.attrs.len()));
        }
        for (k, v) in &self.attrs {
            if !self.open.contains(k) && r.get(&Key::new(k.clone())).map(|x| format!("{x:?}")) != Some(format!("{v:?}")) {
                return Some(format!("get({k:?})"));
            }
        }
        if r.schema_url() != self.url.as_deref() {
            return Some(format!("schema URL {:?}, expected {:?}", r.schema_url(), self.url));
        }
        None
    }
}
const KEYS: &[&str] = &["a", "b", "c", "service.name", "telemetry.sdk.name", "", "k é"];
const URLS: &[&str] = &["http://a", "http://b", ""];
fn kvs(r: &mut Rng) -> Vec<KeyValue> {
    (0..r.idx(5))
        .map(|_| {
            let k = *r.pick(KEYS);
            KeyValue::new(store_key(r, k), rvalue(r))
        })
        .collect()
}
struct Det(Vec<KeyValue>, Option<String>);
impl ResourceDetector for Det {
    fn detect(&self) -> Resource {
        let b = Resource::builder_empty();
        match &self.1 {
            Some(u) => b.with_schema_url(self.0.clone(), u.clone()).build(),
            None => b.with_attributes(self.0.clone()).build(),
        }
    }
}
/// sets the two variables; returns what they hold
fn env(r: &mut Rng, c: &Case) -> (Option<String>, Option<String>) {
    let name = match r.below(4) {
        0 => None,
        1 => Some(String::new()),
        _ => Some(format!("svc{}", r.below(5))),
    };
    let attrs = match r.below(5) {
        0 => None,
        1 => Some(String::new()),
        _ => {
            let n = r.idx(6);
            let mut parts: Vec<String> = vec![];
            for _ in 0..n {
                let k = *r.pick(&["a", "b", " c ", "service.name", "telemetry.sdk.name", "x"]);
                parts.push(match r.below(6) {
                    0 => {
                        c.count("env_pairs_malformed", 1);
                        ["novalue", "", " "][r.idx(3)].to_string()
                    }
                    1 => format!("{k}=v=w=="),
                    2 => format!("{k} = {} ", r.below(10)),
                    3 => format!("{k}="),
                    _ => format!("{k}=v{}", r.below(10)),
                });
            }
            Some(parts.join(",") + ["", ","][r.idx(2)])
        }
    };
    let set = |k: &str, v: &Option<String>| match v {
        Some(v) => std::env::set_var(k, v),
        None => std::env::remove_var(k),
    };
    set("OTEL_SERVICE_NAME", &name);
    set("OTEL_RESOURCE_ATTRIBUTES", &attrs);
    (name, attrs)
}
fn env_attrs(s: &Option<String>) -> Vec<KeyValue> {
    s.iter().flat_map(|s| s.split(',')).filter_map(|p| p.split_once('=')).map(|(k, v)| KeyValue::new(k.trim().to_string(), v.trim().to_string())).collect()
}
fn service(e: &(Option<String>, Option<String>)) -> KeyValue {
    let v: Value = match &e.0 {
        Some(s) if !s.is_empty() => s.clone().into(),
        _ => env_attrs(&e.1).into_iter().rev().find(|kv| kv.key.as_str() == "service.name").map(|kv| kv.value).unwrap_or("unknown_service".into()),
    };
    KeyValue::new("service.name", v)
}
/// the default resource; `None` where the version is concerned: whatever the SDK says
fn default_model(e: &(Option<String>, Option<String>), actual: &Resource, c: &Case) -> M {
    let mut m = M::default();
    let ver = actual.get(&Key::new("telemetry.sdk.version"));
    m.add(&[KeyValue::new("telemetry.sdk.name", "opentelemetry"), KeyValue::new("telemetry.sdk.language", "rust"), KeyValue::new("telemetry.sdk.version", ver.clone().unwrap_or("?".into()))]);
    c.check(matches!(&ver, Some(Value::String(s)) if s.as_str().starts_with(|c: char| c.is_ascii_digit())), "sdk-version", || format!("{ver:?}"));
    // who wins if the environment names the SDK's own attributes is not specified
    m.open.push("telemetry.sdk.name".into());
    let ea: Vec<KeyValue> = env_attrs(&e.1);
    let open = ea.iter().any(|kv| kv.key.as_str() == "telemetry.sdk.name");
    m.add(&ea);
    if open {
        m.open.push("telemetry.sdk.name".into());
    } else {
        m.open.retain(|k| k != "telemetry.sdk.name");
    }
    m.add(&[service(e)]);
    m
}
fn rbuild(c: &Case, r: &mut Rng) -> (Resource, M, String) {
    let e = env(r, c);
    let mut t = format!("{e:?}");
    let (mut b, mut m);
    if r.chance(1, 3) {
        b = Resource::builder();
        m = default_model(&e, &Resource::builder().build(), c);
        t += " builder()";
        c.count("default_resources", 1);
    } else {
        b = Resource::builder_empty();
        m = M::default();
    }
    for _ in 0..r.idx(6) {
        let a = kvs(r);
        match r.below(8) {
            0 => {
                let (k, v) = (*r.pick(KEYS), rvalue(r));
                t += &format!(" attribute({k}={v:?})");
                b = b.with_attribute(KeyValue::new(k, v.clone()));
                m.add(&[KeyValue::new(k, v)]);
            }
            1 | 2 => {
                t += &format!(" attributes({a:?})");
                b = b.with_attributes(a.clone());
                m.add(&a);
            }
            3 => {
                t += " service_name(explicit)";
                b = b.with_service_name("explicit");
                m.add(&[KeyValue::new("service.name", "explicit")]);
            }
            4 | 5 => {
                let u = *r.pick(URLS);
                t += &format!(" schema_url({a:?}, {u:?})");
                b = b.with_schema_url(a.clone(), u);
                if !u.is_empty() && m.url.as_deref().is_some_and(|x| x != u) {
                    c.count("urls_conflicting", 1);
                }
                // whether these attributes override those set before is not specified
                let known: Vec<String> = m.attrs.keys().cloned().collect();
                for kv in &a {
                    if !known.contains(&kv.key.as_str().to_string()) {
                        m.attrs.insert(kv.key.as_str().into(), kv.value.clone());
                    } else {
                        m.open.push(kv.key.as_str().into());
                    }
                }
                m.url(Some(u));
            }
            6 => {
                let u = r.bool().then(|| r.pick(URLS).to_string());
                t += &format!(" detector({a:?}, {u:?})");
                let mut o = M::default();
                o.add(&a);
                o.url(u.as_deref());
                m.merge(&o);
                b = b.with_detector(Box::new(Det(a, u)));
            }
            _ => {
                let mut ds: Vec<Box<dyn ResourceDetector>> = vec![];
                let mut o = M::default();
                for _ in 0..r.idx(4) {
                    match r.below(4) {
                        0 => {
                            ds.push(Box::new(EnvResourceDetector::new()));
                            o.add(&env_attrs(&e.1));
                            t += " env";
                        }
                        1 => {
                            ds.push(Box::new(SdkProvidedResourceDetector));
                            o.add(&[service(&e)]);
                            t += " sdk";
                        }
                        2 => {
                            let d = TelemetryResourceDetector.detect();
                            o.add(&d.iter().map(|(k, v)| KeyValue::new(k.clone(), v.clone())).collect::<Vec<_>>());
                            c.check(d.len() == 3, "telemetry-detector", || format!("{d:?}"));
                            ds.push(Box::new(TelemetryResourceDetector));
                            t += " telemetry";
                        }
                        _ => {
                            let (a, u) = (kvs(r), r.bool().then(|| r.pick(URLS).to_string()));
                            t += &format!(" det({a:?}, {u:?})");
                            let mut x = M::default();
                            x.add(&a);
                            x.url(u.as_deref());
                            o.merge(&x);
                            ds.push(Box::new(Det(a, u)));
                        }
                    }
                }
                m.merge(&o);
                b = b.with_detectors(&ds);
            }
        }
    }
    (b.build(), m, t)
}
fn build(c: &Case, r: &mut Rng) {
    let mut sig = 0;
    for _ in 0..10 {
        let (res, m, t) = rbuild(c, r);
        c.count("resources", 1);
        sig = h64(&(sig, &t));
        if let Some(d) = m.diff(&res) {
            c.fail("resource", format!("{t}: {d}"));
        }
        let copy = res.clone();
        c.check(format!("{copy:?}") == format!("{res:?}") && m.diff(&copy).is_none() == m.diff(&res).is_none(), "clone", || t.clone());
        c.sample(|| t.clone());
    }
    c.seen(sig, true);
}
/// keeps the last resource exported with
#[derive(Clone, Default)]
struct MetExp(Arc<std::sync::Mutex<Option<Resource>>>);
impl opentelemetry_sdk::metrics::exporter::PushMetricExporter for MetExp {
    async fn export(&self, rm: &mut opentelemetry_sdk::metrics::data::ResourceMetrics) -> opentelemetry_sdk::error::OTelSdkResult {
        *self.0.lock().unwrap() = Some(rm.resource.clone());
        Ok(())
    }
    fn force_flush(&self) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: std::time::Duration) -> opentelemetry_sdk::error::OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> opentelemetry_sdk::metrics::Temporality {
        opentelemetry_sdk::metrics::Temporality::Cumulative
    }
}
/// what is given to a provider is what exporters and readers get
fn providers(c: &Case, r: &mut Rng) {
    let mut parts = vec![];
    let mut m = M::default();
    let n = r.idx(3);
    for i in 0..n {
        let (res, x, t) = rbuild(c, r);
        if i == 0 {
            m = x;
        } else {
            m.merge(&x);
        }
        parts.push((res, t));
    }
    let e = env(r, c);
    let text: Vec<&String> = parts.iter().map(|p| &p.1).collect();
    if n == 0 {
        m = default_model(&e, &Resource::builder().build(), c);
    }
    let g = plib::rt().enter();
    let k = 1 + r.idx(3);
    let (se, le): (Vec<_>, Vec<_>) = (0..k).map(|_| (Arc::new(ExpLog::default()), Arc::new(ExpLog::default()))).unzip();
    let mut tb = SdkTracerProvider::builder();
    let mut lb = SdkLoggerProvider::builder();
    let mut mb = SdkMeterProvider::builder();
    let rd = R::new(opentelemetry_sdk::metrics::Temporality::Cumulative);
    let cut = r.idx(n + 1);
    for (i, (res, _)) in parts.iter().enumerate() {
        if i == cut {
            mb = mb.with_reader(rd.clone());
        }
        tb = tb.with_resource(res.clone());
        lb = lb.with_resource(res.clone());
        mb = mb.with_resource(res.clone());
    }
    if cut >= n {
        mb = mb.with_reader(rd.clone());
    }
    for (s, l) in se.iter().zip(&le) {
        use opentelemetry_sdk::runtime::{Tokio, TokioCurrentThread};
        use opentelemetry_sdk::{logs, trace};
        (tb, lb) = match r.idx(5) {
            0 => (tb.with_simple_exporter(SpanExp(s.clone())), lb.with_simple_exporter(LogExp(l.clone()))),
            1 => (tb.with_batch_exporter(SpanExp(s.clone())), lb.with_batch_exporter(LogExp(l.clone()))),
            2 => (
                tb.with_span_processor(trace::span_processor_with_async_runtime::BatchSpanProcessor::builder(SpanExp(s.clone()), Tokio).build()),
                lb.with_log_processor(logs::log_processor_with_async_runtime::BatchLogProcessor::builder(LogExp(l.clone()), Tokio).build()),
            ),
            3 => (
                tb.with_span_processor(trace::span_processor_with_async_runtime::BatchSpanProcessor::builder(SpanExp(s.clone()), TokioCurrentThread).build()),
                lb.with_log_processor(logs::log_processor_with_async_runtime::BatchLogProcessor::builder(LogExp(l.clone()), TokioCurrentThread).build()),
            ),
            _ => (tb.with_simple_exporter(SpanExp(s.clone())), lb.with_log_processor(logs::concurrent_log_processor::SimpleConcurrentLogProcessor::new(LogExp(l.clone())))),
        };
    }
    let (pe, ae): (MetExp, MetExp) = Default::default();
    mb = mb.with_reader(opentelemetry_sdk::metrics::PeriodicReader::builder(pe.clone()).with_interval(std::time::Duration::from_secs(3600)).build());
    {
        let rt = opentelemetry_sdk::runtime::Tokio;
        mb = mb.with_reader(opentelemetry_sdk::metrics::periodic_reader_with_async_runtime::PeriodicReader::builder(ae.clone(), rt).with_interval(std::time::Duration::from_secs(3600)).build());
    }
    let (tp, lp, mp) = (tb.build(), lb.build(), mb.build());
    drop(g);
    tp.tracer("t").start("s").end();
    let lg = lp.logger("l");
    let mut rec = lg.create_log_record();
    rec.set_body("x".into());
    lg.emit(rec);
    mp.meter("m").u64_counter("c").build().add(1, &[]);
    let _ = (tp.force_flush(), lp.force_flush(), mp.force_flush());
    let mut rm = R::rm();
    let _ = opentelemetry_sdk::metrics::reader::MetricReader::collect(&rd, &mut rm);
    let snap = Some(rm.resource);
    for (i, (what, res)) in se.iter().map(|s| ("span", s.resource.lock().unwrap().clone())).chain(le.iter().map(|l| ("log", l.resource.lock().unwrap().clone()))).chain([("metric", snap), ("periodic metric", pe.0.lock().unwrap().clone()), ("asynchronous periodic metric", ae.0.lock().unwrap().clone())]).enumerate() {
        match res {
            Some(res) => {
                if let Some(d) = m.diff(&res) {
                    c.fail("exporter-resource", format!("{what} exporter {i}, resources {text:?}, environment {e:?}: {d}"));
                }
                c.count("received_by_exporters", 1);
            }
            None => c.fail("no-resource", format!("{what} exporter {i} of {k} got no resource")),
        }
    }
    let _ = (tp.shutdown(), lp.shutdown(), mp.shutdown());
    c.seen(h64(&(n, k, format!("{text:?}"))), true);
}
