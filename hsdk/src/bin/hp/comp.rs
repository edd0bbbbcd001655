//! P07: composite propagators, carriers and the global propagator.
use crate::w3c::{base_cx, Carrier};
use hsdk::slib::valid_ctx;
use hsdk::*;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::propagation::text_map_propagator::FieldIter;
use opentelemetry::propagation::{Extractor, Injector, TextMapCompositePropagator, TextMapPropagator};
use opentelemetry::trace::*;
use opentelemetry::{global, Context, KeyValue};
use opentelemetry_http::{HeaderExtractor, HeaderInjector};
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub fn run(ctx: &Ctx) {
    ctx.require("injections", 3000);
    ctx.require("extractions", 3000);
    ctx.require("conflicting_members", 300);
    ctx.require("carrier_operations", 20_000);
    ctx.require("global_reads", 1000);
    ctx.enumerate("default-global", 1, 1, |c, r| {
        let (cx, _) = base_cx(r);
        let mut car = Rec::default();
        let cx = cx.with_remote_span_context(valid_ctx(r)).with_baggage([KeyValue::new("a", "b")]);
        global::get_text_map_propagator(|p| {
            p.inject_context(&cx, &mut car);
            c.check(p.fields().count() == 0, "default-fields", || "the default global propagator declares fields".into());
            let m: HashMap<String, String> = [("traceparent".to_string(), format!("00-{:032x}-{:016x}-01", 1, 1))].into();
            let out = p.extract_with_context(&cx, &m);
            c.check(same(&out, &cx), "default-extract", || "the default global propagator changed the context".into());
        });
        c.check(car.0.is_empty(), "default-inject", || format!("the default global propagator wrote {:?}", car.0));
        c.seen(0, true);
    });
    ctx.section("composite", 0.45, 4, 200, composite);
    ctx.section("carriers", 0.3, 4, 100, carriers);
    ctx.section("global", 0.25, 1, 20, globals);
}
/// records every call
#[derive(Default, Debug)]
struct Rec(Vec<(String, String)>);
impl Injector for Rec {
    fn set(&mut self, k: &str, v: String) {
        self.0.push((k.into(), v))
    }
}
#[derive(Debug, Clone, PartialEq)]
struct Trail(Vec<String>);
/// a member of the user's own: writes its name under its headers, and appends what it read to a value of the context
#[derive(Debug, Clone)]
struct Mine {
    name: String,
    fields: Vec<String>,
}
impl TextMapPropagator for Mine {
    fn inject_context(&self, cx: &Context, i: &mut dyn Injector) {
        for f in &self.fields {
            i.set(f, format!("{}/{}", self.name, cx.span().span_context().span_id()));
        }
    }
    fn extract_with_context(&self, cx: &Context, e: &dyn Extractor) -> Context {
        let mut t = cx.get::<Trail>().cloned().unwrap_or(Trail(vec![]));
        for f in &self.fields {
            t.0.push(format!("{}:{}={:?}", self.name, f, e.get(f)));
        }
        cx.with_value(t)
    }
    fn fields(&self) -> FieldIter<'_> {
        FieldIter::new(&self.fields)
    }
}
type P = Box<dyn TextMapPropagator + Send + Sync>;
/// description of a member; building it twice gives two that behave alike
#[derive(Clone, Debug, Hash)]
enum Kind {
    W3c,
    Bag,
    B3(u8),
    Jaeger(bool),
    Mine(String, Vec<String>),
    Nested(Vec<Kind>),
}
fn rkind(r: &mut Rng, depth: u32) -> Kind {
    match r.below(if depth > 0 { 8 } else { 7 }) {
        0 | 1 => Kind::W3c,
        2 => Kind::Bag,
        3 => Kind::B3(r.below(4) as u8),
        4 => Kind::Jaeger(r.bool()),
        5 | 6 => Kind::Mine(
            format!("m{}", r.below(100)),
            (0..1 + r.idx(3)).map(|_| r.pick(&["h1", "h2", "traceparent", "baggage", "b3", "uber-trace-id", "X-Own-Field", "H2"]).to_string()).collect(),
        ),
        _ => Kind::Nested((0..r.idx(4)).map(|_| rkind(r, depth - 1)).collect()),
    }
}
fn make(k: &Kind) -> P {
    use opentelemetry_zipkin::{B3Encoding as E, Propagator};
    match k {
        Kind::W3c => Box::new(TraceContextPropagator::new()),
        Kind::Bag => Box::new(BaggagePropagator::new()),
        Kind::B3(e) => Box::new(Propagator::with_encoding(match e {
            0 => E::UnSpecified,
            1 => E::MultipleHeader,
            2 => E::SingleHeader,
            _ => E::SingleAndMultiHeader,
        })),
        Kind::Jaeger(true) => Box::new(opentelemetry_jaeger_propagator::Propagator::new()),
        Kind::Jaeger(false) => Box::new(opentelemetry_jaeger_propagator::Propagator::with_custom_header("h1")),
        Kind::Mine(n, f) => Box::new(Mine { name: n.clone(), fields: f.clone() }),
        Kind::Nested(v) => Box::new(TextMapCompositePropagator::new(v.iter().map(make).collect())),
    }
}
/// the members in the order in which they act
fn flat(k: &[Kind]) -> Vec<Kind> {
    k.iter()
        .flat_map(|k| match k {
            Kind::Nested(v) => flat(v),
            k => vec![k.clone()],
        })
        .collect()
}
fn same(a: &Context, b: &Context) -> bool {
    let bag = |c: &Context| c.baggage().iter().map(|(k, (v, d))| (k.as_str().to_string(), v.as_str().to_string(), d.as_str().to_string())).collect::<BTreeSet<_>>();
    a.has_active_span() == b.has_active_span() && a.span().span_context() == b.span().span_context() && bag(a) == bag(b) && a.get::<Trail>() == b.get::<Trail>()
}
fn composite(c: &Case, r: &mut Rng) {
    let kinds: Vec<Kind> = (0..r.idx(6)).map(|_| rkind(r, 2)).collect();
    let p = TextMapCompositePropagator::new(kinds.iter().map(make).collect());
    let members: Vec<P> = flat(&kinds).iter().map(make).collect();
    // fields: the union
    let want: BTreeSet<String> = members.iter().flat_map(|m| m.fields().map(str::to_string).collect::<Vec<_>>()).collect();
    let got: Vec<String> = p.fields().map(str::to_string).collect();
    c.check(got.len() == want.len() && got.iter().cloned().collect::<BTreeSet<_>>() == want, "fields", || format!("{got:?}, expected {want:?}"));
    let all: usize = members.iter().map(|m| m.fields().count()).sum();
    if all > want.len() {
        c.count("conflicting_members", 1);
    }
    let mut sig = h64(&kinds);
    for _ in 0..6 {
        let (mut cx, _) = base_cx(r);
        if r.chance(3, 4) {
            cx = cx.with_remote_span_context(valid_ctx(r));
        }
        if r.bool() {
            // one entry: the order of several in a header is not fixed
            cx = cx.with_baggage([KeyValue::new("k", r.text(5))]);
        }
        let (mut a, mut b) = (Rec::default(), Rec::default());
        if r.bool() {
            p.inject_context(&cx, &mut a);
        } else {
            let _g = cx.clone().attach();
            p.inject(&mut a);
        }
        for m in &members {
            m.inject_context(&cx, &mut b);
        }
        c.count("injections", 1);
        c.check(a.0 == b.0, "injected", || format!("{kinds:?} wrote {:?}, its members {:?}", a.0, b.0));
        sig = h64(&(sig, &b.0));
        // extraction of what was injected, or something else
        let mut car = Carrier::new(r);
        let from = if r.bool() { &a.0 } else { &b.0 };
        for (k, v) in from {
            if r.chance(5, 6) {
                car.put(k, v);
            }
        }
        if r.chance(1, 4) {
            car.put("h2", "x");
            car.put("traceparent", "garbage");
        }
        let (base, _) = base_cx(r);
        let out = if r.bool() {
            car.extract(&p, &base)
        } else {
            let _g = base.clone().attach();
            match &car {
                Carrier::Map(m) => p.extract(m),
                Carrier::Http(h) => p.extract(&HeaderExtractor(h)),
            }
        };
        let want = members.iter().fold(base.clone(), |cx, m| car.extract(&**m, &cx));
        c.count("extractions", 1);
        c.check(same(&out, &want), "extracted", || format!("{kinds:?} gave {out:?} {:?}, its members one after another {want:?} {:?}", out.get::<Trail>(), want.get::<Trail>()));
    }
    c.seen(sig, true);
}
fn spell(r: &mut Rng, k: &str) -> String {
    k.chars().flat_map(|x| if r.bool() { x.to_uppercase().collect::<Vec<_>>() } else { x.to_lowercase().collect() }).collect()
}
fn carriers(c: &Case, r: &mut Rng) {
    let http = r.bool();
    let mut map: HashMap<String, String> = HashMap::new();
    let mut hm = http::HeaderMap::new();
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let names: Vec<String> = (0..1 + r.idx(8)).map(|_| {
        let mut n = r.ident(12).replace('.', "-");
        if !http && r.chance(1, 4) {
            n.push_str(*r.pick(&["\u{e9}", "\u{436}-x", "\u{f1}a", "\u{3c9}"]));
        }
        n
    }).collect();
    let mut sig = 0;
    for _ in 0..60 {
        c.count("carrier_operations", 1);
        let k = r.pick(&names).clone();
        let k = spell(r, &k);
        if r.bool() {
            let v = if r.chance(1, 4) { r.text(10) } else { format!("v{}", r.below(1000)) };
            sig = h64(&(sig, &k, &v));
            if http {
                HeaderInjector(&mut hm).set(&k, v.clone());
                // only visible text and tabs can be read back from a header; other bytes are kept out, or unreadable
                let storable = v.bytes().all(|b| b == b'\t' || (b >= 0x20 && b != 0x7f));
                let readable = v.bytes().all(|b| b == b'\t' || (0x20..0x7f).contains(&b));
                if readable {
                    m.insert(k.to_lowercase(), v);
                } else if storable {
                    m.remove(&k.to_lowercase());
                    hm.remove(&k.to_lowercase());
                }
                if r.chance(1, 10) {
                    // not a header name: nothing happens
                    let before = hm.clone();
                    HeaderInjector(&mut hm).set(*r.pick(&["", "sp ace", "co:lon", "\u{e9}", "a\nb"]), "x".into());
                    c.check(before == hm, "invalid-name", || format!("{before:?} became {hm:?}"));
                }
            } else {
                map.set(&k, v.clone());
                m.insert(k.to_lowercase(), v);
            }
        }
        let k = r.pick(&names).clone();
        let q = spell(r, &k);
        let got = if http { HeaderExtractor(&hm).get(&q).map(str::to_string) } else { Extractor::get(&map, &q).map(str::to_string) };
        let want = m.get(&q.to_lowercase()).cloned();
        c.check(got == want, "lookup", || format!("get({q:?}) = {got:?}, last set to {want:?} (http: {http})"));
        let mut keys: Vec<String> = if http { HeaderExtractor(&hm).keys().iter().map(|s| s.to_string()).collect() } else { Extractor::keys(&map).iter().map(|s| s.to_string()).collect() };
        keys.sort();
        c.check(keys == m.keys().cloned().collect::<Vec<_>>(), "keys", || format!("{keys:?}, expected {:?}", m.keys()));
    }
    c.seen(sig, true);
}
fn name_of(p: &dyn TextMapPropagator) -> Option<u64> {
    let mut rec = Rec::default();
    p.inject_context(&Context::new(), &mut rec);
    let f: Vec<String> = p.fields().map(str::to_string).collect();
    let (k, v) = rec.0.first()?;
    if rec.0.len() != 1 || f != [k.clone()] {
        return None;
    }
    v.split('/').next()?.strip_prefix('g')?.parse().ok()
}
/// installed propagators replace one another; readers on other threads never see anything but one of those
fn globals(c: &Case, r: &mut Rng) {
    let base = r.u64() >> 8;
    let done = AtomicU64::new(0);
    let (started, finished) = (AtomicU64::new(0), AtomicU64::new(0));
    let install = |i: u64| global::set_text_map_propagator(Mine { name: format!("g{}", base + i), fields: vec![format!("f{i}")] });
    install(0);
    let n = 20 + r.below(60);
    std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| {
                let mut last = 0;
                while done.load(SeqCst) == 0 {
                    let lo = finished.load(SeqCst);
                    let got = global::get_text_map_propagator(|p| name_of(p));
                    let hi = started.load(SeqCst);
                    let ok = got.and_then(|g| g.checked_sub(base)).is_some_and(|g| g >= lo && g <= hi && g >= last);
                    c.check(ok, "global-read", || format!("read {got:?}, installed {base}+{lo}..={hi}, before {last}"));
                    last = got.and_then(|g| g.checked_sub(base)).unwrap_or(last);
                    c.count("global_reads", 1);
                }
            });
        }
        for i in 1..=n {
            started.store(i, SeqCst);
            install(i);
            finished.store(i, SeqCst);
            let got = global::get_text_map_propagator(|p| name_of(p));
            c.check(got == Some(base + i), "global-last", || format!("read {got:?} after installing {}", base + i));
            if r.bool() {
                std::thread::yield_now();
            }
        }
        done.store(1, SeqCst);
    });
    c.seen(h64(&(base, n)), true);
}
