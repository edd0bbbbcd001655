//! K01: keys and values compare by content, conversions keep type and content.
use hsdk::llib::rany;
use hsdk::mlib::{leak, restore, rvalue, R};
use hsdk::*;
use opentelemetry::logs::AnyValue;
use opentelemetry::metrics::MeterProvider;
use opentelemetry::{Array, InstrumentationScope, Key, KeyValue, StringValue, Value};
use opentelemetry_sdk::metrics::{SdkMeterProvider, Temporality};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub fn run(ctx: &Ctx) {
    ctx.require("string_pairs", 20_000);
    ctx.require("value_pairs", 20_000);
    ctx.require("equal_across_storage", 2000);
    ctx.require("conversions", 20_000);
    ctx.require("sets_aggregated", 500);
    ctx.require("scope_pairs", 2000);
    ctx.section("strings", 0.25, 4, 100, strings);
    ctx.section("values", 0.25, 4, 100, values);
    ctx.section("conversions", 0.2, 4, 100, conversions);
    ctx.section("aggregation", 0.2, 4, 100, aggregation);
    ctx.section("scopes", 0.1, 4, 100, scopes);
    ctx.enumerate("not-a-number", 2, 1, nan);
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn key(i: u64, s: &str) -> Key {
    match i % 6 {
        0 => Key::from_static_str(leak(s)),
        1 => Key::from(s.to_string()),
        2 => Key::from(Arc::<str>::from(s)),
        3 => Key::from(Cow::Borrowed(leak(s))),
        4 => Key::from(Cow::Owned::<'static, str>(s.to_string())),
        _ => Key::new(leak(s)),
    }
}
fn sval(i: u64, s: &str) -> StringValue {
    match i % 5 {
        0 => StringValue::from(leak(s)),
        1 => StringValue::from(s.to_string()),
        2 => StringValue::from(Arc::<str>::from(s)),
        3 => StringValue::from(Cow::Borrowed(leak(s))),
        _ => StringValue::from(Cow::Owned::<'static, str>(s.to_string())),
    }
}
fn word(r: &mut Rng) -> String {
    match r.below(3) {
        0 => r.pick(&["", "a", "b", "ab", "A", "aa", "é", "e\u{301}", "\u{0}", "a\u{0}"]).to_string(),
        1 => r.text(3),
        _ => r.ident(3),
    }
}
fn strings(c: &Case, r: &mut Rng) {
    let pool: Vec<String> = (0..6).map(|_| word(r)).collect();
    let mut sig = 0;
    for _ in 0..60 {
        let (a, b) = (r.pick(&pool).clone(), r.pick(&pool).clone());
        let (i, j) = (r.below(6), r.below(6));
        sig = h64(&(sig, &a, &b, i, j));
        c.count("string_pairs", 1);
        if a == b && i != j {
            c.count("equal_across_storage", 1);
        }
        let (ka, kb) = (key(i, &a), key(j, &b));
        let (va, vb) = (sval(i, &a), sval(j, &b));
        let t = || format!("{a:?} (storage {i}) and {b:?} (storage {j})");
        c.check((ka == kb) == (a == b) && (va == vb) == (a == b) && (ka != kb) != (a == b), "eq", t);
        c.check(ka.cmp(&kb) == a.cmp(&b) && ka.partial_cmp(&kb) == Some(a.cmp(&b)) && (ka < kb) == (a < b), "order", t);
        if a == b {
            c.check(hash(&ka) == hash(&kb) && hash(&va) == hash(&vb), "hash", t);
        }
        // hashing agrees with &str, by which keys are looked up in maps
        let m: HashMap<Key, u8> = [(ka.clone(), 1)].into();
        c.check(m.contains_key(b.as_str()) == (a == b), "borrowed-lookup", t);
        c.check(ka.as_str() == a && ka.to_string() == a && AsRef::<str>::as_ref(&ka) == a && String::from(ka.clone()) == a && format!("{:>8}|{:.1}", ka, ka) == format!("{:>8}|{:.1}", a, a), "key-text", t);
        c.check(va.as_str() == a && va.to_string() == a && AsRef::<str>::as_ref(&va) == a && String::from(va.clone()) == a, "value-text", t);
        let (x, y) = (ka.clone(), va.clone());
        c.check(x == ka && y == va && hash(&x) == hash(&ka) && x.as_str() == a && y.as_str() == a, "clone", t);
    }
    c.seen(sig, true);
}
/// the content of a value, by which it has to compare (`None`: contains a NaN); -0.0 is 0.0
fn content(v: &Value) -> Option<String> {
    let f = |x: f64| (!x.is_nan()).then(|| format!("{:x}", (x + 0.0).to_bits()));
    Some(match v {
        Value::Bool(b) => format!("b{b}"),
        Value::I64(i) => format!("i{i}"),
        Value::F64(x) => format!("f{}", f(*x)?),
        Value::String(s) => format!("s{:?}", s.as_str()),
        Value::Array(Array::Bool(a)) => format!("B{a:?}"),
        Value::Array(Array::I64(a)) => format!("I{a:?}"),
        Value::Array(Array::F64(a)) => format!("F{:?}", a.iter().map(|x| f(*x)).collect::<Option<Vec<_>>>()?),
        Value::Array(Array::String(a)) => format!("S{:?}", a.iter().map(|s| s.as_str()).collect::<Vec<_>>()),
        _ => "?".into(),
    })
}
fn anyv(r: &mut Rng) -> Value {
    match r.below(5) {
        0 => *r.pick(&[Some(0.0), Some(-0.0), Some(f64::INFINITY), Some(5e-324), Some(1.0)]).as_ref().unwrap(),
        1 => return Value::Array(Array::F64((0..r.idx(3)).map(|_| *r.pick(&[0.0, -0.0, 1.0])).collect())),
        2 => return [Value::I64(1), Value::Bool(true), Value::from("1"), Value::from("true"), Value::I64(0), Value::Bool(false)][r.idx(6)].clone(),
        3 => {
            return [
                Value::Array(Array::Bool(vec![])),
                Value::Array(Array::I64(vec![])),
                Value::Array(Array::F64(vec![])),
                Value::Array(Array::String(vec![])),
                Value::Array(Array::I64(vec![1, 2])),
                Value::Array(Array::String(vec!["a".into(), "b".into()])),
                Value::Array(Array::String(vec!["ab".into()])),
                Value::from("a"),
            ][r.idx(8)]
            .clone()
        }
        _ => return rvalue(r),
    }
    .into()
}
fn values(c: &Case, r: &mut Rng) {
    let mut sig = 0;
    let pool: Vec<KeyValue> = (0..8).map(|_| { let i = r.below(6); KeyValue::new(key(i, *["a", "b"].get(r.idx(2)).unwrap()), anyv(r)) }).collect();
    for _ in 0..60 {
        let (a, b, d) = (r.pick(&pool).clone(), r.pick(&pool).clone(), r.pick(&pool).clone());
        // the same content in other storage
        let a2 = restore(r, std::slice::from_ref(&a)).pop().unwrap();
        let (Some(x), Some(y)) = (content(&a.value), content(&b.value)) else { continue };
        let t = || format!("{a:?} and {b:?}");
        let want = x == y && a.key.as_str() == b.key.as_str();
        c.count("value_pairs", 1);
        sig = h64(&(sig, &x, &y));
        c.check((a == b) == want && (b == a) == want && (a != b) != want, "kv-eq", t);
        c.check((a.value == b.value) == (x == y), "value-eq", t);
        c.check(a == a2 && a2 == a && a.clone() == a, "kv-reflexive", || format!("{a:?} and {a2:?}"));
        c.check(hash(&a) == hash(&a2), "kv-hash", || format!("{a:?} and {a2:?}"));
        if want {
            c.check(hash(&a) == hash(&b), "kv-hash", t);
            c.check((a == d) == (b == d), "kv-transitive", || format!("{a:?}, {b:?}, {d:?}"));
            let s: HashSet<KeyValue> = [a.clone()].into();
            c.check(s.contains(&b), "kv-set", t);
        }
    }
    c.seen(sig, true);
}
fn conversions(c: &Case, r: &mut Rng) {
    let mut sig = 0;
    for _ in 0..40 {
        c.count("conversions", 8);
        let s = if r.chance(1, 6) { format!(" {}\t", word(r)) } else { word(r) };
        let i = r.i64_edge();
        let f = r.f64_edge(true);
        let b = r.bool();
        sig = h64(&(sig, &s, i, f.to_bits()));
        let t = || format!("{s:?} {i} {f} {b}");
        // text
        let forms: Vec<Value> = vec![s.clone().into(), Arc::<str>::from(&*s).into(), Cow::<'static, str>::Owned(s.clone()).into(), Value::from(leak(&s)), StringValue::from(s.clone()).into()];
        for v in &forms {
            c.check(matches!(v, Value::String(x) if x.as_str() == s) && v.as_str() == s && v.to_string() == s && StringValue::from(v.clone()).as_str() == s, "string", t);
        }
        c.check(forms.iter().all(|v| *v == forms[0]), "string-forms", t);
        let aforms: Vec<AnyValue> = vec![s.clone().into(), Cow::<'static, str>::Owned(s.clone()).into(), leak(&s).into(), StringValue::from(s.clone()).into()];
        c.check(aforms.iter().all(|v| matches!(v, AnyValue::String(x) if x.as_str() == s)), "any-string", t);
        // numbers
        c.check(matches!(Value::from(i), Value::I64(x) if x == i) && Value::from(i).as_str() == i.to_string() && Value::from(i).to_string() == i.to_string(), "i64", t);
        c.check(matches!(Value::from(f), Value::F64(x) if x.to_bits() == f.to_bits()) && Value::from(f).as_str() == f.to_string(), "f64", t);
        c.check(matches!(Value::from(b), Value::Bool(x) if x == b) && Value::from(b).to_string() == b.to_string(), "bool", t);
        let ints: Vec<(AnyValue, i64)> = vec![
            ((i as i8).into(), i as i8 as i64),
            ((i as i16).into(), i as i16 as i64),
            ((i as i32).into(), i as i32 as i64),
            (i.into(), i),
            ((i as u8).into(), i as u8 as i64),
            ((i as u16).into(), i as u16 as i64),
            ((i as u32).into(), i as u32 as i64),
        ];
        for (v, w) in &ints {
            c.check(matches!(v, AnyValue::Int(x) if x == w), "any-int", || format!("{w} became {v:?}"));
        }
        c.check(matches!(AnyValue::from(f), AnyValue::Double(x) if x.to_bits() == f.to_bits()), "any-f64", t);
        let g = f as f32;
        c.check(matches!(AnyValue::from(g), AnyValue::Double(x) if x == g as f64 || g.is_nan() && x.is_nan()), "any-f32", t);
        c.check(matches!(AnyValue::from(b), AnyValue::Boolean(x) if x == b), "any-bool", t);
        let bytes: Vec<u8> = (0..r.idx(6)).map(|_| r.u64() as u8).collect();
        c.check(matches!(AnyValue::from(&bytes[..]), AnyValue::Bytes(x) if *x == bytes), "any-bytes", || format!("{bytes:?}"));
        // collections
        let items: Vec<AnyValue> = (0..r.idx(4)).map(|_| rany(r, 2)).collect();
        let eq = |a: &AnyValue, b: &AnyValue| format!("{a:?}") == format!("{b:?}") || hsdk::llib::atext(a) == hsdk::llib::atext(b);
        match items.iter().cloned().collect::<AnyValue>() {
            AnyValue::ListAny(l) => {
                c.check(l.len() == items.len() && l.iter().zip(&items).all(|(a, b)| eq(a, b)), "any-list", || format!("{items:?} became {l:?}"));
            }
            x => c.fail("any-list", format!("{x:?}")),
        }
        let mut want: HashMap<String, AnyValue> = HashMap::new();
        let pairs: Vec<(String, AnyValue)> = items.into_iter().map(|v| (r.pick(&["a", "b", "c"]).to_string(), v)).collect();
        for (k, v) in &pairs {
            want.insert(k.clone(), v.clone());
        }
        match pairs.into_iter().collect::<AnyValue>() {
            AnyValue::Map(m) => {
                c.check(m.len() == want.len() && want.iter().all(|(k, v)| m.get(k.as_str()).is_some_and(|x| eq(x, v))), "any-map", || format!("{want:?} became {m:?}"));
            }
            x => c.fail("any-map", format!("{x:?}")),
        }
        // arrays
        let (ia, fa, ba): (Vec<i64>, Vec<f64>, Vec<bool>) = (0..r.idx(4)).map(|_| (r.i64_edge(), r.f64_edge(false), r.bool())).fold((vec![], vec![], vec![]), |mut a, x| {
            a.0.push(x.0);
            a.1.push(x.1);
            a.2.push(x.2);
            a
        });
        let sa: Vec<StringValue> = (0..r.idx(4)).map(|_| word(r).into()).collect();
        c.check(matches!(Array::from(ia.clone()), Array::I64(x) if x == ia) && matches!(Array::from(ba.clone()), Array::Bool(x) if x == ba), "array", || format!("{ia:?} {ba:?}"));
        c.check(matches!(Array::from(fa.clone()), Array::F64(x) if x == fa) && matches!(Array::from(sa.clone()), Array::String(x) if x == sa), "array", || format!("{fa:?} {sa:?}"));
        let ftext = |x: &f64| x.to_string();
        for (v, w) in [
            (Value::Array(fa.clone().into()), fa.iter().map(ftext).collect::<Vec<_>>()),
            (Value::Array(ba.clone().into()), ba.iter().map(|x| x.to_string()).collect()),
            (Value::Array(sa.clone().into()), sa.iter().map(|x| format!("\"{}\"", x.as_str())).collect()),
        ] {
            let w = format!("[{}]", w.join(","));
            c.check(v.as_str() == w && v.to_string() == w, "array-text", || format!("{v:?} reads {:?}, expected {w:?}", v.as_str()));
        }
        c.check(Value::from(f).to_string() == f.to_string() && Value::from(b).as_str() == b.to_string(), "scalar-text", t);
        let text = format!("[{}]", ia.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        c.check(Value::Array(ia.clone().into()).as_str() == text && Value::Array(ia.into()).to_string() == text, "array-text", || text.clone());
    }
    c.seen(sig, true);
}
/// attribute sets of equal content land in one point, others in others
fn aggregation(c: &Case, r: &mut Rng) {
    let rd = R::new(Temporality::Cumulative);
    let mp = SdkMeterProvider::builder().with_reader(rd.clone()).build();
    let k = mp.meter("m").u64_counter("c").build();
    let mut want: HashMap<BTreeSet<(String, String)>, u64> = HashMap::new();
    let sets: Vec<Vec<KeyValue>> = (0..1 + r.idx(12))
        .map(|_| {
            let mut ks = vec!["a", "b", "c", ""];
            r.shuffle(&mut ks);
            let n = r.idx(4);
            ks[..n].iter().map(|k| { let i = r.below(6); KeyValue::new(key(i, k), anyv(r)) }).collect::<Vec<_>>()
        })
        .filter(|s: &Vec<KeyValue>| s.iter().all(|kv| content(&kv.value).is_some()))
        .collect();
    if sets.is_empty() {
        return;
    }
    let id = |s: &[KeyValue]| s.iter().map(|kv| (kv.key.as_str().to_string(), content(&kv.value).unwrap_or_default())).collect::<BTreeSet<_>>();
    for _ in 0..60 {
        let s = r.pick(&sets).clone();
        let mut s = restore(r, &s);
        r.shuffle(&mut s);
        // the two zeros are equal
        for kv in &mut s {
            if let Value::F64(x) = &mut kv.value {
                if *x == 0.0 && r.bool() {
                    *x = -*x;
                }
            }
        }
        let n = 1 + r.below(9);
        k.add(n, &s);
        *want.entry(id(&s)).or_default() += n;
    }
    let mut rm = R::rm();
    let _ = opentelemetry_sdk::metrics::reader::MetricReader::collect(&rd, &mut rm);
    let mut got: HashMap<BTreeSet<(String, String)>, u64> = HashMap::new();
    let mut points = 0;
    for m in rm.scope_metrics.iter().flat_map(|s| &s.metrics) {
        if let opentelemetry_sdk::metrics::data::AggregatedMetrics::U64(opentelemetry_sdk::metrics::data::MetricData::Sum(s)) = &m.data {
            for p in &s.data_points {
                points += 1;
                *got.entry(id(&p.attributes)).or_default() += p.value;
            }
        }
    }
    c.count("sets_aggregated", want.len() as u64);
    c.check(points == want.len() && got == want, "aggregated", || format!("{points} points {got:?}, expected {want:?}"));
    c.seen(h64(&format!("{sets:?}")), true);
}
fn scopes(c: &Case, r: &mut Rng) {
    let mk = |r: &mut Rng| {
        let name = r.pick(&["", "a", "b"]).to_string();
        let ver = r.bool().then(|| r.pick(&["", "1", "2"]).to_string());
        let url = r.bool().then(|| r.pick(&["", "u"]).to_string());
        let mut ks = vec!["x", "y"];
        r.shuffle(&mut ks);
        let n = r.idx(3);
        let attrs: Vec<KeyValue> = ks[..n].iter().map(|k| { let i = r.below(6); KeyValue::new(key(i, k), [Value::I64(1), Value::F64(0.0), Value::F64(-0.0), Value::from("1")][r.idx(4)].clone()) }).collect();
        let mut b = InstrumentationScope::builder(name.clone());
        if let Some(v) = &ver {
            b = b.with_version(v.clone());
        }
        if let Some(u) = &url {
            b = b.with_schema_url(u.clone());
        }
        if !attrs.is_empty() {
            b = b.with_attributes(attrs.clone());
        }
        let id: (String, Option<String>, Option<String>, BTreeSet<(String, String)>) = (name, ver, url, attrs.iter().map(|kv| (kv.key.as_str().to_string(), content(&kv.value).unwrap_or_default())).collect());
        (b.build(), id)
    };
    let pool: Vec<_> = (0..8).map(|_| mk(r)).collect();
    let mut sig = 0;
    for _ in 0..30 {
        let ((a, ia), (b, ib)) = (r.pick(&pool).clone(), r.pick(&pool).clone());
        sig = h64(&(sig, &ia, &ib));
        c.count("scope_pairs", 1);
        c.check((a == b) == (ia == ib), "scope-eq", || format!("{a:?} and {b:?}"));
        if ia == ib {
            c.check(hash(&a) == hash(&b), "scope-hash", || format!("{a:?} and {b:?}"));
        }
        let z = a.clone();
        c.check(z == a && z.name() == ia.0 && z.version() == ia.1.as_deref() && z.schema_url() == ia.2.as_deref() && z.attributes().count() == ia.3.len(), "scope-parts", || format!("{a:?}"));
    }
    c.seen(sig, true);
}
/// equality is to be reflexive for every value (a listed finding)
fn nan(c: &Case, _: &mut Rng) {
    let v: Value = if c.idx == 0 { f64::NAN.into() } else { Value::Array(Array::F64(vec![1.0, f64::NAN])) };
    let a = KeyValue::new("k", v);
    let b = a.clone();
    c.check(a == b && hash(&a) == hash(&b), "nan-irreflexive", || format!("{a:?} does not equal itself, so attribute sets with it never aggregate"));
    c.check(hash(&a) == hash(&b), "nan-hash", || format!("{a:?}"));
    c.seen(c.idx, true);
}
