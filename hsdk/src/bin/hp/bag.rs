//! P03, P04: baggage and its propagation.
use crate::w3c::{mutate, Carrier};
use hsdk::slib::{sid_of, tid_of};
use hsdk::*;
use opentelemetry::baggage::{Baggage, BaggageExt, BaggageMetadata, KeyValueMetadata};
use opentelemetry::propagation::TextMapPropagator;
use opentelemetry::trace::*;
use opentelemetry::{Context, Key, KeyValue, StringValue};
use opentelemetry_sdk::propagation::BaggagePropagator;
use std::collections::HashMap;

type M = HashMap<String, (String, String)>;
fn size(m: &M) -> usize {
    m.iter().map(|(k, (v, d))| k.len() + v.len() + d.len()).sum()
}
fn key_ok(k: &str) -> bool {
    !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}
/// what an insert must do; the previous entry when accepted over one
fn minsert(m: &mut M, k: &str, v: &str, d: &str) -> (bool, Option<(String, String)>) {
    let d = d.trim();
    if !key_ok(k) {
        return (false, None);
    }
    let old = m.get(k).map(|(v, d)| k.len() + v.len() + d.len());
    if (old.is_none() && m.len() >= 64) || size(m) - old.unwrap_or(0) + k.len() + v.len() + d.len() > 8192 {
        return (false, None);
    }
    (true, m.insert(k.into(), (v.into(), d.into())))
}
fn content(b: &Baggage) -> M {
    b.iter().map(|(k, (v, d))| (k.as_str().to_string(), (v.as_str().to_string(), d.as_str().to_string()))).collect()
}
fn diff(b: &Baggage, m: &M) -> Option<String> {
    let got = content(b);
    if got != *m || b.len() != m.len() || b.is_empty() != m.is_empty() || b.iter().count() != m.len() {
        let mut ks: Vec<_> = got.keys().chain(m.keys()).filter(|k| got.get(*k) != m.get(*k)).collect();
        ks.sort();
        ks.dedup();
        let k = ks.first().map(|k| k.to_string()).unwrap_or_default();
        return Some(format!("{} entries, expected {}; {k:?}: {:?}, expected {:?}", got.len(), m.len(), got.get(&k), m.get(&k)));
    }
    for (k, (v, d)) in m {
        if b.get(k).map(|v| v.as_str()) != Some(v) || b.get_with_metadata(k).map(|x| (x.0.as_str(), x.1.as_str())) != Some((v, d)) {
            return Some(format!("get({k:?})"));
        }
    }
    None
}
fn rkey(r: &mut Rng) -> String {
    match r.below(12) {
        0 => r.text(6),
        1 => (0..1 + r.idx(5)).map(|_| *r.pick(b"!#$%&'*+-.^_`|~aZ09") as char).collect(),
        2 => "k".repeat(r.size_near(4000, 9000)),
        _ => format!("k{}", r.below(90)),
    }
}
fn rval(r: &mut Rng, big: usize) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "é".repeat(r.idx(big + 1) / 2),
        2 => "v".repeat(r.idx(big + 1)),
        _ => r.text(12),
    }
}
fn store(r: &mut Rng, s: &str) -> StringValue {
    match r.below(3) {
        0 => StringValue::from(s.to_string()),
        1 => StringValue::from(std::sync::Arc::<str>::from(s)),
        _ => StringValue::from(std::borrow::Cow::Owned::<'static, str>(s.to_string())),
    }
}

pub fn p03(ctx: &Ctx) {
    ctx.require("operations", 50_000);
    ctx.require("at_entry_limit", 100);
    ctx.require("at_size_limit", 100);
    ctx.require("accepted_after_remove_at_limit", 50);
    ctx.require("contexts", 1000);
    ctx.section("operations", 0.7, 4, 200, ops);
    ctx.section("contexts", 0.3, 4, 100, contexts);
}
fn ops(c: &Case, r: &mut Rng) {
    let mut b = Baggage::new();
    let mut m = M::new();
    let mut sig = 0;
    let big = *r.pick(&[0usize, 20, 150, 400, 3000, 9000]);
    let mut was_full = false;
    for _ in 0..*r.pick(&[20usize, 100, 200]) {
        c.count("operations", 1);
        let mut k = rkey(r);
        if !m.is_empty() && r.chance(1, if big == 0 { 12 } else { 4 }) {
            let mut ks: Vec<_> = m.keys().cloned().collect();
            ks.sort();
            k = r.pick(&ks).clone();
        }
        match r.below(8) {
            0 if big > 0 || m.len() > 60 => {
                let want = m.remove(&k);
                let got = b.remove(&k).map(|(v, d)| (v.as_str().to_string(), d.as_str().to_string()));
                c.check(got == want, "remove-result", || format!("remove({k:?}) = {got:?}, expected {want:?}"));
            }
            x => {
                let mut v = rval(r, big);
                // up to exactly the size limit and one over
                if big > 0 && r.chance(1, 10) {
                    let left = 8192usize.saturating_sub(size(&m) + k.len()) as i64 + r.range(-1, 1);
                    v = "x".repeat(left.max(0) as usize);
                }
                let d = if x < 3 { rval(r, big / 2) } else { String::new() };
                sig = h64(&(sig, &k, &v, &d));
                let before = (m.len(), size(&m));
                let (acc, old) = minsert(&mut m, &k, &v, &d);
                if key_ok(&k) && !acc {
                    was_full = true;
                    c.count(if before.0 == 64 { "at_entry_limit" } else { "at_size_limit" }, 1);
                } else if acc && was_full {
                    c.count("accepted_after_remove_at_limit", 1);
                    was_full = false;
                }
                let sv = store(r, &v);
                let got = if d.is_empty() && r.bool() {
                    b.insert(k.clone(), sv).map(|v| v.as_str().to_string())
                } else {
                    b.insert_with_metadata(Key::from(k.clone()), sv, BaggageMetadata::from(d.as_str())).map(|(v, _)| v.as_str().to_string())
                };
                c.check(got == old.map(|o| o.0), "insert-result", || format!("insert({k:.20?}) returned {got:.40?} when {}", if acc { "accepted" } else { "refused" }));
            }
        }
        if let Some(d) = diff(&b, &m) {
            c.fail("content", format!("{d}; the baggage should hold {} entries and {} bytes", m.len(), size(&m)));
            return;
        }
        c.check(b.len() <= 64 && size(&content(&b)) <= 8192, "limits", || format!("{} entries, {} bytes", b.len(), size(&content(&b))));
    }
    c.sample(|| format!("{} entries, {} bytes", m.len(), size(&m)));
    c.seen(sig, true);
}
fn contexts(c: &Case, r: &mut Rng) {
    // derive contexts from one another, every one keeps what it was given
    let mut cxs: Vec<(Context, M, Option<SpanContext>)> = vec![(Context::new(), M::new(), None)];
    let mut sig = 0;
    for _ in 0..3 + r.idx(10) {
        let (cx, m, sp) = cxs[r.idx(cxs.len())].clone();
        let op = r.below(6);
        let n = r.size_near(64, 70);
        let es: Vec<(String, String, String)> = (0..n).map(|i| (if r.chance(1, 9) { rkey(r) } else { format!("e{}", i % 66) }, rval(r, 300), if r.bool() { rval(r, 9) } else { String::new() })).collect();
        sig = h64(&(sig, op, &es));
        let mut m2 = M::new();
        let (cx2, m2, sp2) = match op {
            0 => (cx.with_cleared_baggage(), m2, sp),
            1 => {
                let sc = SpanContext::new(tid_of(r.u128() | 1), sid_of(r.u64() | 1), TraceFlags::SAMPLED, true, TraceState::NONE);
                (cx.with_remote_span_context(sc.clone()), m, Some(sc))
            }
            2 => {
                es.iter().for_each(|(k, v, _)| drop(minsert(&mut m2, k, v, "")));
                (cx.with_baggage(es.iter().map(|(k, v, _)| KeyValue::new(k.clone(), v.clone())).collect::<Vec<_>>()), m2, sp)
            }
            3 => {
                es.iter().for_each(|(k, v, d)| drop(minsert(&mut m2, k, v, d)));
                (cx.with_baggage(es.iter().map(|(k, v, d)| KeyValueMetadata::new(k.clone(), v.clone(), d.as_str())).collect::<Vec<_>>()), m2, sp)
            }
            4 => {
                // the current context's baggage, replaced
                let _g = cx.clone().attach();
                es.iter().for_each(|(k, v, d)| drop(minsert(&mut m2, k, v, d)));
                let b: Baggage = es.iter().map(|(k, v, d)| (Key::from(k.clone()), (StringValue::from(v.clone()), BaggageMetadata::from(d.as_str())))).collect();
                (Context::current_with_baggage(b), m2, sp)
            }
            _ => {
                es.iter().for_each(|(k, v, _)| drop(minsert(&mut m2, k, v, "")));
                let b: Baggage = es.iter().map(|(k, v, _)| KeyValue::new(k.clone(), v.clone())).collect();
                (cx.with_baggage(b), m2, sp)
            }
        };
        cxs.push((cx2, m2, sp2));
        for (i, (cx, m, sp)) in cxs.iter().enumerate() {
            if let Some(d) = diff(cx.baggage(), m) {
                c.fail("context-baggage", format!("context {i} after operation {op}: {d}"));
                return;
            }
            c.check(cx.has_active_span() == sp.is_some() && sp.as_ref().is_none_or(|s| cx.span().span_context() == s), "context-span", || format!("context {i}: span changed"));
        }
        c.count("contexts", 1);
    }
    c.seen(sig, true);
}

/// percent decoding by the book
fn dec(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let h = |x: u8| (x as char).to_digit(16);
        if b[i] == b'%' && i + 2 < b.len() {
            if let (Some(x), Some(y)) = (h(b[i + 1]), h(b[i + 2])) {
                o.push((x * 16 + y) as u8);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).ok()
}
fn norm(d: &str) -> String {
    d.split(';').map(str::trim).collect::<Vec<_>>().join(";").trim().to_string()
}
fn nm(m: &M) -> M {
    m.iter().map(|(k, (v, d))| (k.clone(), (v.clone(), norm(d)))).collect()
}

pub fn p04(ctx: &Ctx) {
    ctx.require("round_trips", 5000);
    ctx.require("entries", 20_000);
    ctx.require("headers_extracted", 10_000);
    ctx.require("malformed_members", 5000);
    ctx.require("unusable_headers", 300);
    ctx.section("round-trip", 0.5, 4, 200, round);
    ctx.section("headers", 0.5, 4, 200, headers);
}
fn round(c: &Case, r: &mut Rng) {
    let p = BaggagePropagator::new();
    let mut sig = 0;
    for _ in 0..10 {
        let mut b = Baggage::new();
        let mut m = M::new();
        let n = r.size_near(64, 66);
        for _ in 0..n {
            let k = rkey(r);
            let v = match r.below(3) {
                0 => rval(r, 100),
                1 => r.text(20),
                // every byte somewhere
                _ => (0..1 + r.idx(4)).map(|_| char::from_u32(r.below(0x180) as u32).unwrap_or('?')).collect(),
            };
            let d = match r.below(4) {
                0 => "p1=v1;p2".to_string(),
                1 => r.text(12),
                _ => String::new(),
            };
            minsert(&mut m, &k, &v, &d);
            b.insert_with_metadata(k.clone(), v.clone(), d.as_str());
            sig = h64(&(sig, k, v, d));
        }
        let sc = SpanContext::new(tid_of(5), sid_of(6), TraceFlags::SAMPLED, true, TraceState::NONE);
        let cx = Context::new().with_baggage(b);
        // its text lists every entry once, metadata as given
        if m.values().all(|v| !v.1.contains(',')) {
            let t = cx.baggage().to_string();
            let mut l = M::new();
            let mut n = 0;
            for mem in t.split(',').filter(|x| !x.is_empty()) {
                let (kv, d) = mem.split_once(';').unwrap_or((mem, ""));
                if let Some((k, v)) = kv.split_once('=') {
                    l.insert(k.to_string(), (dec(v).unwrap_or_else(|| "?".into()), d.to_string()));
                }
                n += 1;
            }
            c.check(l == m && n == m.len(), "text", || format!("{m:.200?} as text: {t:.300?}"));
            c.count("texts", 1);
        }
        let mut car = Carrier::new(r);
        car.inject(&p, &cx);
        c.count("round_trips", 1);
        c.count("entries", m.len() as u64);
        if m.is_empty() {
            c.check(car.keys().is_empty(), "empty-injected", || format!("{:?}", car.keys()));
            continue;
        }
        let fields: Vec<String> = p.fields().map(str::to_string).collect();
        c.check(car.keys() == fields, "fields", || format!("{:?} written, {fields:?} declared", car.keys()));
        let h = car.get("baggage").unwrap_or_default();
        c.check(h.bytes().all(|b| (0x21..0x7f).contains(&b)), "not-a-header", || format!("{h:?}"));
        // as another implementation reads it
        let mut other = M::new();
        for mem in h.split(',') {
            let mut s = mem.splitn(2, ';');
            let kv = s.next().unwrap();
            let d = s.next().unwrap_or("");
            match kv.split_once('=') {
                Some((k, v)) => {
                    c.check(!v.contains(['"', '\\']), "not-a-header", || format!("{mem:?}"));
                    match (dec(k), dec(v), dec(d)) {
                        (Some(k), Some(v), Some(d)) => {
                            other.insert(k, (v, d));
                        }
                        _ => c.fail("not-utf8", mem),
                    }
                }
                None => c.fail("member-without-value", mem),
            }
        }
        c.check(nm(&other) == nm(&m), "header-content", || {
            let bad: Vec<_> = m.iter().filter(|(k, v)| other.get(*k) != Some(v)).take(2).collect();
            format!("another parser reads it differently: {bad:?} in {h:.400?}")
        });
        // and back into a context that has a span and other baggage
        let base = Context::new().with_remote_span_context(sc.clone()).with_baggage([KeyValue::new("old", "1")]);
        let out = car.extract(&p, &base);
        let got = content(out.baggage());
        c.check(nm(&got) == nm(&m), "round-trip", || {
            let bad: Vec<_> = m.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, v)| (k, v, got.get(k))).take(2).collect();
            format!("{} entries came back as {}: {bad:.300?}", m.len(), got.len())
        });
        c.check(out.span().span_context() == &sc && base.baggage().len() == 1, "context-changed", || "the span or the original context changed".into());
        // injected once more, the same
        let mut car2 = Carrier::Map(Default::default());
        car2.inject(&p, &out);
        let split = |h: &str| {
            let mut v: Vec<String> = h.split(',').map(str::to_string).collect();
            v.sort();
            v
        };
        if m.values().all(|v| v.1.is_empty()) {
            c.check(split(&car2.get("baggage").unwrap_or_default()) == split(&h), "reinjected", || format!("{:.300?} then {:.300?}", h, car2.get("baggage")));
        }
    }
    c.seen(sig, true);
}
fn headers(c: &Case, r: &mut Rng) {
    let p = BaggagePropagator::new();
    let mut sig = 0;
    for _ in 0..25 {
        let mut h = String::new();
        let n = r.size_near(64, 70).min(if r.bool() { 5 } else { 70 });
        for i in 0..n {
            if i > 0 {
                h += [",", " , ", ",\t"][r.idx(3)];
            }
            let k = if r.chance(1, 5) { rkey(r) } else { format!("k{}", r.below(80)) };
            let v: String = match r.below(5) {
                0 => "%41%c3%a9".into(),
                1 => format!("%{:02x}%{:02X}", r.below(256), r.below(256)),
                2 => "a=b==".into(),
                _ => r.text(8),
            };
            h += &format!("{k}{}{v}", ["=", " = ", "="][r.idx(3)]);
            if r.chance(1, 4) {
                h += [";p", ";p=1 ; q", ";", ";%41"][r.idx(4)];
            }
        }
        if r.chance(1, 3) {
            h = mutate(r, &h);
        }
        if r.chance(1, 20) {
            h = r.text(60);
        }
        if r.chance(1, 12) {
            h = ["", ",", "=", ";", "=,=", ";=", "%", "noequals", "%ff=x", "a=%ff,b", " ", "=;"][r.idx(12)].into();
        }
        let mut car = Carrier::new(r);
        if !car.put(["baggage", "Baggage"][r.idx(2)], &h) {
            continue;
        }
        sig = h64(&(sig, &h));
        let mut m = M::new();
        for mem in h.split(',') {
            let (kv, d) = mem.split_once(';').unwrap_or((mem, ""));
            let ok = (|| {
                let (k, v) = kv.split_once('=')?;
                let (k, v) = (dec(k.trim())?, dec(v.trim())?);
                let d = d.split(';').filter_map(dec).map(|x| x.trim().to_string()).collect::<Vec<_>>().join(";");
                Some(minsert(&mut m, &k, &v, &d).0)
            })();
            if ok != Some(true) {
                c.count("malformed_members", 1);
            }
        }
        let sc = SpanContext::new(tid_of(5), sid_of(6), TraceFlags::SAMPLED, true, TraceState::NONE);
        let base = Context::new().with_remote_span_context(sc.clone()).with_baggage([KeyValue::new("old", "1")]);
        let out = car.extract(&p, &base);
        let got = content(out.baggage());
        if m.is_empty() {
            // nothing usable: what the context had is still there
            m.insert("old".into(), ("1".into(), String::new()));
            c.count("unusable_headers", 1);
        }
        c.check(nm(&got) == nm(&m), "extracted", || format!("{h:.300?} gave {got:.300?}, expected {m:.300?}"));
        c.check(out.span().span_context() == &sc, "context-changed", || "the span of the context is lost".into());
        c.count("headers_extracted", 1);
        c.sample(|| format!("{h:.200?} -> {} entries", got.len()));
    }
    c.seen(sig, true);
}
