//! P01, P02: W3C trace context and trace state.
use hsdk::slib::{sid_of, tid_of};
use hsdk::*;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::propagation::{Extractor, Injector, TextMapPropagator};
use opentelemetry::trace::*;
use opentelemetry::{Context, KeyValue};
use opentelemetry_http::{HeaderExtractor, HeaderInjector};
use opentelemetry_sdk::propagation::TraceContextPropagator;
use std::collections::HashMap;
use std::str::FromStr;

/// a carrier of one of the kinds users have
pub enum Carrier {
    Map(HashMap<String, String>),
    Http(http::HeaderMap),
}
impl Carrier {
    pub fn new(r: &mut Rng) -> Carrier {
        if r.bool() {
            Carrier::Map(HashMap::new())
        } else {
            Carrier::Http(http::HeaderMap::new())
        }
    }
    /// what is set is really there (HTTP headers cannot hold everything)
    pub fn put(&mut self, k: &str, v: &str) -> bool {
        match self {
            Carrier::Map(m) => {
                m.set(k, v.to_string());
                true
            }
            Carrier::Http(h) => {
                HeaderInjector(h).set(k, v.to_string());
                HeaderExtractor(h).get(k) == Some(v)
            }
        }
    }
    pub fn inject(&mut self, p: &dyn TextMapPropagator, cx: &Context) {
        match self {
            Carrier::Map(m) => p.inject_context(cx, m),
            Carrier::Http(h) => p.inject_context(cx, &mut HeaderInjector(h)),
        }
    }
    pub fn extract(&self, p: &dyn TextMapPropagator, cx: &Context) -> Context {
        match self {
            Carrier::Map(m) => p.extract_with_context(cx, m),
            Carrier::Http(h) => p.extract_with_context(cx, &HeaderExtractor(h)),
        }
    }
    pub fn get(&self, k: &str) -> Option<String> {
        match self {
            Carrier::Map(m) => Extractor::get(m, k).map(str::to_string),
            Carrier::Http(h) => HeaderExtractor(h).get(k).map(str::to_string),
        }
    }
    pub fn keys(&self) -> Vec<String> {
        let mut k: Vec<String> = match self {
            Carrier::Map(m) => m.keys().cloned().collect(),
            Carrier::Http(h) => h.keys().map(|k| k.to_string()).collect(),
        };
        k.sort();
        k
    }
}
pub const TEXTY: &[char] = &[
    '0', '1', '9', 'a', 'f', 'g', 'A', 'F', '-', ':', ',', '=', ';', '%', '+', ' ', '\t', '_', 'x', '\u{7f}', '\0', 'é', '中', '𝄞', '\u{a0}', '.', '@', '"', '\\', '\n',
];
/// one small change to a string
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.idx(2) {
        let n = c.len();
        let i = r.idx(n + 1);
        match r.below(8) {
            0 if n > 0 => {
                c.remove(i.min(n - 1));
            }
            1 => c.insert(i, *r.pick(TEXTY)),
            2 if n > 0 => c[i.min(n - 1)] = *r.pick(TEXTY),
            3 if n > 0 => {
                let j = i.min(n - 1);
                c[j] = if c[j].is_ascii_lowercase() { c[j].to_ascii_uppercase() } else { '0' };
            }
            4 => c.truncate(i),
            5 if n > 0 => {
                let j = r.idx(n);
                c.swap(i.min(n - 1), j);
            }
            6 => {
                let t: Vec<char> = c[..i].to_vec();
                c.splice(i..i, t);
            }
            _ => c.extend(["-", "-00", " ", "\t", ",", ":", "=", "0"][r.idx(8)].chars()),
        }
        c.truncate(3000);
    }
    c.into_iter().collect()
}
pub fn base_cx(r: &mut Rng) -> (Context, SpanContext) {
    let mut cx = Context::new();
    let mut sc = SpanContext::NONE;
    if r.bool() {
        cx = cx.with_baggage([KeyValue::new("kept", "yes")]);
    }
    if r.bool() {
        sc = SpanContext::new(tid_of(r.u128() | 1), sid_of(r.u64() | 1), TraceFlags::new(r.u64() as u8), r.bool(), TraceState::NONE);
        cx = cx.with_remote_span_context(sc.clone());
    }
    (cx, sc)
}
/// everything but the span of `a` is in `b`
pub fn rest_kept(a: &Context, b: &Context) -> bool {
    a.baggage().get("kept") == b.baggage().get("kept") && a.baggage().len() == b.baggage().len() && a.is_telemetry_suppressed() == b.is_telemetry_suppressed()
}

fn hexd(b: &[u8]) -> bool {
    b.iter().all(|c| matches!(c, b'0'..=b'9' | b'a'..=b'f'))
}
/// the value a `traceparent` stands for by the W3C grammar; `Err(None)`: not judged
fn ref_parent(v: &str) -> Result<(u128, u64, bool), Option<()>> {
    let v = v.trim().as_bytes();
    if v.len() < 55 || !hexd(&v[..2]) || v[2] != b'-' || !hexd(&v[3..35]) || v[35] != b'-' || !hexd(&v[36..52]) || v[52] != b'-' || !hexd(&v[53..55]) {
        return Err(Some(()));
    }
    let n = |b: &[u8]| u128::from_str_radix(std::str::from_utf8(b).unwrap(), 16).unwrap();
    let (ver, tid, sid, fl) = (n(&v[..2]), n(&v[3..35]), n(&v[36..52]) as u64, n(&v[53..55]));
    if ver == 0xff || tid == 0 || sid == 0 {
        return Err(Some(()));
    }
    let rest = &v[55..];
    if ver == 0 {
        // the documented tolerance (one dash) and strictness (unknown flags) of version 00
        if rest == b"-" || (rest.is_empty() && fl > 3) {
            return Err(None);
        }
        if !rest.is_empty() {
            return Err(Some(()));
        }
    } else if !rest.is_empty() && rest[0] != b'-' {
        return Err(Some(()));
    }
    Ok((tid, sid, fl & 1 == 1))
}
pub fn key_ok(k: &str) -> Option<bool> {
    let ch = |c: u8| c.is_ascii_lowercase() || c.is_ascii_digit() || b"_-*/".contains(&c);
    let b = k.as_bytes();
    if b.is_empty() || b.len() > 256 || !(b[0].is_ascii_lowercase() || b[0].is_ascii_digit()) {
        return Some(false);
    }
    let ats = b.iter().filter(|c| **c == b'@').count();
    if !b.iter().all(|c| ch(*c) || *c == b'@') || ats > 1 {
        return Some(false);
    }
    if ats == 0 {
        return Some(true);
    }
    let at = b.iter().position(|c| *c == b'@').unwrap();
    let sys = &b[at + 1..];
    if sys.is_empty() || sys.len() > 14 || b"_-*/".contains(&sys[0]) {
        return Some(false);
    }
    if sys[0].is_ascii_digit() || at > 241 {
        return None; // the two revisions of the specification differ
    }
    Some(true)
}
pub fn val_ok(v: &str) -> bool {
    v.len() <= 256 && v.bytes().all(|c| (0x20..0x7f).contains(&c) && c != b',' && c != b'=') && !v.ends_with(' ')
}
/// entries of a `tracestate` header; `None`: unusable; `Some(None)`: not judged
fn ref_state(h: &str) -> Option<Option<Vec<(String, String)>>> {
    let mut out: Vec<(String, String)> = vec![];
    let mut open = false;
    for m in h.split(',') {
        let m = m.trim_matches([' ', '\t']);
        if m.is_empty() {
            continue;
        }
        let (k, v) = m.split_once('=')?;
        match key_ok(k) {
            Some(false) => return None,
            None => open = true,
            _ => {}
        }
        if !val_ok(v) {
            return None;
        }
        open |= out.iter().any(|e| e.0 == k);
        out.push((k.into(), v.into()));
    }
    open |= out.len() > 32;
    Some((!open).then_some(out))
}
pub fn entries(s: &TraceState) -> Vec<(String, String)> {
    let h = s.header_delimited("\u{1}", "\u{2}");
    if h.is_empty() {
        return vec![];
    }
    h.split('\u{2}').map(|m| m.split_once('\u{1}').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or_default()).collect()
}
pub fn rkey(r: &mut Rng) -> String {
    let ch = |r: &mut Rng| *r.pick(b"abcxyz0189_-*/") as char;
    let len = match r.below(10) {
        0 => 256,
        1 => 255,
        2 => 241,
        _ => 1 + r.idx(8),
    };
    let mut s = String::from(*r.pick(b"abz09") as char);
    while s.len() < len {
        s.push(ch(r));
    }
    if r.chance(1, 3) && s.len() <= 241 {
        let n = if r.bool() { 14 } else { 1 + r.idx(14) };
        s.push('@');
        s.push('v');
        for _ in 1..n {
            s.push(ch(r));
        }
    }
    s
}
pub fn rval(r: &mut Rng) -> String {
    let len = match r.below(10) {
        0 => 256,
        1 => 255,
        2 => 0,
        _ => 1 + r.idx(10),
    };
    let mut s: String = (0..len)
        .map(|_| loop {
            let c = (0x20 + r.below(0x5f) as u8) as char;
            if c != ',' && c != '=' {
                break c;
            }
        })
        .collect();
    if s.ends_with(' ') {
        s.pop();
        s.push('!');
    }
    s
}
fn rentries(r: &mut Rng, max: usize) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for _ in 0..r.idx(max + 1) {
        let k = rkey(r);
        if !out.iter().any(|e| e.0 == k) {
            out.push((k, rval(r)));
        }
    }
    out
}

pub fn p01(ctx: &Ctx) {
    ctx.require("round_trips", 5000);
    ctx.require("accepted", 5000);
    ctx.require("rejected", 5000);
    ctx.require("unusable_tracestate_kept_parent", 500);
    ctx.section("round-trip", 0.4, 4, 200, round);
    ctx.section("headers", 0.6, 4, 200, headers);
}
fn round(c: &Case, r: &mut Rng) {
    let p = TraceContextPropagator::new();
    let mut sig = 0;
    for _ in 0..20 {
        let ent = rentries(r, 33);
        let st = match TraceState::from_key_value(ent.clone()) {
            Ok(s) => s,
            Err(e) => {
                c.fail("valid-state-refused", format!("{ent:?}: {e:?}"));
                continue;
            }
        };
        let (tid, sid) = (
            match r.below(5) {
                0 => 0u128,
                1 => 1 << r.below(128),
                2 => r.u64() as u128,
                _ => r.u128(),
            },
            match r.below(5) {
                0 => 0u64,
                1 => 1 << r.below(64),
                _ => r.u64(),
            },
        );
        let fl = r.u64() as u8;
        let sc = SpanContext::new(tid_of(tid), sid_of(sid), TraceFlags::new(fl), r.bool(), st.clone());
        let (base, _) = base_cx(r);
        let cx = base.with_remote_span_context(sc.clone());
        let mut car = Carrier::new(r);
        car.inject(&p, &cx);
        sig = h64(&(sig, tid, sid, fl & 1, ent.len()));
        if tid == 0 || sid == 0 {
            c.check(car.keys().is_empty(), "invalid-injected", || format!("{sc:?} injected {:?}", car.keys()));
            continue;
        }
        let want = format!("00-{tid:032x}-{sid:016x}-{:02x}", fl & 1);
        c.check(car.get("traceparent").as_deref() == Some(want.as_str()), "traceparent", || format!("{:?} instead of {want}", car.get("traceparent")));
        let declared: Vec<String> = p.fields().map(str::to_string).collect();
        c.check(car.keys().iter().all(|k| declared.contains(k)), "undeclared-field", || format!("{:?} of {declared:?}", car.keys()));
        let (into, _) = base_cx(r);
        let got = car.extract(&p, &into);
        let g = got.span().span_context().clone();
        let ok = g.trace_id() == sc.trace_id() && g.span_id() == sc.span_id() && g.is_sampled() == sc.is_sampled() && g.is_remote() && *g.trace_state() == st;
        c.check(ok, "round-trip", || format!("{sc:?} came back as {g:?}"));
        c.check(rest_kept(&into, &got), "context-lost", || "values of the context are lost".into());
        c.check(entries(g.trace_state()) == ent, "state-round-trip", || format!("{ent:?} came back as {:?}", entries(g.trace_state())));
        c.count("round_trips", 1);
    }
    c.seen(sig, true);
}
fn headers(c: &Case, r: &mut Rng) {
    let p = TraceContextPropagator::new();
    let mut sig = 0;
    for _ in 0..40 {
        let mut parent = format!(
            "{:02x}-{:032x}-{:016x}-{:02x}",
            *r.pick(&[0u8, 0, 0, 0, 1, 0xcc, 0xfe, 0xff]),
            if r.chance(1, 12) { 0 } else { r.u128() },
            if r.chance(1, 12) { 0 } else { r.u64() },
            *r.pick(&[0u8, 1, 1, 2, 3, 4, 255])
        );
        if r.chance(1, 6) {
            parent += ["-", "-x", "-abc-def", "x", " ", "--"][r.idx(6)];
        }
        if r.chance(1, 2) {
            parent = mutate(r, &parent);
        } else if r.chance(1, 30) {
            parent = r.text(80);
        }
        let mut state = rentries(r, 5).iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join([",", " , ", ",\t", ",,"][r.idx(4)]);
        if r.chance(2, 5) {
            state = mutate(r, &state);
        }
        let mut car = Carrier::new(r);
        if !car.put(["traceparent", "Traceparent", "TRACEPARENT"][r.idx(3)], &parent) {
            continue;
        }
        let has_state = r.chance(4, 5) && car.put("tracestate", &state);
        let (into, old) = base_cx(r);
        let out = car.extract(&p, &into);
        let g = out.span().span_context().clone();
        sig = h64(&(sig, &parent, &state));
        c.check(rest_kept(&into, &out), "context-lost", || "values of the context are lost".into());
        match ref_parent(&parent) {
            Err(None) => {}
            Err(Some(())) => {
                c.check(g == old && out.has_active_span() == into.has_active_span(), "malformed-accepted", || format!("traceparent {parent:?} gave {g:?}"));
                c.count("rejected", 1);
            }
            Ok((tid, sid, sampled)) => {
                let ok = g.trace_id() == tid_of(tid) && g.span_id() == sid_of(sid) && g.trace_flags() == (if sampled { TraceFlags::SAMPLED } else { TraceFlags::default() }) && g.is_remote();
                c.check(ok, "wellformed-refused", || format!("traceparent {parent:?} with tracestate {state:?} gave {g:?}"));
                c.count("accepted", 1);
                let e = entries(g.trace_state());
                match ref_state(if has_state { &state } else { "" }) {
                    None => {
                        c.check(e.is_empty(), "bad-state-used", || format!("tracestate {state:?} gave {e:?}"));
                        c.count("unusable_tracestate_kept_parent", 1);
                    }
                    Some(Some(want)) => {
                        c.check(e == want, "state", || format!("tracestate {state:?} gave {e:?}"));
                    }
                    Some(None) => {}
                }
            }
        }
        c.sample(|| format!("{parent:?} {state:?} -> {g:?}"));
    }
    c.seen(sig, true);
}

pub fn p02(ctx: &Ctx) {
    ctx.require("operations", 20_000);
    ctx.require("refused", 1000);
    ctx.require("old_versions_rechecked", 10_000);
    ctx.require("parsed_headers", 5000);
    ctx.section("operations", 0.7, 4, 200, ops);
    ctx.section("parse", 0.3, 4, 200, parse);
}
fn ops(c: &Case, r: &mut Rng) {
    let keys: Vec<String> = (0..1 + r.idx(8)).map(|_| if r.chance(1, 6) { let k = rkey(r); mutate(r, &k) } else { rkey(r) }).collect();
    let mut versions: Vec<(TraceState, Vec<(String, String)>)> = vec![(TraceState::default(), vec![])];
    if r.chance(1, 3) {
        let e = rentries(r, 40);
        match TraceState::from_key_value(e.clone()) {
            Ok(s) => versions.push((s, e)),
            Err(x) => {
                c.fail("valid-refused", format!("{e:?}: {x:?}"));
            }
        }
    }
    let mut sig = 0;
    for _ in 0..10 + r.idx(40) {
        let (s, m) = versions[if r.chance(4, 5) { versions.len() - 1 } else { r.idx(versions.len()) }].clone();
        let k = r.pick(&keys).clone();
        let op = r.below(5);
        c.count("operations", 1);
        match op {
            0..=2 => {
                let mut v = rval(r);
                if r.chance(1, 6) {
                    v = mutate(r, &v);
                }
                let got = s.insert(k.clone(), v.clone());
                sig = h64(&(sig, op, &k, &v));
                let Some(kok) = key_ok(&k) else { continue };
                if kok && val_ok(&v) {
                    let mut m2 = m.clone();
                    m2.retain(|e| e.0 != k);
                    m2.insert(0, (k.clone(), v.clone()));
                    match got {
                        Ok(s2) => versions.push((s2, m2)),
                        Err(e) => c.fail("insert-refused", format!("insert({k:?}, {v:?}): {e:?}")),
                    }
                } else {
                    c.count("refused", 1);
                    c.check(got.is_err(), "invalid-accepted", || format!("insert({k:?}, {v:?}) accepted"));
                }
            }
            3 => {
                let got = s.delete(k.clone());
                sig = h64(&(sig, op, &k));
                let Some(kok) = key_ok(&k) else { continue };
                if kok {
                    let mut m2 = m.clone();
                    m2.retain(|e| e.0 != k);
                    match got {
                        Ok(s2) => versions.push((s2, m2)),
                        Err(e) => c.fail("delete-refused", format!("delete({k:?}): {e:?}")),
                    }
                } else {
                    c.check(got.is_err(), "invalid-accepted", || format!("delete({k:?}) accepted"));
                }
            }
            _ => {
                // through the header
                let h = s.header();
                match TraceState::from_str(&h) {
                    Ok(s2) => {
                        c.check(s2 == s, "header-round-trip", || format!("{s:?} rendered as {h:?} parsed as {s2:?}"));
                        versions.push((s2, m));
                    }
                    Err(e) => {
                        c.fail("header-round-trip", format!("{s:?} rendered as {h:?}: {e:?}"));
                    }
                }
            }
        }
        let (s, m) = versions.last().unwrap();
        verify(c, s, m, &keys, "after operation");
    }
    for (s, m) in &versions {
        verify(c, s, m, &keys, "old version");
        c.count("old_versions_rechecked", 1);
    }
    c.seen(sig, true);
}
fn verify(c: &Case, s: &TraceState, m: &[(String, String)], keys: &[String], when: &str) {
    c.check(entries(s) == m, "entries", || format!("{when}: {:?}, expected {m:?}", entries(s)));
    let want = m.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(",");
    c.check(s.header() == want, "header", || format!("{when}: {:?}, expected {want:?}", s.header()));
    for k in keys {
        let w = m.iter().find(|e| e.0 == *k).map(|e| e.1.as_str());
        c.check(s.get(k) == w, "lookup", || format!("{when}: get({k:?}) = {:?}, expected {w:?}", s.get(k)));
    }
    c.check((*s == TraceState::default()) == m.is_empty(), "empty", || format!("{when}: {s:?} vs the empty state"));
}
fn parse(c: &Case, r: &mut Rng) {
    let mut sig = 0;
    for _ in 0..30 {
        let mut h = rentries(r, 8).iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join([",", " , ", ",\t", ",,"][r.idx(4)]);
        if r.chance(1, 2) {
            h = mutate(r, &h);
        }
        if r.chance(1, 20) {
            h = r.text(40);
        }
        sig = h64(&(sig, &h));
        let got = TraceState::from_str(&h);
        c.count("parsed_headers", 1);
        match ref_state(&h) {
            None => {
                c.check(got.is_err(), "bad-header-accepted", || format!("{h:?} gave {got:?}"));
            }
            Some(Some(w)) => match got {
                Ok(s) => {
                    c.check(entries(&s) == w, "parsed", || format!("{h:?} gave {s:?}"));
                    c.check(TraceState::from_str(&s.header()).as_ref().ok() == Some(&s), "header-round-trip", || format!("{s:?}"));
                }
                Err(e) => c.fail("good-header-refused", format!("{h:?}: {e:?}")),
            },
            Some(None) => {}
        }
    }
    c.seen(sig, true);
}
