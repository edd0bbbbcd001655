//! P05, P06: B3 and Jaeger propagation.
use crate::w3c::{base_cx, entries, mutate, rest_kept, rkey, rval, Carrier};
use hsdk::slib::{sid_of, tid_of};
use hsdk::*;
use opentelemetry::propagation::TextMapPropagator;
use opentelemetry::trace::*;
use opentelemetry_zipkin::{B3Encoding, Propagator as B3};

const SINGLE: &str = "b3";
const TID: &str = "x-b3-traceid";
const SID: &str = "x-b3-spanid";
const SAMPLED: &str = "x-b3-sampled";
const FLAGS: &str = "x-b3-flags";
const PARENT: &str = "x-b3-parentspanid";

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum St {
    No,
    Yes,
    Deferred,
    Debug,
}
fn st_of(f: TraceFlags) -> St {
    let b = f.to_u8();
    if b & 4 != 0 {
        St::Debug
    } else if b & 2 != 0 {
        St::Deferred
    } else if b & 1 != 0 {
        St::Yes
    } else {
        St::No
    }
}
fn enc(i: usize) -> B3Encoding {
    match i {
        0 => B3Encoding::UnSpecified,
        1 => B3Encoding::MultipleHeader,
        2 => B3Encoding::SingleHeader,
        _ => B3Encoding::SingleAndMultiHeader,
    }
}
fn rid128(r: &mut Rng) -> u128 {
    match r.below(4) {
        0 => r.u64() as u128 | 1,
        1 => 1 << r.below(128),
        _ => r.u128() | 1,
    }
}
fn rid64(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.below(1000) + 1,
        1 => 1 << r.below(64),
        _ => r.u64() | 1,
    }
}

pub fn p05(ctx: &Ctx) {
    ctx.require("round_trips", 10_000);
    ctx.require("accepted", 5000);
    ctx.require("rejected", 5000);
    ctx.require("fallbacks", 500);
    ctx.section("round-trip", 0.4, 4, 200, round5);
    ctx.section("headers", 0.6, 4, 200, headers5);
}
fn round5(c: &Case, r: &mut Rng) {
    let mut sig = 0;
    for _ in 0..20 {
        let (t, s) = (rid128(r), rid64(r));
        let fl = *r.pick(&[0u8, 1, 2, 4, 5]);
        let sc = SpanContext::new(tid_of(t), sid_of(s), TraceFlags::new(fl), r.bool(), TraceState::NONE);
        let st = st_of(sc.trace_flags());
        for i in 0..4 {
            let p = B3::with_encoding(enc(i));
            let (base, _) = base_cx(r);
            let cx = base.with_remote_span_context(sc.clone());
            let mut car = Carrier::new(r);
            car.inject(&p, &cx);
            // exactly what this encoding writes
            let mut want: Vec<(&str, String)> = vec![];
            if i >= 2 {
                let sfx = match st {
                    St::No => "-0",
                    St::Yes => "-1",
                    St::Deferred => "",
                    St::Debug => "-d",
                };
                want.push((SINGLE, format!("{t:032x}-{s:016x}{sfx}")));
            }
            if i != 2 {
                want.push((TID, format!("{t:032x}")));
                want.push((SID, format!("{s:016x}")));
                match st {
                    St::No => want.push((SAMPLED, "0".into())),
                    St::Yes => want.push((SAMPLED, "1".into())),
                    St::Deferred => {}
                    St::Debug => want.push((FLAGS, "1".into())),
                }
            }
            want.sort();
            let got: Vec<(String, String)> = car.keys().into_iter().map(|k| (k.clone(), car.get(&k).unwrap_or_default())).collect();
            c.check(got.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>() == want, "written", || format!("{:?} wrote {got:?}, expected {want:?}", enc(i)));
            let fields: Vec<&str> = p.fields().collect();
            c.check(got.iter().all(|(k, _)| fields.contains(&k.as_str())), "undeclared-field", || format!("{:?} wrote {got:?}, declares {fields:?}", enc(i)));
            for j in 0..4 {
                let q = if j == 1 && r.bool() { B3::new() } else { B3::with_encoding(enc(j)) };
                let (into, _) = base_cx(r);
                let out = car.extract(&q, &into);
                let g = out.span().span_context().clone();
                c.check(g.trace_id() == sc.trace_id() && g.span_id() == sc.span_id() && g.is_remote() && st_of(g.trace_flags()) == st, "round-trip", || {
                    format!("{sc:?} written by {:?} as {got:?} is read by {:?} as {g:?}", enc(i), enc(j))
                });
                c.check(rest_kept(&into, &out), "context-lost", || "values of the context are lost".into());
                c.count("round_trips", 1);
            }
        }
        sig = h64(&(sig, t, s, fl));
    }
    c.seen(sig, true);
}
fn hex(s: &str) -> bool {
    s.bytes().all(|c| matches!(c, b'0'..=b'9' | b'a'..=b'f'))
}
fn tid(s: &str) -> Option<u128> {
    ((s.len() == 16 || s.len() == 32) && hex(s)).then(|| u128::from_str_radix(s, 16).unwrap())
}
fn sid(s: &str) -> Option<u64> {
    (s.len() == 16 && hex(s)).then(|| u64::from_str_radix(s, 16).unwrap())
}
enum Ref<T> {
    Good(T),
    Bad,
    Open,
}
fn ref_single(v: Option<&str>) -> Ref<(u128, u64, St)> {
    let Some(v) = v else { return Ref::Bad };
    if v.ends_with('-') && v.len() > 1 {
        return Ref::Open;
    }
    let p: Vec<&str> = v.split('-').collect();
    if p.len() < 2 || p.len() > 4 {
        return Ref::Bad;
    }
    let (Some(t), Some(s)) = (tid(p[0]), sid(p[1])) else { return Ref::Bad };
    let st = match p.get(2) {
        None => St::Deferred,
        Some(&"0") => St::No,
        Some(&"1") => St::Yes,
        Some(&"d") => St::Debug,
        Some(&"false") => return Ref::Open,
        _ => return Ref::Bad,
    };
    if let Some(x) = p.get(3) {
        match sid(x) {
            None => return Ref::Bad,
            Some(0) => return Ref::Open,
            _ => {}
        }
    }
    if t == 0 || s == 0 {
        return Ref::Bad;
    }
    Ref::Good((t, s, st))
}
fn ref_multi(car: &Carrier) -> Ref<(u128, u64, St)> {
    let (Some(t), Some(s)) = (car.get(TID).and_then(|x| tid(&x)), car.get(SID).and_then(|x| sid(&x))) else { return Ref::Bad };
    if t == 0 || s == 0 {
        return Ref::Bad;
    }
    let st = if car.get(FLAGS).as_deref() == Some("1") {
        St::Debug
    } else {
        match car.get(SAMPLED).as_deref() {
            None => St::Deferred,
            Some("1" | "true") => St::Yes,
            Some("0" | "false") => St::No,
            _ => return Ref::Bad,
        }
    };
    Ref::Good((t, s, st))
}
fn headers5(c: &Case, r: &mut Rng) {
    let mut sig = 0;
    for _ in 0..30 {
        let p = B3::with_encoding(enc(r.idx(4)));
        let mut car = Carrier::new(r);
        let rt = |r: &mut Rng| match r.below(8) {
            0 => format!("{:016x}", rid64(r)),
            1 => "0".repeat(*r.pick(&[16, 32])),
            2 => {
                let s = format!("{:032x}", r.u128());
                mutate(r, &s)
            }
            3 => format!("+{:015x}", r.u64() >> 4),
            _ => format!("{:032x}", rid128(r)),
        };
        let rs = |r: &mut Rng| match r.below(8) {
            0 => "0".repeat(16),
            1 => {
                let s = format!("{:016x}", r.u64());
                mutate(r, &s)
            }
            2 => format!("+{:015x}", r.u64() >> 4),
            _ => format!("{:016x}", rid64(r)),
        };
        let with_single = r.chance(2, 3);
        if with_single {
            let mut v = format!("{}-{}", rt(r), rs(r));
            if r.chance(4, 5) {
                v += ["-0", "-1", "-d", "-true", "-false", "-", "-2", "-D", "-11"][r.idx(9)];
                if r.chance(1, 2) {
                    v = format!("{v}-{}", rs(r));
                }
            }
            if r.chance(1, 4) {
                v = mutate(r, &v);
            }
            if r.chance(1, 20) {
                v = ["0", "1", "-", "", "d"][r.idx(5)].into();
            }
            car.put(["b3", "B3"][r.idx(2)], &v);
        }
        if !with_single || r.bool() {
            if r.chance(9, 10) {
                let v = rt(r);
                car.put("X-B3-TraceId", &v);
            }
            if r.chance(9, 10) {
                let v = rs(r);
                car.put("x-b3-spanid", &v);
            }
            if r.chance(3, 4) {
                car.put("X-B3-Sampled", *r.pick(&["0", "1", "true", "false", "d", "2", "", "True", "10"]));
            }
            if r.chance(1, 3) {
                car.put("X-B3-Flags", *r.pick(&["0", "1", "1", "2", "", "true"]));
            }
            if r.chance(1, 3) {
                let v = rs(r);
                car.put(PARENT, &v);
            }
        }
        let (into, old) = base_cx(r);
        let out = car.extract(&p, &into);
        let g = out.span().span_context().clone();
        let shown = || car.keys().iter().map(|k| format!("{k}: {:?}", car.get(k))).collect::<Vec<_>>().join(" ");
        sig = h64(&(sig, shown()));
        c.check(rest_kept(&into, &out), "context-lost", || "values of the context are lost".into());
        let mut multi = false;
        let want = match ref_single(car.get(SINGLE).as_deref()) {
            Ref::Bad => {
                if with_single {
                    c.count("fallbacks", 1);
                }
                multi = true;
                ref_multi(&car)
            }
            x => x,
        };
        match want {
            Ref::Open => {}
            Ref::Bad => {
                c.count("rejected", 1);
                c.check(g == old && out.has_active_span() == into.has_active_span(), "malformed-accepted", || format!("{} gave {g:?}", shown()));
            }
            Ref::Good((t, s, st)) => {
                c.count("accepted", 1);
                let f = g.trace_flags().to_u8();
                let ok = g.trace_id() == tid_of(t) && g.span_id() == sid_of(s) && g.is_remote() && st_of(g.trace_flags()) == st && f & !7 == 0 && if st == St::Debug { !multi || g.is_sampled() } else { f & 1 == (st == St::Yes) as u8 };
                c.check(ok, "wellformed-refused", || format!("{p:?}: {} gave {g:?}", shown()));
            }
        }
        c.sample(|| format!("{} -> {g:?}", shown()));
    }
    c.seen(sig, true);
}

pub fn p06(ctx: &Ctx) {
    ctx.require("round_trips", 5000);
    ctx.require("accepted", 5000);
    ctx.require("rejected", 3000);
    ctx.require("with_state", 500);
    ctx.section("round-trip", 0.35, 4, 200, round6);
    ctx.section("headers", 0.65, 4, 200, headers6);
}
const NAMES: &[&str] = &["uber-trace-id", "custom-header", "x", " spaced-header ", "", "  ", "UPPER-Header"];
const PREFIXES: &[&str] = &["uberctx-", "custom_", "b", " p-", "", "  "];
fn jprop(r: &mut Rng) -> (opentelemetry_jaeger_propagator::Propagator, String, String) {
    use opentelemetry_jaeger_propagator::Propagator as J;
    let n = *r.pick(NAMES);
    let b = *r.pick(PREFIXES);
    let name = if n.trim().is_empty() { "uber-trace-id" } else { n.trim() };
    let pre = if b.trim().is_empty() { "uberctx-" } else { b.trim() };
    match r.below(4) {
        0 => (J::new(), "uber-trace-id".into(), "uberctx-".into()),
        1 => (J::with_custom_header(n), name.into(), "uberctx-".into()),
        _ => (J::with_custom_header_and_baggage(n, b), name.into(), pre.into()),
    }
}
fn round6(c: &Case, r: &mut Rng) {
    let mut sig = 0;
    for _ in 0..30 {
        let (p, name, _) = jprop(r);
        let (t, s) = (if r.chance(1, 10) { 0 } else { rid128(r) }, if r.chance(1, 10) { 0 } else { rid64(r) });
        let fl = r.u64() as u8;
        let sc = SpanContext::new(tid_of(t), sid_of(s), TraceFlags::new(fl), r.bool(), TraceState::NONE);
        let (base, _) = base_cx(r);
        let cx = base.with_remote_span_context(sc.clone());
        let mut car = Carrier::new(r);
        car.inject(&p, &cx);
        sig = h64(&(sig, t, s, fl, &name));
        if t == 0 || s == 0 {
            c.check(car.keys().is_empty(), "invalid-injected", || format!("{sc:?} wrote {:?}", car.keys()));
            continue;
        }
        let fields: Vec<String> = p.fields().map(|f| f.to_lowercase()).collect();
        c.check(car.keys() == fields && fields == [name.to_lowercase()], "fields", || format!("wrote {:?}, declares {fields:?}, expected {name:?}", car.keys()));
        let (sampled, debug) = (fl & 1 == 1, fl & 5 == 5);
        let want = format!("{t:032x}:{s:016x}:0:{}", sampled as u8 + 2 * debug as u8);
        c.check(car.get(&name).as_deref() == Some(&want), "written", || format!("{:?}, expected {want:?}", car.get(&name)));
        let (into, _) = base_cx(r);
        let out = car.extract(&p, &into);
        let g = out.span().span_context().clone();
        let ok = g.trace_id() == sc.trace_id() && g.span_id() == sc.span_id() && g.is_remote() && g.is_sampled() == sampled && (g.trace_flags().to_u8() & 4 == 4) == debug;
        c.check(ok, "round-trip", || format!("{sc:?} written as {want:?} came back as {g:?}"));
        c.check(rest_kept(&into, &out), "context-lost", || "values of the context are lost".into());
        c.count("round_trips", 1);
    }
    c.seen(sig, true);
}
fn headers6(c: &Case, r: &mut Rng) {
    let mut sig = 0;
    for _ in 0..40 {
        let (p, name, pre) = jprop(r);
        let t = match r.below(8) {
            0 => "0".repeat(1 + r.idx(33)),
            1 => format!("{:x}", rid128(r) >> r.below(128)),
            2 => format!("{:040x}", rid128(r)),
            3 => format!("+{:x}", r.u64()),
            4 => String::new(),
            _ => format!("{:032x}", rid128(r)),
        };
        let s = match r.below(8) {
            0 => "0".repeat(1 + r.idx(18)),
            1 => format!("{:x}", rid64(r) >> r.below(64)),
            2 => format!("{:017x}", rid64(r)),
            3 => format!("+{:x}", r.u64()),
            4 => String::new(),
            5 => format!("+{:015x}", r.u64() >> 4),
            _ => format!("{:016x}", rid64(r)),
        };
        let par = ["0", "", "ff", "zz", "0000000000000001"][r.idx(5)];
        let f = ["0", "1", "2", "3", "01", "03", "7", "8", "9", "11", "", "+1", "-1", "120", "x", "001", "+", "1 "][r.idx(18)];
        let sep = ["%3A", "%3a", ":", ":", ":"][r.idx(5)];
        let mut v = [t, s, par.to_string(), f.to_string()].join(sep);
        if r.chance(1, 3) {
            v = mutate(r, &v);
        } else if r.chance(1, 20) {
            v = r.text(60);
        }
        let mut car = Carrier::new(r);
        if !car.put(&name, &v) {
            continue;
        }
        // trace state through prefixed headers
        let mut state: Vec<(String, String)> = vec![];
        let mut bad_state = false;
        for i in 0..r.idx(4) {
            let bad = r.chance(1, 6);
            let (k, val) = if bad { (format!("{pre}k{i}"), "a=b".to_string()) } else { (format!("{pre}k{i}"), rval(r)) };
            if !pre.starts_with(|x: char| x.is_ascii_lowercase() || x.is_ascii_digit()) || k == name.to_lowercase() {
                continue;
            }
            if car.put(&k, &val) {
                bad_state |= bad;
                state.push((k, val));
            }
        }
        if r.bool() {
            car.put("unrelated-header", &rkey(r));
        }
        state.sort();
        // headers that happen to have the prefix are also taken
        let clash = car.keys().iter().any(|k| k.starts_with(&pre) && !state.iter().any(|e| e.0 == *k));
        let (into, old) = base_cx(r);
        let out = car.extract(&p, &into);
        let g = out.span().span_context().clone();
        sig = h64(&(sig, &v));
        c.check(rest_kept(&into, &out), "context-lost", || "values of the context are lost".into());
        let d = if v.contains(':') { v.clone() } else { v.replace("%3A", ":").replace("%3a", ":") };
        let want: Ref<(u128, u64, bool, bool)> = (|| {
            if clash {
                return Ref::Open;
            }
            if d.ends_with(':') && d.split(':').count() == 5 {
                return Ref::Open;
            }
            let q: Vec<&str> = d.split(':').collect();
            if q.len() != 4 {
                return Ref::Bad;
            }
            let hx = |s: &str, n: usize| -> Option<Option<u128>> {
                if s.is_empty() || s.len() > n || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
                    return Some(None);
                }
                if s.bytes().any(|b| b.is_ascii_uppercase()) {
                    return None;
                }
                Some(u128::from_str_radix(s, 16).ok().filter(|x| *x != 0))
            };
            let fl = match q[3] {
                f if f.is_empty() || f.len() > 2 => return Ref::Bad,
                f if f.bytes().all(|b| b.is_ascii_digit()) => f.parse::<u8>().unwrap(),
                f if f.bytes().all(|b| b.is_ascii_hexdigit()) => return Ref::Open,
                _ => return Ref::Bad,
            };
            match (hx(q[0], 32), hx(q[1], 16)) {
                (Some(None), _) | (_, Some(None)) => Ref::Bad,
                (None, _) | (_, None) => Ref::Open,
                (Some(Some(t)), Some(Some(s))) if !bad_state => Ref::Good((t, s as u64, fl & 1 == 1, fl & 3 == 3)),
                _ => Ref::Bad,
            }
        })();
        match want {
            Ref::Open => {}
            Ref::Bad => {
                c.count("rejected", 1);
                c.check(g == old && out.has_active_span() == into.has_active_span(), "malformed-accepted", || format!("{v:?} gave {g:?}"));
            }
            Ref::Good((t, s, sampled, debug)) => {
                c.count("accepted", 1);
                let want = sampled as u8 + 4 * debug as u8;
                c.check(g.trace_id() == tid_of(t) && g.span_id() == sid_of(s) && g.is_remote() && g.trace_flags().to_u8() == want, "wellformed-refused", || {
                    format!("{v:?} gave {g:?}; prefixed headers {state:?}")
                });
                let mut e = entries(g.trace_state());
                e.sort();
                c.check(e == state, "state", || format!("prefixed headers {state:?} gave {e:?}"));
                if !state.is_empty() {
                    c.count("with_state", 1);
                }
            }
        }
        c.sample(|| format!("{v:?} -> {g:?}"));
    }
    c.seen(sig, true);
}
