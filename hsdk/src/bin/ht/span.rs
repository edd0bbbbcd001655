//! T02, T03: span data equals the sequential effect of the operations on it.
use hsdk::slib::*;
use hsdk::*;
use opentelemetry::trace::*;
use opentelemetry::{global, Context, InstrumentationScope, KeyValue};
use opentelemetry_sdk::trace::{Sampler, SdkTracer, SdkTracerProvider, SpanData, SpanLimits};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

type Log = Arc<Mutex<Vec<PEv>>>;

pub fn run_ops(ctx: &Ctx) {
    ctx.require("spans_checked", 2000);
    ctx.require("operations", 10000);
    ctx.require("ops_after_end", 500);
    ctx.require("dropped_without_end", 200);
    ctx.section("ops", 0.5, 4, 200, |c, r| ops(c, r, false));
    ctx.section("shared", 0.25, 2, 50, shared);
    let _inj = hsdk::perturb::Injector::start(ctx.seed, 150);
    ctx.section("shared-perturbed", 0.25, 2, 50, shared);
}
pub fn run_limits(ctx: &Ctx) {
    ctx.require("spans_checked", 2000);
    ctx.require("spans_over_a_limit", 500);
    ctx.require("zero_limit_spans", 100);
    ctx.section("limits", 0.9, 6, 200, |c, r| ops(c, r, true));
    ctx.section("defaults", 0.1, 4, 10, defaults);
}

/// either a plain SDK tracer or one behind the global, type-erased API
enum Tr {
    Sdk(SdkTracer),
    Boxed(global::BoxedTracer),
}
fn scope(r: &mut Rng) -> InstrumentationScope {
    let mut b = InstrumentationScope::builder(r.text(6));
    if r.bool() {
        b = b.with_version(r.text(4));
    }
    if r.bool() {
        b = b.with_schema_url(r.text(4));
    }
    if r.bool() {
        b = b.with_attributes(vec![KeyValue::new("sc", r.below(5) as i64)]);
    }
    b.build()
}
fn limits(r: &mut Rng) -> SpanLimits {
    let mut f = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => 1,
        2 => 2 + r.below(3) as u32,
        3 => r.below(12) as u32,
        4 => 128,
        _ => r.below(40) as u32,
    };
    SpanLimits {
        max_events_per_span: f(r),
        max_attributes_per_span: f(r),
        max_links_per_span: f(r),
        max_attributes_per_event: f(r),
        max_attributes_per_link: f(r),
    }
}

fn ops(c: &Case, r: &mut Rng, lim: bool) {
    let log: Log = Default::default();
    let np = if lim { 1 } else { r.idx(4) };
    let limits = if lim { limits(r) } else { SpanLimits::default() };
    let mut b = SdkTracerProvider::builder();
    let mut marks = 0;
    for i in 0..np {
        let mut p = Rec::new(i, &log);
        p.mark = r.chance(1, 5);
        marks += p.mark as usize;
        b = b.with_span_processor(p);
    }
    // attributes and trace state added by the sampler
    let extra: Vec<KeyValue> = if r.chance(1, 3) { if r.chance(1, 20) { rkvs_lim(r, limits.max_attributes_per_span) } else { rkvs(r, (limits.max_attributes_per_span as usize).min(20)) } } else { vec![] };
    b = if extra.is_empty() && r.bool() { b.with_sampler(Sampler::AlwaysOn) } else { b.with_sampler(SamplerWith(extra.clone())) };
    // every route of setting limits
    if lim {
        if r.bool() {
            b = b.with_span_limits(limits);
        } else {
            b = b
                .with_max_events_per_span(limits.max_events_per_span)
                .with_max_attributes_per_span(limits.max_attributes_per_span)
                .with_max_links_per_span(limits.max_links_per_span)
                .with_max_attributes_per_event(limits.max_attributes_per_event)
                .with_max_attributes_per_link(limits.max_attributes_per_link);
        }
    }
    let tp = b.build();
    // by name only, sometimes: the name is kept as it is
    let by_name = r.chance(1, 5);
    let names = ["", " ", " padded ", "tab\t", "Ünïcode", "a/b", "UPPER"];
    let sc = if by_name { InstrumentationScope::builder(if r.bool() { names[r.idx(7)].to_string() } else { r.text(6) }).build() } else { scope(r) };
    let tr = if by_name {
        Tr::Sdk(tp.tracer(sc.name().to_string()))
    } else if r.bool() { Tr::Sdk(tp.tracer_with_scope(sc.clone())) } else { Tr::Boxed(global::BoxedTracer::new(Box::new(tp.tracer_with_scope(sc.clone())))) };
    let mut trace = format!("{limits:?} {np} processors extra={}", txt(&extra));
    let nspans = 1 + r.idx(4);
    // several spans of one provider, interleaved
    struct Live {
        s: Option<Holder>,
        m: Model,
        id: SpanId,
        fin: bool,
        nops: usize,
    }
    enum Holder {
        Sdk(opentelemetry_sdk::trace::Span),
        Boxed(global::BoxedSpan),
        Cx(Context),
    }
    let mut live: Vec<Live> = vec![];
    for _ in 0..nspans {
        let (b, mut m) = rbuilder(r, limits, false);
        extra.iter().for_each(|a| m.attr(a.clone()));
        trace += &format!(" build({:?} a{} e{} l{})", b.name, b.attributes.as_ref().map_or(0, |v| v.len()), b.events.as_ref().map_or(0, |v| v.len()), b.links.as_ref().map_or(0, |v| v.len()));
        let t0 = now();
        let h = match &tr {
            Tr::Sdk(t) => Holder::Sdk(t.build_with_context(b, &Context::new())),
            Tr::Boxed(t) => Holder::Boxed(t.build_with_context(b, &Context::new())),
        };
        let t1 = now();
        if let At::Between(..) = m.start {
            m.start = At::Between(t0, t1);
        }
        let (id, rec) = match &h {
            Holder::Sdk(s) => (s.span_context().span_id(), s.is_recording()),
            Holder::Boxed(s) => (s.span_context().span_id(), s.is_recording()),
            _ => unreachable!(),
        };
        if !c.check(rec, "not-recording", || trace.clone()) {
            return;
        }
        // started on every processor, in order, with the marks made so far
        {
            let g = log.lock().unwrap();
            let starts: Vec<&PEv> = g.iter().filter(|e| matches!(e, PEv::Start(_, i, _) if *i == id)).collect();
            let idx: Vec<usize> = starts.iter().map(|e| if let PEv::Start(i, ..) = e { *i } else { 0 }).collect();
            if !c.check(idx == (0..np).collect::<Vec<_>>(), "on-start-calls", || format!("on_start calls reached processors {idx:?} of {np}; {trace}")) {
                return;
            }
            for e in starts {
                if let PEv::Start(_, _, Some(d)) = e {
                    let nm = d.attributes.iter().filter(|a| a.key.as_str() == "mark").count() + d.dropped_attributes_count as usize;
                    let _ = nm;
                    if marks == 0 {
                        if let Some(x) = m.diff(d, false) {
                            return c.fail("on-start-data", format!("at its start: {x}; {trace}"));
                        }
                    }
                } else {
                    return c.fail("on-start-data", format!("no data at on_start; {trace}"));
                }
            }
        }
        if marks > 0 {
            let g = log.lock().unwrap();
            // which processors mark is random: take it from what on_start saw afterwards
            let mut seen: Vec<i64> = vec![];
            for e in g.iter() {
                if let PEv::Start(i, sid, Some(d)) = e {
                    if *sid == id && d.attributes.len() + d.dropped_attributes_count as usize > m.attrs.len() + m.dropped as usize + seen.len() {
                        seen.push(*i as i64);
                    }
                }
            }
            drop(g);
            if seen.len() != marks {
                return c.fail("on-start-mutation", format!("{} of {marks} on_start mutations visible; {trace}", seen.len()));
            }
            seen.into_iter().for_each(|i| m.attr(KeyValue::new("mark", i)));
        }
        live.push(Live { s: Some(h), m, id, fin: false, nops: 0 });
    }
    let n = r.idx(30);
    for _ in 0..n {
        let i = r.idx(live.len());
        let l = &mut live[i];
        let Some(h) = &mut l.s else { continue };
        // move into a context now and then
        if r.chance(1, 10) && !matches!(h, Holder::Cx(_)) {
            trace += &format!(" {i}:ctx");
            let cx = match l.s.take().unwrap() {
                Holder::Sdk(s) => Context::new().with_span(s),
                Holder::Boxed(s) => Context::new().with_span(s),
                h => return drop(h),
            };
            l.s = Some(Holder::Cx(cx));
            continue;
        }
        let may_end = r.chance(1, 3);
        let op = rop(r, &limits, may_end);
        if matches!(h, Holder::Cx(_)) && matches!(op, Op::Link(..)) {
            continue;
        }
        trace += &format!(" {i}:{}", short(&op));
        let t0 = now();
        match h {
            Holder::Sdk(s) => apply(s, op.clone(), false),
            Holder::Boxed(s) => apply(s, op.clone(), false),
            Holder::Cx(cx) => {
                if r.bool() {
                    apply_ref(&cx.span(), op.clone())
                } else {
                    let _g = cx.clone().attach();
                    get_active_span(|s| apply_ref(&s, op.clone()))
                }
            }
        }
        let t1 = now();
        if l.m.end.is_some() {
            c.count("ops_after_end", 1);
        }
        l.m.op(&op, (t0, t1));
        l.nops += 1;
        let rec = match l.s.as_ref().unwrap() {
            Holder::Sdk(s) => s.is_recording(),
            Holder::Boxed(s) => s.is_recording(),
            Holder::Cx(cx) => cx.span().is_recording(),
        };
        if !c.check(rec == l.m.end.is_none(), "is-recording", || format!("is_recording={rec} of a span that has {}ended; {trace}", if l.m.end.is_none() { "not " } else { "" })) {
            return;
        }
        if let (Holder::Sdk(s), true) = (l.s.as_ref().unwrap(), r.chance(1, 4)) {
            match (s.exported_data(), l.m.end.is_some()) {
                (None, true) => {}
                (Some(d), false) => {
                    if let Some(x) = l.m.diff(&d, false) {
                        return c.fail("live-data", format!("{x}; {trace}"));
                    }
                }
                (d, e) => return c.fail("live-data", format!("exported_data {} of a span with ended={e}; {trace}", d.is_some())),
            }
        }
        if r.chance(1, 12) {
            // gone without (another) end
            let unwind = r.chance(1, 20);
            trace += &format!(" {i}:drop{}", if unwind { " while unwinding" } else { "" });
            let t0 = now();
            let s = l.s.take();
            if unwind {
                let _ = guarded(move || {
                    let _s = s;
                    panic!("vh-deliberate");
                });
                c.count("dropped_while_unwinding", 1);
            } else {
                drop(s);
            }
            let t1 = now();
            if l.m.end.is_none() {
                l.m.end = Some(At::Between(t0, t1));
                c.count("dropped_without_end", 1);
            }
            l.fin = true;
        }
    }
    for l in live.iter_mut() {
        let t0 = now();
        l.s = None;
        let t1 = now();
        if l.m.end.is_none() {
            l.m.end = Some(At::Between(t0, t1));
            c.count("dropped_without_end", 1);
        }
    }
    let evs = log.lock().unwrap().clone();
    for (i, l) in live.iter().enumerate() {
        let ends: Vec<(usize, &SpanData)> = evs.iter().filter_map(|e| if let PEv::End(p, d) = e { (d.span_context.span_id() == l.id).then_some((*p, d)) } else { None }).collect();
        let idx: Vec<usize> = ends.iter().map(|e| e.0).collect();
        if !c.check(idx == (0..np).collect::<Vec<_>>(), "on-end-calls", || format!("span {i}: on_end reached processors {idx:?} of {np}; {trace}")) {
            return;
        }
        for (p, d) in ends {
            if let Some(x) = l.m.diff(d, true) {
                return c.fail("exported-data", format!("span {i} at processor {p}: {x}; {trace}"));
            }
            if !c.check(d.instrumentation_scope == sc && d.instrumentation_scope.attributes().collect::<Vec<_>>() == sc.attributes().collect::<Vec<_>>() && d.instrumentation_scope.schema_url() == sc.schema_url(), "scope", || format!("scope {:?}, expected {sc:?}; {trace}", d.instrumentation_scope)) {
                return;
            }
        }
        c.count("spans_checked", 1);
        c.count("operations", l.nops as u64);
        if l.m.dropped + l.m.dropped_events + l.m.dropped_links > 0 || l.m.events.iter().any(|e| e.dropped > 0) || l.m.links.iter().any(|e| e.2 > 0) {
            c.count("spans_over_a_limit", 1);
        }
        if [limits.max_events_per_span, limits.max_attributes_per_span, limits.max_links_per_span, limits.max_attributes_per_event, limits.max_attributes_per_link].contains(&0) {
            c.count("zero_limit_spans", 1);
        }
    }
    c.seen(h64(&trace), n > 0);
    c.sample(|| trace.clone());
}
fn short(o: &Op) -> String {
    match o {
        Op::Attr(a) => format!("attr({})", a.key),
        Op::Attrs(a) => format!("attrs({})", a.len()),
        Op::Event(_, a) => format!("event({})", a.len()),
        Op::EventAt(_, _, a) => format!("event_at({})", a.len()),
        Op::Error(_) => "error".into(),
        Op::Status(s) => format!("{s:?}"),
        Op::Name(n) => format!("name({n:?})"),
        Op::Link(_, a) => format!("link({})", a.len()),
        Op::End => "END".into(),
        Op::EndAt(_) => "END_AT".into(),
    }
}

/// default limits of 128 hold without configuration
fn defaults(c: &Case, r: &mut Rng) {
    let log: Log = Default::default();
    let tp = SdkTracerProvider::builder().with_span_processor(Rec::new(0, &log)).build();
    let t = tp.tracer("d");
    let k = [127usize, 128, 129, 200][r.idx(4)];
    let pre = r.idx(k + 1);
    let a = |n: usize| (0..n).map(|i| KeyValue::new("a", i as i64)).collect::<Vec<_>>();
    let vc = |_| valid_ctx(&mut Rng::new(7, 7));
    let mut s = t
        .span_builder("d")
        .with_attributes(a(pre))
        .with_events((0..pre).map(|_| Event::new("e", now(), vec![], 0)).collect())
        .with_links((0..pre).map(|i| Link::new(vc(i), a(if i == 0 { k } else { 0 }), 0)).collect())
        .start(&t);
    for i in pre..k {
        s.set_attribute(KeyValue::new("a", i as i64));
        s.add_event("e", a(if i == pre { k } else { 0 }));
        s.add_link(vc(i), a(if i == pre { k } else { 0 }));
    }
    s.end();
    let g = log.lock().unwrap();
    let Some(PEv::End(_, d)) = g.last() else { return c.fail("on-end-calls", "no end") };
    let (kept, drop) = (k.min(128), k.saturating_sub(128) as u32);
    let ok = d.attributes.len() == kept && d.events.events.len() == kept && d.links.links.len() == kept;
    let okd = d.dropped_attributes_count == drop && d.events.dropped_count == drop && d.links.dropped_count == drop;
    let nested = d.events.events.iter().all(|e| e.attributes.len() <= 128 && (e.attributes.is_empty() || e.attributes.len() == kept && e.dropped_attributes_count == drop))
        && d.links.links.iter().all(|e| e.attributes.len() <= 128 && (e.attributes.is_empty() || e.attributes.len() == kept && e.dropped_attributes_count == drop));
    c.check(ok && okd && nested, "default-limits", || {
        format!("{k} of each ({pre} via builder): kept {}/{}/{} dropped {}/{}/{}", d.attributes.len(), d.events.events.len(), d.links.links.len(), d.dropped_attributes_count, d.events.dropped_count, d.links.dropped_count)
    });
    c.seen(h64(&(k, pre)), true);
    c.count("spans_checked", 1);
}

/// one span used by several threads through contexts
fn shared(c: &Case, r: &mut Rng) {
    let log: Log = Default::default();
    let np = 1 + r.idx(2);
    let limited = r.chance(1, 3);
    let lim = if limited { 20 } else { 4000 };
    let mut b = SdkTracerProvider::builder().with_max_attributes_per_span(lim).with_max_events_per_span(lim);
    for i in 0..np {
        b = b.with_span_processor(Rec::new(i, &log));
    }
    let tp = b.build();
    let t = tp.tracer("s");
    let nt = 2 + r.idx(4);
    let per = 5 + r.idx(30);
    let ender = r.below(3); // 0: nobody (drop), 1: the last thread midway, 2: all of them at the end
    let cx = Context::new().with_span(t.start_with_context("s", &Context::new()));
    let id = cx.span().span_context().span_id();
    let bar = Barrier::new(nt);
    // per thread: operations surely done before any end was called
    let ended = std::sync::atomic::AtomicBool::new(false);
    let sure: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    let lag = r.below(200);
    std::thread::scope(|sc| {
        for ti in 0..nt {
            let (cx, bar, ended, sure) = (cx.clone(), &bar, &ended, &sure);
            sc.spawn(move || {
                let _g = if ti % 2 == 0 { Some(cx.clone().attach()) } else { None };
                bar.wait();
                let mut n = 0;
                for i in 0..per {
                    let kv = KeyValue::new(format!("t{ti}"), i as i64);
                    let go = |s: SpanRef<'_>| {
                        s.set_attribute(kv.clone());
                        s.add_event(format!("t{ti}.{i}"), vec![]);
                    };
                    if ti % 2 == 0 {
                        get_active_span(go);
                    } else {
                        go(cx.span());
                    }
                    // nobody has called end yet: it is recording, whoever else uses it right now
                    let rec = cx.span().is_recording();
                    if !ended.load(std::sync::atomic::Ordering::SeqCst) {
                        n = i + 1;
                        if !rec {
                            sure.lock().unwrap().push((usize::MAX - 1, 0));
                        }
                    }
                    if ender == 1 && ti == nt - 1 && i == per / 2 {
                        std::thread::sleep(Duration::from_micros(lag));
                        ended.store(true, std::sync::atomic::Ordering::SeqCst);
                        cx.span().end();
                        if cx.span().is_recording() {
                            sure.lock().unwrap().push((usize::MAX, 0));
                        }
                    }
                }
                sure.lock().unwrap().push((ti, n));
                if ender == 2 {
                    bar.wait();
                    cx.span().end();
                }
            });
        }
    });
    drop(cx);
    let g = log.lock().unwrap();
    let trace = format!("{nt} threads x {per}, end mode {ender}, limit {lim}, {np} processors");
    let ends: Vec<&SpanData> = g.iter().filter_map(|e| if let PEv::End(_, d) = e { (d.span_context.span_id() == id).then_some(d) } else { None }).collect();
    if !c.check(ends.len() == np, "on-end-calls", || format!("{} on_end calls for {np} processors; {trace}", ends.len())) {
        return;
    }
    let sure = sure.into_inner().unwrap();
    c.check(!sure.iter().any(|s| s.0 == usize::MAX), "is-recording", || trace.clone());
    c.check(!sure.iter().any(|s| s.0 == usize::MAX - 1), "not-recording-in-use", || format!("is_recording was false while another thread used the live span; {trace}"));
    for d in ends {
        let mut cnt = vec![0usize; nt];
        for a in &d.attributes {
            let ti: usize = a.key.as_str()[1..].parse().unwrap();
            let v = if let opentelemetry::Value::I64(x) = a.value { x as usize } else { usize::MAX };
            if !c.check(v == cnt[ti] || (limited && v > cnt[ti]), "shared-attributes", || format!("thread {ti}: attribute {v} after {}; {trace}", cnt[ti])) {
                return;
            }
            cnt[ti] = v + 1;
        }
        let mut ecnt = vec![0usize; nt];
        for e in &d.events.events {
            let (ti, v) = e.name[1..].split_once('.').unwrap();
            let (ti, v): (usize, usize) = (ti.parse().unwrap(), v.parse().unwrap());
            if !c.check(v == ecnt[ti] || (limited && v > ecnt[ti]), "shared-events", || format!("thread {ti}: event {v} after {}; {trace}", ecnt[ti])) {
                return;
            }
            ecnt[ti] = v + 1;
        }
        let total = d.attributes.len() + d.dropped_attributes_count as usize;
        let need: usize = sure.iter().filter(|s| s.0 < nt).map(|s| s.1).sum();
        c.check(total >= need && total <= nt * per, "shared-lost", || format!("{total} attributes offered according to the span, between {need} and {} expected; {trace}", nt * per));
        if ender != 1 {
            c.check(total == nt * per && d.events.events.len() + d.events.dropped_count as usize == nt * per, "shared-lost", || format!("{total} attributes, {} events of {}; {trace}", d.events.events.len(), nt * per));
        }
        if !limited {
            for (ti, n) in sure.iter().filter(|s| s.0 < nt) {
                c.check(cnt[*ti] >= *n && ecnt[*ti] >= *n, "shared-lost", || format!("thread {ti} did {n} operations before the end, {} attributes and {} events exported; {trace}", cnt[*ti], ecnt[*ti]));
            }
        } else {
            c.check(d.attributes.len() <= lim as usize && d.events.events.len() <= lim as usize, "shared-limit", || trace.clone());
        }
        let order: Vec<String> = d.attributes.iter().map(|a| format!("{}{:?}", a.key, a.value)).collect();
        c.seen(h64(&order), true);
    }
    c.count("spans_checked", 1);
    c.count("operations", (nt * per * 2) as u64);
    c.sample(|| trace.clone());
}
