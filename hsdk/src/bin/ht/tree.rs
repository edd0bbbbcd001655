//! T04 (sampling) and T05 (parentage, identifiers).
use hsdk::plib::*;
use hsdk::slib::*;
use hsdk::*;
use opentelemetry::trace::*;
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::trace::{BatchSpanProcessor, IdGenerator, Sampler, SdkTracerProvider, ShouldSample, SimpleSpanProcessor, SpanData};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

type Log = Arc<Mutex<Vec<PEv>>>;

pub fn run_sampling(ctx: &Ctx) {
    ctx.require("ratio_decisions", 50_000);
    ctx.require("monotone_pairs", 10_000);
    ctx.require("share_checks", 3);
    ctx.require("outcomes_checked", 2000);
    ctx.require("record_only_spans", 200);
    ctx.section("ratio", 0.3, 4, 100, ratio);
    ctx.section("share", 0.1, 4, 6, share);
    ctx.section("parent", 0.2, 4, 200, parent);
    ctx.section("outcome", 0.4, 4, 100, outcome);
}
pub fn run_tree(ctx: &Ctx) {
    ctx.require("spans_checked", 2000);
    ctx.require("children", 500);
    ctx.require("remote_parents", 100);
    ctx.require("invalid_parents", 100);
    ctx.require("ids_compared", 20_000);
    ctx.section("tree", 0.5, 4, 100, tree);
    ctx.section("unique", 0.2, 1, 2, unique);
    let _inj = hsdk::perturb::Injector::start(ctx.seed, 150);
    ctx.section("threads", 0.3, 2, 20, threads);
}

// ---- T04 -----------------------------------------------------------------------------
fn rratio(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => -r.f01(),
        3 => 1.0 + r.f01(),
        4 => f64::MIN_POSITIVE,
        5 => 1.0 - f64::EPSILON / 2.0,
        6 => 2f64.powi(-(r.below(64) as i32)),
        7 => 0.5,
        8 => r.f01() * 1e-6,
        _ => r.f01(),
    }
}
fn rtid(r: &mut Rng) -> TraceId {
    tid_of(match r.below(8) {
        0 => r.u64() as u128 | 1,
        1 => (r.u64() as u128) << 64,
        2 => u128::MAX,
        3 => 1,
        4 => (1u128 << 63) << (r.below(3)),
        _ => r.u128(),
    })
}
fn sampled(s: &Sampler, cx: Option<&Context>, t: TraceId, r: &mut Rng) -> bool {
    let name = r.text(5);
    let (k, a) = (rkind(r), rkvs(r, 3));
    let l = vec![Link::new(valid_ctx(r), vec![], 0)];
    s.should_sample(cx, t, &name, &k, &a, &l).decision == SamplingDecision::RecordAndSample
}
fn rcx(r: &mut Rng) -> Option<Context> {
    match r.below(3) {
        0 => None,
        1 => Some(Context::new()),
        _ => Some(Context::new().with_remote_span_context(rctx(r))),
    }
}
fn ratio(c: &Case, r: &mut Rng) {
    let mut ratios: Vec<f64> = (0..4).map(|_| rratio(r)).collect();
    ratios.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let ss: Vec<Sampler> = ratios.iter().map(|x| Sampler::TraceIdRatioBased(*x)).collect();
    for _ in 0..40 {
        let t = rtid(r);
        let mut prev = false;
        for (i, s) in ss.iter().enumerate() {
            let cx = rcx(r);
            let d = sampled(s, cx.as_ref(), t, r);
            let cx2 = rcx(r);
            let e = sampled(&s.clone(), cx2.as_ref(), t, r);
            c.count("ratio_decisions", 2);
            if !c.check(d == e, "not-a-function-of-trace-id", || format!("trace {t} at ratio {}: {d} and {e} for different parents/names/attributes", ratios[i])) {
                return;
            }
            if i > 0 {
                c.count("monotone_pairs", 1);
                if !c.check(!prev || d, "not-monotone", || format!("trace {t} sampled at ratio {} but not at {}", ratios[i - 1], ratios[i])) {
                    return;
                }
            }
            if ratios[i] <= 0.0 && !c.check(!d, "sampled-at-0", || format!("trace {t} at ratio {}", ratios[i])) {
                return;
            }
            if ratios[i] >= 1.0 && !c.check(d, "dropped-at-1", || format!("trace {t} at ratio {}", ratios[i])) {
                return;
            }
            prev = d;
        }
    }
    c.seen(h64(&ratios.iter().map(|x| x.to_bits()).collect::<Vec<_>>()), true);
}
fn share(c: &Case, r: &mut Rng) {
    let x = r.f01();
    let p = *r.pick(&[0.5, 0.25, 0.1, 0.9, 0.01, 0.75, 0.333, x]);
    let s = Sampler::TraceIdRatioBased(p);
    let n = 20_000;
    // ids as the SDK itself generates them
    let g = opentelemetry_sdk::trace::RandomIdGenerator::default();
    let hits = (0..n).filter(|_| s.should_sample(None, g.new_trace_id(), "n", &SpanKind::Internal, &[], &[]).decision == SamplingDecision::RecordAndSample).count();
    let (mean, sd) = (n as f64 * p, (n as f64 * p * (1.0 - p)).sqrt());
    c.check((hits as f64 - mean).abs() <= 7.0 * sd + 3.0, "share", || format!("ratio {p}: {hits} of {n} random traces sampled (expected {mean:.0} +- {sd:.1})"));
    c.count("share_checks", 1);
    c.seen(h64(&hits), true);
}

/// returns whatever it was told to
#[derive(Clone, Debug)]
struct Scripted(Arc<Mutex<SamplingResult>>, Arc<AtomicU64>);
impl ShouldSample for Scripted {
    fn should_sample(&self, _: Option<&Context>, _: TraceId, _: &str, _: &SpanKind, _: &[KeyValue], _: &[Link]) -> SamplingResult {
        self.1.fetch_add(1, SeqCst);
        self.0.lock().unwrap().clone()
    }
}
fn rresult(r: &mut Rng) -> SamplingResult {
    SamplingResult {
        decision: r.pick(&[SamplingDecision::Drop, SamplingDecision::RecordOnly, SamplingDecision::RecordAndSample]).clone(),
        attributes: rkvs(r, 3),
        trace_state: rstate(r),
    }
}
fn parent(c: &Case, r: &mut Rng) {
    let root = rresult(r);
    let calls = Arc::new(AtomicU64::new(0));
    let s = Sampler::ParentBased(Box::new(Scripted(Arc::new(Mutex::new(root.clone())), calls.clone())));
    let psc = valid_ctx(r);
    let mode = r.below(5);
    let cx = match mode {
        0 => None,
        1 => Some(Context::new()),
        2 => Some(Context::new().with_value(17u64)),
        3 => Some(Context::new().with_remote_span_context(psc.clone())),
        _ => {
            // a live local span as parent
            let tp = SdkTracerProvider::builder().with_sampler(if psc.is_sampled() { Sampler::AlwaysOn } else { Sampler::AlwaysOff }).build();
            let t = tp.tracer("p");
            let cx = Context::new().with_remote_span_context(psc.clone());
            let span = t.start_with_context("parent", &cx);
            Some(cx.with_span(span))
        }
    };
    let t = if mode >= 3 { psc.trace_id() } else { rtid(r) };
    let (name, kind, attrs) = (r.text(6), rkind(r), rkvs(r, 3));
    let links: Vec<Link> = (0..r.below(4)).map(|_| Link::new(rctx(r), rkvs(r, 2), 0)).collect();
    let res = s.should_sample(cx.as_ref(), t, &name, &kind, &attrs, &links);
    let what = || format!("{kind:?} with links {links:?}, parent mode {mode}, parent {psc:?}, root result {root:?}: got {res:?}");
    if mode < 3 {
        c.check(res == root && calls.load(SeqCst) == 1, "root-sampler-result", what);
    } else {
        let want = if psc.is_sampled() { SamplingDecision::RecordAndSample } else { SamplingDecision::Drop };
        c.check(res.decision == want, "parent-flag-not-followed", what);
        c.check(calls.load(SeqCst) == 0, "root-sampler-consulted", what);
        c.check(&res.trace_state == psc.trace_state(), "parent-trace-state", what);
    }
    // the other built-in samplers are constant
    c.check(sampled(&Sampler::AlwaysOn, cx.as_ref(), t, r), "always-on", || format!("{t}"));
    c.check(!sampled(&Sampler::AlwaysOff, cx.as_ref(), t, r), "always-off", || format!("{t}"));
    c.seen(h64(&format!("{psc:?}{mode}{root:?}")), true);
}

/// what each decision leads to, at every kind of processor
fn outcome(c: &Case, r: &mut Rng) {
    let log: Log = Default::default();
    let res = Arc::new(Mutex::new(rresult(r)));
    let mk = || Arc::new(ExpLog::default());
    let (simple, batch, abatch) = (mk(), mk(), mk());
    let with_async = r.chance(1, 3);
    let mut b = SdkTracerProvider::builder()
        .with_sampler(Scripted(res.clone(), Default::default()))
        .with_span_processor(Rec::new(0, &log))
        .with_span_processor(SimpleSpanProcessor::new(SpanExp(simple.clone())))
        .with_span_processor(BatchSpanProcessor::builder(SpanExp(batch.clone())).build());
    if with_async {
        let _g = rt().enter();
        b = b.with_span_processor(
            opentelemetry_sdk::trace::span_processor_with_async_runtime::BatchSpanProcessor::builder(SpanExp(abatch.clone()), opentelemetry_sdk::runtime::Tokio).build(),
        );
    }
    let tp = b.build();
    let t = tp.tracer("o");
    let n = 3 + r.idx(10);
    let mut sampled = HashSet::new();
    let mut record_only = HashSet::new();
    for i in 0..n as u64 {
        let sr = rresult(r);
        let pre = r.chance(1, 4);
        if !pre {
            *res.lock().unwrap() = sr.clone();
        }
        let psc = if r.chance(1, 3) { SpanContext::NONE } else { valid_ctx(r) };
        let cx = if psc.is_valid() { Context::new().with_remote_span_context(psc.clone()) } else { Context::new() };
        let n0 = log.lock().unwrap().len();
        let mut bld = t.span_builder("x").with_attributes(vec![KeyValue::new("id", i as i64)]);
        if pre {
            // decided beforehand, as tracing-opentelemetry does
            bld = bld.with_sampling_result(sr.clone());
        }
        let mut s = t.build_with_context(bld, &cx);
        let sc = s.span_context().clone();
        let rec = s.is_recording();
        s.set_attribute(KeyValue::new("later", true));
        if r.bool() {
            s.end();
        }
        drop(s);
        let evs: Vec<PEv> = log.lock().unwrap()[n0..].to_vec();
        let what = || format!("decision {sr:?} (pre-sampled {pre}), parent {psc:?}: span {sc:?}, recording {rec}, {} processor calls", evs.len());
        c.check(sc.trace_state() == &sr.trace_state, "sampler-trace-state", what);
        c.check(!sc.is_remote() && sc.is_valid(), "span-context", what);
        match sr.decision {
            SamplingDecision::Drop => {
                c.check(!rec && !sc.is_sampled(), "dropped-span-state", what);
                c.check(evs.is_empty(), "dropped-span-processed", what);
            }
            _ => {
                let want = sr.decision == SamplingDecision::RecordAndSample;
                c.check(rec && sc.is_sampled() == want, "span-flag", what);
                c.check(evs.len() == 2, "processor-calls", what);
                if let Some(PEv::End(_, d)) = evs.last() {
                    let mut a = vec![KeyValue::new("id", i as i64)];
                    a.extend(sr.attributes.iter().cloned());
                    a.push(KeyValue::new("later", true));
                    c.check(txt(&d.attributes) == txt(&a), "sampler-attributes", || format!("{}; exported {}", what(), txt(&d.attributes)));
                    c.check(d.span_context == sc, "exported-context", || format!("{}; exported {:?}", what(), d.span_context));
                }
                if want {
                    sampled.insert(i);
                } else {
                    record_only.insert(i);
                    c.count("record_only_spans", 1);
                }
            }
        }
        c.count("outcomes_checked", 1);
    }
    let _ = tp.force_flush();
    for (name, l) in [("simple", &simple), ("batch", &batch), ("async-batch", &abatch)] {
        if name == "async-batch" && !with_async {
            continue;
        }
        let got: HashSet<u64> = l.order.lock().unwrap().iter().copied().collect();
        for x in &got {
            if record_only.contains(x) {
                c.fail(&format!("record-only-exported:{name}"), format!("the {name} span processor exported a record-only (unsampled) span"));
                break;
            }
        }
        let other: Vec<_> = got.iter().filter(|x| !sampled.contains(x) && !record_only.contains(x)).collect();
        c.check(other.is_empty(), &format!("dropped-exported:{name}"), || format!("{other:?}"));
        c.check(sampled.iter().all(|x| got.contains(x)), &format!("sampled-not-exported:{name}"), || format!("exported {got:?}, sampled {sampled:?}"));
    }
    let _ = tp.shutdown();
    c.seen(h64(&format!("{:?}", res.lock().unwrap())) ^ h64(&(n, sampled.len(), record_only.len())), true);
}

// ---- T05 -----------------------------------------------------------------------------
/// identifiers handed out in a known order
#[derive(Debug, Default)]
struct Seq {
    t: AtomicU64,
    s: AtomicU64,
}
#[derive(Debug)]
struct SeqGen(Arc<Seq>);
impl IdGenerator for SeqGen {
    fn new_trace_id(&self) -> TraceId {
        tid_of(0xabc << 64 | (self.0.t.fetch_add(1, SeqCst) + 1) as u128)
    }
    fn new_span_id(&self) -> SpanId {
        sid_of(0x5000_0000_0000 | (self.0.s.fetch_add(1, SeqCst) + 1))
    }
}
struct Node {
    cx: Context,
    sc: SpanContext,
    what: &'static str,
}
/// Grows a random tree over all kinds of parents, checking every new span against its parent.
fn tree(c: &Case, r: &mut Rng) {
    let log: Log = Default::default();
    let seq = Arc::new(Seq::default());
    let custom = r.chance(1, 3);
    let drops = r.chance(1, 2);
    let sampler: Box<dyn ShouldSample> = if drops { Box::new(Sampler::TraceIdRatioBased(0.6)) } else { Box::new(Sampler::AlwaysOn) };
    #[derive(Clone, Debug)]
    struct Dy(Box<dyn ShouldSample>);
    impl ShouldSample for Dy {
        fn should_sample(&self, a: Option<&Context>, b: TraceId, c: &str, d: &SpanKind, e: &[KeyValue], f: &[Link]) -> SamplingResult {
            self.0.should_sample(a, b, c, d, e, f)
        }
    }
    let mut b = SdkTracerProvider::builder().with_sampler(Dy(sampler)).with_span_processor(Rec::new(0, &log));
    if custom {
        b = b.with_id_generator(SeqGen(seq.clone()));
    }
    let tp = b.build();
    let other = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn).build();
    let tracers = [tp.tracer("a"), tp.tracer("b")];
    let mut nodes: Vec<Node> = vec![Node { cx: Context::new(), sc: SpanContext::NONE, what: "none" }];
    let mut ids = HashSet::new();
    let mut exported: HashMap<SpanId, (SpanContext, SpanId)> = HashMap::new();
    let mut trace = format!("custom ids {custom}, drops {drops}:");
    let mut kept = vec![];
    for _ in 0..4 + r.idx(30) {
        // extra parents
        match r.below(8) {
            0 => {
                let sc = valid_ctx(r);
                nodes.push(Node { cx: Context::new().with_remote_span_context(sc.clone()), sc, what: "remote" });
            }
            1 => {
                let sc = rctx(r);
                let what = if sc.is_valid() { "remote" } else { "invalid" };
                nodes.push(Node { cx: nodes[r.idx(nodes.len())].cx.clone().with_remote_span_context(sc.clone()), sc, what });
            }
            2 => {
                let p = r.idx(nodes.len());
                nodes.push(Node { cx: nodes[p].cx.with_value(r.u64()), sc: nodes[p].sc.clone(), what: nodes[p].what });
            }
            3 => {
                let s = other.tracer("o").start_with_context("o", &nodes[r.idx(nodes.len())].cx);
                let sc = s.span_context().clone();
                nodes.push(Node { cx: Context::new().with_span(s), what: if sc.is_valid() { "foreign" } else { "invalid" }, sc });
            }
            4 if r.bool() => {
                let p = r.idx(nodes.len());
                nodes.push(Node { cx: nodes[p].cx.with_telemetry_suppressed(), sc: SpanContext::NONE, what: "suppressed" });
            }
            _ => {}
        }
        let p = r.idx(nodes.len());
        let (pcx, psc, pw) = (nodes[p].cx.clone(), nodes[p].sc.clone(), nodes[p].what);
        let t = &tracers[r.idx(2)];
        let mut bld = t.span_builder("n");
        let xs = r.chance(1, 8).then(|| sid_of(r.u64() | 1));
        let xt = r.chance(1, 8).then(|| tid_of(r.u128() | 1));
        if let Some(x) = xs {
            bld = bld.with_span_id(x);
        }
        if let Some(x) = xt {
            bld = bld.with_trace_id(x);
        }
        let (ts0, ss0) = (seq.t.load(SeqCst), seq.s.load(SeqCst));
        let how = r.below(4);
        let s = match how {
            0 => {
                // the current context decides
                let _g = pcx.clone().attach();
                bld.start(t)
            }
            1 => {
                let _g = pcx.clone().attach();
                t.build(bld)
            }
            2 => {
                // an explicit parent wins over the current context
                let _g = nodes[r.idx(nodes.len())].cx.clone().attach();
                t.build_with_context(bld, &pcx)
            }
            _ => bld.start_with_context(t, &pcx),
        };
        let sc = s.span_context().clone();
        trace += &format!(" {pw}/{how}{}{}", if xs.is_some() { "+sid" } else { "" }, if xt.is_some() { "+tid" } else { "" });
        let what = || format!("parent ({pw}) {psc:?} -> span {sc:?}, explicit ids {xs:?} {xt:?}; {trace}");
        if pcx.is_telemetry_suppressed() {
            c.check(!sc.is_valid() && !s.is_recording(), "suppressed-span", what);
            continue;
        }
        let valid_parent = psc.is_valid();
        c.count("spans_checked", 1);
        let mut ok = c.check(sc.is_valid(), "invalid-ids", what);
        ok &= c.check(!sc.is_remote(), "is-remote", what);
        if let Some(x) = xs {
            ok &= c.check(sc.span_id() == x, "explicit-span-id", what);
        } else {
            ok &= c.check(ids.insert(sc.span_id()), "span-id-reused", what);
            if custom {
                ok &= c.check(sc.span_id() == sid_of(0x5000_0000_0000 | (ss0 + 1)) && seq.s.load(SeqCst) == ss0 + 1, "generator-span-id", what);
            }
        }
        if valid_parent {
            ok &= c.check(sc.trace_id() == psc.trace_id(), "child-trace-id", what);
            c.count("children", 1);
            c.count(if pw == "remote" { "remote_parents" } else { "local_parents" }, 1);
            ok &= c.check(sc.trace_state() == psc.trace_state(), "child-trace-state", what);
        } else {
            if pw == "invalid" {
                c.count("invalid_parents", 1);
            }
            match xt {
                Some(x) => ok &= c.check(sc.trace_id() == x, "explicit-trace-id", what),
                None => {
                    ok &= c.check(nodes.iter().all(|n| n.sc.trace_id() != sc.trace_id()), "root-trace-not-fresh", what);
                    if custom {
                        ok &= c.check(sc.trace_id() == tid_of(0xabc << 64 | (ts0 + 1) as u128), "generator-trace-id", what);
                    }
                }
            }
        }
        if !ok {
            return;
        }
        let want_parent = if valid_parent { psc.span_id() } else { SpanId::INVALID };
        if s.is_recording() && xs.is_none() {
            exported.insert(sc.span_id(), (sc.clone(), want_parent));
        }
        match r.below(3) {
            0 => {
                let base = if r.bool() { pcx.clone() } else { Context::new() };
                let cx = base.with_span(s);
                // the context shows exactly this span
                let seen = cx.span().span_context().clone();
                if !c.check(seen == sc && cx.has_active_span(), "context-span", || format!("context shows {seen:?}; {}", format_args!("{sc:?}"))) {
                    return;
                }
                nodes.push(Node { cx, sc, what: "local" });
            }
            1 => {
                let guard = mark_span_as_active(s);
                let cx = Context::current();
                let seen = get_active_span(|s| s.span_context().clone());
                drop(guard);
                if !c.check(seen == sc, "active-span", || format!("active span is {seen:?}, expected {sc:?}")) {
                    return;
                }
                nodes.push(Node { cx, sc, what: "local" });
            }
            _ => kept.push(s),
        }
    }
    drop(kept);
    drop(nodes);
    let g = log.lock().unwrap();
    let mut found = 0;
    for e in g.iter() {
        if let PEv::End(_, d) = e {
            if let Some((sc, parent)) = exported.get(&d.span_context.span_id()) {
                found += 1;
                c.check(&d.span_context == sc, "exported-context", || format!("exported {:?}, API said {sc:?}; {trace}", d.span_context));
                c.check(d.parent_span_id == *parent, "parent-span-id", || format!("exported parent {}, expected {parent}; {trace}", d.parent_span_id));
            }
        }
    }
    c.check(found == exported.len(), "exported-count", || format!("{found} of {} recording spans exported; {trace}", exported.len()));
    c.seen(h64(&trace), true);
    c.sample(|| trace.clone());
}

/// generated ids never collide and are never zero, over threads
fn unique(c: &Case, r: &mut Rng) {
    let tp = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOff).build();
    let nt = 2 + r.idx(7);
    let per = 3000;
    let all: Mutex<Vec<(TraceId, SpanId)>> = Mutex::new(vec![]);
    let bar = Barrier::new(nt);
    std::thread::scope(|sc| {
        for _ in 0..nt {
            let (tp, all, bar) = (&tp, &all, &bar);
            sc.spawn(move || {
                let t = tp.tracer("u");
                bar.wait();
                let v: Vec<_> = (0..per)
                    .map(|_| {
                        let s = t.start_with_context("u", &Context::new());
                        (s.span_context().trace_id(), s.span_context().span_id())
                    })
                    .collect();
                all.lock().unwrap().extend(v);
            });
        }
    });
    let all = all.into_inner().unwrap();
    let (mut ts, mut ss) = (HashSet::new(), HashSet::new());
    for (t, s) in &all {
        if *t == TraceId::INVALID || *s == SpanId::INVALID || !ts.insert(*t) || !ss.insert(*s) {
            return c.fail("id-collision", format!("trace {t} span {s} is zero or generated twice among {} on {nt} threads", all.len()));
        }
    }
    c.count("ids_compared", all.len() as u64);
    c.seen(h64(&all[0].0.to_bytes()), true);
}

/// nesting in several threads sharing a provider: parents never cross threads
fn threads(c: &Case, r: &mut Rng) {
    let log: Log = Default::default();
    let tp = SdkTracerProvider::builder().with_span_processor(Rec::new(0, &log)).build();
    let nt = 2 + r.idx(4);
    let seeds: Vec<u64> = (0..nt).map(|_| r.u64()).collect();
    let expect: Mutex<HashMap<SpanId, (SpanContext, SpanId)>> = Mutex::default();
    let bar = Barrier::new(nt);
    let bad: Mutex<Vec<String>> = Mutex::default();
    std::thread::scope(|sc| {
        for seed in &seeds {
            let (tp, expect, bar, bad) = (&tp, &expect, &bar, &bad);
            let mut r = Rng::new(*seed, 5);
            sc.spawn(move || {
                let t = tp.tracer("w");
                fn go(t: &opentelemetry_sdk::trace::SdkTracer, r: &mut Rng, depth: usize, parent: &SpanContext, out: &mut Vec<(SpanContext, SpanId)>, bad: &Mutex<Vec<String>>) {
                    for _ in 0..1 + r.idx(3) {
                        t.in_span("n", |cx| {
                            let me = cx.span().span_context().clone();
                            if parent.is_valid() && me.trace_id() != parent.trace_id() {
                                bad.lock().unwrap().push(format!("child {me:?} of {parent:?}"));
                            }
                            let cur = Context::current().span().span_context().clone();
                            if cur != me {
                                bad.lock().unwrap().push(format!("current {cur:?} inside {me:?}"));
                            }
                            out.push((me.clone(), parent.span_id()));
                            if depth < 3 {
                                go(t, r, depth + 1, &me, out, bad);
                            }
                        });
                    }
                    let cur = Context::current().span().span_context().clone();
                    if &cur != parent {
                        bad.lock().unwrap().push(format!("current {cur:?} after children of {parent:?}"));
                    }
                }
                bar.wait();
                let mut out = vec![];
                go(&t, &mut r, 0, &SpanContext::NONE, &mut out, bad);
                let mut e = expect.lock().unwrap();
                for (sc, p) in out {
                    e.insert(sc.span_id(), (sc, p));
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    c.check(bad.is_empty(), "thread-parentage", || bad[0].clone());
    let expect = expect.into_inner().unwrap();
    let g = log.lock().unwrap();
    let ends: Vec<&SpanData> = g.iter().filter_map(|e| if let PEv::End(_, d) = e { Some(d) } else { None }).collect();
    c.check(ends.len() == expect.len(), "exported-count", || format!("{} exported, {} started", ends.len(), expect.len()));
    for d in ends {
        match expect.get(&d.span_context.span_id()) {
            Some((sc, p)) => {
                c.check(sc == &d.span_context && *p == d.parent_span_id, "parent-span-id", || format!("exported {:?} parent {}, expected {sc:?} parent {p}", d.span_context, d.parent_span_id));
            }
            None => {
                c.fail("exported-context", format!("unknown span {:?}", d.span_context));
            }
        }
        c.count("spans_checked", 1);
    }
    c.seen(h64(&seeds), true);
}
