//! C01: the per-thread stack of attached contexts.
use hsdk::slib;
use hsdk::*;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::trace::*;
use opentelemetry::{Context, ContextGuard, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::trace::{Sampler, SdkTracer, SdkTracerProvider, Span as SdkSpan, SpanData, SpanProcessor};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};

pub fn run(ctx: &Ctx) {
    ctx.require("currents_checked", 20_000);
    ctx.require("out_of_order_drops", 1000);
    ctx.require("reentrant_drops", 500);
    ctx.require("attached_by_drops", 100);
    ctx.require("immutability_checks", 2000);
    ctx.require("attaches_beyond_maximum", 20);
    ctx.require("threads_exited_with_context", 50);
    ctx.section("stack", 0.45, 4, 200, stack);
    ctx.section("threads", 0.2, 2, 30, threads);
    ctx.section("deep", 0.2, 2, 3, deep);
    ctx.section("thread-exit", 0.15, 2, 40, thread_exit);
}

#[derive(Debug, PartialEq, Clone)]
pub struct Val<const N: usize>(pub u64);

/// what a context must contain
#[derive(Clone, Debug, Default, PartialEq)]
pub struct MCx {
    vals: [Option<u64>; 4],
    span: Option<SpanContext>,
    bag: Option<u64>,
    sup: bool,
}
impl MCx {
    pub fn diff(&self, cx: &Context) -> Option<String> {
        let vals = [cx.get::<Val<0>>().map(|x| x.0), cx.get::<Val<1>>().map(|x| x.0), cx.get::<Val<2>>().map(|x| x.0), cx.get::<Val<3>>().map(|x| x.0)];
        if vals != self.vals {
            return Some(format!("values {vals:?}, expected {:?}", self.vals));
        }
        let span = cx.has_active_span().then(|| cx.span().span_context().clone());
        if span != self.span {
            return Some(format!("span {span:?}, expected {:?}", self.span));
        }
        if cx.span().span_context() != self.span.as_ref().unwrap_or(&SpanContext::NONE) {
            return Some("span() without an active span is not the empty one".into());
        }
        let bag = cx.baggage().get("n").map(|v| v.as_str().parse::<u64>().unwrap_or(u64::MAX));
        if bag != self.bag || cx.baggage().len() != self.bag.is_some() as usize {
            return Some(format!("baggage {:?}, expected n={:?}", cx.baggage(), self.bag));
        }
        if cx.is_telemetry_suppressed() != self.sup {
            return Some(format!("suppressed={}", cx.is_telemetry_suppressed()));
        }
        None
    }
}

struct Entry {
    m: MCx,
    guard: Option<ContextGuard>,
}
#[derive(Default)]
struct Model {
    stack: Vec<Entry>,
    err: Option<String>,
    checks: u64,
    reent: u64,
    kept: u64,
    handler_depth: u32,
}
thread_local! {
    static MODEL: RefCell<Model> = RefCell::new(Model::default());
}
fn model<T>(f: impl FnOnce(&mut Model) -> T) -> T {
    MODEL.with(|m| f(&mut m.borrow_mut()))
}
fn top() -> MCx {
    model(|m| m.stack.last().map(|e| e.m.clone()).unwrap_or_default())
}
fn err(s: String) {
    model(|m| {
        m.err.get_or_insert(s);
    })
}
/// every way of asking for the current context must give the top of the stack
fn check_current(when: &str) {
    let want = top();
    model(|m| m.checks += 1);
    if let Some(d) = want.diff(&Context::current()) {
        err(format!("{when}: current(): {d}"));
    }
    if let Some(d) = Context::map_current(|cx| Context::map_current(|cx2| want.diff(cx).or(want.diff(cx2)))) {
        err(format!("{when}: map_current(): {d}"));
    }
    if Context::is_current_telemetry_suppressed() != want.sup {
        err(format!("{when}: is_current_telemetry_suppressed"));
    }
    let sc = get_active_span(|s| s.span_context().clone());
    if sc != want.span.clone().unwrap_or(SpanContext::NONE) {
        err(format!("{when}: get_active_span gives {sc:?}"));
    }
    let d = Context::current_with_value(Val::<3>(u64::MAX));
    let mut w = want.clone();
    w.vals[3] = Some(u64::MAX);
    if let Some(d) = w.diff(&d) {
        err(format!("{when}: current_with_value: {d}"));
    }
}
fn attach(cx: Context, m: MCx) {
    let g = cx.attach();
    model(|x| x.stack.push(Entry { m, guard: Some(g) }));
}
fn drop_at(i: usize) {
    // the model first: code that runs while the guard is dropped sees what is left
    let e = model(|m| m.stack.remove(i));
    drop(e.guard);
}

/// user code run when a value, span or context is dropped
#[derive(Debug, Clone, Copy)]
enum Script {
    Check,
    AttachDrop,
    Keep,
    Derive,
    Suppress,
}
static NEXT: AtomicU64 = AtomicU64::new(1);
fn handler(s: Script) {
    if MODEL.try_with(|m| m.try_borrow_mut().map(|mut m| {
        m.reent += 1;
        m.handler_depth += 1;
    }).is_err()).unwrap_or(true)
    {
        return;
    }
    check_current("inside a drop");
    match s {
        Script::Check => {}
        Script::AttachDrop => {
            let n = NEXT.fetch_add(1, SeqCst);
            let mut m = top();
            m.vals[0] = Some(n);
            attach(Context::current_with_value(Val::<0>(n)), m);
            check_current("attached inside a drop");
            let i = model(|m| m.stack.len()) - 1;
            drop_at(i);
        }
        Script::Keep => {
            let n = NEXT.fetch_add(1, SeqCst);
            let m = MCx { vals: [None, Some(n), None, None], ..Default::default() };
            attach(Context::new().with_value(Val::<1>(n)), m);
            model(|m| m.kept += 1);
        }
        Script::Derive => {
            let cx = Context::current().with_value(Val::<2>(7)).with_remote_span_context(SpanContext::NONE);
            drop(cx);
        }
        Script::Suppress => {
            let g = Context::enter_telemetry_suppressed_scope();
            if !Context::is_current_telemetry_suppressed() {
                err("suppressed scope inside a drop has no effect".into());
            }
            drop(g);
        }
    }
    check_current("at the end of a drop");
    model(|m| m.handler_depth -= 1);
}
#[derive(Debug)]
struct OnDrop(Script);
impl Drop for OnDrop {
    fn drop(&mut self) {
        handler(self.0);
    }
}
/// ending a span runs user code, too
#[derive(Debug)]
struct Proc;
impl SpanProcessor for Proc {
    fn on_start(&self, _: &mut SdkSpan, cx: &Context) {
        let _ = cx.has_active_span();
        // not attaching: starting a span borrows the current context, as documented
        drop(Context::current_with_value(Val::<0>(1)));
    }
    fn on_end(&self, s: SpanData) {
        handler(match s.name.as_ref() {
            "keep" => Script::Keep,
            "attach" => Script::AttachDrop,
            "suppress" => Script::Suppress,
            _ => Script::Check,
        });
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
fn tracer() -> &'static SdkTracer {
    static P: OnceLock<SdkTracer> = OnceLock::new();
    P.get_or_init(|| SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn).with_span_processor(Proc).build().tracer("t"))
}
fn rscript(r: &mut Rng) -> Script {
    *r.pick(&[Script::Check, Script::AttachDrop, Script::Keep, Script::Derive, Script::Suppress])
}

/// derives a context from another one
fn derive(r: &mut Rng, cx: &Context, m: &MCx, t: &mut String) -> (Context, MCx) {
    let n = NEXT.fetch_add(1, SeqCst);
    let mut m = m.clone();
    let out = match r.below(12) {
        0 | 1 => {
            m.vals[0] = Some(n);
            *t += " v0";
            cx.with_value(Val::<0>(n))
        }
        2 => {
            m.vals[1] = Some(n);
            *t += " v1";
            cx.with_value(Val::<1>(n))
        }
        3 => {
            m.vals[2] = Some(n);
            m.vals[3] = Some(n + 1);
            *t += " v23";
            cx.with_value(Val::<2>(0)).with_value(Val::<3>(n + 1)).with_value(Val::<2>(n))
        }
        4 => {
            let sc = if r.p(0.1) { SpanContext::NONE } else { slib::valid_ctx(r) };
            m.span = Some(sc.clone());
            *t += " remote";
            cx.with_remote_span_context(sc)
        }
        5 => {
            if m.sup {
                // spans are not made there; still an (empty) active one
                m.span = Some(SpanContext::NONE);
                let s = tracer().build_with_context(SpanBuilder::from_name("x"), cx);
                *t += " span-suppressed";
                cx.with_span(s)
            } else {
                let name = *r.pick(&["keep", "attach", "suppress", "check"]);
                let s = tracer().build_with_context(SpanBuilder::from_name(name), cx);
                m.span = Some(s.span_context().clone());
                *t += &format!(" span-{name}");
                cx.with_span(s)
            }
        }
        6 => {
            m.bag = Some(n);
            *t += " bag";
            cx.with_baggage(vec![KeyValue::new("n", n.to_string())])
        }
        7 => {
            m.sup = true;
            *t += " sup";
            cx.with_telemetry_suppressed()
        }
        8 | 9 => {
            let s = rscript(r);
            *t += &format!(" {s:?}");
            cx.with_value(OnDrop(s))
        }
        10 => {
            *t += " clone";
            cx.clone()
        }
        _ => {
            // the same value type again: the later one counts
            m.vals[0] = Some(n);
            *t += " v0v0";
            cx.with_value(Val::<0>(n + 1)).with_value(Val::<0>(n))
        }
    };
    (out, m)
}

fn drive(c: &Case, r: &mut Rng, pool: &Mutex<Vec<(Context, MCx)>>, steps: usize) -> (String, bool) {
    let mut t = String::new();
    model(|m| *m = Model::default());
    check_current("at the start");
    let mut imm = 0;
    let mut ooo = 0;
    let mut held: Vec<(Context, MCx)> = vec![];
    for _ in 0..steps {
        let len = model(|m| m.stack.len());
        match r.below(14) {
            0 | 1 | 2 => {
                let (cx, m) = {
                    let p = pool.lock().unwrap();
                    p[r.idx(p.len())].clone()
                };
                t += " +pool";
                attach(cx, m);
            }
            3 | 4 => {
                let m = top();
                let (cx, m) = derive(r, &Context::current(), &m, &mut t);
                t += "+";
                attach(cx, m);
            }
            5 => {
                let n = NEXT.fetch_add(1, SeqCst);
                let mut m = top();
                let g = match r.below(3) {
                    0 => {
                        m.sup = true;
                        Context::enter_telemetry_suppressed_scope()
                    }
                    1 => {
                        m.vals[1] = Some(n);
                        Context::current_with_value(Val::<1>(n)).attach()
                    }
                    _ => {
                        let s = tracer().start("check");
                        m.span = Some(s.span_context().clone());
                        if m.sup {
                            m.span = Some(SpanContext::NONE);
                        }
                        mark_span_as_active(s)
                    }
                };
                t += " +direct";
                model(|x| x.stack.push(Entry { m, guard: Some(g) }));
            }
            6 | 7 | 8 if len > 0 => {
                t += " pop";
                drop_at(len - 1);
            }
            9 | 10 if len > 1 => {
                let i = r.idx(len - 1);
                t += &format!(" drop@{}", len - i);
                ooo += 1;
                drop_at(i);
            }
            11 => {
                let (cx, m) = {
                    let p = pool.lock().unwrap();
                    p[r.idx(p.len())].clone()
                };
                let d = derive(r, &cx, &m, &mut t);
                // the original is as it was
                imm += 1;
                if let Some(d) = m.diff(&cx) {
                    c.fail("context-changed", format!("{d}; {t}"));
                }
                if let Some(x) = d.1.diff(&d.0) {
                    c.fail("derived-context", format!("{x}; {t}"));
                }
                held.push(d.clone());
                let old = {
                    let mut p = pool.lock().unwrap();
                    if p.len() < 12 {
                        p.push(d);
                        None
                    } else {
                        let i = r.idx(p.len());
                        Some(std::mem::replace(&mut p[i], d))
                    }
                };
                drop(cx);
                drop(old);
                if held.len() > 4 {
                    let k = r.idx(held.len());
                    let h = held.remove(k);
                    drop(h);
                }
            }
            12 => {
                let cp: Vec<(Context, MCx)> = pool.lock().unwrap().iter().cloned().collect();
                for (cx, m) in &cp {
                    imm += 1;
                    if let Some(d) = m.diff(cx) {
                        c.fail("context-changed", format!("{d}; {t}"));
                    }
                }
                drop(cp);
            }
            _ => {
                // a panicking closure leaves the stack usable
                let e = std::panic::catch_unwind(|| Context::map_current(|_| panic!("vh-deliberate")));
                assert!(e.is_err());
                t += " panic";
            }
        }
        check_current("after a step");
        if let Some(e) = model(|m| m.err.take()) {
            c.fail("current-context", format!("{e}; steps:{t}"));
            break;
        }
    }
    // unwind in random order; drops may attach further contexts
    let mut n = 0;
    loop {
        let len = model(|m| m.stack.len());
        if len == 0 || n > 5000 {
            break;
        }
        let i = if r.p(0.4) { r.idx(len) } else { len - 1 };
        if i + 1 < len {
            ooo += 1;
        }
        drop_at(i);
        check_current("while unwinding");
        if model(|m| m.err.is_some()) {
            break;
        }
        n += 1;
    }
    drop(held);
    for _ in 0..50 {
        while let Some(i) = model(|m| m.stack.len().checked_sub(1)) {
            drop_at(i);
        }
    }
    check_current("at the end");
    let m = model(std::mem::take);
    if let Some(e) = m.err {
        c.fail("current-context", format!("{e}; steps:{t}; then unwinding"));
    }
    c.count("currents_checked", m.checks);
    c.count("reentrant_drops", m.reent);
    c.count("attached_by_drops", m.kept);
    c.count("out_of_order_drops", ooo);
    c.count("immutability_checks", imm);
    (t, m.checks > 3)
}

/// runs `f` on a thread of its own, whose stack is empty
fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| match s.spawn(f).join() {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    })
}

fn stack(c: &Case, r: &mut Rng) {
    let pool = Mutex::new(vec![(Context::new(), MCx::default())]);
    let n = 5 + r.idx(60);
    let (t, nt) = fresh(|| {
        let x = drive(c, r, &pool, n);
        // what the pool holds is dropped here, with this thread's (empty) stack
        let p = std::mem::take(&mut *pool.lock().unwrap());
        drop(p);
        while let Some(i) = model(|m| m.stack.len().checked_sub(1)) {
            drop_at(i);
        }
        check_current("after dropping the pool");
        if let Some(e) = model(|m| m.err.take()) {
            c.fail("current-context", format!("{e}; {}", x.0));
        }
        x
    });
    c.seen(h64(&t), nt);
    c.sample(|| t);
}
/// threads with stacks of their own, sharing contexts
fn threads(c: &Case, r: &mut Rng) {
    let pool = Mutex::new(vec![(Context::new(), MCx::default())]);
    let n = 2 + r.idx(3);
    let k = 20 + r.idx(60);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let bar = std::sync::Barrier::new(n);
    let ts: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|x| {
                let (pool, bar) = (&pool, &bar);
                s.spawn(move || {
                    let mut r = Rng::new(*x, 1);
                    bar.wait();
                    drive(c, &mut r, pool, k).0
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    fresh(|| {
        let p = std::mem::take(&mut *pool.lock().unwrap());
        drop(p);
        while let Some(i) = model(|m| m.stack.len().checked_sub(1)) {
            drop_at(i);
        }
    });
    c.seen(h64(&ts), true);
}

/// up to and beyond the supported 65535 contexts
fn deep(c: &Case, r: &mut Rng) {
    fresh(|| {
        const MAX: usize = 65535; // the root context included
        let mut guards: Vec<Option<ContextGuard>> = vec![];
        let mut refused: Vec<ContextGuard> = vec![];
        let cur = || Context::map_current(|cx| cx.get::<Val<0>>().map(|x| x.0));
        let mut checks = 0u64;
        macro_rules! check {
            ($when:expr) => {{
                checks += 1;
                let want = guards.iter().rposition(|g| g.is_some()).map(|i| i as u64);
                let got = cur();
                if got != want {
                    c.fail("deep-current", format!("{}: current is {got:?}, expected {want:?} of {}", $when, guards.len()));
                    return;
                }
            }};
        }
        let base = Context::new();
        // with gaps, positions are used up faster than contexts are alive
        while guards.len() < MAX - 1 {
            guards.push(Some(base.with_value(Val::<0>(guards.len() as u64)).attach()));
            if guards.len() % 4099 == 0 {
                check!("growing");
            }
            if r.p(0.001) && guards.len() > 2 {
                let k = r.idx(guards.len() - 1);
                guards[k] = None;
                check!("gap");
            }
        }
        check!("full");
        for round in 0..4 + r.idx(4) {
            // beyond: nothing happens, whatever becomes of the guards
            for _ in 0..2 + r.idx(30) {
                refused.push(base.with_value(Val::<0>(u64::MAX)).attach());
                check!("beyond");
            }
            let _ = Context::current_with_value(Val::<1>(3));
            while !refused.is_empty() && r.p(0.9) {
                let k = r.idx(refused.len());
                drop(refused.swap_remove(k));
                check!("dropping refused");
            }
            c.count("attaches_beyond_maximum", 2);
            // some room, and full again
            let k = 1 + r.idx(40);
            for _ in 0..k {
                let l = guards.iter().rposition(|g| g.is_some()).unwrap();
                guards[l] = None;
                guards.truncate(l);
                check!("making room");
            }
            while guards.last().is_some_and(|g| g.is_none()) {
                guards.pop();
            }
            while guards.len() < MAX - 1 {
                guards.push(Some(base.with_value(Val::<0>(guards.len() as u64)).attach()));
            }
            check!(format!("full again, round {round}"));
        }
        // everything goes, in mixed order
        let mut order: Vec<usize> = (0..guards.len()).collect();
        let style = r.below(3);
        match style {
            0 => order.reverse(),
            1 => r.shuffle(&mut order),
            _ => {}
        }
        for (n, k) in order.into_iter().enumerate() {
            guards[k] = None;
            if n % 997 == 0 || guards.len() - n < 20 {
                // finding the top is linear: not every time
                check!("emptying");
            }
        }
        drop(refused);
        check!("empty");
        let g = base.with_value(Val::<0>(1)).attach();
        c.check(cur() == Some(1), "deep-current", || "attach after everything was dropped has no effect".into());
        drop(g);
        c.check(cur().is_none(), "deep-current", || "left over".into());
        c.count("currents_checked", checks);
        c.seen(h64(&(style, checks)), true);
    });
}

/// contexts and guards still alive when their thread exits
fn thread_exit(c: &Case, r: &mut Rng) {
    thread_local! {
        static LATE: RefCell<Vec<Late>> = const { RefCell::new(vec![]) };
    }
    struct Late(#[allow(dead_code)] Option<ContextGuard>, #[allow(dead_code)] Option<Context>);
    #[derive(Debug)]
    struct UseApi;
    impl Drop for UseApi {
        fn drop(&mut self) {
            let cx = Context::current();
            let g = cx.with_value(Val::<0>(5)).attach();
            let _ = Context::is_current_telemetry_suppressed();
            let _ = get_active_span(|s| s.span_context().is_valid());
            drop(g);
            drop(Context::enter_telemetry_suppressed_scope());
            tracer().start("late").end();
        }
    }
    impl Drop for Late {
        fn drop(&mut self) {
            drop(UseApi);
        }
    }
    let early = r.bool(); // which of the two thread-locals is destroyed first
    let n = 1 + r.idx(4);
    let kinds: Vec<u64> = (0..n).map(|_| r.below(5)).collect();
    let res = std::thread::spawn({
        let kinds = kinds.clone();
        move || {
            if early {
                LATE.with(|l| l.borrow_mut().push(Late(None, None)));
            }
            for k in kinds {
                let cx = Context::current_with_value(UseApi);
                match k {
                    0 => std::mem::forget(cx.attach()),
                    1 => {
                        let g = cx.attach();
                        LATE.with(|l| l.borrow_mut().push(Late(Some(g), None)));
                    }
                    2 => LATE.with(|l| l.borrow_mut().push(Late(None, Some(cx)))),
                    3 => {
                        let g = Context::current_with_span(tracer().start("attach")).attach();
                        LATE.with(|l| l.borrow_mut().push(Late(Some(g), Some(cx))));
                    }
                    _ => std::mem::forget(Context::current_with_span(tracer().start("check")).attach()),
                }
            }
            Context::current().get::<Val<0>>().is_none()
        }
    })
    .join();
    c.check(matches!(res, Ok(true)), "thread-exit", || format!("{kinds:?}: {:?}", res.as_ref().map_err(|_| "panicked")));
    c.count("threads_exited_with_context", 1);
    c.seen(h64(&(early, &kinds)), true);
    
}
