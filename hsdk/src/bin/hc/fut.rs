//! C03: contexts attached to futures, streams and sinks.
use crate::ctxm::Val;
use futures_util::{Sink, SinkExt, Stream, StreamExt};
use hsdk::*;
use opentelemetry::context::FutureExt as _;
use opentelemetry::trace::*;
use opentelemetry::{Context, ContextGuard};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as TaskCx, Poll, Waker};

pub fn run(ctx: &Ctx) {
    ctx.require("polls", 20_000);
    ctx.require("panicking_polls", 100);
    ctx.require("polls_on_another_thread", 500);
    ctx.require("stream_polls", 1000);
    ctx.require("sink_calls", 1000);
    ctx.require("nested_polls", 1000);
    ctx.require("poller_checks", 10_000);
    ctx.section("tasks", 0.5, 4, 100, tasks);
    ctx.section("tokio", 0.15, 2, 10, on_tokio);
    ctx.require("polls_holding_guards", 2000);
    ctx.section("held-guards", 0.05, 2, 20, held);
    let _inj = hsdk::perturb::Injector::start(ctx.seed, 200);
    ctx.section("tasks-perturbed", 0.3, 3, 50, tasks);
}

/// what identifies a context: a value, its span, whether telemetry is suppressed in it
fn cur() -> Id {
    let cx = Context::current();
    (cx.get::<Val<0>>().map_or(0, |v| v.0), cx.span().span_context().clone(), cx.is_telemetry_suppressed())
}
type Id = (u64, SpanContext, bool);

#[derive(Default)]
struct Shared {
    errs: Mutex<Vec<(&'static str, String)>>,
    n: [std::sync::atomic::AtomicU64; 6],
}
impl Shared {
    fn err(&self, k: &'static str, d: String) {
        self.errs.lock().unwrap().push((k, d));
    }
    fn inc(&self, i: usize) {
        self.n[i].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    fn check(&self, want: &Id, key: &'static str) {
        let got = cur();
        if got != *want {
            self.err(key, format!("current is {got:?}, expected {want:?}"));
        }
    }
}

/// What a leaf does at each poll. The context it must see is fixed when it is built.
enum Leaf {
    Fut { left: u32, panics: bool },
    Stream(Pin<Box<dyn Stream<Item = u32> + Send>>),
    Sink(Pin<Box<dyn Sink<u32, Error = ()> + Send>>, u32, u32),
    Inner(Pin<Box<dyn Future<Output = ()> + Send>>),
    /// polls children of its own, each with its own context
    Join(Vec<Option<Pin<Box<dyn Future<Output = ()> + Send>>>>),
}
struct Task {
    sh: Arc<Shared>,
    want: Option<Id>, // None: whatever the poller has
    leaf: Leaf,
    attach_inside: bool,
    done: bool,
}
impl Future for Task {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, tcx: &mut TaskCx<'_>) -> Poll<()> {
        let me = &mut *self;
        me.sh.inc(0);
        if let Some(w) = &me.want {
            me.sh.check(w, "poll-context");
        }
        assert!(!me.done, "harness: polled after completion");
        let before = cur();
        let _g = me.attach_inside.then(|| Context::current_with_value(Val::<1>(1)).attach());
        let out = match &mut me.leaf {
            Leaf::Fut { left, panics } => {
                if *left == 0 {
                    if *panics {
                        me.done = true;
                        me.sh.inc(1);
                        let _extra = Context::current_with_value(Val::<0>(999)).attach();
                        panic!("vh-deliberate");
                    }
                    Poll::Ready(())
                } else {
                    *left -= 1;
                    Poll::Pending
                }
            }
            Leaf::Stream(s) => match s.as_mut().poll_next(tcx) {
                Poll::Ready(None) => Poll::Ready(()),
                _ => Poll::Pending,
            },
            Leaf::Sink(s, n, step) => {
                let r = match *step % 4 {
                    0 => s.as_mut().poll_ready(tcx).map(|_| ()),
                    1 => {
                        let _ = s.as_mut().start_send(*n);
                        *n = n.saturating_sub(1);
                        Poll::Ready(())
                    }
                    2 => s.as_mut().poll_flush(tcx).map(|_| ()),
                    _ => s.as_mut().poll_close(tcx).map(|_| ()),
                };
                if r.is_ready() {
                    *step = if *step == 2 && *n > 0 { 0 } else { *step + 1 };
                }
                if *step > 3 {
                    Poll::Ready(())
                } else {
                    Poll::Pending
                }
            }
            Leaf::Inner(f) => f.as_mut().poll(tcx),
            Leaf::Join(v) => {
                for x in v.iter_mut() {
                    if let Some(f) = x {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(tcx)));
                        if !matches!(r, Ok(Poll::Pending)) {
                            *x = None;
                        }
                        // between children, this task's own context again
                        me.sh.check(&before, "between-children");
                    }
                }
                if v.iter().all(|x| x.is_none()) {
                    Poll::Ready(())
                } else {
                    Poll::Pending
                }
            }
        };
        drop(_g);
        me.sh.check(&before, "after-inner-poll");
        if out.is_ready() {
            me.done = true;
        }
        out
    }
}
struct Str {
    sh: Arc<Shared>,
    want: Id,
    left: u32,
}
impl Stream for Str {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut TaskCx<'_>) -> Poll<Option<u32>> {
        self.sh.inc(3);
        self.sh.check(&self.want, "stream-context");
        if self.left == 0 {
            return Poll::Ready(None);
        }
        self.left -= 1;
        if self.left % 3 == 0 {
            Poll::Pending
        } else {
            Poll::Ready(Some(self.left))
        }
    }
}
struct Snk {
    sh: Arc<Shared>,
    want: Id,
    flip: bool,
}
impl Snk {
    fn see(&mut self) -> Poll<Result<(), ()>> {
        self.sh.inc(4);
        self.sh.check(&self.want, "sink-context");
        self.flip = !self.flip;
        if self.flip {
            Poll::Pending
        } else {
            Poll::Ready(Ok(()))
        }
    }
}
impl Sink<u32> for Snk {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, _: &mut TaskCx<'_>) -> Poll<Result<(), ()>> {
        self.see()
    }
    fn start_send(self: Pin<&mut Self>, _: u32) -> Result<(), ()> {
        self.sh.inc(4);
        self.sh.check(&self.want, "sink-context");
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut TaskCx<'_>) -> Poll<Result<(), ()>> {
        self.see()
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut TaskCx<'_>) -> Poll<Result<(), ()>> {
        self.see()
    }
}

fn rcx(r: &mut Rng, next: &mut u64) -> (Context, Id) {
    *next += 1;
    let n = *next;
    let mut cx = Context::new().with_value(Val::<0>(n));
    let quiet = r.p(0.25);
    if quiet {
        cx = cx.with_telemetry_suppressed();
    }
    if r.p(0.3) {
        let sc = hsdk::slib::valid_ctx(r);
        (cx.with_remote_span_context(sc.clone()), (n, sc, quiet))
    } else {
        (cx, (n, SpanContext::NONE, quiet))
    }
}
/// a task of random shape; with its context attached when `own`
fn build(r: &mut Rng, sh: &Arc<Shared>, next: &mut u64, inherited: Option<Id>, depth: u32, t: &mut String) -> Pin<Box<dyn Future<Output = ()> + Send>> {
    let own = inherited.is_none() && depth > 0 || r.p(0.8);
    let (cx, id) = rcx(r, next);
    let want = if own { Some(id.clone()) } else { inherited.clone() };
    let leaf = match r.below(if depth < 3 { 10 } else { 4 }) {
        0..=2 => {
            let panics = r.p(0.25);
            *t += if panics { " f!" } else { " f" };
            Leaf::Fut { left: r.below(6) as u32, panics }
        }
        3 => {
            *t += " f0";
            Leaf::Fut { left: 0, panics: false }
        }
        4 | 5 => {
            let (cx2, id2) = rcx(r, next);
            *t += " stream";
            let s = Str { sh: sh.clone(), want: id2, left: r.below(8) as u32 }.with_context(cx2);
            if r.bool() {
                Leaf::Stream(Box::pin(s))
            } else {
                // through an adaptor
                Leaf::Stream(Box::pin(s.map(|x| x + 1)))
            }
        }
        6 => {
            let (cx2, id2) = rcx(r, next);
            *t += " sink";
            let s = Snk { sh: sh.clone(), want: id2, flip: r.bool() }.with_context(cx2);
            let n = r.below(4) as u32;
            if r.bool() {
                Leaf::Sink(Box::pin(s), n, 0)
            } else {
                Leaf::Sink(Box::pin(SinkExt::<u32>::sink_map_err(s, |_| ())), n, 0)
            }
        }
        7 | 8 => {
            sh.inc(5);
            *t += " (";
            let f = build(r, sh, next, want.clone(), depth + 1, t);
            *t += ")";
            Leaf::Inner(f)
        }
        _ => {
            *t += " [";
            let n = 1 + r.idx(3);
            let v = (0..n).map(|_| Some(build(r, sh, next, want.clone(), depth + 1, t))).collect();
            *t += "]";
            Leaf::Join(v)
        }
    };
    let task = Task { sh: sh.clone(), want, leaf, attach_inside: r.p(0.3), done: false };
    if !own {
        return Box::pin(task);
    }
    match r.below(4) {
        // innermost wins
        0 => {
            let (outer, _) = rcx(r, next);
            Box::pin(task.with_context(cx).with_context(outer))
        }
        1 => {
            let g = cx.attach();
            let f = task.with_current_context();
            drop(g);
            Box::pin(f)
        }
        2 => Box::pin(async move { task.with_context(cx).await }),
        _ => Box::pin(task.with_context(cx)),
    }
}

fn finish(c: &Case, sh: &Shared, t: &str) {
    for (k, d) in sh.errs.lock().unwrap().drain(..).take(3) {
        c.fail(k, format!("{d}; {t}"));
    }
    for (i, n) in ["polls", "panicking_polls", "", "stream_polls", "sink_calls", "nested_polls"].iter().enumerate() {
        if !n.is_empty() {
            c.count(n, sh.n[i].load(std::sync::atomic::Ordering::Relaxed));
        }
    }
}

/// many tasks polled in random order by several threads with contexts of their own
fn tasks(c: &Case, r: &mut Rng) {
    let sh = Arc::new(Shared::default());
    let mut next = 1000;
    let mut t = String::new();
    let q: VecDeque<_> = (0..1 + r.idx(12))
        .map(|_| {
            t += " |";
            (build(r, &sh, &mut next, None, 0, &mut t), usize::MAX)
        })
        .collect();
    let q = Mutex::new(q);
    let nthreads = 1 + r.idx(4);
    let seeds: Vec<u64> = (0..nthreads).map(|_| r.u64()).collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(ti, sd)| {
                let (q, sh) = (&q, &sh);
                let mut r = Rng::new(*sd, 7);
                s.spawn(move || {
                    let mut mine: Vec<(u64, bool, ContextGuard)> = vec![];
                    let waker = Waker::noop();
                    let mut checks = 0;
                    let mut moved = 0;
                    loop {
                        // this thread's own attachments come and go
                        match r.below(6) {
                            0 if mine.len() < 6 => {
                                let n = 1 + ti as u64 * 100 + mine.len() as u64;
                                let quiet = r.p(0.3);
                                let cx = Context::new().with_value(Val::<0>(n));
                                mine.push((n, quiet, if quiet { cx.with_telemetry_suppressed() } else { cx }.attach()));
                            }
                            1 if !mine.is_empty() => {
                                let k = r.idx(mine.len());
                                mine.remove(k);
                            }
                            _ => {}
                        }
                        let want: Id = (mine.last().map_or(0, |x| x.0), SpanContext::NONE, mine.last().is_some_and(|x| x.1));
                        let job = {
                            let mut q = q.lock().unwrap();
                            let n = q.len();
                            if n == 0 {
                                break;
                            }
                            q.swap_remove_back(r.idx(n))
                        };
                        let Some((mut f, last)) = job else { break };
                        if last != usize::MAX && last != ti {
                            moved += 1;
                        }
                        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut TaskCx::from_waker(waker))));
                        checks += 1;
                        sh.check(&want, "poller-context");
                        if matches!(out, Ok(Poll::Pending)) {
                            q.lock().unwrap().push_back((f, ti));
                        } else {
                            drop(f);
                            sh.check(&want, "poller-context-after-drop");
                        }
                    }
                    // and they still work as a stack
                    while let Some((n, quiet, g)) = mine.pop() {
                        sh.check(&(n, SpanContext::NONE, quiet), "poller-stack");
                        drop(g);
                    }
                    sh.check(&(0, SpanContext::NONE, false), "poller-stack");
                    (checks, moved)
                })
            })
            .collect();
        for h in hs {
            let (a, b) = h.join().unwrap_or_else(|e| std::panic::resume_unwind(e));
            c.count("poller_checks", a);
            c.count("polls_on_another_thread", b);
        }
    });
    finish(c, &sh, &t);
    c.seen(h64(&t), sh.n[0].load(std::sync::atomic::Ordering::Relaxed) > 1);
    c.sample(|| t);
}

fn on_tokio(c: &Case, r: &mut Rng) {
    let sh = Arc::new(Shared::default());
    let multi = r.bool();
    let rt = if multi {
        tokio::runtime::Builder::new_multi_thread().worker_threads(3).build().unwrap()
    } else {
        tokio::runtime::Builder::new_current_thread().build().unwrap()
    };
    let n = 4 + r.idx(20);
    let mut next = 0;
    let specs: Vec<(Context, Id, u64)> = (0..n)
        .map(|_| {
            let (a, b) = rcx(r, &mut next);
            (a, b, r.below(6))
        })
        .collect();
    let outer = Context::new().with_value(Val::<0>(77)).attach();
    rt.block_on(async {
        let hs: Vec<_> = specs
            .into_iter()
            .map(|(cx, id, k)| {
                let sh = sh.clone();
                tokio::spawn(
                    async move {
                        for i in 0..k {
                            sh.inc(0);
                            sh.check(&id, "tokio-context");
                            tokio::task::yield_now().await;
                            sh.check(&id, "tokio-context");
                            // a child task with the parent's context, and one without
                            let (s2, id2) = (sh.clone(), id.clone());
                            let child = tokio::spawn(
                                async move {
                                    s2.inc(5);
                                    tokio::task::yield_now().await;
                                    s2.check(&id2, "child-context");
                                    let inner = Context::current_with_value(Val::<0>(5000 + i));
                                    let want = (5000 + i, id2.1.clone(), id2.2);
                                    async {
                                        s2.check(&want, "inner-context");
                                        tokio::task::yield_now().await;
                                        s2.check(&want, "inner-context");
                                    }
                                    .with_context(inner)
                                    .await;
                                    s2.check(&id2, "child-context-after");
                                    let (n, want) = (i, id2.clone());
                                    let mut st = Str { sh: s2.clone(), want, left: 1 + n as u32 % 3 }.with_current_context();
                                    let mut polls = 0;
                                    while polls < 10 {
                                        polls += 1;
                                        let x = std::future::poll_fn(|cx| match Pin::new(&mut st).poll_next(cx) {
                                            Poll::Pending => Poll::Ready(Some(0)),
                                            x => x,
                                        })
                                        .await;
                                        if x.is_none() {
                                            break;
                                        }
                                    }
                                }
                                .with_current_context(),
                            );
                            if i % 2 == 0 {
                                let _ = child.await;
                            } else {
                                let s3 = sh.clone();
                                let id3 = (0, SpanContext::NONE, false);
                                let bare = multi;
                                let _ = tokio::spawn(async move {
                                    if bare {
                                        s3.check(&id3, "unwrapped-task-context");
                                    }
                                })
                                .await;
                                let _ = child.await;
                            }
                            if i == 3 {
                                sh.inc(1);
                                let p: tokio::task::JoinHandle<()> = tokio::spawn(async { panic!("vh-deliberate") }.with_current_context());
                                let _ = p.await;
                                sh.check(&id, "after-panicking-child");
                            }
                        }
                    }
                    .with_context(cx),
                )
            })
            .collect();
        for h in hs {
            if h.await.is_err() {
                sh.err("tokio-task", "a task panicked".into());
            }
            sh.check(&(77, SpanContext::NONE, false), "block-on-context");
        }
    });
    drop(outer);
    sh.check(&(0, SpanContext::NONE, false), "after-block-on");
    finish(c, &sh, "tokio");
    c.seen(h64(&(n, multi, c.id())), true);
}

/// Futures that keep a guard of their own alive between polls. Whatever that leaves
/// current on the thread in between, each poll starts in the future's own context.
fn held(c: &Case, r: &mut Rng) {
    struct Keeps {
        sh: Arc<Shared>,
        want: Id,
        left: u32,
        mode: u64,
        kept: Vec<ContextGuard>,
    }
    impl Future for Keeps {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, _: &mut TaskCx<'_>) -> Poll<()> {
            let me = &mut *self;
            me.sh.inc(0);
            me.sh.check(&me.want, "held-guard-poll-context");
            if me.mode % 2 == 0 {
                me.kept.clear();
                me.sh.check(&me.want, "held-guard-poll-context");
            }
            if me.left == 0 {
                return Poll::Ready(());
            }
            me.left -= 1;
            if me.mode % 3 != 0 || me.left % 2 == 0 {
                me.kept.push(Context::current_with_value(Val::<0>(1 << 40)).attach());
            }
            Poll::Pending
        }
    }
    let sh = Arc::new(Shared::default());
    let seed = r.u64();
    let sh2 = sh.clone();
    let n = std::thread::spawn(move || {
        let mut r = Rng::new(seed, 1);
        let mut next = 0;
        let mut v: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![];
        for _ in 0..1 + r.idx(5) {
            let (cx, want) = rcx(&mut r, &mut next);
            let f = Keeps { sh: sh2.clone(), want, left: r.below(8) as u32, mode: r.below(6), kept: vec![] };
            v.push(if r.bool() { Box::pin(f.with_context(cx)) } else { Box::pin(async move { f.with_context(cx).await }) });
        }
        let mut n = 0u64;
        while !v.is_empty() {
            let k = r.idx(v.len());
            n += 1;
            if v[k].as_mut().poll(&mut TaskCx::from_waker(Waker::noop())).is_ready() {
                drop(v.swap_remove(k));
            }
        }
        n
    })
    .join()
    .unwrap_or_else(|e| std::panic::resume_unwind(e));
    c.count("polls_holding_guards", n);
    finish(c, &sh, "held guards");
    c.seen(h64(&(n, sh.n[0].load(std::sync::atomic::Ordering::Relaxed), "held")), n > 3);
}
