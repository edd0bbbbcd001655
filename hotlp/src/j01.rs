//! J01: the Jaeger remote sampler's decisions against the strategy last received.
use crate::e04::rt;
use hsdk::slib::*;
use hsdk::*;
use opentelemetry::trace::{SamplingDecision, SpanKind, TraceContextExt, TraceId};
use opentelemetry::Context;
use opentelemetry_sdk::trace::{Sampler, ShouldSample};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};
use std::time::{Duration, Instant, SystemTime};

#[derive(Debug, Clone)]
enum Resp {
    Body(u16, Vec<u8>),
    Fails,
}
#[derive(Default, Debug)]
struct Cl {
    calls: u64,
    queue: VecDeque<Resp>,
    waker: Option<Waker>,
    requests: Vec<(String, String)>,
}
/// hands out one scripted answer per fetch and holds the fetch until there is one
#[derive(Clone, Default, Debug)]
struct Client(Arc<Mutex<Cl>>);
#[async_trait::async_trait]
impl opentelemetry_http::HttpClient for Client {
    async fn send_bytes(&self, q: http::Request<bytes::Bytes>) -> Result<http::Response<bytes::Bytes>, opentelemetry_http::HttpError> {
        {
            let mut g = self.0.lock().unwrap();
            g.calls += 1;
            if g.requests.len() < 3 {
                g.requests.push((q.method().to_string(), q.uri().to_string()));
            }
        }
        let r = std::future::poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            match g.queue.pop_front() {
                Some(r) => Poll::Ready(r),
                None => {
                    g.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await;
        match r {
            Resp::Fails => Err("vh fetch fails".into()),
            Resp::Body(code, b) => Ok(http::Response::builder().status(code).body(b.into()).unwrap()),
        }
    }
}
impl Client {
    fn calls(&self) -> u64 {
        self.0.lock().unwrap().calls
    }
    fn push(&self, r: Resp) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.queue.push_back(r);
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    /// the next fetch has begun: everything before it was processed
    fn fetched(&self, n: u64) -> bool {
        let t = Instant::now();
        while self.calls() < n {
            if t.elapsed() > Duration::from_secs(10) {
                return false;
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        true
    }
}
#[derive(Clone, Debug)]
enum Strat {
    Prob(f64),
    Ops(f64, Vec<(String, f64)>),
    Rate(i32),
}
const OPS: [&str; 11] = ["", "GET /", "op", "é\"", "other", " op", "op ", "OP", "GET /a", "get /", "op.op"];
fn p(r: &mut Rng) -> f64 {
    match r.idx(4) {
        0 => 0.0,
        1 => 1.0,
        _ => (r.f01() * 1000.0).round() / 1000.0,
    }
}
fn strat(r: &mut Rng) -> Strat {
    match r.idx(3) {
        0 => Strat::Prob(p(r)),
        1 => {
            let mut ops: Vec<&str> = OPS.to_vec();
            r.shuffle(&mut ops);
            let n = r.idx(8);
            Strat::Ops(p(r), ops[..n].iter().map(|o| (o.to_string(), p(r))).collect())
        }
        _ => Strat::Rate([0, 1, 10, 200, 1000, 100_000, i32::MAX][r.idx(7)]),
    }
}
fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn json(r: &mut Rng, s: &Strat) -> Vec<u8> {
    let ty = |a: &str| format!("\"strategyType\":\"{a}\"");
    let null = |k: &str, r: &mut Rng| if r.bool() { format!(",\"{k}\":null") } else { String::new() };
    let x = match s {
        Strat::Prob(p) => format!("{},\"probabilisticSampling\":{{\"samplingRate\":{p}}}{}{}", ty("PROBABILISTIC"), null("rateLimitingSampling", r), null("operationSampling", r)),
        Strat::Rate(n) => format!("{},\"rateLimitingSampling\":{{\"maxTracesPerSecond\":{n}}}{}{}", ty(["RATE_LIMITING", "PROBABILISTIC"][r.idx(2)]), null("probabilisticSampling", r), null("operationSampling", r)),
        Strat::Ops(d, l) => {
            let l: Vec<String> = l.iter().map(|(o, p)| format!("{{\"operation\":{},\"probabilisticSampling\":{{\"samplingRate\":{p}}}}}", js(o))).collect();
            let both = if r.bool() { ",\"probabilisticSampling\":{\"samplingRate\":0.5}" } else { "" };
            format!(
                "{},\"operationSampling\":{{\"defaultSamplingProbability\":{d},\"defaultLowerBoundTracesPerSecond\":0.1,\"defaultUpperBoundTracesPerSecond\":100.0,\"perOperationStrategies\":[{}]}}{both}",
                ty("PROBABILISTIC"),
                l.join(",")
            )
        }
    };
    let extra = if r.chance(1, 4) { "\"unknown\":{\"a\":[1,null]}," } else { "" };
    format!("{{{extra}{x}}}").into_bytes()
}
/// answers that hold no strategy
fn useless(r: &mut Rng) -> Resp {
    let s = strat(r);
    let good = json(r, &s);
    match r.idx(6) {
        0 => Resp::Fails,
        1 => Resp::Body([404, 500, 503, 204, 201, 302, 199][r.idx(7)], good),
        2 => Resp::Body(200, good[..r.idx(good.len())].to_vec()),
        3 => Resp::Body(200, (0..r.idx(60)).map(|_| r.below(256) as u8).collect()),
        4 => Resp::Body(200, b"{\"strategyType\":\"PROBABILISTIC\"}".to_vec()),
        _ => Resp::Body(
            200,
            r.pick(&[
                "",
                "null",
                "[]",
                "{}",
                "{\"strategyType\":\"NOPE\",\"probabilisticSampling\":{\"samplingRate\":0.5}}",
                "{\"strategyType\":\"PROBABILISTIC\",\"probabilisticSampling\":{\"samplingRate\":\"high\"}}",
                "{\"strategyType\":\"PROBABILISTIC\",\"probabilisticSampling\":{}}",
                "{\"strategyType\":\"PROBABILISTIC\",\"probabilisticSampling\":null,\"rateLimitingSampling\":null,\"operationSampling\":null}",
                "{\"strategyType\":\"RATE_LIMITING\",\"rateLimitingSampling\":{\"maxTracesPerSecond\":99999999999}}",
                "{\"strategyType\":\"PROBABILISTIC\",\"operationSampling\":{\"perOperationStrategies\":7}}",
            ])
            .as_bytes()
            .to_vec(),
        ),
    }
}
fn ask(s: &Sampler, cx: Option<&Context>, id: TraceId, op: &str) -> bool {
    s.should_sample(cx, id, op, &SpanKind::Internal, &[], &[]).decision == SamplingDecision::RecordAndSample
}
/// what the token bucket may hold, given when it was asked
struct Bucket {
    size: f64,
    rate: (f64, f64),
    lo: f64,
    hi: f64,
    at: (SystemTime, SystemTime),
}
fn secs(a: SystemTime, b: SystemTime) -> f64 {
    b.duration_since(a).map_or(0.0, |d| d.as_secs_f64())
}
impl Bucket {
    fn ask(&mut self, s: &Sampler, id: TraceId) -> Result<bool, String> {
        let a = SystemTime::now();
        let got = ask(s, None, id, "op");
        let b = SystemTime::now();
        let (dmin, dmax) = (secs(self.at.1, a), secs(self.at.0, b));
        self.at = (a, b);
        let lo = (self.lo + self.rate.0 * dmin).min(self.size);
        let hi = (self.hi + self.rate.1 * dmax).min(self.size);
        self.rate = (self.rate.1.min(self.rate.0), self.rate.1.max(self.rate.0));
        const E: f64 = 1e-6;
        if got {
            if hi < 1.0 - E {
                return Err(format!("sampled although the bucket holds at most {hi}"));
            }
            self.lo = (lo - 1.0).max(0.0);
            self.hi = hi - 1.0;
        } else {
            if lo >= 1.0 + E {
                return Err(format!("not sampled although the bucket holds at least {lo}"));
            }
            self.lo = lo;
            self.hi = hi.min(1.0);
        }
        Ok(got)
    }
}
fn history(c: &Case, r: &mut Rng) {
    let cl = Client::default();
    let size = [0.5, 1.0, 2.0, 2.5, 5.0, 100.0][r.idx(6)];
    let dp = [0.0, 1.0, 0.3][r.idx(3)];
    let default = match dp {
        0.0 => Sampler::AlwaysOff,
        1.0 => Sampler::AlwaysOn,
        p => Sampler::TraceIdRatioBased(p),
    };
    let g = rt().enter();
    // (endpoint, what every request must go to, service, the service as a query may spell it)
    let (at, own) = *r.pick(&[("http://agent.example:5778/sampling", ""), ("http://agent.example:5778/sampling?zone=eu&x=1", "zone=eu&x=1"), ("https://agent.example/", "")]);
    let (svc, spelt) = *r.pick(&[("my svc", ["service=my+svc", "service=my%20svc"]), ("s", ["service=s"; 2]), ("a&b=c", ["service=a%26b%3Dc"; 2]), ("\u{e9}t\u{e9}", ["service=%C3%A9t%C3%A9"; 2])]);
    // without a service or an endpoint there is nothing to ask
    if r.chance(1, 8) {
        let (e, n) = *r.pick(&[("", "svc"), ("http://agent.example:5778/sampling", ""), ("", "")]);
        let b = Sampler::jaeger_remote(opentelemetry_sdk::runtime::Tokio, cl.clone(), Sampler::AlwaysOn, n).with_endpoint(e).build();
        c.check(b.is_err(), "built-without", || format!("a sampler was built for endpoint {e:?} and service {n:?}"));
        c.check(cl.calls() == 0, "built-without", || format!("a sampler that could not be built asked {:?}", cl.0.lock().unwrap().requests));
    }
    let s = Sampler::jaeger_remote(opentelemetry_sdk::runtime::Tokio, cl.clone(), default, svc)
        .with_update_interval(Duration::from_millis(1))
        .with_endpoint(at)
        .with_leaky_bucket_size(size)
        .build()
        .unwrap();
    drop(g);
    let mut cur: Option<Strat> = None;
    let mut bucket: Option<Bucket> = None;
    let mut trace = vec![];
    let mut n = 1;
    if !c.check(cl.fetched(n), "fetching-stopped", || "no first fetch within 10 s".into()) {
        return;
    }
    for step in 0..3 + r.idx(8) {
        // decisions under the current rule
        let k = r.idx(12);
        let par = r.chance(1, 3).then(|| Context::new().with_remote_span_context(valid_ctx(r)));
        for _ in 0..k {
            let id = tid_of(r.u128() | 1);
            let op = *r.pick(&OPS);
            match (&cur, &mut bucket) {
                (Some(Strat::Rate(_)), Some(b)) => {
                    if r.chance(1, 6) {
                        std::thread::sleep(Duration::from_micros(r.below(3000)));
                    }
                    match b.ask(&s, id) {
                        Ok(x) => c.count(if x { "rate_admitted" } else { "rate_refused" }, 1),
                        Err(e) => {
                            c.fail("rate-limit", format!("{e}; bucket size {size}, history {trace:?}"));
                            return;
                        }
                    }
                }
                (st, _) => {
                    let pr = match st {
                        None => dp,
                        Some(Strat::Prob(p)) => *p,
                        Some(Strat::Ops(d, l)) => l.iter().find(|x| x.0 == op).map_or(*d, |x| x.1),
                        _ => unreachable!("vh"),
                    };
                    // the documented rule: the lower 63 bits against the rate
                    let bits = u64::from_be_bytes(id.to_bytes()[8..].try_into().unwrap()) >> 1;
                    let want = pr >= 1.0 || (bits as f64) < pr * (1u64 << 63) as f64;
                    // at the very border rounding decides
                    let close = ((bits as f64) - pr * (1u64 << 63) as f64).abs() < 4096.0;
                    let res = s.should_sample(par.as_ref(), id, op, &SpanKind::Server, &[], &[]);
                    let got = res.decision == SamplingDecision::RecordAndSample;
                    c.check(got == want || (close && pr < 1.0 && pr > 0.0), "decision", || format!("trace id {id}, operation {op:?}: sampled {got} under {st:?} (default {dp}); history {trace:?}"));
                    c.check(res.decision != SamplingDecision::RecordOnly, "decision-kind", || format!("{:?}", res.decision));
                    c.count(if st.is_none() { "by_default" } else { "by_strategy" }, 1);
                    let ts = par.as_ref().map(|p| p.span().span_context().trace_state().clone()).unwrap_or_default();
                    c.check(res.trace_state == ts, "trace-state", || format!("{:?} instead of {ts:?}", res.trace_state));
                }
            }
        }
        // the next answer
        let before = SystemTime::now();
        if r.chance(2, 5) {
            let u = useless(r);
            trace.push(match &u {
                Resp::Body(c, b) => format!("{step}: useless {c} {:?}", String::from_utf8_lossy(b)),
                Resp::Fails => format!("{step}: fetch fails"),
            });
            cl.push(u);
            c.count("useless_answers", 1);
        } else {
            let st = strat(r);
            trace.push(format!("{step}: {st:?}"));
            let b = json(r, &st);
            cl.push(Resp::Body(200, b));
            match (&st, &mut bucket, &cur) {
                (Strat::Rate(n), Some(b), Some(Strat::Rate(_))) => {
                    // the same limiter at another rate: what it holds stays
                    let x = *n as f64;
                    b.rate = (b.rate.0.min(x), b.rate.1.max(x));
                }
                (Strat::Rate(n), ..) => bucket = Some(Bucket { size, rate: (*n as f64, *n as f64), lo: size, hi: size, at: (before, SystemTime::now()) }),
                _ => bucket = None,
            }
            cur = Some(st);
        }
        n += 1;
        if !c.check(cl.fetched(n), "fetching-stopped", || format!("no fetch within 10 s after the last of {trace:?}")) {
            return;
        }
        if let (Some(Strat::Rate(x)), Some(b)) = (&cur, &mut bucket) {
            // in effect by now: from the next query on only the new rate counts
            if trace.last().is_some_and(|t| t.contains("Rate")) && b.rate.0 != b.rate.1 {
                let id = tid_of(r.u128() | 1);
                if let Err(e) = b.ask(&s, id) {
                    c.fail("rate-limit", format!("{e}; bucket size {size}, history {trace:?}"));
                    return;
                }
            }
            b.rate = (*x as f64, *x as f64);
            b.at.1 = b.at.1.max(b.at.0);
        }
    }
    // the last handle dropped: fetching stops
    let keep = r.bool().then(|| s.clone());
    drop(s);
    if let Some(k) = keep {
        cl.push(Resp::Fails);
        n += 1;
        c.check(cl.fetched(n), "fetching-stopped", || "a clone is alive, fetching stopped".into());
        drop(k);
    }
    let calls = cl.calls();
    for _ in 0..20 {
        cl.push(Resp::Fails);
    }
    if c.idx % 8 == 0 {
        std::thread::sleep(Duration::from_millis(60));
        let more = cl.calls() - calls;
        c.check(more <= 1, "fetches-after-drop", || format!("{more} fetches within 60 ms after the sampler was dropped, at an interval of 1 ms"));
        c.count("drops_watched", 1);
    }
    let q = cl.0.lock().unwrap().requests.clone();
    c.check(
        q.iter().all(|(m, u)| {
            let (a, b) = u.split_once('?').unwrap_or((u, ""));
            m == "GET" && a == at.split('?').next().unwrap_or("") && own.split('&').filter(|x| !x.is_empty()).all(|x| b.split('&').any(|y| x == y)) && b.split('&').any(|x| spelt.contains(&x))
        }),
        "request",
        || format!("{q:?}"),
    );
    c.seen(h64(&trace), !trace.is_empty());
    c.sample(|| format!("default {dp}, bucket {size}: {trace:?}"));
}
/// many threads asking one rate limiter, often: bounds on what is admitted
fn rate_concurrent(c: &Case, r: &mut Rng) {
    let cl = Client::default();
    let size = [1.0, 5.0, 20.0][r.idx(3)];
    let rate = [20, 100, 1000][r.idx(3)];
    let g = rt().enter();
    let s = Sampler::jaeger_remote(opentelemetry_sdk::runtime::Tokio, cl.clone(), Sampler::AlwaysOff, "svc").with_update_interval(Duration::from_millis(1)).with_leaky_bucket_size(size).build().unwrap();
    drop(g);
    cl.fetched(1);
    let start = SystemTime::now();
    let st = Strat::Rate(rate);
    cl.push(Resp::Body(200, json(r, &st)));
    if !c.check(cl.fetched(2), "fetching-stopped", || "no second fetch".into()) {
        return;
    }
    let ready = SystemTime::now();
    let run = Duration::from_millis(150 + r.below(150));
    let again = r.bool().then(|| json(r, &st));
    let threads = 1 + r.idx(4);
    let (n, first, last, asked) = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let s = s.clone();
                sc.spawn(move || {
                    let mut k = 0u64;
                    let first = SystemTime::now();
                    let end = Instant::now() + run;
                    // when it was asked, to about 10 us
                    let mut asked = vec![first];
                    while Instant::now() < end {
                        k += ask(&s, None, tid_of(k as u128 + 1), "op") as u64;
                        let now = SystemTime::now();
                        if secs(asked[asked.len() - 1], now) > 10e-6 {
                            asked.push(now);
                        }
                        if t % 2 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    (k, first, SystemTime::now(), asked)
                })
            })
            .collect();
        // the same strategy again and again must not refill anything
        if let Some(b) = &again {
            for k in 0..10 {
                cl.push(Resp::Body(200, b.clone()));
                if !cl.fetched(3 + k) {
                    c.fail("fetching-stopped", "no further fetch");
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
        let l: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        (l.iter().map(|x| x.0).sum::<u64>(), l.iter().map(|x| x.1).min().unwrap(), l.iter().map(|x| x.2).max().unwrap(), {
            let mut all: Vec<_> = l.iter().flat_map(|x| x.3.iter().copied()).filter(|t| *t >= ready).collect();
            all.sort();
            all
        })
    });
    let most = size + rate as f64 * secs(start, last) + 1.0;
    // what is due while nobody asks (every thread stalled) may overflow the bucket: only the
    // time during which it was asked often counts
    let often = size / (2 * rate) as f64;
    let served: f64 = asked.windows(2).map(|w| secs(w[0], w[1])).filter(|g| *g <= often).sum();
    let least = (rate as f64 * served * 0.5 - 1.0).floor();
    c.count("admissions_due", least.max(0.0) as u64);
    c.check(n as f64 <= most, "rate-exceeded", || format!("{n} sampled in {:.3} s at {rate}/s with a bucket of {size} ({threads} threads)", secs(start, last)));
    c.check(n as f64 >= least, "rate-starved", || format!("only {n} sampled in {:.3} s at {rate}/s with a bucket of {size} ({threads} threads)", secs(first, last)));
    c.count("rate_runs", 1);
    c.seen(h64(&(n, threads, rate)), n > 0);
}
/// decisions made while the strategy is being replaced follow the old one or the new one, never
/// the default: every strategy here decides the other way
fn update_concurrent(c: &Case, r: &mut Rng) {
    let cl = Client::default();
    let on = r.bool();
    let p = if on { 1.0 } else { 0.0 };
    let default = if on { Sampler::AlwaysOff } else { Sampler::AlwaysOn };
    let g = rt().enter();
    let s = Sampler::jaeger_remote(opentelemetry_sdk::runtime::Tokio, cl.clone(), default, "svc").with_update_interval(Duration::from_millis(1)).build().unwrap();
    drop(g);
    cl.fetched(1);
    let pick = |r: &mut Rng| match r.idx(3) {
        0 => Strat::Prob(p),
        _ => Strat::Ops(p, (0..r.below(300)).map(|i| (format!("op{i}"), p)).collect()),
    };
    let st = pick(r);
    cl.push(Resp::Body(200, json(r, &st)));
    if !c.check(cl.fetched(2), "fetching-stopped", || "no second fetch".into()) {
        return;
    }
    let bodies: Vec<Resp> = (0..30)
        .map(|_| {
            let st = pick(r);
            if r.chance(1, 6) {
                useless(r)
            } else {
                Resp::Body(200, json(r, &st))
            }
        })
        .collect();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let asked = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..3u64)
            .map(|t| {
                let (s, stop) = (s.clone(), &stop);
                sc.spawn(move || {
                    let (mut n, mut wrong) = (0u64, 0u64);
                    while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                        n += 1;
                        wrong += (ask(&s, None, tid_of(((n << 2 | t) as u128) << 40 | 1), if n % 2 == 0 { "op1" } else { "other" }) != on) as u64;
                    }
                    (n, wrong)
                })
            })
            .collect();
        for (k, b) in bodies.into_iter().enumerate() {
            cl.push(b);
            if !cl.fetched(3 + k as u64) {
                c.fail("fetching-stopped", "no further fetch");
                break;
            }
            c.count("updates_under_load", 1);
        }
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        hs.into_iter().map(|h| h.join().unwrap()).fold((0, 0), |a, x| (a.0 + x.0, a.1 + x.1))
    });
    c.check(asked.1 == 0, "neither-strategy", || format!("{} of {} decisions made while strategies sampling {} were exchanged followed the default sampler", asked.1, asked.0, if on { "everything" } else { "nothing" }));
    c.seen(h64(&(on, asked.0)), asked.0 > 0);
}
pub fn j01(ctx: &Ctx) {
    ctx.require("updates_under_load", 300);
    for (k, n) in [("by_default", 50), ("by_strategy", 500), ("rate_admitted", 200), ("rate_refused", 100), ("useless_answers", 200), ("rate_runs", 10), ("admissions_due", 50), ("drops_watched", 10)] {
        ctx.require(k, n);
    }
    ctx.section("history", 0.6, 8, 60, history);
    ctx.section("update-concurrent", 0.15, 2, 10, update_concurrent);
    ctx.section("rate-concurrent", 0.25, 4, 10, rate_concurrent);
}
