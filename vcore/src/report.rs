use crate::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// `key` is the stable signature of the failing input / history class (what known
/// findings are matched on); `detail` the full witness.
#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub detail: String,
    pub case: String,
}

#[derive(Default)]
struct Inner {
    sigs: HashSet<u64>,
    samples: Vec<String>,
    viols: Vec<Violation>,
    viol_count: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    required: Vec<(String, u64)>,
    sections: Vec<(String, u64, f64)>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<(String, u64)>,
    t0: Instant,
    budget: Duration,
    evals: AtomicU64,
    fresh: AtomicU64, // violations whose key is not a known finding
    known: Vec<String>,
    inner: Mutex<Inner>,
    out: Option<String>,
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub section: String,
    pub idx: u64,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
/// panics seen in threads that are not running a case (library worker threads, spawned workload threads)
static STRAY: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string payload>".into()
            };
            PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone())));
            if !QUIET.with(|q| *q.borrow()) {
                // panics a workload raises on purpose carry this marker
                if !msg.contains("vh-deliberate") {
                    STRAY.lock().unwrap_or_else(|e| e.into_inner()).push((loc, msg));
                }
            }
        }));
    });
}

/// Runs `f`, returning the panic's (location, message) instead of unwinding.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    install_hook();
    let old = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

/// a panic raised by the harness itself, as opposed to the code under test or a dependency
fn is_harness(loc: &str) -> bool {
    !(loc.contains("/repo/") || loc.starts_with("opentelemetry") || loc.contains("/registry/") || loc.contains("/rustc/") || loc.contains("/library/"))
}

/// A harness panic on what the library handed over (an error where a result was due, nothing where
/// something was): not one of the harness's own assumptions, of the machine, or of a panic elsewhere.
fn from_outcome(msg: &str) -> bool {
    ["on an `Err` value", "on a `None` value", "index out of bounds"].iter().any(|s| msg.contains(s))
        && !["vh", "Os {", "PoisonError", "Any {", "Timeout", "Elapsed", "AccessError"].iter().any(|s| msg.contains(s))
}

/// file name and no line number, so a signature survives unrelated edits
fn loc_key(loc: &str) -> String {
    loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc).rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/")
}

impl Ctx {
    pub fn from_env(prop: &str) -> Arc<Ctx> {
        install_hook();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let budget = std::env::var("VERIF_BUDGET_S")
            .ok()
            .and_then(|s| s.parse::<f64>().ok())
            .unwrap_or(if tier == Tier::Quick { 20.0 } else { 300.0 });
        let replay = std::env::var("VERIF_REPLAY").ok().and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        let known = std::env::var("VERIF_KNOWN")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .map(|t| {
                t.lines()
                    .filter_map(|l| {
                        let l = l.strip_prefix("known: property=")?;
                        let (p, rest) = l.split_once(' ')?;
                        if p != prop {
                            return None;
                        }
                        Some(rest.strip_prefix("key=")?.split(' ').next()?.to_string())
                    })
                    .collect()
            })
            .unwrap_or_default();
        let ctx = Arc::new(Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            replay,
            t0: Instant::now(),
            budget: Duration::from_secs_f64(budget),
            evals: AtomicU64::new(0),
            fresh: AtomicU64::new(0),
            known,
            inner: Mutex::new(Inner::default()),
            out: std::env::var("VERIF_OUT").ok(),
        });
        watchdog(ctx.clone());
        ctx
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn budget_s(&self) -> f64 {
        self.budget.as_secs_f64()
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.lock().counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn count_max(&self, name: &str, n: u64) {
        let mut g = self.lock();
        let e = g.counters.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// the run is worthless unless counter `name` reached `n`
    pub fn require(&self, name: &str, n: u64) {
        self.lock().required.push((name.to_string(), n));
    }
    /// something could not be judged
    pub fn inconclusive(&self, note: &str) {
        *self.lock().notes.entry(note.to_string()).or_insert(0) += 1;
    }
    fn record(&self, v: Violation) {
        let known = self.known.contains(&v.key);
        let mut g = self.lock();
        let n = g.viol_count.entry(v.key.clone()).or_insert(0);
        *n += 1;
        if *n == 1 {
            if !known {
                eprintln!("[{}] violation key={} case={}\n    {}", self.prop, v.key, v.case, v.detail.chars().take(4000).collect::<String>());
                self.fresh.fetch_add(1, Ordering::SeqCst);
            }
            g.viols.push(v);
        }
    }
    fn stop_now(&self) -> bool {
        self.fresh.load(Ordering::SeqCst) >= 4
    }
    pub fn fail(&self, key: &str, case: &str, detail: String) {
        self.record(Violation { key: sanitize(key), detail, case: case.to_string() });
    }

    /// Runs randomised cases for `share` of the time budget on `workers` threads, at least `min`
    /// of them; case i of a section always gets the same random stream for the same seed.
    pub fn section(&self, name: &str, share: f64, workers: usize, min: u64, f: impl Fn(&Case, &mut Rng) + Sync) {
        let base = h64(name);
        if let Some((s, i)) = &self.replay {
            if s == name {
                self.one(name, *i, base, &f);
            }
            return;
        }
        if self.stop_now() {
            return;
        }
        let t0 = Instant::now();
        let span = self.budget.mul_f64(share);
        let hard = span.mul_f64(3.0) + Duration::from_secs(20);
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..workers.max(1) {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let el = t0.elapsed();
                    if (el >= span && i >= min) || el >= hard || self.stop_now() {
                        break;
                    }
                    self.one(name, i, base, &f);
                    done.fetch_add(1, Ordering::Relaxed);
                });
            }
        });
        let d = done.load(Ordering::Relaxed);
        self.lock().sections.push((name.to_string(), d, t0.elapsed().as_secs_f64()));
        if d < min && !self.stop_now() {
            self.inconclusive(&format!("section {name}: only {d} of at least {min} cases ran in time"));
        }
        self.drain_stray(name);
    }

    /// Enumerated cases 0..n (all of them, whatever the time).
    pub fn enumerate(&self, name: &str, n: u64, workers: usize, f: impl Fn(&Case, &mut Rng) + Sync) {
        let base = h64(name);
        if let Some((s, i)) = &self.replay {
            if s == name {
                self.one(name, *i, base, &f);
            }
            return;
        }
        let next = AtomicU64::new(0);
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            for _ in 0..workers.max(1) {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || self.stop_now() {
                        break;
                    }
                    self.one(name, i, base, &f);
                });
            }
        });
        self.lock().sections.push((name.to_string(), n, t0.elapsed().as_secs_f64()));
        self.drain_stray(name);
    }

    fn drain_stray(&self, name: &str) {
        let stray = std::mem::take(&mut *STRAY.lock().unwrap_or_else(|e| e.into_inner()));
        for (loc, msg) in stray {
            if is_harness(&loc) && from_outcome(&msg) {
                self.fail(&format!("unexpected-outcome:{}", loc_key(&loc)), name, format!("the library gave what the workload at {loc} cannot go on with: {msg}"));
            } else if is_harness(&loc) {
                self.inconclusive(&format!("harness thread panicked at {loc}: {msg}"));
            } else {
                self.fail(&format!("panic-in-thread:{}", loc_key(&loc)), name, format!("a thread panicked inside the library at {loc}: {msg}"));
            }
        }
    }

    fn one(&self, name: &str, i: u64, base: u64, f: &(impl Fn(&Case, &mut Rng) + Sync)) {
        let mut r = Rng::new(self.seed ^ base, i);
        let case = Case { ctx: self, section: name.to_string(), idx: i };
        self.evals.fetch_add(1, Ordering::Relaxed);
        let id = op_begin(&format!("{name}:{i}"), true);
        let res = guarded(|| f(&case, &mut r));
        op_end(id);
        if let Err((loc, msg)) = res {
            if is_harness(&loc) && from_outcome(&msg) {
                self.fail(&format!("unexpected-outcome:{}", loc_key(&loc)), &format!("{name}:{i}"), format!("the library gave what the workload at {loc} cannot go on with: {msg}"));
            } else if is_harness(&loc) {
                self.inconclusive(&format!("harness panicked at {loc}: {msg} (case {name}:{i})"));
            } else {
                self.fail(&format!("panic:{}", loc_key(&loc)), &format!("{name}:{i}"), format!("panic inside the library at {loc}: {msg}"));
            }
        }
    }

    pub fn finish(&self) -> i32 {
        self.drain_stray("end");
        let g = self.lock();
        let mut notes = g.notes.clone();
        let mut starved = false;
        if g.viols.iter().all(|v| self.known.contains(&v.key)) && self.replay.is_none() {
            for (n, min) in &g.required {
                let got = g.counters.get(n).copied().unwrap_or(0);
                if got < *min {
                    starved = true;
                    *notes.entry(format!("observed too little: {n}={got} < {min}")).or_insert(0) += 1;
                }
            }
        }
        let mut o = String::from("{");
        let kv = |m: &BTreeMap<String, u64>| {
            let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            format!("{{{}}}", v.join(","))
        };
        o += &format!("\"prop\":{},\"evaluations\":{},\"distinct\":{},", js(&self.prop), self.evals.load(Ordering::Relaxed), g.sigs.len());
        o += &format!("\"samples\":[{}],", g.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        o += &format!(
            "\"violations\":[{}],",
            g.viols
                .iter()
                .map(|v| format!("{{\"key\":{},\"case\":{},\"detail\":{},\"count\":{}}}", js(&v.key), js(&v.case), js(&v.detail), g.viol_count[&v.key]))
                .collect::<Vec<_>>()
                .join(",")
        );
        o += &format!("\"observed\":{},\"inconclusive\":{},", kv(&g.counters), kv(&notes));
        o += &format!(
            "\"sections\":[{}],\"wall_s\":{:.3},\"starved\":{}}}",
            g.sections.iter().map(|(n, c, t)| format!("{{\"name\":{},\"cases\":{},\"s\":{:.2}}}", js(n), c, t)).collect::<Vec<_>>().join(","),
            self.t0.elapsed().as_secs_f64(),
            starved
        );
        match &self.out {
            Some(p) => {
                let tmp = format!("{p}.tmp");
                let _ = std::fs::write(&tmp, &o);
                let _ = std::fs::rename(&tmp, p);
            }
            None => println!("{o}"),
        }
        if g.viols.iter().any(|v| !self.known.contains(&v.key)) {
            1
        } else {
            0
        }
    }
}

impl Case<'_> {
    pub fn id(&self) -> String {
        format!("{}:{}", self.section, self.idx)
    }
    pub fn fail(&self, key: &str, detail: impl Into<String>) {
        self.ctx.fail(key, &self.id(), detail.into());
    }
    /// check a condition; `detail` is only built on failure. Returns the condition.
    pub fn check(&self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(key, detail());
        }
        ok
    }
    /// record this case's shape; `nontrivial` by the section's rule
    pub fn seen(&self, sig: u64, nontrivial: bool) {
        if nontrivial {
            let mut g = self.ctx.lock();
            if g.sigs.len() < 2_000_000 {
                g.sigs.insert(sig);
            }
        }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let wanted = self.idx < 2 || self.idx == 17;
        if wanted {
            let mut g = self.ctx.lock();
            if g.samples.len() < 24 {
                let t: String = s().chars().take(900).collect();
                g.samples.push(format!("[{}] {}", self.id(), t));
            }
        }
    }
    pub fn count(&self, n: &str, k: u64) {
        self.ctx.count(n, k)
    }
}

fn sanitize(k: &str) -> String {
    k.chars().map(|c| if c.is_ascii_graphic() { c } else { '_' }).collect()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---- hang detection -------------------------------------------------------
// An operation counts as hung only on evidence other than elapsed time: its
// thread slept through 60 consecutive one-second observations without using
// CPU (blocked for good), or consumed most of a CPU for 60 s (livelock).
struct Op {
    name: String,
    tid: i64,
    #[allow(dead_code)]
    is_case: bool,
    ticks: u32,
    cpu0: u64,
    sleeping: u32,
}
fn ops() -> &'static Mutex<HashMap<u64, Op>> {
    static OPS: OnceLock<Mutex<HashMap<u64, Op>>> = OnceLock::new();
    OPS.get_or_init(Default::default)
}
static OPID: AtomicU64 = AtomicU64::new(0);
static WATCHING: AtomicBool = AtomicBool::new(false);
/// seconds of evidence wanted before an operation counts as hung
pub static HANG_TICKS: AtomicU64 = AtomicU64::new(60);

fn gettid() -> i64 {
    // /proc/thread-self is a link to <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}
thread_local! {
    static TID: i64 = gettid();
}
fn op_begin(name: &str, is_case: bool) -> u64 {
    if !WATCHING.load(Ordering::Relaxed) {
        return 0;
    }
    let id = OPID.fetch_add(1, Ordering::Relaxed) + 1;
    let tid = TID.with(|t| *t);
    ops().lock().unwrap_or_else(|e| e.into_inner()).insert(id, Op { name: name.to_string(), tid, is_case, ticks: 0, cpu0: 0, sleeping: 0 });
    id
}
fn op_end(id: u64) {
    if id != 0 {
        ops().lock().unwrap_or_else(|e| e.into_inner()).remove(&id);
    }
}
fn stat(tid: i64) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}
/// Runs `f` under hang detection with a name of its own.
pub fn watched<T>(name: &str, f: impl FnOnce() -> T) -> T {
    let id = op_begin(name, false);
    let r = f();
    op_end(id);
    r
}
fn watchdog(ctx: Arc<Ctx>) {
    if cfg!(miri) || WATCHING.swap(true, Ordering::SeqCst) {
        return;
    }
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            let limit = HANG_TICKS.load(Ordering::Relaxed) as u32;
            let mut hung: Option<(String, String)> = None;
            {
                let mut g = ops().lock().unwrap_or_else(|e| e.into_inner());
                for op in g.values_mut() {
                    let Some((st, cpu)) = stat(op.tid) else { continue };
                    if op.ticks == 0 {
                        op.cpu0 = cpu;
                    }
                    op.ticks += 1;
                    if st == 'S' || st == 'D' {
                        op.sleeping += 1;
                    }
                    let used = cpu - op.cpu0; // clock ticks of 10 ms
                    if op.ticks > limit {
                        if op.sleeping + 1 >= op.ticks && used < 100 {
                            // prefer naming the inner operation over its case
                            if hung.is_none() || !op.is_case {
                                hung = Some((op.name.clone(), format!("blocked: thread slept through {} observations, {} ms CPU", op.ticks, used * 10)));
                            }
                        } else if used as u32 > (limit - limit / 5) * 100 {
                            if hung.is_none() || !op.is_case {
                                hung = Some((op.name.clone(), format!("livelock: {} ms CPU used within one operation", used * 10)));
                            }
                        } else if op.ticks > limit * 3 {
                            op.ticks = 0;
                            op.sleeping = 0;
                        }
                    }
                }
            }
            if let Some((name, why)) = hung {
                let others: Vec<String> = {
                    let g = ops().lock().unwrap_or_else(|e| e.into_inner());
                    g.values().filter(|o| o.ticks > limit / 2).map(|o| format!("{} (thread {})", o.name, o.tid)).take(12).collect()
                };
                let why = format!("{why}; in progress: {}", others.join(", "));
                let key = name.split(':').next().unwrap_or("").to_string();
                ctx.fail(&format!("hang:{key}"), &name, format!("operation '{name}' never returned ({why})"));
                ctx.finish();
                std::process::exit(1);
            }
        })
        .unwrap();
}
