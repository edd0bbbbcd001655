use crate::lg::{dbl, diff, ru64};
use hsdk::llib::*;
use hsdk::*;
use opentelemetry::logs::Severity;
use opentelemetry::trace::TraceContextExt;
use opentelemetry::Context;
use opentelemetry_sdk::logs::{SdkLogger, SdkLoggerProvider};
use std::sync::{Arc, Barrier, Mutex, OnceLock};
use tracing::field::{debug, display, FieldSet, Value};
use tracing::{Level, Metadata};
use tracing_core::callsite::{Callsite, Identifier};
use tracing_core::{Event, Interest, Kind};
use tracing_subscriber::filter::LevelFilter;
use tracing_subscriber::prelude::*;

pub struct Site {
    meta: OnceLock<Metadata<'static>>,
}
impl Callsite for Site {
    fn set_interest(&self, _: Interest) {}
    fn metadata(&self) -> &Metadata<'_> {
        self.meta.get().unwrap()
    }
}
pub struct SiteInfo {
    site: &'static Site,
    name: &'static str,
    target: &'static str,
    level: Level,
    file: Option<&'static str>,
    line: Option<u32>,
    module: Option<&'static str>,
    names: &'static [&'static str],
}
const NAMES: [&str; 12] = ["message", "a", "b", "user.id", "log.other", "long_field_name", "\u{e9}", "x y", "log.file", "log.line", "log.module_path", "log.target"];
pub fn sites() -> &'static [SiteInfo] {
    static S: OnceLock<Vec<SiteInfo>> = OnceLock::new();
    S.get_or_init(|| {
        let mut r = Rng::new(77, 5);
        let r = &mut r;
        (0..400)
            .map(|_| {
                let n = r.idx(9);
                let mut pool: Vec<&'static str> = NAMES[..8].to_vec();
                r.shuffle(&mut pool);
                let mut names: Vec<&'static str> = pool[..n.min(pool.len())].to_vec();
                // the metadata variant strips these from records of the log crate only by name
                if r.chance(1, 6) {
                    names.truncate(7);
                    names.push(NAMES[8 + r.idx(4)]);
                }
                let names: &'static [&'static str] = Box::leak(names.into_boxed_slice());
                let site: &'static Site = Box::leak(Box::new(Site { meta: OnceLock::new() }));
                let name = mlib::leak(&r.text(8));
                let target = mlib::leak(&r.text(6));
                let level = *r.pick(&[Level::ERROR, Level::WARN, Level::INFO, Level::DEBUG, Level::TRACE]);
                let file = r.bool().then(|| mlib::leak(*r.pick(&["src/a/b.rs", "c.rs", "win\\d.rs", "", "x/"])));
                let line = r.bool().then(|| r.u64() as u32);
                let module = r.bool().then(|| mlib::leak("mod::path"));
                let meta = Metadata::new(name, target, level, file, line, module, FieldSet::new(names, Identifier(site)), Kind::EVENT);
                site.meta.set(meta).ok().unwrap();
                SiteInfo { site, name, target, level, file, line, module, names }
            })
            .collect()
    })
}
#[derive(Debug)]
struct Er(String);
impl std::fmt::Display for Er {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "err {}", self.0)
    }
}
impl std::error::Error for Er {}
#[derive(Debug)]
#[allow(dead_code)]
struct Dbg<'a>(&'a str, u8);

/// builds a boxed tracing value and what it must become: (replaces the key, text)
fn rval(r: &mut Rng, message: bool) -> (Box<dyn Value>, Option<&'static str>, String) {
    let s = r.text(8);
    if message {
        return match r.below(4) {
            0 => (Box::new(s.clone()), None, format!("s{s:?}")),
            1 => (Box::new(display(s.clone())), None, format!("s{s:?}")),
            2 => {
                let d = format!("{:?}", Er(s.clone()));
                (Box::new(debug(Er(s))), None, format!("s{d:?}"))
            }
            _ => (Box::new(mlib::leak(&s)), None, format!("s{s:?}")),
        };
    }
    macro_rules! num {
        ($x:expr, $t:expr) => {{
            let x = $x;
            (Box::new(x) as Box<dyn Value>, None, $t(x))
        }};
    }
    fn int(x: i128) -> String {
        match i64::try_from(x) {
            Ok(x) => format!("i{x}"),
            Err(_) => format!("s{:?}", x.to_string()),
        }
    }
    match r.below(20) {
        0 => num!(r.bool(), |x| format!("b{x}")),
        1 => num!(r.i64_edge(), |x| int(x as i128)),
        2 => num!(ru64(r), |x| int(x as i128)),
        3 => num!(r.u64() as i8, |x| int(x as i128)),
        4 => num!(r.u64() as u16, |x| int(x as i128)),
        5 => num!(r.u64() as i32, |x| int(x as i128)),
        6 => num!(r.u64() as usize, |x| int(x as i128)),
        7 => num!((r.u128() >> r.below(128)) as i128 * if r.bool() { -1 } else { 1 }, int),
        8 => num!(i64::MAX as u128 + r.below(3) as u128, |x| int(x as i128)),
        9 => num!(u128::MAX - r.below(3) as u128, |x: u128| format!("s{:?}", x.to_string())),
        10 => num!(i64::MIN as i128 - 1 + r.below(3) as i128, int),
        11 => num!(r.f64_edge(true), dbl),
        12 => num!(f32::from_bits(r.u64() as u32), |x| dbl(x as f64)),
        13 => (Box::new(s.clone()), None, format!("s{s:?}")),
        14 => (Box::new(display(s.clone())), None, format!("s{s:?}")),
        15 => {
            let d = format!("{:?}", s);
            (Box::new(debug(s)), None, format!("s{d:?}"))
        }
        16 => {
            let t = Er(s).to_string();
            let e: Box<dyn std::error::Error + 'static> = Box::new(Er(t["err ".len()..].to_string()));
            (Box::new(e), Some("exception.message"), format!("s{t:?}"))
        }
        17 => {
            let b: Vec<u8> = (0..r.idx(6)).map(|_| r.u64() as u8).collect();
            let t = format!("y{b:?}");
            (Box::new(b.into_boxed_slice()), None, t)
        }
        18 => num!(std::num::NonZeroU64::new(ru64(r) | 1).unwrap(), |x: std::num::NonZeroU64| int(x.get() as i128)),
        _ => num!(std::num::Wrapping(r.i64_edge()), |x: std::num::Wrapping<i64>| int(x.0 as i128)),
    }
}

fn sev_of(l: Level) -> (Severity, &'static str) {
    match l {
        Level::ERROR => (Severity::Error, "ERROR"),
        Level::WARN => (Severity::Warn, "WARN"),
        Level::INFO => (Severity::Info, "INFO"),
        Level::DEBUG => (Severity::Debug, "DEBUG"),
        _ => (Severity::Trace, "TRACE"),
    }
}
type A = opentelemetry_appender_tracing::layer::OpenTelemetryTracingBridge<SdkLoggerProvider, SdkLogger>;
type M = atrace_meta::layer::OpenTelemetryTracingBridge<SdkLoggerProvider, SdkLogger>;

fn dispatch(lp: &SdkLoggerProvider, meta: bool, filter: Option<LevelFilter>) -> tracing::Dispatch {
    let reg = tracing_subscriber::registry();
    match (meta, filter) {
        (false, None) => tracing::Dispatch::new(reg.with(A::new(lp))),
        (false, Some(f)) => tracing::Dispatch::new(reg.with(A::new(lp).with_filter(f))),
        (true, None) => tracing::Dispatch::new(reg.with(M::new(lp))),
        (true, Some(f)) => tracing::Dispatch::new(reg.with(M::new(lp).with_filter(f))),
    }
}

pub fn events(c: &Case, r: &mut Rng, meta: bool) {
    let log: Arc<Mutex<Vec<LEv>>> = Default::default();
    let mut p = RecL::new(0, &log);
    p.enabled = *r.pick(&[1, 1, 2, 3, 0]);
    let wants = p.enabled;
    let lp = SdkLoggerProvider::builder().with_log_processor(p).build();
    let filter = if r.bool() { Some(*r.pick(&[LevelFilter::ERROR, LevelFilter::WARN, LevelFilter::INFO, LevelFilter::DEBUG, LevelFilter::TRACE])) } else { None };
    let d = dispatch(&lp, meta, filter);
    let mut want: Vec<LModel> = vec![];
    let mut trace = format!("metadata={meta} wants={wants} filter={filter:?}");
    for _ in 0..1 + r.idx(6) {
        let s = loop {
            let s = r.pick(sites());
            if !(meta && s.names.iter().any(|n| NAMES[8..].contains(n))) {
                break s;
            }
        };
        let (sev, text) = sev_of(s.level);
        let mut m = LModel { target: Some(s.target.into()), event: Some(s.name), sev: Some(sev), sev_text: Some(text), ..Default::default() };
        if meta {
            if let Some(x) = s.module {
                m.attrs.push(("code.namespace".into(), format!("s{x:?}")));
            }
            if let Some(x) = s.file {
                m.attrs.push(("code.filepath".into(), format!("s{x:?}")));
                let n = x.rsplit_once('/').or_else(|| x.rsplit_once('\\')).map_or(x, |y| y.1);
                m.attrs.push(("code.filename".into(), format!("s{n:?}")));
            }
            if let Some(x) = s.line {
                m.attrs.push(("code.lineno".into(), format!("i{x}")));
            }
        }
        let mut vals: Vec<Option<Box<dyn Value>>> = vec![];
        for n in s.names {
            if r.chance(1, 8) {
                vals.push(None);
                continue;
            }
            let (v, key, t) = rval(r, *n == "message");
            vals.push(Some(v));
            if *n == "message" {
                m.body = Some(t);
            } else {
                m.attrs.push((key.unwrap_or(n).to_string(), t));
            }
            c.count("attributes_checked", 1);
        }
        trace += &format!("; {:?} {:?} {} body={:?} {:?}", s.name, s.target, s.level, m.body, m.attrs);
        let cx = if r.bool() {
            let s = slib::valid_ctx(r);
            m.tc = Some((s.trace_id(), s.span_id(), Some(s.trace_flags())));
            c.count("with_active_span", 1);
            Context::new().with_remote_span_context(s)
        } else {
            Context::new()
        };
        let passes = (meta || RecL::wants(wants, sev, s.target, Some(s.name))) && filter.map_or(true, |f| s.level <= f);
        let refs: Vec<Option<&dyn Value>> = vals.iter().map(|v| v.as_ref().map(|b| &**b as &dyn Value)).collect();
        let g = cx.attach();
        let t0 = slib::now();
        let md = s.site.metadata();
        let md: &'static Metadata<'static> = unsafe { std::mem::transmute(md) };
        let run = || {
            tracing::dispatcher::with_default(&d, || {
                tracing::dispatcher::get_default(|d| {
                    if d.enabled(md) {
                        let vs = md.fields().value_set_all(&refs);
                        d.event(&Event::new(md, &vs));
                    }
                })
            })
        };
        if let Err((loc, e)) = guarded(run) {
            return c.fail("panic", format!("the bridge panicked at {loc}: {e}; {trace}"));
        }
        drop(g);
        if passes {
            m.ots_window = Some((t0, slib::now()));
            want.push(m);
        } else {
            c.count("filtered_out", 1);
        }
    }
    let got = std::mem::take(&mut *log.lock().unwrap());
    if !c.check(got.len() == want.len(), "record-count", || format!("{} records for {} events; {trace}", got.len(), want.len())) {
        return;
    }
    for (e, m) in got.iter().zip(&want) {
        let LEv::Emit(_, d, _) = e else { return c.fail("record-count", format!("{e:?}")) };
        c.count("tracing_events_checked", 1);
        if let Some(x) = diff(m, d) {
            return c.fail("record", format!("{x}; {trace}"));
        }
    }
    c.seen(h64(&trace), !want.is_empty());
    c.sample(|| trace.chars().take(600).collect());
}

/// macro call sites used from several threads, an exporter that logs through the bridge itself
pub fn threads(c: &Case, r: &mut Rng) {
    let log: Arc<Mutex<Vec<LEv>>> = Default::default();
    let keep = Looping::default();
    let lp = SdkLoggerProvider::builder().with_log_processor(RecL::new(0, &log)).with_simple_exporter(keep.clone()).build();
    let d = dispatch(&lp, r.bool(), None);
    let lb = alog_serde::OpenTelemetryLogBridge::<SdkLoggerProvider, SdkLogger>::new(&lp);
    let nt = 2 + r.idx(4);
    let n = 5 + r.idx(30);
    let bar = Barrier::new(nt);
    std::thread::scope(|s| {
        for t in 0..nt {
            let (d, bar, lb) = (&d, &bar, &lb);
            let seed = r.u64();
            s.spawn(move || {
                let mut r = Rng::new(seed, 1);
                bar.wait();
                watched("bridge", || {
                    tracing::dispatcher::with_default(d, || {
                        for k in 0..n {
                            let id = ((t as u64) << 32) | k as u64;
                            match r.below(4) {
                                0 => tracing::error!(name: "ev", target: "tgt", id, "hello {}", id),
                                1 => tracing::info!(id, flag = true, what = %"w", "plain"),
                                2 => tracing::event!(tracing::Level::WARN, id = id, x = ?Some(1)),
                                _ => {
                                    use log::Log as _;
                                    let kv = [("id", id)];
                                    lb.log(&log::Record::builder().level(log::Level::Warn).args(format_args!("log {id}")).key_values(&kv).build());
                                }
                            }
                        }
                    })
                });
            });
        }
    });
    let mut next = vec![0u64; nt];
    let mut order = vec![];
    for e in log.lock().unwrap().iter() {
        let LEv::Emit(_, d, _) = e else { continue };
        let Some(id) = d.attributes_iter().find_map(|(k, v)| match v {
            opentelemetry::logs::AnyValue::Int(x) if k.as_str() == "id" => Some(*x as u64),
            _ => None,
        }) else {
            return c.fail("foreign-record", format!("{d:?}"));
        };
        let (t, k) = ((id >> 32) as usize, id & 0xffff_ffff);
        order.push(t);
        if !c.check(k == next[t], "order", || format!("thread {t}: event {k} arrived, expected {}", next[t])) {
            return;
        }
        next[t] += 1;
    }
    c.check(next.iter().all(|x| *x == n as u64), "lost", || format!("arrived per thread {next:?} of {n}"));
    let g = keep.n.load(std::sync::atomic::Ordering::SeqCst);
    c.check(g == (nt * n) as u64, "exported", || format!("{g} of {} exported", nt * n));
    c.count("tracing_events_checked", (nt * n) as u64);
    c.seen(h64(&order), true);
}
/// logs through tracing while exporting
#[derive(Clone, Debug, Default)]
struct Looping {
    n: Arc<std::sync::atomic::AtomicU64>,
}
impl opentelemetry_sdk::logs::LogExporter for Looping {
    async fn export(&self, b: opentelemetry_sdk::logs::LogBatch<'_>) -> opentelemetry_sdk::error::OTelSdkResult {
        tracing::error!(id = 7u64, "from the exporter");
        self.n.fetch_add(b.iter().count() as u64, std::sync::atomic::Ordering::SeqCst);
        Ok(())
    }
}
