//! D01: the development exporters. In-memory exporters against a list model; the stdout
//! exporters run in a child process that also says (on stderr) what must be printed, and
//! the captured stdout is searched for it.
use hsdk::llib::{self};
use hsdk::llib::{scope_text, LModel};
use hsdk::mlib::{akey, attr_sets, Inst, Num, Pt, Snap, IK, K, R};
use hsdk::slib::*;
use hsdk::*;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::trace::{Event, Link, SpanContext, Status, TraceFlags, TraceState, Tracer as _, TracerProvider as _};
use opentelemetry::{Array, Context, InstrumentationScope, KeyValue, Value};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{InMemoryLogExporter, InMemoryLogExporterBuilder, LogBatch, LogExporter, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::{InMemoryMetricExporter, InMemoryMetricExporterBuilder, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::{InMemorySpanExporter, InMemorySpanExporterBuilder, Sampler, SdkTracerProvider, SpanData, SpanExporter};
use opentelemetry_sdk::Resource;
use std::collections::{BTreeMap, HashMap};
use std::io::Write as _;
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub fn run(ctx: &Ctx) {
    ctx.require("mem_spans", 2000);
    ctx.require("mem_logs", 2000);
    ctx.require("mem_metrics", 500);
    ctx.require("mem_snapshots", 2000);
    ctx.require("concurrent_snapshots", 200);
    ctx.require("stdout_children", 12);
    ctx.require("stdout_exports", 300);
    ctx.require("stdout_lines", 5000);
    ctx.require("stdout_after_shutdown", 30);
    ctx.section("mem-spans", 0.17, 2, 60, mem_spans);
    ctx.section("mem-logs", 0.17, 2, 60, mem_logs);
    ctx.section("mem-metrics", 0.17, 2, 60, mem_metrics);
    ctx.section("mem-concurrent", 0.12, 2, 20, mem_conc);
    ctx.section("stdout", 0.37, 4, 12, stdout_case);
}
fn block<F: std::future::Future>(f: F) -> F::Output {
    futures_executor::block_on(f)
}

// ---------------------------------------------------------------- in memory

fn span_source(r: &mut Rng, n: usize) -> Vec<SpanData> {
    let log = Default::default();
    let tp = SdkTracerProvider::builder().with_sampler(Sampler::AlwaysOn).with_span_processor(Rec::new(0, &log)).build();
    let l = opentelemetry_sdk::trace::SpanLimits::default();
    for _ in 0..n {
        let t = tp.tracer_with_scope(llib::rscope(r));
        let (b, _) = rbuilder(r, l, true);
        let mut s = t.build_with_context(b, &Context::new());
        for _ in 0..r.idx(5) {
            apply(&mut s, rop(r, &l, false), false);
        }
    }
    let g = log.lock().unwrap();
    ends(&g)
}
fn ends(g: &[PEv]) -> Vec<SpanData> {
    g.iter().filter_map(|e| if let PEv::End(_, d) = e { Some(d.clone()) } else { None }).collect()
}
fn stext(v: &[SpanData]) -> Vec<String> {
    v.iter().map(|s| format!("{s:?}")).collect()
}

fn mem_spans(c: &Case, r: &mut Rng) {
    let a = if r.bool() { InMemorySpanExporter::default() } else { InMemorySpanExporterBuilder::new().build() };
    let mut hs = vec![a.clone(), a];
    let mut model: Vec<SpanData> = vec![];
    // snapshots taken earlier, with what they held
    let mut old: Vec<(Vec<SpanData>, Vec<String>)> = vec![];
    let mut trace = String::new();
    let log: Arc<Mutex<Vec<PEv>>> = Default::default();
    let simple = SdkTracerProvider::builder().with_span_processor(Rec::new(0, &log)).with_simple_exporter(hs[0].clone()).build();
    let batch = r.chance(1, 3).then(|| SdkTracerProvider::builder().with_span_processor(Rec::new(0, &log)).with_batch_exporter(hs[0].clone()).build());
    for _ in 0..3 + r.idx(10) {
        match r.below(7) {
            0 | 1 => {
                let n = r.idx(5);
                let mut b = span_source(r, n);
                if r.chance(1, 4) && n > 0 {
                    // the same span, or the same identity, again
                    let k = r.idx(n);
                    let mut d = b[k].clone();
                    if r.bool() {
                        d.name = r.text(5).into();
                    }
                    let at = r.idx(n + 1);
                    b.insert(at, d);
                    if r.bool() {
                        b.extend(model.last().cloned());
                    }
                }
                trace += &format!(" export({})", b.len());
                model.extend(b.iter().cloned());
                let h = r.pick(&hs);
                let res = block(h.export(b));
                c.check(res.is_ok(), "span-result", || format!("export returned {res:?}; {trace}"));
            }
            2 => {
                // through a provider
                let p = match &batch {
                    Some(b) if r.bool() => b,
                    _ => &simple,
                };
                log.lock().unwrap().clear();
                let t = p.tracer_with_scope(llib::rscope(r));
                for _ in 0..1 + r.idx(4) {
                    let (b, _) = rbuilder(r, Default::default(), true);
                    drop(t.build_with_context(b, &Context::new()));
                }
                let res = p.force_flush();
                c.check(res.is_ok(), "span-result", || format!("force_flush returned {res:?}; {trace}"));
                trace += " provider";
                model.extend(ends(&log.lock().unwrap()));
            }
            3 => {
                r.pick(&hs).reset();
                trace += " reset";
                model.clear();
            }
            4 if r.chance(1, 3) && hs.len() > 1 => {
                // shutting one clone down empties the exporter
                let mut h = hs.pop().unwrap();
                let res = h.shutdown();
                c.check(res.is_ok(), "span-result", || format!("shutdown returned {res:?}; {trace}"));
                trace += " shutdown";
                model.clear();
            }
            5 => hs.push(hs[0].clone()),
            _ => {}
        }
        match r.pick(&hs).get_finished_spans() {
            Ok(v) => {
                let (g, w) = (stext(&v), stext(&model));
                if !c.check(g == w, "mem-spans", || format!("holds {} spans, {} were exported; first difference {:?}; {trace}", g.len(), w.len(), first_diff(&g, &w))) {
                    return;
                }
                c.count("mem_spans", v.len() as u64);
                c.count("mem_snapshots", 1);
                if old.len() < 5 {
                    old.push((v, g));
                }
            }
            Err(e) => c.fail("mem-spans", format!("get_finished_spans failed: {e:?}; {trace}")),
        }
    }
    c.check(old.iter().all(|(v, t)| stext(v) == *t), "mem-snapshot-changed", || format!("a snapshot changed after it was taken; {trace}"));
    drop(simple);
    drop(batch);
    c.seen(h64(&(c.id(), &trace)), !model.is_empty());
}
fn first_diff(a: &[String], b: &[String]) -> Option<(usize, String, String)> {
    (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).map(|i| (i, a.get(i).cloned().unwrap_or_default(), b.get(i).cloned().unwrap_or_default()))
}
fn rtext(r: &Resource) -> String {
    let mut v: Vec<String> = r.iter().map(|(k, v)| format!("{k}={}", hsdk::mlib::vtext(v))).collect();
    v.sort();
    format!("{v:?} {:?}", r.schema_url())
}
fn rres(r: &mut Rng) -> Resource {
    let mut b = Resource::builder_empty();
    for i in 0..r.idx(4) {
        b = b.with_attribute(KeyValue::new(format!("r{i}"), hsdk::mlib::rvalue(r)));
    }
    if r.bool() {
        return b.with_schema_url([KeyValue::new("x", 1i64)], "http://schema").build();
    }
    b.build()
}

fn mem_logs(c: &Case, r: &mut Rng) {
    let a = if r.bool() { InMemoryLogExporter::default() } else { InMemoryLogExporterBuilder::new().build() };
    let mut hs = vec![a.clone(), a.clone()];
    let res0 = rres(r);
    let mut eb = a.clone();
    let simple = r.chance(1, 3).then(|| SdkLoggerProvider::builder().with_resource(res0.clone()).with_simple_exporter(a.clone()).build());
    if simple.is_none() {
        // the provider tells its exporter the resource; here the harness does
        eb.set_resource(&res0);
    }
    let src = SdkLoggerProvider::builder().build();
    let mut cur = rtext(&res0);
    let mut model: Vec<(LModel, String)> = vec![];
    let mut old: Vec<(Vec<opentelemetry_sdk::logs::in_memory_exporter::LogDataWithResource>, usize, String)> = vec![];
    let mut history: Vec<(LModel, String)> = vec![];
    let mut shut = false;
    let mut trace = format!(" provider {}", simple.is_some());
    for _ in 0..3 + r.idx(10) {
        match r.below(7) {
            0 | 1 => {
                let n = r.idx(5);
                let sc: Vec<InstrumentationScope> = (0..n).map(|_| llib::rscope(r)).collect();
                let mut recs = vec![];
                for s in &sc {
                    let mut rec = src.logger_with_scope(s.clone()).create_log_record();
                    let mut m = LModel::default();
                    for _ in 0..r.idx(8) {
                        m.set(r, &mut rec);
                    }
                    if m.ots.is_none() {
                        let t = now();
                        rec.set_observed_timestamp(t);
                        m.ots = Some(t);
                    }
                    model.push((m, scope_text(s)));
                    recs.push(rec);
                }
                let refs: Vec<_> = recs.iter().zip(&sc).collect();
                let res = block(r.pick(&hs).export(LogBatch::new(&refs)));
                c.check(res.is_ok(), "log-result", || format!("export returned {res:?}; {trace}"));
                trace += &format!(" export({n})");
            }
            2 => {
                if let Some(p) = &simple {
                    let s = llib::rscope(r);
                    let l = p.logger_with_scope(s.clone());
                    let mut rec = l.create_log_record();
                    let mut m = LModel::default();
                    for _ in 0..r.idx(8) {
                        m.set(r, &mut rec);
                    }
                    let t0 = now();
                    let ots = m.ots;
                    l.emit(rec);
                    if ots.is_none() {
                        m.ots_window = Some((t0, now()));
                    }
                    model.push((m, scope_text(&s)));
                    trace += " emit";
                }
            }
            3 => {
                r.pick(&hs).reset();
                model.clear();
                trace += " reset";
            }
            4 if r.chance(1, 3) => {
                c.check(r.pick(&hs).is_shutdown_called() == shut, "log-shutdown-flag", || format!("is_shutdown_called is not {shut}; {trace}"));
                let res = r.pick(&hs).shutdown();
                c.check(res.is_ok(), "log-result", || format!("shutdown returned {res:?}; {trace}"));
                shut = true;
                model.clear();
                trace += " shutdown";
            }
            5 => hs.push(hs[0].clone()),
            6 if r.chance(1, 3) => {
                let n = rres(r);
                cur = rtext(&n);
                let i = r.idx(hs.len());
                hs[i].set_resource(&n);
                trace += " set_resource";
            }
            _ => {}
        }
        c.check(r.pick(&hs).is_shutdown_called() == shut, "log-shutdown-flag", || format!("is_shutdown_called is not {shut}; {trace}"));
        match r.pick(&hs).get_emitted_logs() {
            Ok(v) => {
                let bad = check_logs(&v, &model, &cur);
                if !c.check(bad.is_none(), "mem-logs", || format!("{}; {trace}", bad.unwrap())) {
                    return;
                }
                c.count("mem_logs", v.len() as u64);
                c.count("mem_snapshots", 1);
                if old.len() < 5 {
                    old.push((v, history.len(), cur.clone()));
                    history.extend(model.iter().cloned());
                }
            }
            Err(e) => c.fail("mem-logs", format!("get_emitted_logs failed: {e:?}; {trace}")),
        }
    }
    for (v, at, res) in &old {
        let bad = check_logs(v, &history[*at..*at + v.len()], res);
        c.check(bad.is_none(), "mem-snapshot-changed", || format!("a snapshot changed after it was taken: {}; {trace}", bad.unwrap()));
    }
    c.seen(h64(&(c.id(), &trace)), !history.is_empty());
}
fn check_logs(v: &[opentelemetry_sdk::logs::in_memory_exporter::LogDataWithResource], model: &[(LModel, String)], res: &str) -> Option<String> {
    if v.len() != model.len() {
        return Some(format!("holds {} records, {} were exported", v.len(), model.len()));
    }
    for (i, (d, (m, sc))) in v.iter().zip(model).enumerate() {
        if let Some(x) = m.diff(&d.record) {
            return Some(format!("record {i}: {x}"));
        }
        if scope_text(&d.instrumentation) != *sc {
            return Some(format!("record {i} has scope {}, emitted under {sc}", scope_text(&d.instrumentation)));
        }
        if rtext(&d.resource) != res {
            return Some(format!("record {i} has resource {}, the exporter was given {res}", rtext(&d.resource)));
        }
    }
    None
}

fn inst(m: &opentelemetry::metrics::Meter, k: IK, name: String, desc: &str, unit: &str, bounds: Option<Vec<f64>>) -> Inst {
    k.build(m, name, desc, unit, None, bounds)
}
const IKS: [IK; 9] = [IK::CU, IK::CF, IK::UI, IK::UF, IK::GU, IK::GI, IK::GF, IK::HU, IK::HF];

fn mem_metrics(c: &Case, r: &mut Rng) {
    let t = *r.pick(&[Temporality::Cumulative, Temporality::Delta, Temporality::LowMemory]);
    let (a, want_t) = match r.below(3) {
        0 => (InMemoryMetricExporter::default(), Temporality::Cumulative),
        _ => (InMemoryMetricExporterBuilder::new().with_temporality(t).build(), t),
    };
    c.check(a.temporality() == want_t && a.clone().temporality() == want_t, "metric-temporality", || format!("temporality {:?}, configured {want_t:?}", a.temporality()));
    let mut hs = vec![a.clone(), a];
    let rd = R::new(t);
    let exp = r.bool();
    let mut b = SdkMeterProvider::builder().with_resource(rres(r)).with_reader(rd.clone());
    if exp {
        b = b.with_view(|i: &opentelemetry_sdk::metrics::Instrument| {
            i.name.starts_with('x').then(|| opentelemetry_sdk::metrics::Stream::new().aggregation(opentelemetry_sdk::metrics::Aggregation::Base2ExponentialHistogram { max_size: 20, max_scale: 20, record_min_max: true }))
        });
    }
    let mp = b.build();
    let mut insts = vec![];
    for i in 0..1 + r.idx(6) {
        let k = IKS[r.idx(9)];
        let sc = llib::rscope(r);
        let name = format!("{}{i}", if exp && k.is_hist() { "x" } else { "m" });
        insts.push((k, inst(&mp.meter_with_scope(sc), k, name, &r.text(5), "ms", None)));
    }
    let sets = attr_sets(r, 4, true);
    let mut model: Vec<String> = vec![];
    let mut old: Vec<(Vec<ResourceMetrics>, Vec<String>)> = vec![];
    let mut rm = R::rm();
    let mut trace = format!(" {t:?}");
    for _ in 0..3 + r.idx(8) {
        match r.below(5) {
            0 => {
                r.pick(&hs).reset();
                model.clear();
                trace += " reset";
            }
            1 => hs.push(hs[0].clone()),
            _ => {
                for _ in 0..r.idx(10) {
                    let i = r.idx(insts.len());
                    let v = insts[i].0.value(r);
                    insts[i].1.record(v, r.pick(&sets));
                }
                if rd.snap_into(&mut rm).is_err() {
                    c.fail("mem-metrics", format!("collect failed; {trace}"));
                    return;
                }
                if r.chance(1, 3) {
                    // data no aggregation of the SDK makes
                    let sc = llib::rscope(r);
                    let n = r.idx(4);
                    rm.scope_metrics.push(opentelemetry_sdk::metrics::data::ScopeMetrics { scope: sc, metrics: (0..n).map(|_| hsdk::dgen::rmetric(r)).collect() });
                }
                let before = format!("{rm:?}");
                let res = block(r.pick(&hs).export(&mut rm));
                c.check(res.is_ok(), "metric-result", || format!("export returned {res:?}; {trace}"));
                let n = rm.scope_metrics.iter().map(|s| s.metrics.len()).sum::<usize>();
                trace += &format!(" export({n})");
                c.count("mem_metrics", n as u64);
                model.push(before);
            }
        }
        match r.pick(&hs).get_finished_metrics() {
            Ok(v) => {
                let g: Vec<String> = v.iter().map(|m| format!("{m:?}")).collect();
                if !c.check(g == model, "mem-metrics", || format!("holds {} exports, {} were made; first difference {:?}; {trace}", g.len(), model.len(), first_diff(&g, &model))) {
                    return;
                }
                c.count("mem_snapshots", 1);
                if old.len() < 3 {
                    old.push((v, g));
                }
            }
            Err(e) => c.fail("mem-metrics", format!("get_finished_metrics failed: {e:?}; {trace}")),
        }
    }
    c.check(old.iter().all(|(v, t)| v.iter().map(|m| format!("{m:?}")).eq(t.iter().cloned())), "mem-snapshot-changed", || format!("a snapshot changed after it was taken; {trace}"));
    c.seen(h64(&(c.id(), &trace)), !model.is_empty());
}

/// threads export while others look: whole batches, one order for everybody
fn mem_conc(c: &Case, r: &mut Rng) {
    let logs = r.bool();
    let (se, le) = (InMemorySpanExporter::default(), InMemoryLogExporter::default());
    let src = SdkLoggerProvider::builder().build().logger("x");
    let (threads, batches) = (2 + r.idx(3), 5 + r.idx(30));
    let ids = |se: &InMemorySpanExporter, le: &InMemoryLogExporter| -> Vec<u64> {
        if logs {
            le.get_emitted_logs().unwrap().iter().map(|l| if let Some(AnyValue::Int(i)) = l.record.body() { *i as u64 } else { u64::MAX }).collect()
        } else {
            se.get_finished_spans().unwrap().iter().map(plib::span_id_of).collect()
        }
    };
    let sizes: Vec<usize> = (0..threads).map(|_| 1 + r.idx(4)).collect();
    let trace = format!("logs {logs}, batch sizes {sizes:?}, {batches} each");
    let left = std::sync::atomic::AtomicUsize::new(threads);
    let mut last: Vec<u64> = vec![];
    std::thread::scope(|s| {
        for (t, &k) in sizes.iter().enumerate() {
            let (se, le, src, left) = (se.clone(), le.clone(), &src, &left);
            s.spawn(move || {
                for b in 0..batches {
                    let ids = (0..k).map(|i| (t * 1_000_000 + b * 100 + i) as u64);
                    if logs {
                        let sc = InstrumentationScope::builder("x").build();
                        let recs: Vec<_> = ids
                            .map(|i| {
                                let mut l = src.create_log_record();
                                l.set_body(AnyValue::Int(i as i64));
                                l
                            })
                            .collect();
                        let refs: Vec<_> = recs.iter().map(|x| (x, &sc)).collect();
                        let _ = block(le.export(LogBatch::new(&refs)));
                    } else {
                        let _ = block(se.export(ids.map(plib::span_data).collect()));
                    }
                }
                left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            });
        }
        loop {
            let over = left.load(std::sync::atomic::Ordering::SeqCst) == 0;
            let v = ids(&se, &le);
            c.check(v.len() >= last.len() && v[..last.len()] == last[..], "mem-order", || format!("a later snapshot does not extend the earlier one: {:?} then {:?}; {trace}", last, v));
            last = v;
            c.count("concurrent_snapshots", 1);
            if over {
                break;
            }
        }
    });
    // every item once, each thread's in its order
    let mut seen: HashMap<u64, u64> = HashMap::new();
    for i in &last {
        *seen.entry(*i).or_default() += 1;
    }
    let total: usize = sizes.iter().map(|k| k * batches).sum();
    c.check(last.len() == total && seen.len() == total, "mem-lost", || format!("{} items held, {} distinct, {total} exported; {trace}", last.len(), seen.len()));
    for t in 0..threads as u64 {
        let mine: Vec<u64> = last.iter().copied().filter(|i| i / 1_000_000 == t).collect();
        c.check(mine.windows(2).all(|w| w[0] < w[1]), "mem-order", || format!("thread {t}'s items are held as {mine:?}; {trace}"));
    }
    c.seen(h64(&last), true);
}

// ---------------------------------------------------------------- stdout

/// a line that must be printed: these texts, in this order, on one line
#[derive(Clone, Debug)]
struct Line {
    /// no other line of the export has them
    once: bool,
    parts: Vec<String>,
}
struct Want {
    next: u64,
    item: usize,
    lines: Vec<(usize, Line)>,
}
impl Want {
    /// a text that occurs nowhere else
    fn tok(&mut self) -> String {
        self.next += 1;
        format!("q{}q", self.next)
    }
    fn num(&mut self) -> u64 {
        self.next += 1;
        9_000_000_000 + self.next
    }
    fn once(&mut self, p: &[&str]) {
        self.lines.push((self.item, Line { once: true, parts: p.iter().map(|s| s.to_string()).collect() }));
    }
    fn some(&mut self, p: &[&str]) {
        self.lines.push((self.item, Line { once: false, parts: p.iter().map(|s| s.to_string()).collect() }));
    }
    fn time(&mut self, r: &mut Rng) -> (SystemTime, String) {
        // seconds are unique, below the year 2262
        self.next += 1;
        let t = UNIX_EPOCH + Duration::new(r.below(2_000_000) * 1000 + self.next % 1000 + 1_000_000_000, *r.pick(&[0, 1000, 999_999_000, 999_999_999, 123_456_789, 1]));
        (t, ttext(t))
    }
    fn value(&mut self, r: &mut Rng) -> (Value, Vec<String>) {
        match r.below(6) {
            0 => {
                let b = r.bool();
                (Value::Bool(b), vec![b.to_string()])
            }
            1 => {
                let n = self.num() as i64 * [1, -1][r.idx(2)];
                (Value::I64(n), vec![n.to_string()])
            }
            2 => {
                let n = self.num() as f64 + 0.5;
                (Value::F64(n), vec![format!("{n:?}")])
            }
            3 => {
                let (a, b) = (self.num(), self.num());
                (Value::Array(Array::I64(vec![a as i64, b as i64])), vec![a.to_string(), b.to_string()])
            }
            4 => {
                let (a, b) = (self.tok(), self.tok());
                (Value::Array(Array::String(vec![a.clone().into(), b.clone().into()])), vec![a, b])
            }
            _ => {
                let a = self.tok();
                (Value::String(a.clone().into()), vec![a])
            }
        }
    }
    fn kv(&mut self, r: &mut Rng) -> KeyValue {
        let k = self.tok();
        let (v, mut p) = self.value(r);
        p.insert(0, k.clone());
        self.lines.push((self.item, Line { once: true, parts: p }));
        KeyValue::new(k, v)
    }
    fn kvs(&mut self, r: &mut Rng, n: usize) -> Vec<KeyValue> {
        let n = r.idx(n + 1);
        (0..n).map(|_| self.kv(r)).collect()
    }
    fn scope(&mut self, r: &mut Rng) -> InstrumentationScope {
        let n = self.tok();
        let mut b = InstrumentationScope::builder(n.clone());
        self.once(&[&n]);
        if r.bool() {
            let v = self.tok();
            b = b.with_version(v.clone());
            self.once(&[&v]);
        }
        if r.bool() {
            let v = self.tok();
            b = b.with_schema_url(v.clone());
            self.once(&[&v]);
        }
        if r.bool() {
            let n = r.idx(3);
            let a = (0..n)
                .map(|_| {
                    // shown as a display value here, as a debug value there
                    let (k, v) = (self.tok(), self.tok());
                    self.once(&[&k, &v]);
                    KeyValue::new(k, v)
                })
                .collect::<Vec<_>>();
            b = b.with_attributes(a);
        }
        b.build()
    }
    fn resource(&mut self, r: &mut Rng) -> Resource {
        let n = self.tok();
        self.once(&["service.name", &n]);
        let a = self.kvs(r, 4);
        let b = Resource::builder_empty().with_service_name(n);
        if r.bool() {
            let u = self.tok();
            self.once(&[&u]);
            return b.with_schema_url(a, u).build();
        }
        b.with_attributes(a).build()
    }
    /// the attribute line of a point: text as the value displays
    fn emit(&mut self, export: usize) {
        let mut e = std::io::stderr().lock();
        for (i, l) in self.lines.drain(..) {
            let _ = writeln!(e, "@@L\t{export}\t{i}\t{}\t{}", l.once as u8, l.parts.join("\x1f"));
        }
    }
}
/// "%Y-%m-%d %H:%M:%S%.6f" in UTC
fn ttext(t: SystemTime) -> String {
    let d = t.duration_since(UNIX_EPOCH).unwrap();
    let (s, us) = (d.as_secs() as i64, d.subsec_micros());
    let (days, sod) = (s.div_euclid(86400), s.rem_euclid(86400));
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let (day, month) = (doy - (153 * mp + 2) / 5 + 1, if mp < 10 { mp + 3 } else { mp - 9 });
    let year = yoe + era * 400 + (month <= 2) as i64;
    format!("{year:04}-{month:02}-{day:02} {:02}:{:02}:{:02}.{us:06}", sod / 3600, sod / 60 % 60, sod % 60)
}

pub fn child(seed: u64) {
    std::panic::set_hook(Box::new(|i| eprintln!("@@P\t{i}")));
    let mut r = Rng::new(seed, 77);
    let r = &mut r;
    let mut w = Want { next: 0, item: 0, lines: vec![] };
    let mut n = 0;
    for _ in 0..12 {
        match r.below(3) {
            0 => child_spans(r, &mut w, &mut n),
            1 => child_logs(r, &mut w, &mut n),
            _ => child_metrics(r, &mut w, &mut n),
        }
    }
    println!("@@end");
    eprintln!("@@D\t{n}");
}
/// marks the output that follows as export `n`; what comes back is reported
fn begin(w: &mut Want, n: &mut usize) {
    *n += 1;
    println!("@@ {n}");
    w.emit(*n);
    w.item = 0;
}
fn outcome(n: usize, r: OTelSdkResult, kind: &str) {
    let t = match r {
        Ok(()) => "ok".to_string(),
        Err(e) if plib::is_already(&Err(opentelemetry_sdk::error::OTelSdkError::AlreadyShutdown)) && matches!(e, opentelemetry_sdk::error::OTelSdkError::AlreadyShutdown) => "shutdown".into(),
        Err(e) => format!("{e:?}"),
    };
    eprintln!("@@R\t{n}\t{kind}\t{t}");
}

fn uniq_ctx(r: &mut Rng) -> SpanContext {
    SpanContext::new(tid_of(r.u128() | 1 << 127), sid_of(r.u64() | 1 << 63), TraceFlags::new(r.u64() as u8), r.bool(), TraceState::NONE)
}
/// a handful, rarely many
fn few(r: &mut Rng, rare: u64) -> usize {
    let max = if r.chance(1, rare) { 110 } else { 4 };
    r.idx(max)
}
fn one_span(r: &mut Rng, w: &mut Want) -> SpanData {
    let mut d = plib::span_data(0);
    d.instrumentation_scope = w.scope(r);
    let n = w.tok();
    d.name = n.clone().into();
    w.once(&["Name", &n]);
    d.span_context = uniq_ctx(r);
    w.once(&["TraceId", &format!("{:032x}", u128::from_be_bytes(d.span_context.trace_id().to_bytes()))]);
    let me = format!("{:016x}", u64::from_be_bytes(d.span_context.span_id().to_bytes()));
    w.once(&["SpanId", &me]);
    w.some(&["TraceFlags", &format!("({})", d.span_context.trace_flags().to_u8())]);
    d.parent_span_id = if r.bool() { sid_of(r.u64() | 1 << 63) } else { sid_of(0) };
    w.some(&["ParentSpanId", &format!("{:016x}", u64::from_be_bytes(d.parent_span_id.to_bytes()))]);
    d.span_kind = rkind(r);
    w.some(&["Kind", &format!("{:?}", d.span_kind)]);
    let (t, x) = w.time(r);
    d.start_time = t;
    w.some(&["Start", &x]);
    let (t, x) = w.time(r);
    d.end_time = t;
    w.some(&["End", &x]);
    d.status = match r.below(3) {
        0 => Status::Unset,
        1 => Status::Ok,
        _ => {
            let t = w.tok();
            w.once(&["Status", "Error", &t]);
            Status::error(t)
        }
    };
    w.some(&["Status", ["Unset", "Ok", "Error"][match d.status {
        Status::Unset => 0,
        Status::Ok => 1,
        _ => 2,
    }]]);
    d.attributes = w.kvs(r, 5);
    let many = if r.chance(1, 400) { 250 } else { 4 };
    for _ in 0..r.idx(many) {
        let n = w.tok();
        w.once(&["Name", &n]);
        let (t, x) = w.time(r);
        w.some(&["Timestamp", &x]);
        let a = w.kvs(r, 3);
        d.events.events.push(Event::new(n, t, a, 0));
    }
    for _ in 0..r.idx(many) {
        let c = uniq_ctx(r);
        w.once(&["TraceId", &format!("{:032x}", u128::from_be_bytes(c.trace_id().to_bytes()))]);
        w.once(&["SpanId", &format!("{:016x}", u64::from_be_bytes(c.span_id().to_bytes()))]);
        let a = w.kvs(r, 3);
        d.links.links.push(Link::new(c, a, 0));
    }
    d
}
fn child_spans(r: &mut Rng, w: &mut Want, n: &mut usize) {
    let mut e = opentelemetry_stdout::SpanExporter::default();
    let mut res = Some(w.resource(r));
    SpanExporter::set_resource(&mut e, res.as_ref().unwrap());
    // none at all, at times: shut down unused
    for _ in 0..r.idx(5) {
        // the resource belongs to the first export
        res = None;
        let mut b = vec![];
        for _ in 0..few(r, 90) {
            w.item += 1;
            b.push(one_span(r, w));
        }
        begin(w, n);
        let o = block(SpanExporter::export(&e, b));
        outcome(*n, o, "spans");
    }
    let _ = res;
    // printed by nobody when nothing was exported
    w.lines.clear();
    let _ = SpanExporter::shutdown(&mut e);
    if r.bool() {
        let b = vec![one_span(r, w)];
        w.lines.clear();
        begin(w, n);
        let o = block(SpanExporter::export(&e, b));
        outcome(*n, o, "closed");
    }
    w.item = 0;
}
fn child_logs(r: &mut Rng, w: &mut Want, n: &mut usize) {
    let mut e = opentelemetry_stdout::LogExporter::default();
    let src = SdkLoggerProvider::builder().build().logger("x");
    let res = w.resource(r);
    LogExporter::set_resource(&mut e, &res);
    let rounds = r.idx(5);
    for round in 0..=rounds {
        let closed = round == rounds;
        if closed {
            let _ = LogExporter::shutdown(&e);
        }
        let (mut recs, mut scs) = (vec![], vec![]);
        for _ in 0..few(r, 90) {
            w.item += 1;
            scs.push(w.scope(r));
            let mut l = src.create_log_record();
            if r.bool() {
                let t = w.tok();
                w.once(&["EventName", &t]);
                l.set_event_name(hsdk::mlib::leak(&t));
            }
            if r.bool() {
                let t = w.tok();
                w.once(&["Target", &t]);
                l.set_target(t);
            }
            if r.bool() {
                let c = uniq_ctx(r);
                w.once(&["TraceId", &format!("{:032x}", u128::from_be_bytes(c.trace_id().to_bytes()))]);
                w.once(&["SpanId", &format!("{:016x}", u64::from_be_bytes(c.span_id().to_bytes()))]);
                let f = r.bool().then_some(c.trace_flags());
                if let Some(f) = f {
                    w.some(&["TraceFlags", &format!("({})", f.to_u8())]);
                }
                l.set_trace_context(c.trace_id(), c.span_id(), f);
            }
            if r.bool() {
                let (t, x) = w.time(r);
                w.some(&["Timestamp", &x]);
                l.set_timestamp(t);
            }
            if r.bool() {
                let (t, x) = w.time(r);
                w.some(&["Observed Timestamp", &x]);
                l.set_observed_timestamp(t);
            }
            if r.bool() {
                let t = w.tok();
                w.once(&["SeverityText", &t]);
                l.set_severity_text(hsdk::mlib::leak(&t));
            }
            if r.bool() {
                let s = llib::rsev(r);
                w.some(&["SeverityNumber", &format!("{s:?}")]);
                l.set_severity_number(s);
            }
            if r.bool() {
                let t = w.tok();
                w.once(&["Body", &t]);
                l.set_body(AnyValue::String(t.into()));
            }
            // more than the record keeps inline
            for _ in 0..r.idx(9) {
                let (k, t) = (w.tok(), w.tok());
                w.once(&[&k, &t]);
                l.add_attribute(k, if r.bool() { AnyValue::String(t.into()) } else { AnyValue::ListAny(Box::new(vec![AnyValue::String(t.into())])) });
            }
            recs.push(l);
        }
        if closed {
            w.lines.clear();
        }
        begin(w, n);
        let refs: Vec<_> = recs.iter().zip(&scs).collect();
        let o = block(LogExporter::export(&e, LogBatch::new(&refs)));
        outcome(*n, o, if closed { "closed" } else { "logs" });
    }
}
fn child_metrics(r: &mut Rng, w: &mut Want, n: &mut usize) {
    let t = *r.pick(&[Temporality::Cumulative, Temporality::Delta]);
    let e = opentelemetry_stdout::MetricExporter::builder().with_temporality(t).build();
    let d = opentelemetry_stdout::MetricExporter::default();
    if e.temporality() != t || d.temporality() != Temporality::Cumulative {
        eprintln!("@@R\t0\ttemporality\t{:?} configured as {t:?}, default {:?}", e.temporality(), d.temporality());
    }
    let rd = R::new(t);
    let res = w.resource(r);
    let header = std::mem::take(&mut w.lines);
    let mp = SdkMeterProvider::builder().with_resource(res).with_reader(rd.clone()).build();
    let mut insts = vec![];
    let mut scopes: HashMap<String, Vec<(usize, Line)>> = HashMap::new();
    for _ in 0..1 + r.idx(3) {
        let sc = w.scope(r);
        scopes.insert(sc.name().to_string(), std::mem::take(&mut w.lines));
        let m = mp.meter_with_scope(sc);
        for _ in 0..1 + r.idx(3) {
            let k = IKS[r.idx(9)];
            let bounds = (k.is_hist() && r.bool()).then(|| vec![-1.5, 0.0, 2.25, 9.5e9]);
            let (name, desc) = (format!("m{}", w.tok()), w.tok());
            insts.push((k, inst(&m, k, name, &desc, "{item}", bounds)));
        }
    }
    let mut rm = R::rm();
    let rounds = r.idx(4);
    for round in 0..=rounds {
        let closed = round == rounds;
        if closed {
            let _ = PushMetricExporter::shutdown(&e);
        }
        for (k, i) in &insts {
            for _ in 0..few(r, 40) {
                let a: Vec<KeyValue> = (0..1 + r.idx(3)).map(|_| KeyValue::new(w.tok(), w.tok())).collect();
                for _ in 0..1 + if k.is_gauge() || k.is_hist() { r.idx(3) } else { 0 } {
                    let x = w.num();
                    i.record(
                        match k.ty() {
                            'u' => Num::U(x),
                            'i' => Num::I(x as i64 * [1, -1][r.idx(2)]),
                            _ => Num::F(x as f64 + 0.5),
                        },
                        &a,
                    );
                }
            }
        }
        let s = rd.snap_into(&mut rm).unwrap();
        w.lines = header.clone();
        if closed {
            w.lines.clear();
        } else {
            metric_lines(w, &s, &rm, &scopes);
        }
        begin(w, n);
        let o = block(PushMetricExporter::export(&e, &mut rm));
        outcome(*n, o, if closed { "closed" } else { "metrics" });
    }
}
fn metric_lines(w: &mut Want, s: &Snap, rm: &ResourceMetrics, scopes: &HashMap<String, Vec<(usize, Line)>>) {
    let mut it = s.mets.iter();
    for sm in &rm.scope_metrics {
        w.item += 1;
        for (_, l) in &scopes[sm.scope.name()] {
            w.lines.push((w.item, l.clone()));
        }
        for _ in &sm.metrics {
            let m = it.next().unwrap();
            w.item += 1;
            w.once(&["Name", &m.name]);
            w.once(&["Description", &m.desc]);
            w.some(&["Unit", &m.unit]);
            w.some(&["Type", match m.kind {
                K::Sum { .. } => "Sum",
                K::Gauge => "Gauge",
                _ => "Histogram",
            }]);
            if let K::Sum { mono } = m.kind {
                w.some(&["Monotonic", &mono.to_string()]);
            }
            if let Some(d) = m.delta {
                w.some(&["Temporality", if d { "Delta" } else { "Cumulative" }]);
            }
            if let Some(t) = m.start {
                w.some(&["StartTime", &ttext(t)]);
            }
            w.some(&["EndTime", &ttext(m.time)]);
            for a in &m.raw {
                w.item += 1;
                match &m.pts[&akey(a)] {
                    Pt::Num(v) => w.once(&["Value", &ntext(v)]),
                    Pt::Hist { count, sum, min, max, bounds, buckets } => {
                        w.some(&["Count", &count.to_string()]);
                        w.once(&["Sum", &ntext(sum)]);
                        if let Some(x) = min {
                            w.some(&["Min", &ntext(x)]);
                        }
                        if let Some(x) = max {
                            w.some(&["Max", &ntext(x)]);
                        }
                        let mut lo = f64::NEG_INFINITY;
                        for (i, b) in bounds.iter().enumerate() {
                            w.some(&[&format!("{lo} to {b} "), &buckets[i].to_string()]);
                            lo = *b;
                        }
                        w.some(&[&format!("{lo} to "), "nfinity", &buckets[bounds.len()].to_string()]);
                    }
                    _ => {}
                }
                for kv in a {
                    w.once(&[kv.key.as_str(), &kv.value.as_str()]);
                }
            }
        }
    }
    w.item = 0;
}
fn ntext(n: &Num) -> String {
    match n {
        Num::U(x) => format!("{x:?}"),
        Num::I(x) => format!("{x:?}"),
        Num::F(x) => format!("{x:?}"),
    }
}

fn has(line: &str, parts: &[&str]) -> bool {
    let mut at = 0;
    parts.iter().all(|p| match line[at..].find(p) {
        Some(i) => {
            at += i + p.len();
            true
        }
        None => false,
    })
}
fn stdout_case(c: &Case, r: &mut Rng) {
    let seed = r.u64();
    let exe = std::env::current_exe().unwrap();
    let out = match std::process::Command::new(exe).args(["D01", "--stdout-child", &seed.to_string()]).output() {
        Ok(o) => o,
        Err(e) => {
            c.ctx.inconclusive(&format!("stdout child: {e}"));
            return;
        }
    };
    let (so, se) = (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned());
    if let Some(p) = se.lines().find(|l| l.starts_with("@@P")) {
        c.fail("stdout-panic", format!("seed {seed}: {p}"));
        return;
    }
    if !se.contains("@@D\t") || !out.status.success() {
        c.fail("stdout-died", format!("seed {seed}: the exporting process ended with {:?}", out.status));
        return;
    }
    // stdout, cut at the marks
    let mut region: HashMap<usize, Vec<&str>> = HashMap::new();
    let mut cur = 0;
    for l in so.lines() {
        if let Some(n) = l.strip_prefix("@@ ") {
            cur = n.trim().parse().unwrap_or(0);
        } else if l != "@@end" {
            region.entry(cur).or_default().push(l);
        }
    }
    let none = vec![];
    let mut want: BTreeMap<usize, BTreeMap<usize, Vec<(bool, Vec<&str>)>>> = BTreeMap::new();
    let mut results: Vec<(usize, &str, &str)> = vec![];
    for l in se.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "@@L" => want.entry(f[1].parse().unwrap()).or_default().entry(f[2].parse().unwrap()).or_default().push((f[3] == "1", f[4].split('\x1f').collect())),
            "@@R" => results.push((f[1].parse().unwrap(), f[2], f[3])),
            _ => {}
        }
    }
    for (n, kind, res) in &results {
        let out = region.get(n).unwrap_or(&none);
        if *kind == "closed" {
            c.check(*res == "shutdown", "stdout-after-shutdown", || format!("seed {seed}: export {n} after shutdown returned {res}"));
            c.check(out.is_empty(), "stdout-after-shutdown", || format!("seed {seed}: export {n} after shutdown printed {:?}", &out[..out.len().min(5)]));
            c.count("stdout_after_shutdown", 1);
            continue;
        }
        if !c.check(*res == "ok", "stdout-result", || format!("seed {seed}: export {n} ({kind}) returned {res}")) {
            continue;
        }
        c.count("stdout_exports", 1);
        c.check(!out.is_empty(), "stdout-missing", || format!("seed {seed}: export {n} ({kind}) printed nothing"));
    }
    for (n, items) in &want {
        let out = region.get(n).unwrap_or(&none);
        // unique lines first: they cut the output into items
        let mut span: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
        for (i, ls) in items {
            for (once, p) in ls {
                if !*once {
                    continue;
                }
                let at: Vec<usize> = out.iter().enumerate().filter(|(_, l)| has(l, p)).map(|(k, _)| k).collect();
                c.count("stdout_lines", 1);
                if !c.check(at.len() == 1, "stdout-line", || format!("seed {seed}: export {n}, item {i}: {p:?} is printed on {} lines; output {:?}", at.len(), brief(out))) {
                    return;
                }
                let e = span.entry(*i).or_insert((at[0], at[0]));
                *e = (e.0.min(at[0]), e.1.max(at[0]));
            }
        }
        let order: Vec<(usize, (usize, usize))> = span.iter().map(|(a, b)| (*a, *b)).collect();
        if !c.check(order.windows(2).all(|w| w[0].1 .1 < w[1].1 .0), "stdout-order", || format!("seed {seed}: export {n}: items (index, first and last line) {order:?}; output {:?}", brief(out))) {
            return;
        }
        for (k, (i, _)) in order.iter().enumerate() {
            let lo = if k == 0 { 0 } else { order[k - 1].1 .1 + 1 };
            let hi = order.get(k + 1).map_or(out.len(), |x| x.1 .0);
            for (_, p) in items[i].iter().filter(|l| !l.0) {
                c.count("stdout_lines", 1);
                c.check(out[lo..hi].iter().any(|l| has(l, p)), "stdout-line", || format!("seed {seed}: export {n}, item {i}: no line shows {p:?}; output {:?}", brief(&out[lo..hi])));
            }
        }
    }
    // nothing of one export shows up in another
    for (n, items) in &want {
        for (once, p) in items.values().flatten() {
            if *once && p.len() > 1 && p[0].starts_with('q') {
                let elsewhere = results.iter().filter(|x| x.0 != *n && x.1 != "metrics").any(|x| region.get(&x.0).is_some_and(|o| o.iter().any(|l| has(l, p))));
                let metrics = results.iter().any(|x| x.0 == *n && x.1 == "metrics");
                c.check(metrics || !elsewhere, "stdout-repeated", || format!("seed {seed}: {p:?} of export {n} is printed again by another export"));
            }
        }
    }
    c.count("stdout_children", 1);
    c.seen(h64(&so), true);
}
fn brief(o: &[&str]) -> String {
    let t = o.join("\n");
    t.chars().take(1500).collect()
}
