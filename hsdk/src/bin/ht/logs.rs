//! L02: log records reach every processor intact.
use hsdk::llib::*;
use hsdk::slib;
use hsdk::*;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::trace::{Span as _, TraceContextExt, Tracer as _, TracerProvider as _};
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::logs::*;
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider};
use std::sync::{Arc, Barrier, Mutex};

type Log = Arc<Mutex<Vec<LEv>>>;

pub fn run(ctx: &Ctx) {
    ctx.require("records_checked", 3000);
    ctx.require("with_active_span", 300);
    ctx.require("beyond_inline_attributes", 300);
    ctx.require("mutated_in_chain", 300);
    ctx.require("enablement_checked", 3000);
    ctx.require("exported_checked", 500);
    ctx.require("shared_records", 500);
    ctx.section("records", 0.6, 5, 200, records);
    ctx.section("shared", 0.2, 2, 30, shared);
    let _inj = hsdk::perturb::Injector::start(ctx.seed, 150);
    ctx.section("shared-perturbed", 0.2, 2, 20, shared);
}

fn records(c: &Case, r: &mut Rng) {
    let log: Log = Default::default();
    let np = r.idx(5);
    let mut b = SdkLoggerProvider::builder();
    let mut muts = vec![];
    let mut wants = vec![];
    for i in 0..np {
        let mut p = RecL::new(i, &log);
        if r.chance(1, 3) {
            p.mutation = Mutation::random(r);
        }
        p.enabled = match r.below(4) {
            0 => 0,
            1 => 1,
            _ => 2 + r.below(1000),
        };
        muts.push(p.mutation.clone());
        wants.push(p.enabled);
        b = b.with_log_processor(p);
    }
    // real processors at the end of the chain see every change
    let simple = KeepLogs::default();
    let batch = KeepLogs::default();
    let (with_simple, with_batch) = (r.chance(1, 3), r.chance(1, 4));
    if with_simple {
        b = b.with_simple_exporter(simple.clone());
        wants.push(1);
    }
    if with_batch {
        b = b.with_batch_exporter(batch.clone());
        wants.push(1);
    }
    let lp = b.build();
    let by_name = r.chance(1, 5);
    let sc = if by_name { opentelemetry::InstrumentationScope::builder(if r.bool() { ["", " ", " padded ", "tab\t"][r.idx(4)].to_string() } else { r.text(6) }).build() } else { rscope(r) };
    let lg = if by_name { lp.logger(sc.name().to_string()) } else { lp.logger_with_scope(sc.clone()) };
    let tp = SdkTracerProvider::builder().with_sampler(Sampler::TraceIdRatioBased(0.5)).build();
    let tracer = tp.tracer("t");
    let mut trace = format!("{np} processors {muts:?} simple={with_simple} batch={with_batch}");
    let mut finals = vec![];
    for _ in 0..1 + r.idx(5) {
        let mut m = LModel::default();
        let mut rec = lg.create_log_record();
        let n = match r.below(4) {
            0 => 0,
            1 => r.idx(6),
            2 => 4 + r.idx(4),
            _ if r.chance(1, 12) => 60 + r.idx(300),
            _ => r.idx(50),
        };
        let mut what = vec![];
        for _ in 0..n {
            what.push(m.set(r, &mut rec));
        }
        if m.attrs.len() > 5 {
            c.count("beyond_inline_attributes", 1);
        }
        // the emitting context
        let mut sup = false;
        let mut active = None;
        let cx = match r.below(7) {
            0 => Context::new(),
            1 | 2 => {
                let s = tracer.span_builder("s").start_with_context(&tracer, &Context::new());
                active = Some(s.span_context().clone());
                Context::new().with_span(s)
            }
            3 => {
                let s = slib::valid_ctx(r);
                active = Some(s.clone());
                Context::new().with_remote_span_context(s)
            }
            4 => {
                // nested: the innermost span counts, derived contexts keep it
                let s = tracer.span_builder("s").start_with_context(&tracer, &Context::new());
                let inner = tracer.span_builder("i").start_with_context(&tracer, &Context::new().with_span(s));
                active = Some(inner.span_context().clone());
                Context::new().with_span(inner).with_value(7u8).with_baggage(vec![KeyValue::new("k", "v")])
            }
            5 => Context::new().with_value(1u8),
            _ => {
                sup = true;
                let s = slib::valid_ctx(r);
                Context::new().with_remote_span_context(s).with_telemetry_suppressed()
            }
        };
        trace += &format!("; {} active={active:?} suppressed={sup}", what.join(" "));
        if m.tc.is_none() {
            m.tc = active.as_ref().map(|s| (s.trace_id(), s.span_id(), Some(s.trace_flags())));
        }
        if active.is_some() {
            c.count("with_active_span", 1);
        }
        log.lock().unwrap().clear();
        let g = cx.attach();
        // enablement
        for _ in 0..2 {
            let (l, t, nm) = (rsev(r), r.text(3), if r.bool() { Some("ev") } else { None });
            let want = !sup && wants.iter().any(|w| RecL::wants(*w, l, &t, nm));
            let got = lg.event_enabled(l, &t, nm);
            c.count("enablement_checked", 1);
            if !c.check(got == want, "enablement", || format!("event_enabled({l:?}, {t:?}, {nm:?}) is {got}; processors want {wants:?}; {trace}")) {
                return;
            }
        }
        let t0 = slib::now();
        lg.emit(rec);
        m.ots_window = Some((t0, slib::now()));
        drop(g);
        let got: Vec<LEv> = std::mem::take(&mut *log.lock().unwrap());
        if sup {
            if !c.check(got.is_empty(), "delivered-while-suppressed", || format!("{got:?}; {trace}")) {
                return;
            }
            continue;
        }
        if !c.check(got.len() == np, "processors-called", || format!("{} calls for {np} processors; {trace}", got.len())) {
            return;
        }
        for (i, e) in got.iter().enumerate() {
            let LEv::Emit(j, d, s) = e else { return c.fail("processors-called", format!("{e:?}; {trace}")) };
            if !c.check(*j == i, "processor-order", || format!("call {i} went to processor {j}; {trace}")) {
                return;
            }
            if !c.check(scope_text(s) == scope_text(&sc), "scope", || format!("{s:?}, expected {sc:?}")) {
                return;
            }
            if let Some(x) = m.diff(d) {
                return c.fail("record", format!("processor {i}: {x}; {trace}"));
            }
            muts[i].model(&mut m);
            if !matches!(muts[i], Mutation::None) && i + 1 < np {
                c.count("mutated_in_chain", 1);
            }
        }
        c.count("records_checked", 1);
        finals.push(m);
    }
    // the logger of a provider that is shut down delivers nothing
    if with_batch && r.bool() {
        let _ = lp.force_flush();
    }
    let down = lp.shutdown();
    if !c.check(down.is_ok(), "shutdown", || format!("{down:?}; {trace}")) {
        return;
    }
    for (on, kept, what) in [(with_simple, &simple, "simple"), (with_batch, &batch, "batch")] {
        if !on {
            continue;
        }
        let g = kept.0.lock().unwrap();
        if !c.check(g.len() == finals.len(), "exported-count", || format!("{what} exporter got {} of {} records; {trace}", g.len(), finals.len())) {
            return;
        }
        for ((d, s), m) in g.iter().zip(&finals) {
            if let Some(x) = m.diff(d) {
                return c.fail("exported-record", format!("{what} exporter: {x}; {trace}"));
            }
            if !c.check(scope_text(s) == scope_text(&sc), "scope", || format!("{what}: {s:?}, expected {sc:?}")) {
                return;
            }
            c.count("exported_checked", 1);
        }
    }
    log.lock().unwrap().clear();
    let late = lp.logger_with_scope(sc.clone());
    let before = (simple.0.lock().unwrap().len(), batch.0.lock().unwrap().len());
    late.emit(late.create_log_record());
    if r.bool() {
        lg.emit(lg.create_log_record());
        let g = log.lock().unwrap().len();
        // an earlier logger still runs custom processors; it must not reach exporters
        c.check(g == 0 || g == np, "late-partial", || format!("{g} of {np} processors; {trace}"));
    } else {
        let g = log.lock().unwrap().len();
        c.check(g == 0, "delivered-after-shutdown", || format!("{g} processors; {trace}"));
    }
    c.check(!late.event_enabled(rsev(r), "t", None), "enabled-after-shutdown", || trace.clone());
    let after = (simple.0.lock().unwrap().len(), batch.0.lock().unwrap().len());
    c.check(before == after, "exported-after-shutdown", || format!("{before:?} -> {after:?}; {trace}"));
    c.seen(h64(&trace), !finals.is_empty() && np > 0);
    c.sample(|| trace.clone());
}

/// many threads, one chain of mutating processors: nothing leaks between records
fn shared(c: &Case, r: &mut Rng) {
    let log: Log = Default::default();
    let np = 1 + r.idx(3);
    let mut b = SdkLoggerProvider::builder();
    let mut muts = vec![];
    for i in 0..np {
        let mut p = RecL::new(i, &log);
        p.mutation = if r.chance(2, 3) { Mutation::random(r) } else { Mutation::None };
        muts.push(p.mutation.clone());
        b = b.with_log_processor(p);
    }
    let simple = KeepLogs::default();
    let batch = KeepLogs::default();
    let (with_simple, with_batch) = (r.bool(), r.bool());
    if with_simple {
        b = b.with_simple_exporter(simple.clone());
    }
    if with_batch {
        b = b.with_batch_exporter(batch.clone());
    }
    let lp = b.build();
    let nt = 2 + r.idx(3);
    let n = 5 + r.idx(20);
    let bar = Barrier::new(nt);
    let lg = lp.logger("shared");
    let models: Vec<(u64, LModel)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let mut r = Rng::new(r.u64(), t as u64);
                let (bar, lg) = (&bar, &lg);
                s.spawn(move || {
                    let mut out = vec![];
                    let sc = slib::valid_ctx(&mut r);
                    let tc = (sc.trace_id(), sc.span_id(), Some(sc.trace_flags()));
                    let _g = Context::new().with_remote_span_context(sc).attach();
                    bar.wait();
                    for k in 0..n {
                        let id = ((t as u64) << 32) | k as u64;
                        let mut m = LModel::default();
                        let mut rec = lg.create_log_record();
                        rec.add_attribute("vh.id", id as i64);
                        m.attrs.push(("vh.id".into(), format!("i{id}")));
                        for _ in 0..r.idx(12) {
                            m.set(&mut r, &mut rec);
                        }
                        if m.tc.is_none() {
                            m.tc = Some(tc);
                        }
                        let t0 = slib::now();
                        lg.emit(rec);
                        m.ots_window = Some((t0, slib::now()));
                        out.push((id, m));
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let res = lp.shutdown();
    c.check(res.is_ok(), "shutdown", || format!("{res:?}"));
    let idof = |d: &SdkLogRecord| {
        d.attributes_iter()
            .find_map(|(k, v)| match v {
                AnyValue::Int(x) if k.as_str() == "vh.id" => Some(*x as u64),
                _ => None,
            })
            .unwrap_or(u64::MAX)
    };
    let mut by: Vec<std::collections::HashMap<u64, SdkLogRecord>> = vec![Default::default(); np + 2];
    let mut order = vec![];
    for e in log.lock().unwrap().iter() {
        if let LEv::Emit(i, d, _) = e {
            let id = idof(d);
            if *i == 0 {
                order.push(id);
            }
            if !c.check(by[*i].insert(id, (**d).clone()).is_none(), "delivered-twice", || format!("record {id:x} reached processor {i} twice")) {
                return;
            }
        }
    }
    for (k, kept) in [(np, &simple), (np + 1, &batch)] {
        for (d, _) in kept.0.lock().unwrap().iter() {
            let id = idof(d);
            if !c.check(by[k].insert(id, d.clone()).is_none(), "delivered-twice", || format!("record {id:x} exported twice")) {
                return;
            }
        }
    }
    for (id, mut m) in models {
        for i in 0..np + 2 {
            if (i == np && !with_simple) || (i == np + 1 && !with_batch) {
                continue;
            }
            let Some(d) = by[i].get(&id) else { return c.fail("lost", format!("record {id:x} never reached stage {i} of {np}+2")) };
            if let Some(x) = m.diff(d) {
                return c.fail("record", format!("stage {i} record {id:x}: {x}; mutations {muts:?}"));
            }
            if i < np {
                muts[i].model(&mut m);
            }
        }
        c.count("shared_records", 1);
    }
    c.seen(h64(&order), true);
}
