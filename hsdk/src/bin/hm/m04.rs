//! M04: exponential histograms against the mathematical definition of the buckets.
use hsdk::mlib::*;
use hsdk::*;
use opentelemetry::metrics::MeterProvider;
use opentelemetry::KeyValue;
use opentelemetry_sdk::metrics::*;
use std::collections::BTreeMap;

/// (exact) exponent e and mantissa m in [1,2): v = m * 2^e, for positive finite v
fn split(v: f64) -> (i32, f64) {
    let bits = v.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    if e == 0 {
        let (e2, m) = split(v * 2f64.powi(200));
        (e2 - 200, m)
    } else {
        (e - 1023, f64::from_bits((bits & ((1 << 52) - 1)) | (1023u64 << 52)))
    }
}
/// the bucket index range a positive value may be in: exact for scale <= 0 and powers of two,
/// otherwise +-1 only when within rounding distance of a boundary
fn index(v: f64, scale: i32) -> (i64, i64) {
    let (e, m) = split(v);
    if m == 1.0 {
        // v = 2^e is the inclusive upper bound of its bucket
        return if scale >= 0 {
            let i = ((e as i64) << scale) - 1;
            (i, i)
        } else {
            let i = (e as i64 - 1) >> -scale;
            (i, i)
        };
    }
    if scale <= 0 {
        let i = (e as i64) >> -scale; // ceil(log2 v) - 1 = e
        return (i, i);
    }
    // fractional position within the octave; m in (1,2)
    let x = m.log2() * 2f64.powi(scale);
    let base = (e as i64) << scale;
    let eps = 1e-15 * 2f64.powi(scale) * 16.0 + 1e-9;
    let lo = ((x - eps).ceil() as i64 - 1).max(0);
    let hi = ((x + eps).ceil() as i64 - 1).min((1i64 << scale) - 1);
    // the implementation may compute log2 of the whole value: allow for that rounding too
    let eps2 = (e.abs() as f64 + 1.0) * 3e-16 * 2f64.powi(scale) * 4.0;
    let lo2 = ((x - eps2).ceil() as i64 - 1).min(lo);
    let hi2 = ((x + eps2).ceil() as i64 - 1).max(hi);
    (base + lo2, base + hi2)
}

fn check_bucket(c: &Case, what: &str, vals: &[f64], off: i32, counts: &[u64], scale: i32, ctx: &dyn Fn() -> String) {
    let mut sure: BTreeMap<i64, u64> = BTreeMap::new();
    let mut maybe: BTreeMap<i64, u64> = BTreeMap::new();
    for v in vals {
        let (a, b) = index(*v, scale);
        if a == b {
            *sure.entry(a).or_insert(0) += 1;
        } else {
            for i in a..=b {
                *maybe.entry(i).or_insert(0) += 1;
            }
        }
    }
    let tot: u64 = counts.iter().sum();
    if tot != vals.len() as u64 {
        c.fail("bucket-total", format!("{what} buckets hold {tot}, {} values recorded; {}", vals.len(), ctx()));
        return;
    }
    for (j, n) in counts.iter().enumerate() {
        let i = off as i64 + j as i64;
        let s = sure.remove(&i).unwrap_or(0);
        let m = maybe.get(&i).copied().unwrap_or(0);
        if *n < s || *n > s + m {
            c.fail("wrong-bucket", format!("{what} bucket {i} at scale {scale} holds {n}, {s} values (up to {m} more by rounding) belong there; {}", ctx()));
            return;
        }
    }
    if let Some((i, s)) = sure.into_iter().next() {
        c.fail("wrong-bucket", format!("{what}: {s} values belong into bucket {i} at scale {scale} which is not reported; {}", ctx()));
    }
}

pub fn run(ctx: &Ctx) {
    ctx.require("points_checked", 500);
    ctx.section("sequences", 1.0, 6, 300, |c, r| {
        let max_size: u32 = *r.pick(&[4, 5, 8, 16, 20, 40, 160, 160, 320]);
        let max_scale: i8 = *r.pick(&[20, 20, 10, 3, 1, 0, -1, -4, -10, 15]);
        let rmm = r.chance(4, 5);
        let t = temporality_of(r.u64());
        let rd = R::new(t);
        let mp = SdkMeterProvider::builder()
            .with_reader(rd.clone())
            .with_view(move |i: &Instrument| {
                Some(Stream::new().name(i.name.clone()).aggregation(Aggregation::Base2ExponentialHistogram { max_size, max_scale, record_min_max: rmm }))
            })
            .build();
        let int = r.chance(1, 4);
        let ik = if int { IK::HU } else { IK::HF };
        let h = ik.build(&mp.meter("m"), "h".into(), "", "", None, None);
        let delta = ik.is_delta(t);
        let nsets = 1 + r.idx(3);
        let mode = r.below(6);
        let centre = 2f64.powi(r.range(-40, 40) as i32);
        let mut vals: Vec<Vec<Num>> = vec![vec![]; nsets];
        let mut lastscale: Vec<Option<i8>> = vec![None; nsets];
        let n = r.size_near(max_size as usize, 400) + 1;
        let mut log = String::new();
        let mut buf = R::rm();
        for step in 0..n {
            let s = r.idx(nsets);
            let v = if int {
                Num::U(match mode {
                    0 => r.below(5),
                    1 => 1u64 << r.below(52),
                    2 => (1u64 << r.below(52)) + r.below(3),
                    _ => r.u64() >> (13 + r.below(50)),
                })
            } else {
                let x = match mode {
                    0 => r.f64_edge(true),
                    1 => 2f64.powi(r.range(-1074, 1023) as i32),
                    2 => centre * (1.0 + r.f01()),
                    3 => centre * 2f64.powi(r.range(-8, 8) as i32) * if r.bool() { 1.0 } else { 1.0 + f64::EPSILON * r.range(-1, 1) as f64 },
                    4 => *r.pick(&[0.0, -0.0, 1.0, 2.0, 4.0, 3.0, 0.5, -1.0, -2.0, -3.0, 1.0000000000000002, 0.9999999999999999]),
                    _ => f64::from_bits(r.u64()),
                };
                // keep sums finite
                Num::F(if x.is_finite() && x.abs() > 1e305 { x / 1e10 } else { x })
            };
            h.record(v, &[KeyValue::new("s", s as i64)]);
            if log.len() < 5000 {
                log += &format!(" {s}:{v:?}");
            }
            if v.f().is_finite() {
                vals[s].push(v);
            }
            if r.chance(1, 30) || step + 1 == n {
                let snap = if r.bool() { rd.snap_into(&mut buf) } else { rd.snap() };
                let Ok(snap) = snap else {
                    c.fail("collect-error", "collect failed".to_string());
                    return;
                };
                log += " C";
                let m = snap.one("h");
                for (s, vs) in vals.iter_mut().enumerate() {
                    let k = akey(&[KeyValue::new("s", s as i64)]);
                    let p = m.and_then(|m| m.pts.get(&k));
                    let Some(Pt::Exp(p)) = p else {
                        if !vs.is_empty() {
                            c.fail("missing-point", format!("no exponential point for set {s} with {} values: {p:?};{log}", vs.len()));
                        }
                        continue;
                    };
                    c.count("points_checked", 1);
                    let cfg = || format!("max_size {max_size} max_scale {max_scale} {t:?} {ik:?}: {p:?};{log}");
                    let fs: Vec<f64> = vs.iter().map(|v| v.f()).collect();
                    let pos: Vec<f64> = fs.iter().copied().filter(|v| *v > 0.0).collect();
                    let neg: Vec<f64> = fs.iter().copied().filter(|v| *v < 0.0).map(|v| -v).collect();
                    let zero = fs.iter().filter(|v| **v == 0.0).count() as u64;
                    c.check(p.count == fs.len() as u64, "count", || format!("count {} for {} finite values; {}", p.count, fs.len(), cfg()));
                    c.check(p.zero == zero, "zero-count", || format!("zero count {} for {zero} zeros; {}", p.zero, cfg()));
                    c.check(p.zero + p.pos.1.iter().sum::<u64>() + p.neg.1.iter().sum::<u64>() == p.count, "count-vs-buckets", cfg);
                    c.check(p.pos.1.len() <= max_size as usize && p.neg.1.len() <= max_size as usize, "too-many-buckets", || {
                        format!("{} / {} buckets; {}", p.pos.1.len(), p.neg.1.len(), cfg())
                    });
                    c.check(p.scale <= max_scale && p.scale >= -10, "scale-range", cfg);
                    if !fs.is_empty() {
                        let want_sum: Num = if int { Num::U(vs.iter().map(|v| if let Num::U(x) = v { *x } else { 0 }).sum()) } else { Num::F(fs.iter().fold(0.0, |a, b| a + b)) };
                        c.check(p.sum == want_sum, "sum", || format!("sum {:?}, want {want_sum:?}; {}", p.sum, cfg()));
                        let mi = fs.iter().copied().fold(f64::INFINITY, f64::min);
                        let ma = fs.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                        if rmm {
                            c.check(p.min.map(|x| x.f()) == Some(mi) && p.max.map(|x| x.f()) == Some(ma), "min-max", || format!("min {:?} max {:?}, want {mi} {ma}; {}", p.min, p.max, cfg()));
                        } else {
                            c.check(p.min.is_none() && p.max.is_none(), "min-max", cfg);
                        }
                        check_bucket(c, "positive", &pos, p.pos.0, &p.pos.1, p.scale as i32, &cfg);
                        check_bucket(c, "negative", &neg, p.neg.0, &p.neg.1, p.scale as i32, &cfg);
                    }
                    if !delta {
                        if let Some(l) = lastscale[s] {
                            c.check(p.scale <= l, "scale-rose", || format!("scale rose from {l}; {}", cfg()));
                        }
                        lastscale[s] = Some(p.scale);
                    } else {
                        vs.clear();
                    }
                    c.seen(h64(&(p.scale, p.pos.0, &p.pos.1, p.neg.0, &p.neg.1)), p.count > 1);
                }
            }
        }
        c.sample(|| format!("max_size {max_size} max_scale {max_scale} {t:?}:{log}"));
    });
}
