//! generated values, attributes and metric data
use crate::mlib;
use crate::slib::*;
use opentelemetry::{Array, InstrumentationScope, KeyValue, Value};
use opentelemetry_sdk::metrics::data::*;
use opentelemetry_sdk::metrics::Temporality;
use opentelemetry_sdk::Resource;
use vcore::Rng;

pub trait Gen: Copy {
    fn gen(r: &mut Rng) -> Self;
    fn wrap(d: MetricData<Self>) -> AggregatedMetrics;
}
impl Gen for f64 {
    fn gen(r: &mut Rng) -> f64 {
        let nf = r.chance(1, 12);
        r.f64_edge(nf)
    }
    fn wrap(d: MetricData<f64>) -> AggregatedMetrics {
        d.into()
    }
}
impl Gen for i64 {
    fn gen(r: &mut Rng) -> i64 {
        r.i64_edge()
    }
    fn wrap(d: MetricData<i64>) -> AggregatedMetrics {
        d.into()
    }
}
impl Gen for u64 {
    fn gen(r: &mut Rng) -> u64 {
        r.i64_edge() as u64 & (i64::MAX as u64)
    }
    fn wrap(d: MetricData<u64>) -> AggregatedMetrics {
        d.into()
    }
}
pub fn ra(r: &mut Rng, max: usize) -> Vec<KeyValue> {
    let n = if r.bool() { 0 } else { r.idx(max + 1) };
    (0..n).map(|n| KeyValue::new(mlib::store_key(r, &format!("k{n}")), rv(r))).collect()
}
pub fn rv(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => Value::F64(r.f64_edge(true)),
        1 => Value::Array(Array::F64((0..r.idx(4)).map(|_| r.f64_edge(true)).collect())),
        2 => Value::String(r.text(12).into()),
        _ => mlib::rvalue(r),
    }
}
pub fn rscope(r: &mut Rng) -> InstrumentationScope {
    let mut b = InstrumentationScope::builder(r.pick(&["", "a", "b", "lib.é"]).to_string());
    if r.bool() {
        b = b.with_version(r.pick(&["1", "2"]).to_string());
    }
    if r.bool() {
        b = b.with_schema_url(r.pick(&["u1", "https://u2"]).to_string());
    }
    if r.bool() {
        let mut a = vec![KeyValue::new("x", r.range(0, 2)), KeyValue::new("y", mlib::rvalue(r))];
        if r.bool() {
            a.reverse();
        }
        a.truncate(1 + r.idx(2));
        b = b.with_attributes(a);
    }
    b.build()
}
pub fn rresource(r: &mut Rng) -> Resource {
    let n = r.idx(5);
    let a: Vec<KeyValue> = (0..n).map(|n| KeyValue::new(["service.name", "host", "é", "", "z"][n], rv(r))).collect();
    let b = Resource::builder_empty();
    if r.bool() {
        b.with_schema_url(a, r.pick(&["https://s1", "s2"]).to_string()).build()
    } else {
        b.with_attributes(a).build()
    }
}
fn rex<V: Gen>(r: &mut Rng) -> Vec<Exemplar<V>> {
    if r.chance(29, 30) {
        return vec![];
    }
    (0..1 + r.idx(2))
        .map(|_| Exemplar { filtered_attributes: ra(r, 2), time: rtime(r), value: V::gen(r), span_id: r.u64().to_be_bytes(), trace_id: r.u128().to_be_bytes() })
        .collect()
}
pub fn rdata<V: Gen>(r: &mut Rng) -> AggregatedMetrics {
    let temporality = if r.bool() { Temporality::Delta } else { Temporality::Cumulative };
    let n = r.idx(5);
    let big = |r: &mut Rng| match r.below(4) {
        0 => r.u64(),
        1 => 0,
        _ => r.below(100),
    };
    let o = |r: &mut Rng| r.bool().then(|| V::gen(r));
    V::wrap(match r.below(4) {
        0 => MetricData::Gauge(Gauge {
            data_points: (0..n).map(|_| GaugeDataPoint { attributes: ra(r, 4), value: V::gen(r), exemplars: rex(r) }).collect(),
            start_time: r.bool().then(|| rtime(r)),
            time: rtime(r),
        }),
        1 => MetricData::Sum(Sum {
            data_points: (0..n).map(|_| SumDataPoint { attributes: ra(r, 4), value: V::gen(r), exemplars: rex(r) }).collect(),
            start_time: rtime(r),
            time: rtime(r),
            temporality,
            is_monotonic: r.bool(),
        }),
        2 => MetricData::Histogram(Histogram {
            data_points: (0..n)
                .map(|_| {
                    let b = r.idx(5);
                    HistogramDataPoint {
                        attributes: ra(r, 4),
                        count: big(r),
                        bounds: (0..b).map(|_| r.f64_edge(false)).collect(),
                        bucket_counts: (0..b + 1).map(|_| big(r)).collect(),
                        min: o(r),
                        max: o(r),
                        sum: V::gen(r),
                        exemplars: rex(r),
                    }
                })
                .collect(),
            start_time: rtime(r),
            time: rtime(r),
            temporality,
        }),
        _ => MetricData::ExponentialHistogram(ExponentialHistogram {
            data_points: (0..n)
                .map(|_| {
                    let mut bk = |r: &mut Rng| ExponentialBucket { offset: if r.bool() { r.u64() as i32 } else { r.range(-5, 5) as i32 }, counts: (0..r.idx(6)).map(|_| big(r)).collect() };
                    ExponentialHistogramDataPoint {
                        attributes: ra(r, 4),
                        count: big(r) as usize,
                        min: o(r),
                        max: o(r),
                        sum: V::gen(r),
                        scale: r.u64() as i8,
                        zero_count: big(r),
                        positive_bucket: bk(r),
                        negative_bucket: bk(r),
                        zero_threshold: r.below(3) as f64 / 4.0,
                        exemplars: rex(r),
                    }
                })
                .collect(),
            start_time: rtime(r),
            time: rtime(r),
            temporality,
        }),
    })
}
pub fn rmetric(r: &mut Rng) -> Metric {
    Metric {
        name: r.text(8).into(),
        description: r.text(8).into(),
        unit: r.text(4).into(),
        data: match r.below(3) {
            0 => rdata::<f64>(r),
            1 => rdata::<i64>(r),
            _ => rdata::<u64>(r),
        },
    }
}
