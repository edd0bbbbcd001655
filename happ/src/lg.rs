use hsdk::llib::*;
use hsdk::*;
use log::kv::{ToValue, Value};
use log::{Level, Log as _, Metadata, Record};
use opentelemetry::logs::Severity;
use opentelemetry::trace::TraceContextExt;
use opentelemetry::Context;
use opentelemetry_sdk::logs::{SdkLogger, SdkLoggerProvider};
use serde::ser::*;
use std::sync::{Arc, Mutex};

/// a value exercising any part of serde's data model
#[derive(Clone, Debug)]
pub enum V {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<V>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    NewStruct(Box<V>),
    NewVariant(&'static str, Box<V>),
    Seq(Vec<V>),
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    TupleVariant(&'static str, Vec<V>),
    Map(Vec<(String, V)>),
    Struct(Vec<(&'static str, V)>),
    StructVariant(&'static str, Vec<(&'static str, V)>),
}
struct Bytes<'a>(&'a [u8]);
impl Serialize for Bytes<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Bool(x) => s.serialize_bool(*x),
            V::I8(x) => s.serialize_i8(*x),
            V::I16(x) => s.serialize_i16(*x),
            V::I32(x) => s.serialize_i32(*x),
            V::I64(x) => s.serialize_i64(*x),
            V::I128(x) => s.serialize_i128(*x),
            V::U8(x) => s.serialize_u8(*x),
            V::U16(x) => s.serialize_u16(*x),
            V::U32(x) => s.serialize_u32(*x),
            V::U64(x) => s.serialize_u64(*x),
            V::U128(x) => s.serialize_u128(*x),
            V::F32(x) => s.serialize_f32(*x),
            V::F64(x) => s.serialize_f64(*x),
            V::Char(x) => s.serialize_char(*x),
            V::Str(x) => s.serialize_str(x),
            V::Bytes(x) => Bytes(x).serialize(s),
            V::None => s.serialize_none(),
            V::Some(x) => s.serialize_some(&**x),
            V::Unit => s.serialize_unit(),
            V::UnitStruct => s.serialize_unit_struct("AUnit"),
            V::UnitVariant(v) => s.serialize_unit_variant("E", 0, v),
            V::NewStruct(x) => s.serialize_newtype_struct("N", &**x),
            V::NewVariant(v, x) => s.serialize_newtype_variant("E", 1, v, &**x),
            V::Seq(x) => {
                let mut q = s.serialize_seq(if x.len() % 2 == 0 { Some(x.len()) } else { None })?;
                for v in x {
                    q.serialize_element(v)?;
                }
                q.end()
            }
            V::Tuple(x) => {
                let mut q = s.serialize_tuple(x.len())?;
                for v in x {
                    q.serialize_element(v)?;
                }
                q.end()
            }
            V::TupleStruct(x) => {
                let mut q = s.serialize_tuple_struct("T", x.len())?;
                for v in x {
                    q.serialize_field(v)?;
                }
                q.end()
            }
            V::TupleVariant(n, x) => {
                let mut q = s.serialize_tuple_variant("E", 2, n, x.len())?;
                for v in x {
                    q.serialize_field(v)?;
                }
                q.end()
            }
            V::Map(x) => {
                let mut q = s.serialize_map(if x.len() % 2 == 0 { Some(x.len()) } else { None })?;
                for (k, v) in x {
                    q.serialize_entry(k, v)?;
                }
                q.end()
            }
            V::Struct(x) => {
                let mut q = s.serialize_struct("S", x.len())?;
                for (k, v) in x {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
            V::StructVariant(n, x) => {
                let mut q = s.serialize_struct_variant("E", 3, n, x.len())?;
                for (k, v) in x {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
        }
    }
}
const VARS: [&str; 4] = ["A", "Bee", "", "\u{e9}"];
const FIELDS: [&str; 4] = ["f", "gee", "h h", "i"];
fn ru128(r: &mut Rng) -> u128 {
    match r.below(5) {
        0 => i64::MAX as u128 + r.below(3) as u128,
        1 => r.below(5) as u128,
        2 => u64::MAX as u128 + r.below(3) as u128,
        3 => u128::MAX - r.below(2) as u128,
        _ => r.u128(),
    }
}
fn ri128(r: &mut Rng) -> i128 {
    match r.below(6) {
        0 => i64::MIN as i128 - r.below(3) as i128,
        1 => i64::MAX as i128 + r.below(3) as i128,
        2 => i64::MIN as i128 + r.below(3) as i128,
        3 => i128::MIN + r.below(2) as i128,
        4 => r.below(10) as i128 - 5,
        _ => r.u128() as i128,
    }
}
fn rchar(r: &mut Rng) -> char {
    *r.pick(&['a', '\0', '"', '\u{e9}', '\u{1F4A5}', '\n'])
}
pub fn ru64(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => i64::MAX as u64 + r.below(3),
        1 => u64::MAX - r.below(2),
        2 => r.below(5),
        _ => r.u64(),
    }
}
pub fn rv(r: &mut Rng, d: u32) -> V {
    let list = |r: &mut Rng| {
        if r.chance(1, 60) {
            // long ones, flat
            let n = r.size_near(64, 300) as usize;
            return (0..n).map(|_| rv(r, 0)).collect::<Vec<_>>();
        }
        let n = r.idx(4);
        (0..n).map(|_| rv(r, d - 1)).collect::<Vec<_>>()
    };
    match r.below(if d == 0 { 20 } else { 30 }) {
        0 => V::Bool(r.bool()),
        1 => V::I8(r.u64() as i8),
        2 => V::I16(r.u64() as i16),
        3 => V::I32(r.u64() as i32),
        4 => V::I64(r.i64_edge()),
        5 => V::I128(ri128(r)),
        6 => V::U8(r.u64() as u8),
        7 => V::U16(r.u64() as u16),
        8 => V::U32(r.u64() as u32),
        9 => V::U64(ru64(r)),
        10 => V::U128(ru128(r)),
        11 => V::F32(f32::from_bits(r.u64() as u32)),
        12 => V::F64(r.f64_edge(true)),
        13 => V::Char(rchar(r)),
        14 => V::Str(r.text(8)),
        15 => V::Bytes((0..r.idx(5)).map(|_| r.u64() as u8).collect()),
        16 => V::None,
        17 => V::Unit,
        18 => V::UnitStruct,
        19 => V::UnitVariant(r.pick(&VARS)),
        20 => V::Some(Box::new(rv(r, d - 1))),
        21 => V::NewStruct(Box::new(rv(r, d - 1))),
        22 => V::NewVariant(r.pick(&VARS), Box::new(rv(r, d - 1))),
        23 => V::Seq(list(r)),
        24 => V::Tuple(list(r)),
        25 => V::TupleStruct(list(r)),
        26 => V::TupleVariant(r.pick(&VARS), list(r)),
        27 => V::Map(list(r).into_iter().enumerate().map(|(i, v)| (format!("{}~{i}", r.text(3)), v)).collect()),
        28 => V::Struct(list(r).into_iter().zip(FIELDS).map(|(v, f)| (f, v)).collect()),
        _ => V::StructVariant(r.pick(&VARS), list(r).into_iter().zip(FIELDS).map(|(v, f)| (f, v)).collect()),
    }
}
fn int(x: i128) -> String {
    match i64::try_from(x) {
        Ok(x) => format!("i{x}"),
        Err(_) => format!("s{:?}", x.to_string()),
    }
}
fn map(m: Vec<(String, Option<String>)>) -> String {
    let mut v: Vec<String> = m.into_iter().filter_map(|(k, v)| Some(format!("{k:?}:{}", v?))).collect();
    v.sort();
    format!("{{{}}}", v.join(","))
}
/// what the value must become (as `atext` renders it); None: discarded
pub fn expect(v: &V) -> Option<String> {
    let list = |l: &[V]| format!("[{}]", l.iter().filter_map(expect).collect::<Vec<_>>().join(","));
    Some(match v {
        V::Bool(b) => format!("b{b}"),
        V::I8(x) => int(*x as i128),
        V::I16(x) => int(*x as i128),
        V::I32(x) => int(*x as i128),
        V::I64(x) => int(*x as i128),
        V::I128(x) => int(*x),
        V::U8(x) => int(*x as i128),
        V::U16(x) => int(*x as i128),
        V::U32(x) => int(*x as i128),
        V::U64(x) => int(*x as i128),
        V::U128(x) => i128::try_from(*x).map(int).unwrap_or_else(|_| format!("s{:?}", x.to_string())),
        V::F32(x) => dbl(*x as f64),
        V::F64(x) => dbl(*x),
        V::Char(c) => format!("s{:?}", c.to_string()),
        V::Str(s) => format!("s{s:?}"),
        V::Bytes(b) => format!("y{b:?}"),
        V::None | V::Unit => return None,
        V::Some(x) | V::NewStruct(x) => return expect(x),
        V::UnitStruct => "s\"AUnit\"".into(),
        V::UnitVariant(n) => format!("s{n:?}"),
        V::NewVariant(n, x) => map(vec![(n.to_string(), expect(x))]),
        V::Seq(l) | V::Tuple(l) | V::TupleStruct(l) => list(l),
        V::TupleVariant(n, l) => map(vec![(n.to_string(), Some(list(l)))]),
        V::Map(m) => map(m.iter().map(|(k, v)| (k.clone(), expect(v))).collect()),
        V::Struct(m) => map(m.iter().map(|(k, v)| (k.to_string(), expect(v))).collect()),
        V::StructVariant(n, m) => map(vec![(n.to_string(), Some(map(m.iter().map(|(k, v)| (k.to_string(), expect(v))).collect())))]),
    })
}
/// any NaN will do
pub fn dbl(x: f64) -> String {
    if x.is_nan() {
        "dNaN".into()
    } else {
        format!("d{:016x}", x.to_bits())
    }
}
pub fn norm(s: &str) -> String {
    // NaN payloads may change on the way from f32
    let mut out = String::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'd' && i + 17 <= b.len() && s.is_char_boundary(i) && b[i + 1..i + 17].iter().all(|c| c.is_ascii_hexdigit()) {
            if let Ok(x) = u64::from_str_radix(&s[i + 1..i + 17], 16) {
                if f64::from_bits(x).is_nan() {
                    out.push_str("dNaN");
                    i += 17;
                    continue;
                }
            }
        }
        let n = s[i..].chars().next().unwrap();
        out.push(n);
        i += n.len_utf8();
    }
    out
}

#[derive(Debug)]
struct Dbg(String);
impl std::fmt::Display for Dbg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.0)
    }
}
impl std::error::Error for Dbg {}
#[derive(Debug)]
enum Kv {
    B(bool),
    I(i64),
    U(u64),
    I8(i8),
    U16(u16),
    I128(i128),
    U128(u128),
    F(f64),
    F32(f32),
    C(char),
    S(String),
    Debug(Dbg),
    Display(Dbg),
    Err(Dbg),
    CapDbg(i32),
    Tree(V),
}
impl Kv {
    fn random(r: &mut Rng) -> Kv {
        match r.below(20) {
            0 => Kv::B(r.bool()),
            1 => Kv::I(r.i64_edge()),
            2 => Kv::U(ru64(r)),
            3 => Kv::I8(r.u64() as i8),
            4 => Kv::U16(r.u64() as u16),
            5 => Kv::I128(ri128(r)),
            6 => Kv::U128(ru128(r)),
            7 => Kv::F(r.f64_edge(true)),
            8 => Kv::F32(f32::from_bits(r.u64() as u32)),
            9 => Kv::C(rchar(r)),
            10 | 11 => Kv::S(r.text(8)),
            12 => Kv::Debug(Dbg(r.text(4))),
            13 => Kv::Display(Dbg(r.text(4))),
            14 => Kv::Err(Dbg(r.text(4))),
            15 => Kv::CapDbg(r.u64() as i32),
            _ => Kv::Tree(rv(r, 3)),
        }
    }
    fn value(&self) -> Value<'_> {
        match self {
            Kv::B(x) => x.to_value(),
            Kv::I(x) => x.to_value(),
            Kv::U(x) => x.to_value(),
            Kv::I8(x) => x.to_value(),
            Kv::U16(x) => x.to_value(),
            Kv::I128(x) => x.to_value(),
            Kv::U128(x) => x.to_value(),
            Kv::F(x) => x.to_value(),
            Kv::F32(x) => x.to_value(),
            Kv::C(x) => x.to_value(),
            Kv::S(x) => x.to_value(),
            Kv::Debug(x) => Value::from_debug(x),
            Kv::Display(x) => Value::from_display(x),
            Kv::Err(x) => Value::from_dyn_error(x),
            Kv::CapDbg(x) => Value::from_debug(x),
            Kv::Tree(x) => Value::from_serde(x),
        }
    }
    fn expect(&self, serde: bool) -> Option<String> {
        Some(match self {
            Kv::B(x) => format!("b{x}"),
            Kv::I(x) => int(*x as i128),
            Kv::U(x) => int(*x as i128),
            Kv::I8(x) => int(*x as i128),
            Kv::U16(x) => int(*x as i128),
            Kv::I128(x) => int(*x),
            Kv::U128(x) => return expect(&V::U128(*x)),
            Kv::F(x) => dbl(*x),
            Kv::F32(x) => dbl(*x as f64),
            Kv::C(x) => format!("s{:?}", x.to_string()),
            Kv::S(x) => format!("s{x:?}"),
            Kv::Debug(x) => format!("s{:?}", format!("{x:?}")),
            Kv::Display(x) | Kv::Err(x) => format!("s{:?}", x.to_string()),
            Kv::CapDbg(x) => format!("s{:?}", x.to_string()),
            Kv::Tree(v) if serde => return expect(v),
            // without serde nested values are rendered as text
            Kv::Tree(v) => format!("s{:?}", Value::from_serde(v).to_string()),
        })
    }
}
struct Pairs<'a>(&'a [(String, Kv)]);
impl log::kv::Source for Pairs<'_> {
    fn visit<'k>(&'k self, v: &mut dyn log::kv::VisitSource<'k>) -> Result<(), log::kv::Error> {
        for (k, x) in self.0 {
            v.visit_pair(log::kv::Key::from(k.as_str()), x.value())?;
        }
        Ok(())
    }
}

pub fn sev_of(l: Level) -> (Severity, &'static str) {
    match l {
        Level::Error => (Severity::Error, "ERROR"),
        Level::Warn => (Severity::Warn, "WARN"),
        Level::Info => (Severity::Info, "INFO"),
        Level::Debug => (Severity::Debug, "DEBUG"),
        Level::Trace => (Severity::Trace, "TRACE"),
    }
}
type A = opentelemetry_appender_log::OpenTelemetryLogBridge<SdkLoggerProvider, SdkLogger>;
type B = alog_serde::OpenTelemetryLogBridge<SdkLoggerProvider, SdkLogger>;
enum Bridge {
    A(A),
    B(B),
}
impl Bridge {
    fn log(&self, r: &Record) {
        match self {
            Bridge::A(b) => b.log(r),
            Bridge::B(b) => b.log(r),
        }
    }
    fn enabled(&self, m: &Metadata) -> bool {
        match self {
            Bridge::A(b) => b.enabled(m),
            Bridge::B(b) => b.enabled(m),
        }
    }
}

pub fn events(c: &Case, r: &mut Rng, serde: bool) {
    let log: Arc<Mutex<Vec<LEv>>> = Default::default();
    let mut p = RecL::new(0, &log);
    p.enabled = *r.pick(&[1, 1, 2, 3, 0]);
    let wants = p.enabled;
    let lp = SdkLoggerProvider::builder().with_log_processor(p).build();
    let br = if serde { Bridge::B(B::new(&lp)) } else { Bridge::A(A::new(&lp)) };
    let mut want: Vec<(LModel, String)> = vec![];
    let mut trace = format!("wants={wants}");
    let n = 1 + r.idx(6);
    for _ in 0..n {
        let level = *r.pick(&[Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace]);
        let target = r.text(6);
        let lit = r.chance(1, 5).then(|| r.idx(4));
        let msg = lit.map_or_else(|| r.text(12), |k| ["a literal ", "", "  \tliteral {}\r\n", "\u{feff}\0Lit\u{e9}ral\u{3000}"][k].to_string());
        let kvs: Vec<(String, Kv)> = (0..if r.bool() { r.idx(4) } else { r.idx(12) })
            .map(|_| {
                let v = loop {
                    let v = Kv::random(r);
                    // without serde only composite values are worth a rendering of their own
                    if serde || !matches!(&v, Kv::Tree(t) if !matches!(t, V::Seq(_) | V::Tuple(_) | V::TupleStruct(_) | V::TupleVariant(..) | V::Map(_) | V::Struct(_) | V::StructVariant(..))) {
                        break v;
                    }
                };
                (r.text(4), v)
            })
            .collect();
        let meta = Metadata::builder().level(level).target(&target).build();
        let src = Pairs(&kvs);
        let (file, line, module) = (r.bool().then(|| r.text(5)), r.bool().then(|| r.u64() as u32), r.bool().then(|| r.text(5)));
        let (sev, text) = sev_of(level);
        let mut m = LModel { target: Some(target.clone()), sev: Some(sev), sev_text: Some(text), body: Some(format!("s{msg:?}")), ..Default::default() };
        if serde {
            // this variant is compiled with the source-location attributes
            if let Some(f) = &file {
                m.attrs.push(("code.file.path".into(), format!("s{f:?}")));
            }
            if let Some(l) = line {
                m.attrs.push(("code.line.number".into(), format!("i{l}")));
            }
            if let Some(f) = &module {
                m.attrs.push(("code.function.name".into(), format!("s{f:?}")));
            }
        }
        for (k, v) in &kvs {
            if let Some(e) = v.expect(serde) {
                m.attrs.push((k.clone(), e));
            }
            c.count(if matches!(v, Kv::Tree(_)) { "nested_values_checked" } else { "attributes_checked" }, 1);
        }
        let cx = if r.bool() {
            let s = slib::valid_ctx(r);
            m.tc = Some((s.trace_id(), s.span_id(), Some(s.trace_flags())));
            c.count("with_active_span", 1);
            Context::new().with_remote_span_context(s)
        } else {
            Context::new()
        };
        let passes = !serde || RecL::wants(wants, sev, &target, None);
        let en = br.enabled(&meta);
        if !c.check(en == passes, "enabled", || format!("enabled({level}, {target:?}) is {en}, the processor says {passes}")) {
            return;
        }
        trace += &format!("; {level} {target:?} {msg:?} {kvs:?}");
        let g = cx.attach();
        let t0 = slib::now();
        let shown = format_args!("{msg}").to_string();
        let rec = || {
            // a message without arguments, and formatted ones
            if let Some(k) = lit {
                let b = |a: std::fmt::Arguments| {
                    br.log(&Record::builder().args(a).level(level).target(&target).file(file.as_deref()).line(line).module_path(module.as_deref()).key_values(&src).build())
                };
                return match k {
                    0 => b(format_args!("a literal ")),
                    1 => b(format_args!("")),
                    2 => b(format_args!("  \tliteral {{}}\r\n")),
                    _ => b(format_args!("\u{feff}\0Lit\u{e9}ral\u{3000}")),
                };
            }
            if msg.len() % 2 == 0 {
                br.log(
                    &Record::builder()
                        .args(format_args!("{msg}"))
                        .metadata(Metadata::builder().level(level).target(&target).build())
                        .file(file.as_deref())
                        .line(line)
                        .module_path(module.as_deref())
                        .key_values(&src)
                        .build(),
                );
            } else {
                br.log(
                    &Record::builder()
                        .args(format_args!("{}{}", "", shown))
                        .level(level)
                        .target(&target)
                        .file(file.as_deref())
                        .line(line)
                        .module_path(module.as_deref())
                        .key_values(&src)
                        .build(),
                );
            }
        };
        if let Err((loc, e)) = guarded(rec) {
            return c.fail("panic", format!("the bridge panicked at {loc}: {e}; {trace}"));
        }
        drop(g);
        if passes {
            m.ots_window = Some((t0, slib::now()));
            want.push((m, target));
        } else {
            c.count("filtered_out", 1);
        }
    }
    let got = std::mem::take(&mut *log.lock().unwrap());
    if !c.check(got.len() == want.len(), "record-count", || format!("{} records for {} events; {trace}", got.len(), want.len())) {
        return;
    }
    for (e, (m, _)) in got.iter().zip(&want) {
        let LEv::Emit(_, d, s) = e else { return c.fail("record-count", format!("{e:?}")) };
        c.count("log_records_checked", 1);
        let _ = s;
        if let Some(x) = diff(m, d) {
            return c.fail("record", format!("serde={serde}: {x}; {trace}"));
        }
    }
    c.seen(h64(&trace), !want.is_empty());
    c.sample(|| trace.chars().take(600).collect());
}
/// as `LModel::diff`, treating every NaN alike
pub fn diff(m: &LModel, d: &opentelemetry_sdk::logs::SdkLogRecord) -> Option<String> {
    let got: Vec<(String, String)> = d.attributes_iter().map(|(k, v)| (k.as_str().to_string(), norm(&atext(v)))).collect();
    let want: Vec<(String, String)> = m.attrs.iter().map(|(k, v)| (k.clone(), norm(v))).collect();
    if got != want {
        return Some(format!("attributes {got:?}, expected {want:?}"));
    }
    let mut m2 = m.clone();
    m2.attrs = d.attributes_iter().map(|(k, v)| (k.as_str().to_string(), atext(v))).collect();
    m2.diff(d)
}
