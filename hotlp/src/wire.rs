//! An OTLP decoder written from the protocol definition (OTLP 1.5), independent of the crates
//! under test: protobuf bytes or OTLP-JSON text become one canonical tree with default values
//! elided, so that requests can be compared field by field whatever their encoding.
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum T {
    Msg(BTreeMap<&'static str, T>),
    List(Vec<T>),
    S(String),
    B(bool),
    I(i128),
    /// a double by its bits, every NaN alike
    F(u64),
    Y(Vec<u8>),
}
pub fn f(x: f64) -> T {
    T::F(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })
}
pub fn s(x: impl Into<String>) -> T {
    T::S(x.into())
}
pub fn i(x: impl Into<i128>) -> T {
    T::I(x.into())
}
pub fn y(x: &[u8]) -> T {
    T::Y(x.to_vec())
}
/// a message of the given fields, defaults elided as on the wire
pub fn m(ty: &str, fields: Vec<(&'static str, T)>) -> T {
    let mut o = BTreeMap::new();
    for (k, v) in fields {
        let fd = FIELDS(ty).iter().find(|d| d.1 == k).unwrap_or_else(|| panic!("vh: no field {k} in {ty}"));
        if fd.3 == O || !v.is_default() {
            o.insert(fd.1, v);
        }
    }
    T::Msg(o)
}
impl T {
    fn is_default(&self) -> bool {
        match self {
            T::Msg(m) => m.is_empty(),
            T::List(l) => l.is_empty(),
            T::S(s) => s.is_empty(),
            T::B(b) => !b,
            T::I(i) => *i == 0,
            T::F(b) => *b == 0,
            T::Y(b) => b.is_empty(),
        }
    }
    pub fn get(&self, k: &str) -> Option<&T> {
        match self {
            T::Msg(m) => m.get(k),
            _ => None,
        }
    }
    pub fn list(&self, k: &str) -> Vec<T> {
        match self.get(k) {
            Some(T::List(l)) => l.clone(),
            _ => vec![],
        }
    }
    pub fn text(&self, k: &str) -> String {
        match self.get(k) {
            Some(T::S(l)) => l.clone(),
            _ => String::new(),
        }
    }
    pub fn int(&self, k: &str) -> i128 {
        match self.get(k) {
            Some(T::I(l)) => *l,
            _ => 0,
        }
    }
    pub fn set(&mut self, k: &'static str, v: T) {
        if let T::Msg(m) = self {
            m.insert(k, v);
        }
    }
    pub fn take(&mut self, k: &str) -> Option<T> {
        match self {
            T::Msg(m) => m.remove(k),
            _ => None,
        }
    }
    /// doubles equal up to rounding in the last place (for parsers that do not round exactly)
    pub fn near(&self, o: &T) -> bool {
        match (self, o) {
            (T::Msg(a), T::Msg(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| k == l && v.near(w)),
            (T::List(a), T::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| v.near(w)),
            (T::F(a), T::F(b)) => {
                let (x, y) = (f64::from_bits(*a), f64::from_bits(*b));
                a == b || (x - y).abs() <= x.abs() * 1e-14 + f64::MIN_POSITIVE
            }
            _ => self == o,
        }
    }
    /// the first difference, as a path
    pub fn diff(&self, o: &T) -> Option<String> {
        match (self, o) {
            (T::Msg(a), T::Msg(b)) => {
                for k in a.keys().chain(b.keys()) {
                    match (a.get(k), b.get(k)) {
                        (Some(x), Some(y)) => {
                            if let Some(d) = x.diff(y) {
                                return Some(format!("{k}.{d}"));
                            }
                        }
                        (x, y) => return Some(format!("{k}: expected {x:?} got {y:?}")),
                    }
                }
                None
            }
            (T::List(a), T::List(b)) => {
                for (n, (x, y)) in a.iter().zip(b).enumerate() {
                    if let Some(d) = x.diff(y) {
                        return Some(format!("{n}.{d}"));
                    }
                }
                (a.len() != b.len()).then(|| format!(": {} items expected, got {}", a.len(), b.len()))
            }
            _ => (self != o).then(|| format!(": expected {self:?} got {o:?}")),
        }
    }
}
impl std::fmt::Debug for T {
    fn fmt(&self, w: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            T::Msg(m) => w.debug_map().entries(m).finish(),
            T::List(l) => w.debug_list().entries(l).finish(),
            T::S(s) => write!(w, "{s:?}"),
            T::B(b) => write!(w, "{b}"),
            T::I(i) => write!(w, "{i}"),
            T::F(b) => write!(w, "{:?}f", f64::from_bits(*b)),
            T::Y(b) => write!(w, "0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Str,
    Bool,
    /// varint: signed 64
    I64,
    U64,
    U32,
    /// varint: int32 or enum
    I32,
    /// zigzag
    S32,
    F64,
    X64,
    X32,
    SX64,
    /// bytes, base64 in JSON
    Bytes,
    /// bytes, hex in JSON
    Hex,
    M(&'static str),
}
/// singular, repeated, or with explicit presence (oneof, optional, message kept when empty)
pub const N: u8 = 0;
pub const R: u8 = 1;
pub const O: u8 = 2;
type Fd = (u32, &'static str, K, u8);
use K::*;
#[allow(non_snake_case)]
pub fn FIELDS(ty: &str) -> &'static [Fd] {
    match ty {
        "TraceReq" => &[(1, "resourceSpans", M("ResourceSpans"), R)],
        "MetricReq" => &[(1, "resourceMetrics", M("ResourceMetrics"), R)],
        "LogReq" => &[(1, "resourceLogs", M("ResourceLogs"), R)],
        "ResourceSpans" => &[(1, "resource", M("Resource"), N), (2, "scopeSpans", M("ScopeSpans"), R), (3, "schemaUrl", Str, N)],
        "ResourceMetrics" => &[(1, "resource", M("Resource"), N), (2, "scopeMetrics", M("ScopeMetrics"), R), (3, "schemaUrl", Str, N)],
        "ResourceLogs" => &[(1, "resource", M("Resource"), N), (2, "scopeLogs", M("ScopeLogs"), R), (3, "schemaUrl", Str, N)],
        "ScopeSpans" => &[(1, "scope", M("Scope"), N), (2, "spans", M("Span"), R), (3, "schemaUrl", Str, N)],
        "ScopeMetrics" => &[(1, "scope", M("Scope"), N), (2, "metrics", M("Metric"), R), (3, "schemaUrl", Str, N)],
        "ScopeLogs" => &[(1, "scope", M("Scope"), N), (2, "logRecords", M("LogRecord"), R), (3, "schemaUrl", Str, N)],
        "Resource" => &[(1, "attributes", M("KeyValue"), R), (2, "droppedAttributesCount", U32, N)],
        "Scope" => &[(1, "name", Str, N), (2, "version", Str, N), (3, "attributes", M("KeyValue"), R), (4, "droppedAttributesCount", U32, N)],
        "KeyValue" => &[(1, "key", Str, N), (2, "value", M("AnyValue"), N)],
        "AnyValue" => &[
            (1, "stringValue", Str, O),
            (2, "boolValue", Bool, O),
            (3, "intValue", I64, O),
            (4, "doubleValue", F64, O),
            (5, "arrayValue", M("ArrayValue"), O),
            (6, "kvlistValue", M("KvList"), O),
            (7, "bytesValue", Bytes, O),
        ],
        "ArrayValue" => &[(1, "values", M("AnyValue"), R)],
        "KvList" => &[(1, "values", M("KeyValue"), R)],
        "Span" => &[
            (1, "traceId", Hex, N),
            (2, "spanId", Hex, N),
            (3, "traceState", Str, N),
            (4, "parentSpanId", Hex, N),
            (5, "name", Str, N),
            (6, "kind", I32, N),
            (7, "startTimeUnixNano", X64, N),
            (8, "endTimeUnixNano", X64, N),
            (9, "attributes", M("KeyValue"), R),
            (10, "droppedAttributesCount", U32, N),
            (11, "events", M("Event"), R),
            (12, "droppedEventsCount", U32, N),
            (13, "links", M("Link"), R),
            (14, "droppedLinksCount", U32, N),
            (15, "status", M("Status"), N),
            (16, "flags", X32, N),
        ],
        "Event" => &[(1, "timeUnixNano", X64, N), (2, "name", Str, N), (3, "attributes", M("KeyValue"), R), (4, "droppedAttributesCount", U32, N)],
        "Link" => &[
            (1, "traceId", Hex, N),
            (2, "spanId", Hex, N),
            (3, "traceState", Str, N),
            (4, "attributes", M("KeyValue"), R),
            (5, "droppedAttributesCount", U32, N),
            (6, "flags", X32, N),
        ],
        // the z-pages messages
        "LatencyData" => &[(1, "traceId", Hex, N), (2, "spanId", Hex, N), (3, "parentId", Hex, N), (4, "startTime", X64, N), (5, "endTime", X64, N), (6, "attributes", M("KeyValue"), R), (7, "events", M("Event"), R), (8, "links", M("Link"), R)],
        "RunningData" => &[(1, "traceId", Hex, N), (2, "spanId", Hex, N), (3, "parentId", Hex, N), (4, "startTime", X64, N), (5, "attributes", M("KeyValue"), R), (6, "events", M("Event"), R), (7, "links", M("Link"), R)],
        "ErrorData" => &[(1, "traceId", Hex, N), (2, "spanId", Hex, N), (3, "parentId", Hex, N), (4, "startTime", X64, N), (5, "attributes", M("KeyValue"), R), (6, "events", M("Event"), R), (7, "links", M("Link"), R), (8, "status", M("Status"), N)],
        "Status" => &[(2, "message", Str, N), (3, "code", I32, N)],
        "LogRecord" => &[
            (1, "timeUnixNano", X64, N),
            (2, "severityNumber", I32, N),
            (3, "severityText", Str, N),
            (5, "body", M("AnyValue"), N),
            (6, "attributes", M("KeyValue"), R),
            (7, "droppedAttributesCount", U32, N),
            (8, "flags", X32, N),
            (9, "traceId", Hex, N),
            (10, "spanId", Hex, N),
            (11, "observedTimeUnixNano", X64, N),
            (12, "eventName", Str, N),
        ],
        "Metric" => &[
            (1, "name", Str, N),
            (2, "description", Str, N),
            (3, "unit", Str, N),
            (5, "gauge", M("Gauge"), O),
            (7, "sum", M("Sum"), O),
            (9, "histogram", M("Histogram"), O),
            (10, "exponentialHistogram", M("ExpHistogram"), O),
            (12, "metadata", M("KeyValue"), R),
        ],
        "Gauge" => &[(1, "dataPoints", M("Number"), R)],
        "Sum" => &[(1, "dataPoints", M("Number"), R), (2, "aggregationTemporality", I32, N), (3, "isMonotonic", Bool, N)],
        "Histogram" => &[(1, "dataPoints", M("HistPoint"), R), (2, "aggregationTemporality", I32, N)],
        "ExpHistogram" => &[(1, "dataPoints", M("ExpPoint"), R), (2, "aggregationTemporality", I32, N)],
        "Number" => &[
            (2, "startTimeUnixNano", X64, N),
            (3, "timeUnixNano", X64, N),
            (4, "asDouble", F64, O),
            (5, "exemplars", M("Exemplar"), R),
            (6, "asInt", SX64, O),
            (7, "attributes", M("KeyValue"), R),
            (8, "flags", U32, N),
        ],
        "HistPoint" => &[
            (2, "startTimeUnixNano", X64, N),
            (3, "timeUnixNano", X64, N),
            (4, "count", X64, N),
            (5, "sum", F64, O),
            (6, "bucketCounts", X64, R),
            (7, "explicitBounds", F64, R),
            (8, "exemplars", M("Exemplar"), R),
            (9, "attributes", M("KeyValue"), R),
            (10, "flags", U32, N),
            (11, "min", F64, O),
            (12, "max", F64, O),
        ],
        "ExpPoint" => &[
            (1, "attributes", M("KeyValue"), R),
            (2, "startTimeUnixNano", X64, N),
            (3, "timeUnixNano", X64, N),
            (4, "count", X64, N),
            (5, "sum", F64, O),
            (6, "scale", S32, N),
            (7, "zeroCount", X64, N),
            (8, "positive", M("Buckets"), N),
            (9, "negative", M("Buckets"), N),
            (10, "flags", U32, N),
            (11, "exemplars", M("Exemplar"), R),
            (12, "min", F64, O),
            (13, "max", F64, O),
            (14, "zeroThreshold", F64, N),
        ],
        "Buckets" => &[(1, "offset", S32, N), (2, "bucketCounts", U64, R)],
        "Exemplar" => &[
            (2, "timeUnixNano", X64, N),
            (3, "asDouble", F64, O),
            (4, "spanId", Hex, N),
            (5, "traceId", Hex, N),
            (6, "asInt", SX64, O),
            (7, "filteredAttributes", M("KeyValue"), R),
        ],
        _ => panic!("vh: no message {ty}"),
    }
}
const ONEOFS: [(&str, &[&str]); 4] = [
    ("AnyValue", &["stringValue", "boolValue", "intValue", "doubleValue", "arrayValue", "kvlistValue", "bytesValue"]),
    ("Metric", &["gauge", "sum", "histogram", "exponentialHistogram"]),
    ("Number", &["asDouble", "asInt"]),
    ("Exemplar", &["asDouble", "asInt"]),
];
fn close(ty: &str, o: &mut BTreeMap<&'static str, T>) -> Result<(), String> {
    for (t, set) in ONEOFS {
        if t == ty && set.iter().filter(|k| o.contains_key(*k)).count() > 1 {
            return Err(format!("{ty} with two alternatives"));
        }
    }
    o.retain(|k, v| FIELDS(ty).iter().any(|d| d.1 == *k && d.3 == O) || !v.is_default());
    Ok(())
}

// --- protobuf ---
fn varint(b: &[u8], p: &mut usize) -> Result<u64, String> {
    let mut v: u64 = 0;
    for n in 0..10 {
        let x = *b.get(*p).ok_or("truncated varint")?;
        *p += 1;
        v |= ((x & 0x7f) as u64) << (7 * n);
        if x & 0x80 == 0 {
            return Ok(v);
        }
    }
    Err("varint too long".into())
}
fn take<'a>(b: &'a [u8], p: &mut usize, n: usize) -> Result<&'a [u8], String> {
    let r = b.get(*p..p.checked_add(n).ok_or("length")?).ok_or("truncated field")?;
    *p += n;
    Ok(r)
}
fn scalar(k: K, b: &[u8], p: &mut usize) -> Result<T, String> {
    Ok(match k {
        Bool => T::B(varint(b, p)? != 0),
        I64 => i(varint(b, p)? as i64),
        U64 => i(varint(b, p)?),
        U32 => i(varint(b, p)? as u32),
        I32 => i(varint(b, p)? as i64 as i32),
        S32 => {
            let v = varint(b, p)? as u32;
            i((v >> 1) as i32 ^ -((v & 1) as i32))
        }
        F64 => f(f64::from_bits(u64::from_le_bytes(take(b, p, 8)?.try_into().unwrap()))),
        X64 => i(u64::from_le_bytes(take(b, p, 8)?.try_into().unwrap())),
        SX64 => i(i64::from_le_bytes(take(b, p, 8)?.try_into().unwrap())),
        X32 => i(u32::from_le_bytes(take(b, p, 4)?.try_into().unwrap())),
        _ => return Err("not a scalar".into()),
    })
}
fn wire_of(k: K) -> u8 {
    match k {
        Bool | I64 | U64 | U32 | I32 | S32 => 0,
        F64 | X64 | SX64 => 1,
        Str | Bytes | Hex | M(_) => 2,
        X32 => 5,
    }
}
pub fn proto(ty: &str, b: &[u8]) -> Result<T, String> {
    let mut o: BTreeMap<&'static str, T> = BTreeMap::new();
    let mut p = 0;
    while p < b.len() {
        let tag = varint(b, &mut p)?;
        let (num, wt) = ((tag >> 3) as u32, (tag & 7) as u8);
        let Some(&(_, name, k, mode)) = FIELDS(ty).iter().find(|d| d.0 == num) else {
            return Err(format!("{ty}: unknown field {num}"));
        };
        let mut vals = vec![];
        if wt == 2 && wire_of(k) != 2 && mode == R {
            let n = varint(b, &mut p)? as usize;
            let s = take(b, &mut p, n)?;
            let mut q = 0;
            while q < s.len() {
                vals.push(scalar(k, s, &mut q)?);
            }
        } else if wt != wire_of(k) {
            return Err(format!("{ty}.{name}: wire type {wt}"));
        } else if wt == 2 {
            let n = varint(b, &mut p)? as usize;
            let s = take(b, &mut p, n)?;
            vals.push(match k {
                Str => T::S(std::str::from_utf8(s).map_err(|_| format!("{ty}.{name}: not UTF-8"))?.to_string()),
                Bytes | Hex => T::Y(s.to_vec()),
                M(t) => proto(t, s)?,
                _ => unreachable!(),
            });
        } else {
            vals.push(scalar(k, b, &mut p)?);
        }
        for v in vals {
            if mode == R {
                match o.entry(name).or_insert_with(|| T::List(vec![])) {
                    T::List(l) => l.push(v),
                    _ => unreachable!(),
                }
            } else if o.insert(name, v).is_some() {
                return Err(format!("{ty}.{name} twice"));
            }
        }
    }
    close(ty, &mut o)?;
    Ok(T::Msg(o))
}

// --- JSON: a strict parser keeping numbers as text ---
#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            J::Num(s) => s.parse().ok(),
            _ => None,
        }
    }
}
struct P<'a>(&'a [u8], usize, u32);
pub fn parse_json(b: &[u8]) -> Result<J, String> {
    std::str::from_utf8(b).map_err(|_| "JSON not UTF-8")?;
    let mut p = P(b, 0, 0);
    let v = p.val()?;
    p.ws();
    if p.1 != b.len() {
        return Err("text after JSON value".into());
    }
    Ok(v)
}
impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.0.get(self.1), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            self.1 += 1
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.0.get(self.1) == Some(&c) {
            self.1 += 1;
            Ok(())
        } else {
            Err(format!("JSON: expected {:?} at {}", c as char, self.1))
        }
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, String> {
        if self.0[self.1..].starts_with(s.as_bytes()) {
            self.1 += s.len();
            Ok(v)
        } else {
            Err(format!("JSON: bad literal at {}", self.1))
        }
    }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        self.2 += 1;
        let r = match self.0.get(self.1) {
            None => Err("JSON: end of text".into()),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => self.string().map(J::Str),
            Some(b'[') => {
                self.1 += 1;
                let mut l = vec![];
                self.ws();
                if self.eat(b']').is_ok() {
                    return Ok(J::Arr(l));
                }
                loop {
                    l.push(self.val()?);
                    self.ws();
                    if self.eat(b']').is_ok() {
                        break Ok(J::Arr(l));
                    }
                    self.eat(b',')?;
                }
            }
            Some(b'{') => {
                self.1 += 1;
                let mut l: Vec<(String, J)> = vec![];
                self.ws();
                if self.eat(b'}').is_ok() {
                    return Ok(J::Obj(l));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    let v = self.val()?;
                    if l.iter().any(|e| e.0 == k) {
                        return Err(format!("JSON: key {k:?} twice"));
                    }
                    l.push((k, v));
                    self.ws();
                    if self.eat(b'}').is_ok() {
                        break Ok(J::Obj(l));
                    }
                    self.eat(b',')?;
                }
            }
            Some(_) => {
                let st = self.1;
                while matches!(self.0.get(self.1), Some(b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9')) {
                    self.1 += 1
                }
                let t = std::str::from_utf8(&self.0[st..self.1]).unwrap();
                let body = t.strip_prefix('-').unwrap_or(t);
                let ok = body.starts_with(|c: char| c.is_ascii_digit()) && !(body.len() > 1 && body.starts_with('0') && body.as_bytes()[1].is_ascii_digit()) && t.parse::<f64>().is_ok();
                if ok {
                    Ok(J::Num(t.to_string()))
                } else {
                    Err(format!("JSON: bad token at {st}"))
                }
            }
        };
        self.2 -= 1;
        r
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let s = self.0.get(self.1..self.1 + 4).ok_or("JSON: short escape")?;
        self.1 += 4;
        u32::from_str_radix(std::str::from_utf8(s).map_err(|_| "escape")?, 16).map_err(|_| "JSON: escape".into())
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut out = vec![];
        loop {
            let c = *self.0.get(self.1).ok_or("JSON: open string")?;
            self.1 += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|_| "JSON: string".into()),
                0..=0x1f => return Err("JSON: control character in string".into()),
                b'\\' => {
                    let e = *self.0.get(self.1).ok_or("JSON: open string")?;
                    self.1 += 1;
                    let ch = match e {
                        b'"' | b'\\' | b'/' => e as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut x = self.hex4()?;
                            if (0xd800..0xdc00).contains(&x) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let lo = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return Err("JSON: surrogate".into());
                                }
                                x = 0x10000 + ((x - 0xd800) << 10) + (lo - 0xdc00);
                            }
                            char::from_u32(x).ok_or("JSON: surrogate")?
                        }
                        _ => return Err("JSON: escape".into()),
                    };
                    out.extend(ch.to_string().as_bytes());
                }
                _ => out.push(c),
            }
        }
    }
}

/// Deviations from the OTLP-JSON mapping that were tolerated while decoding, by name.
pub type Odd = std::collections::BTreeSet<&'static str>;
fn jint(v: &J, lo: i128, hi: i128) -> Option<T> {
    let t = match v {
        J::Num(t) => t,
        J::Str(t) => t,
        _ => return None,
    };
    let n: i128 = t.parse().ok()?;
    (lo <= n && n <= hi).then_some(T::I(n))
}
fn jval(k: K, v: &J, odd: &mut Odd) -> Result<T, String> {
    let bad = || format!("not a {k:?}: {v:?}");
    Ok(match k {
        Str => s(v.str().ok_or_else(bad)?),
        Bool => match v {
            J::Bool(b) => T::B(*b),
            _ => return Err(bad()),
        },
        I64 | SX64 => jint(v, i64::MIN as i128, i64::MAX as i128).ok_or_else(bad)?,
        U64 | X64 => jint(v, 0, u64::MAX as i128).ok_or_else(bad)?,
        U32 | X32 => jint(v, 0, u32::MAX as i128).ok_or_else(bad)?,
        I32 | S32 => jint(v, i32::MIN as i128, i32::MAX as i128).ok_or_else(bad)?,
        F64 => match v {
            J::Num(t) => f(t.parse().map_err(|_| bad())?),
            J::Str(t) => match t.as_str() {
                "NaN" => f(f64::NAN),
                "Infinity" => f(f64::INFINITY),
                "-Infinity" => f(f64::NEG_INFINITY),
                t => f(t.parse().map_err(|_| bad())?),
            },
            J::Null => {
                odd.insert("json-nonfinite");
                f(f64::NAN)
            }
            _ => return Err(bad()),
        },
        Bytes => {
            use base64::Engine;
            T::Y(base64::engine::general_purpose::STANDARD.decode(v.str().ok_or_else(bad)?).map_err(|_| bad())?)
        }
        Hex => {
            let t = v.str().ok_or_else(bad)?;
            if t.len() % 2 != 0 || !t.bytes().all(|c| c.is_ascii_hexdigit()) {
                return Err(bad());
            }
            T::Y((0..t.len() / 2).map(|n| u8::from_str_radix(&t[2 * n..2 * n + 2], 16).unwrap()).collect())
        }
        M(t) => json(t, v, odd)?,
    })
}
pub fn json(ty: &str, v: &J, odd: &mut Odd) -> Result<T, String> {
    let J::Obj(fields) = v else { return Err(format!("{ty}: not an object: {v:?}")) };
    let mut o: BTreeMap<&'static str, T> = BTreeMap::new();
    let mut all: Vec<(String, J)> = vec![];
    for (k, x) in fields {
        if ty == "Exemplar" && k == "value" {
            odd.insert("json-exemplar-value");
            if let J::Obj(in_) = x {
                all.extend(in_.iter().cloned());
            }
        } else {
            all.push((k.clone(), x.clone()));
        }
    }
    for (k, x) in &all {
        let Some(&(_, name, kind, mode)) = FIELDS(ty).iter().find(|d| d.1 == k) else {
            return Err(format!("{ty}: unknown JSON field {k:?}"));
        };
        // null is "not set" in the JSON mapping; an alternative chosen with null has lost its value
        let oneof = ONEOFS.iter().any(|(t, set)| *t == ty && set.contains(&name));
        if matches!(x, J::Null) && !oneof {
            continue;
        }
        let val = if mode == R {
            let J::Arr(l) = x else { return Err(format!("{ty}.{name}: not an array")) };
            T::List(l.iter().map(|x| jval(kind, x, odd)).collect::<Result<_, _>>().map_err(|e| format!("{ty}.{name}: {e}"))?)
        } else {
            jval(kind, x, odd).map_err(|e| format!("{ty}.{name}: {e}"))?
        };
        o.insert(name, val);
    }
    close(ty, &mut o)?;
    Ok(T::Msg(o))
}
