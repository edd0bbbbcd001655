//! Scripted collectors on loopback: what they are sent and how they (mis)behave.
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Seen {
    pub method: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Seen {
    pub fn header(&self, k: &str) -> Vec<&str> {
        self.headers.iter().filter(|(a, _)| a.eq_ignore_ascii_case(k)).map(|(_, v)| v.as_str()).collect()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    /// status, body, delay (ms), chunked, close afterwards
    Answer(u16, Vec<u8>, u64, bool, bool),
    /// 3xx to /elsewhere
    Redirect(u16),
    /// nothing until the client gives up
    HoldHead,
    /// a status and part of the body, nothing more
    HoldBody(u16),
    /// one byte of the body every 40 ms
    Trickle(u16),
    CutAfter,
    CutHead,
    CutBody(u16),
    Garbage(Vec<u8>),
    /// the connection is closed before the request is read
    CutBefore,
}
type Pick = Box<dyn Fn(&Seen) -> Act + Send>;
struct State {
    pick: Mutex<Pick>,
    cut: AtomicBool,
    seen: Mutex<Vec<Seen>>,
    conns: AtomicU64,
    stop: AtomicBool,
}
/// an HTTP/1.1 collector
pub struct Coll {
    pub addr: SocketAddr,
    st: Arc<State>,
}
impl Drop for Coll {
    fn drop(&mut self) {
        self.st.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(self.addr);
    }
}
const HOLD: Duration = Duration::from_secs(8);
impl Coll {
    pub fn new() -> Coll {
        Coll::on("127.0.0.1:0").unwrap()
    }
    pub fn on(a: &str) -> std::io::Result<Coll> {
        let l = TcpListener::bind(a)?;
        let addr = l.local_addr()?;
        let st = Arc::new(State {
            pick: Mutex::new(Box::new(|_| Act::Answer(200, vec![], 0, false, false))),
            cut: AtomicBool::new(false),
            seen: Mutex::new(vec![]),
            conns: AtomicU64::new(0),
            stop: AtomicBool::new(false),
        });
        let s = st.clone();
        std::thread::spawn(move || {
            for x in l.incoming() {
                if s.stop.load(Ordering::SeqCst) {
                    return;
                }
                if let Ok(x) = x {
                    let s = s.clone();
                    s.conns.fetch_add(1, Ordering::Relaxed);
                    std::thread::spawn(move || {
                        let _ = serve(x, &s);
                    });
                }
            }
        });
        Ok(Coll { addr, st })
    }
    pub fn act(&self, a: Act) {
        self.st.cut.store(a == Act::CutBefore, Ordering::SeqCst);
        *self.st.pick.lock().unwrap() = Box::new(move |q| {
            if q.path == "/elsewhere" {
                Act::Answer(200, vec![], 0, false, false)
            } else {
                a.clone()
            }
        });
    }
    pub fn pick(&self, f: impl Fn(&Seen) -> Act + Send + 'static) {
        self.st.cut.store(false, Ordering::SeqCst);
        *self.st.pick.lock().unwrap() = Box::new(f);
    }
    pub fn take(&self) -> Vec<Seen> {
        std::mem::take(&mut *self.st.seen.lock().unwrap())
    }
    pub fn url(&self, path: &str) -> String {
        format!("http://{}{path}", self.addr)
    }
}
/// waits until the other side gave up
fn hold(s: &mut TcpStream, st: &State) {
    let t = Instant::now();
    let mut b = [0u8; 512];
    while t.elapsed() < HOLD && !st.stop.load(Ordering::Relaxed) {
        match s.read(&mut b) {
            Ok(0) => return,
            Ok(_) => {}
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {}
            Err(_) => return,
        }
    }
}
fn serve(mut s: TcpStream, st: &State) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    s.set_read_timeout(Some(Duration::from_millis(50)))?;
    let mut buf: Vec<u8> = vec![];
    let mut idle = Instant::now();
    loop {
        // one request
        let (mut head, mut body_at) = (None::<Seen>, 0);
        let q = loop {
            if head.is_none() {
                if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                    let h = String::from_utf8_lossy(&buf[..p]).into_owned();
                    let mut it = h.split("\r\n");
                    let mut first = it.next().unwrap_or("").split(' ');
                    let mut q = Seen { method: first.next().unwrap_or("").into(), path: first.next().unwrap_or("").into(), ..Default::default() };
                    q.headers = it.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.trim().to_string(), v.trim().to_string())).collect();
                    head = Some(q);
                    body_at = p + 4;
                }
            }
            if let Some(q) = &head {
                let n = if q.header("transfer-encoding").iter().any(|v| v.eq_ignore_ascii_case("chunked")) {
                    dechunk(&buf[body_at..])
                } else {
                    let n: usize = q.header("content-length").first().and_then(|v| v.parse().ok()).unwrap_or(0);
                    (buf.len() >= body_at + n).then(|| (buf[body_at..body_at + n].to_vec(), n))
                };
                if let Some((body, used)) = n {
                    let mut q = head.take().unwrap();
                    q.body = body;
                    buf.drain(..body_at + used);
                    break q;
                }
            }
            let mut b = [0u8; 16384];
            match s.read(&mut b) {
                Ok(0) => return Ok(()),
                Ok(n) => {
                    if st.cut.load(Ordering::SeqCst) {
                        return Ok(());
                    }
                    idle = Instant::now();
                    buf.extend_from_slice(&b[..n]);
                }
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {
                    if st.stop.load(Ordering::Relaxed) || idle.elapsed() > Duration::from_secs(60) {
                        return Ok(());
                    }
                }
                Err(e) => return Err(e),
            }
        };
        let a = (st.pick.lock().unwrap())(&q);
        st.seen.lock().unwrap().push(q);
        match a {
            Act::Answer(code, body, delay, chunked, close) => {
                if delay > 0 {
                    std::thread::sleep(Duration::from_millis(delay));
                }
                let mut o = format!("HTTP/1.1 {code} Some Reason\r\nContent-Type: application/x-protobuf\r\n");
                if close {
                    o.push_str("Connection: close\r\n");
                }
                let mut o = if code == 204 || code == 304 {
                    o.push_str("\r\n");
                    o.into_bytes()
                } else if chunked {
                    o.push_str("Transfer-Encoding: chunked\r\n\r\n");
                    let mut o = o.into_bytes();
                    for c in body.chunks(7) {
                        o.extend(format!("{:x}\r\n", c.len()).bytes());
                        o.extend(c);
                        o.extend(b"\r\n");
                    }
                    o.extend(b"0\r\n\r\n");
                    o
                } else {
                    o.push_str(&format!("Content-Length: {}\r\n\r\n", body.len()));
                    let mut o = o.into_bytes();
                    o.extend(&body);
                    o
                };
                s.write_all(&std::mem::take(&mut o))?;
                if close {
                    return Ok(());
                }
            }
            Act::Redirect(code) => {
                s.write_all(format!("HTTP/1.1 {code} Moved\r\nLocation: /elsewhere\r\nContent-Length: 0\r\n\r\n").as_bytes())?;
            }
            Act::HoldHead => {
                hold(&mut s, st);
                return Ok(());
            }
            Act::HoldBody(code) => {
                s.write_all(format!("HTTP/1.1 {code} Some Reason\r\nContent-Length: 20\r\n\r\n0123456").as_bytes())?;
                hold(&mut s, st);
                return Ok(());
            }
            Act::Trickle(code) => {
                s.write_all(format!("HTTP/1.1 {code} Some Reason\r\nContent-Length: 2000\r\n\r\n").as_bytes())?;
                let t = Instant::now();
                while t.elapsed() < HOLD && !st.stop.load(Ordering::Relaxed) {
                    s.write_all(b"x")?;
                    std::thread::sleep(Duration::from_millis(40));
                }
                return Ok(());
            }
            Act::CutAfter | Act::CutBefore => return Ok(()),
            Act::CutHead => {
                s.write_all(b"HTTP/1.1 200 OK\r\nContent-Le")?;
                return Ok(());
            }
            Act::CutBody(code) => {
                s.write_all(format!("HTTP/1.1 {code} Some Reason\r\nContent-Length: 20\r\n\r\n0123456").as_bytes())?;
                return Ok(());
            }
            Act::Garbage(g) => {
                s.write_all(&g)?;
                return Ok(());
            }
        }
    }
}
fn dechunk(mut b: &[u8]) -> Option<(Vec<u8>, usize)> {
    let all = b.len();
    let mut out = vec![];
    loop {
        let p = b.windows(2).position(|w| w == b"\r\n")?;
        let n = usize::from_str_radix(std::str::from_utf8(&b[..p]).ok()?.split(';').next()?.trim(), 16).ok()?;
        b = &b[p + 2..];
        if b.len() < n + 2 {
            return None;
        }
        out.extend(&b[..n]);
        b = &b[n + 2..];
        if n == 0 {
            return Some((out, all - b.len()));
        }
    }
}

// --- gRPC ---
use bytes::Bytes;
use http::HeaderMap;

#[derive(Clone, Debug, PartialEq)]
pub enum GAct {
    /// grpc-status with its message, delay (ms), trailers-only when not 0
    Status(i32, u64),
    /// the response message, then this status in the trailers
    LateStatus(i32),
    /// an HTTP status without any gRPC status
    Http(u16),
    /// OK without a message
    NoMessage,
    /// OK with something that is not the response message
    BadMessage,
    HoldHead,
    HoldBody,
    /// headers only, then the stream is reset
    Reset,
    /// the stream is reset without an answer
    ResetAll,
    /// the connection is closed
    Close,
}
/// what a gRPC collector was sent: path, headers, the decompressed message
struct GState {
    pick: Mutex<Box<dyn Fn(&Seen) -> GAct + Send>>,
    seen: Mutex<Vec<Seen>>,
    bad: Mutex<Vec<String>>,
}
pub struct GColl {
    pub addr: SocketAddr,
    st: Arc<GState>,
    task: tokio::task::JoinHandle<()>,
}
impl Drop for GColl {
    fn drop(&mut self) {
        self.task.abort();
    }
}
enum Fr {
    Data(Bytes),
    Trailers(HeaderMap),
    Hang,
    Abort,
}
struct Script(VecDeque<Fr>);
impl http_body::Body for Script {
    type Data = Bytes;
    type Error = std::io::Error;
    fn poll_frame(
        mut self: std::pin::Pin<&mut Self>,
        _: &mut std::task::Context<'_>,
    ) -> std::task::Poll<Option<Result<http_body::Frame<Bytes>, std::io::Error>>> {
        use std::task::Poll::*;
        match self.0.pop_front() {
            None => Ready(None),
            Some(Fr::Data(b)) => Ready(Some(Ok(http_body::Frame::data(b)))),
            Some(Fr::Trailers(t)) => Ready(Some(Ok(http_body::Frame::trailers(t)))),
            Some(Fr::Hang) => {
                self.0.push_front(Fr::Hang);
                Pending
            }
            Some(Fr::Abort) => Ready(Some(Err(std::io::Error::other("vh abort")))),
        }
    }
}
fn message(q: &Seen) -> Result<Vec<u8>, String> {
    let b = &q.body;
    if b.len() < 5 {
        return Err(format!("message frame of {} bytes", b.len()));
    }
    let n = u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize;
    if b.len() != 5 + n {
        return Err(format!("frame says {n} bytes, there are {}", b.len() - 5));
    }
    match (b[0], q.header("grpc-encoding").first().copied()) {
        (0, _) => Ok(b[5..].to_vec()),
        (1, Some("gzip")) => {
            let mut o = vec![];
            flate2::read::GzDecoder::new(&b[5..]).read_to_end(&mut o).map_err(|e| e.to_string())?;
            Ok(o)
        }
        (1, Some("zstd")) => zstd::decode_all(&b[5..]).map_err(|e| e.to_string()),
        x => Err(format!("compression flag and encoding {x:?}")),
    }
}
impl GColl {
    /// within a runtime
    pub async fn on(a: &str) -> std::io::Result<GColl> {
        let l = tokio::net::TcpListener::bind(a).await?;
        let addr = l.local_addr()?;
        let st = Arc::new(GState { pick: Mutex::new(Box::new(|_| GAct::Status(0, 0))), seen: Mutex::new(vec![]), bad: Mutex::new(vec![]) });
        let s = st.clone();
        let task = tokio::spawn(async move {
            loop {
                let Ok((io, _)) = l.accept().await else { continue };
                let _ = io.set_nodelay(true);
                let s = s.clone();
                tokio::spawn(async move {
                    let close = Arc::new(tokio::sync::Notify::new());
                    let c2 = close.clone();
                    let svc = hyper::service::service_fn(move |q: http::Request<hyper::body::Incoming>| {
                        let (s, close) = (s.clone(), c2.clone());
                        async move { answer(q, s, close).await }
                    });
                    let conn = hyper::server::conn::http2::Builder::new(hyper_util::rt::TokioExecutor::new()).serve_connection(hyper_util::rt::TokioIo::new(io), svc);
                    tokio::select! {
                        _ = conn => {}
                        _ = close.notified() => {}
                    }
                });
            }
        });
        Ok(GColl { addr, st, task })
    }
    pub fn act(&self, a: GAct) {
        *self.st.pick.lock().unwrap() = Box::new(move |_| a.clone());
    }
    pub fn pick(&self, f: impl Fn(&Seen) -> GAct + Send + 'static) {
        *self.st.pick.lock().unwrap() = Box::new(f);
    }
    /// requests received since, and what was wrong with any
    pub fn take(&self) -> (Vec<Seen>, Vec<String>) {
        (std::mem::take(&mut *self.st.seen.lock().unwrap()), std::mem::take(&mut *self.st.bad.lock().unwrap()))
    }
    pub fn url(&self) -> String {
        format!("http://{}", self.addr)
    }
}
async fn answer(q: http::Request<hyper::body::Incoming>, s: Arc<GState>, close: Arc<tokio::sync::Notify>) -> Result<http::Response<Script>, std::io::Error> {
    use http_body_util::BodyExt;
    let (p, b) = q.into_parts();
    let body = b.collect().await.map_err(std::io::Error::other)?.to_bytes();
    let mut q = Seen {
        method: p.method.to_string(),
        path: p.uri.path().to_string(),
        headers: p.headers.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect(),
        body: body.to_vec(),
    };
    match message(&q) {
        Ok(b) => q.body = b,
        Err(e) => s.bad.lock().unwrap().push(e),
    }
    let a = (s.pick.lock().unwrap())(&q);
    s.seen.lock().unwrap().push(q);
    let st = |code: i32| {
        let mut h = HeaderMap::new();
        h.insert("grpc-status", code.into());
        if code != 0 {
            h.insert("grpc-message", http::HeaderValue::from_static("vh refuses"));
        }
        h
    };
    let ok = |fr: Vec<Fr>| {
        let mut r = http::Response::new(Script(fr.into()));
        r.headers_mut().insert("content-type", http::HeaderValue::from_static("application/grpc"));
        r
    };
    let msg = || Fr::Data(Bytes::from_static(&[0, 0, 0, 0, 0]));
    Ok(match a {
        GAct::Status(code, delay) => {
            if delay > 0 {
                tokio::time::sleep(Duration::from_millis(delay)).await;
            }
            if code == 0 {
                ok(vec![msg(), Fr::Trailers(st(0))])
            } else {
                let mut r = ok(vec![]);
                r.headers_mut().extend(st(code));
                r
            }
        }
        GAct::LateStatus(code) => ok(vec![msg(), Fr::Trailers(st(code))]),
        GAct::Http(code) => {
            let mut r = http::Response::new(Script(vec![Fr::Data(Bytes::from_static(b"no"))].into()));
            *r.status_mut() = http::StatusCode::from_u16(code).unwrap();
            r
        }
        GAct::NoMessage => ok(vec![Fr::Trailers(st(0))]),
        GAct::BadMessage => ok(vec![Fr::Data(Bytes::from_static(&[0, 0, 0, 0, 3, 0x0a, 0x7f, 0x01])), Fr::Trailers(st(0))]),
        GAct::HoldHead => {
            tokio::time::sleep(HOLD).await;
            ok(vec![])
        }
        GAct::HoldBody => ok(vec![Fr::Hang]),
        GAct::Reset => ok(vec![Fr::Abort]),
        GAct::ResetAll => return Err(std::io::Error::other("vh reset")),
        GAct::Close => {
            close.notify_one();
            tokio::time::sleep(HOLD).await;
            ok(vec![])
        }
    })
}
