//! Shared machinery of the end-to-end checks: one executor, dynamic procedures, raw HTTP peers on the loopback.
use crate::gen::*;
use fibers::{Executor, Spawn, ThreadPoolExecutor};
use futures::Future;
use htrpc::types::{EntryPoint, HttpMethod, NeverFail};
use htrpc::{BodyReader, FutureExt, HandleRpc, Procedure, ReadBody, RpcRequest, RpcResponse, RpcServerBuilder};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, MapAccess, VariantAccess, Visitor};
use serde::ser::{Serialize, SerializeStruct, SerializeStructVariant, Serializer};
use std::fmt;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res<T> = Result<T, String>;
pub const SLOW: Duration = Duration::from_secs(10);

// ---- executor ----
pub type Handle = fibers::executor::ThreadPoolExecutorHandle;
static EXEC: Mutex<Option<Handle>> = Mutex::new(None);
static PANICS: AtomicUsize = AtomicUsize::new(0);
static PANIC_TEXT: Mutex<String> = Mutex::new(String::new());
/// Records panics in the executor's threads (they would otherwise only show as silence).
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if std::thread::current().name() != Some("main") {
            let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            // fibers' threads end with such messages when their executor goes away
            if std::env::var_os("REPLAY_DEBUG").is_some() { eprintln!("panic: {} {:?}", m, i.location().map(|l| l.to_string())); }
            if m.contains("Poller is down") { return; }
            if let Ok(mut t) = PANIC_TEXT.lock() { *t = format!("{} at {:?}", m, i.location().map(|l| l.to_string())); }
            PANICS.fetch_add(1, Ordering::SeqCst);
        }
    }));
}
pub fn exec() -> Handle {
    let mut e = EXEC.lock().unwrap();
    if let Some(ref h) = *e { return h.clone(); }
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut x = ThreadPoolExecutor::with_thread_count(2).expect("executor");
        tx.send(x.handle()).unwrap();
        loop { if let Err(e) = x.run_once() { eprintln!("executor: {:?}", e); break; } }
    });
    let h = rx.recv().unwrap();
    *e = Some(h.clone());
    h
}
pub fn panics() -> usize { PANICS.load(Ordering::SeqCst) }
/// Fails when the code under test panicked since `before`; the executor is then replaced.
pub fn no_panic(before: usize) -> Res<()> {
    if panics() == before { return Ok(()); }
    *EXEC.lock().unwrap() = None;
    Err(format!("panic in the code under test: {}", PANIC_TEXT.lock().unwrap()))
}
pub fn reset_exec() { *EXEC.lock().unwrap() = None; }
/// Starts a future on the executor; its result arrives on the channel.
pub fn start<F, T>(f: F) -> Receiver<Result<T, String>>
where F: Future<Item = T> + Send + 'static, F::Error: fmt::Display, T: Send + 'static {
    let (tx, rx) = channel();
    exec().spawn(f.then(move |r| { let _ = tx.send(r.map_err(|e| e.to_string())); Ok(()) }));
    rx
}
pub fn wait<T>(rx: &Receiver<Result<T, String>>) -> Res<Result<T, String>> {
    rx.recv_timeout(SLOW).map_err(|_| "the call did not complete".to_string())
}

// ---- dynamic messages ----
#[derive(Clone, Debug)]
pub enum PV { Tuple(Vec<Atom>, TupleShape), Fields(Vec<Field>, MapShape), Unit, One(Atom), Odd(&'static str) }
impl Serialize for PV {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match *self {
            PV::Tuple(ref v, sh) => DynTuple(v, sh).serialize(s),
            PV::Fields(ref f, sh) => DynStruct(f, sh).serialize(s),
            PV::Unit => s.serialize_unit(),
            PV::One(ref a) => a.serialize(s),
            PV::Odd(k) => Odd(k).serialize(s),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape { Struct, NewtypeStruct, UnitVariant(&'static str), StructVariant(&'static str), NewtypeVariant(&'static str), Odd(&'static str) }
/// What a decoded message was made from.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Got {
    pub offered: Vec<String>,
    pub variant: Option<String>,
    pub status: Option<u16>,
    pub path: Option<Vec<Atom>>,
    pub query: Option<Vec<Option<Atom>>>,
    pub header: Option<Vec<Option<Atom>>>,
}
#[derive(Clone, Debug)]
pub struct Msg { pub shape: Shape, pub parts: Vec<(&'static str, PV)>, pub body: Vec<u8>, pub got: Got, /* how often the body was set */ pub sets: usize }
impl Msg {
    pub fn new(shape: Shape, parts: Vec<(&'static str, PV)>, body: Vec<u8>) -> Msg { Msg { shape, parts, body, got: Got::default(), sets: 0 } }
}
struct Parts<'a>(&'a [(&'static str, PV)]);
impl<'a> Serialize for Parts<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = s.serialize_struct("M", self.0.len())?;
        for (k, v) in self.0 { t.serialize_field(k, v)?; }
        t.end()
    }
}
impl Serialize for Msg {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.shape {
            Shape::Struct => Parts(&self.parts).serialize(s),
            Shape::NewtypeStruct => s.serialize_newtype_struct("N", &Parts(&self.parts)),
            Shape::NewtypeVariant(n) => s.serialize_newtype_variant("E", 0, n, &Parts(&self.parts)),
            Shape::UnitVariant(n) => s.serialize_unit_variant("E", 0, n),
            Shape::StructVariant(n) => {
                let mut t = s.serialize_struct_variant("E", 0, n, self.parts.len())?;
                for (k, v) in &self.parts { t.serialize_field(k, v)?; }
                t.end()
            }
            Shape::Odd(k) => Odd(k).serialize(s),
        }
    }
}
/// How the next messages are decoded.
#[derive(Clone, Debug, Default)]
pub struct Dec {
    pub as_enum: Option<VariantKind>,
    pub newtype: bool,
    pub path: Option<(Vec<Kind>, TupleShape)>,
    pub query: Option<Vec<Field>>,
    pub header: Option<Vec<Field>>,
    pub need_path: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum VariantKind { Unit, Struct, Newtype }
static DEC: Mutex<Option<Arc<Dec>>> = Mutex::new(None);
pub fn set_dec(d: Dec) { *DEC.lock().unwrap() = Some(Arc::new(d)); }
fn dec() -> Arc<Dec> { DEC.lock().unwrap().clone().unwrap_or_default() }

struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        struct KV;
        impl<'de> Visitor<'de> for KV {
            type Value = String;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "name") }
            fn visit_str<E>(self, s: &str) -> Result<String, E> { Ok(s.to_string()) }
        }
        d.deserialize_identifier(KV)
    }
}
struct MsgV(Arc<Dec>, Got);
impl<'de> Visitor<'de> for MsgV {
    type Value = Got;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "message") }
    fn visit_map<A: MapAccess<'de>>(mut self, mut a: A) -> Result<Got, A::Error> {
        while let Some(k) = a.next_key_seed(Ident)? {
            match (k.as_str(), &self.0.path, &self.0.query, &self.0.header) {
                ("path", Some((kinds, sh)), _, _) => self.1.path = Some(a.next_value_seed(TupleSeed(kinds, *sh))?),
                ("query", _, Some(f), _) => self.1.query = Some(a.next_value_seed(StructSeed(f, MapShape::Struct))?),
                ("header", _, _, Some(f)) => self.1.header = Some(a.next_value_seed(StructSeed(f, MapShape::Struct))?),
                ("status", _, _, _) => self.1.status = Some(a.next_value()?),
                _ => { let _: de::IgnoredAny = a.next_value()?; }
            }
            self.1.offered.push(k);
        }
        Ok(self.1)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> { d.deserialize_struct("M", &[], self) }
    fn visit_unit<E>(self) -> Result<Got, E> { Ok(self.1) }
    fn visit_enum<A: EnumAccess<'de>>(mut self, a: A) -> Result<Got, A::Error> {
        let (n, v) = a.variant_seed(Ident)?;
        self.1.variant = Some(n);
        match self.0.as_enum {
            Some(VariantKind::Struct) => v.struct_variant(&[], self),
            Some(VariantKind::Newtype) => v.newtype_variant_seed(self),
            _ => { v.unit_variant()?; Ok(self.1) }
        }
    }
}
impl<'de> DeserializeSeed<'de> for MsgV {
    type Value = Got;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> { d.deserialize_struct("M", &[], self) }
}
impl<'de> Deserialize<'de> for Msg {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Msg, D::Error> {
        let s = dec();
        let v = MsgV(s.clone(), Got::default());
        let got = if s.as_enum.is_some() { d.deserialize_enum("E", &[], v)? }
            else if s.newtype { d.deserialize_newtype_struct("N", v)? }
            else { d.deserialize_struct("M", &[], v)? };
        Ok(Msg { shape: Shape::Struct, parts: vec![], body: vec![], got, sets: 0 })
    }
}
impl RpcRequest for Msg {
    fn body(&mut self) -> Vec<u8> { self.body.clone() }
    fn read_body(self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map_err(htrpc::Error::from).map(move |(r, b)| (r, Msg { body: b, ..self })))
    }
}
impl RpcResponse for Msg {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(self.body.clone()) }
    fn set_body(&mut self, body: Vec<u8>) { self.body = body; self.sets += 1; }
}

// ---- dynamic procedures ----
static TABLE: Mutex<Vec<(HttpMethod, EntryPoint)>> = Mutex::new(Vec::new());
pub fn set_table(t: Vec<(HttpMethod, EntryPoint)>) { *TABLE.lock().unwrap() = t; }
pub struct Proc<const N: usize>;
impl<const N: usize> Procedure for Proc<N> {
    type Request = Msg;
    type Response = Msg;
    fn method() -> HttpMethod { TABLE.lock().unwrap()[N].0 }
    fn entry_point() -> EntryPoint { TABLE.lock().unwrap()[N].1 }
}
#[derive(Clone)]
pub struct H { pub id: usize, pub log: Arc<Mutex<Vec<(usize, Msg)>>>, pub reply: Arc<Mutex<Msg>>, pub delay_ms: Arc<AtomicUsize> }
impl H {
    pub fn new(id: usize, reply: Msg) -> H { H { id, log: Arc::new(Mutex::new(vec![])), reply: Arc::new(Mutex::new(reply)), delay_ms: Arc::new(AtomicUsize::new(0)) } }
    pub fn with_id(&self, id: usize) -> H { H { id, ..self.clone() } }
    pub fn set(&self, m: Msg) { *self.reply.lock().unwrap() = m; }
    pub fn take_log(&self) -> Vec<(usize, Msg)> { std::mem::replace(&mut *self.log.lock().unwrap(), vec![]) }
}
impl<const N: usize> HandleRpc<Proc<N>> for H {
    type Future = Box<dyn Future<Item = Msg, Error = NeverFail> + Send + 'static>;
    fn handle_rpc(self, request: Msg) -> Self::Future {
        self.log.lock().unwrap().push((self.id, request));
        let m = self.reply.lock().unwrap().clone();
        let d = self.delay_ms.load(Ordering::SeqCst) as u64;
        if d == 0 { Box::new(futures::finished(m)) }
        else { Box::new(fibers::time::timer::timeout(Duration::from_millis(d)).then(move |_| Ok(m))) }
    }
}
pub const PROCS: usize = 12;
/// Registers procedure `n` of the table.
pub fn register(b: &mut RpcServerBuilder, n: usize, h: H) -> Result<(), htrpc::Error> {
    macro_rules! go { ($($i:literal)*) => { match n { $($i => b.register(h, Proc::<$i>),)* _ => panic!("too many procedures") } } }
    go!(0 1 2 3 4 5 6 7 8 9 10 11)
}
/// A variable or constant entry point from a pattern such as "a/*/b".
pub fn ep(pat: &'static str) -> EntryPoint {
    if pat == "(none)" { return crate::codec::leak_ep(&[]); }
    crate::codec::leak_ep(&pat.split('/').map(|s| if s == "*" { None } else { Some(s) }).collect::<Vec<_>>())
}

// ---- the server under test ----
pub struct Srv { pub addr: SocketAddr, stop: Option<fibers::sync::oneshot::Sender<()>> }
impl Drop for Srv { fn drop(&mut self) { if let Some(s) = self.stop.take() { let _ = s.send(()); } } }
/// An address nobody listens at, below the range the kernel takes ports of outgoing connections from.
pub fn free_addr() -> SocketAddr {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    loop {
        let k = NEXT.fetch_add(1, Ordering::SeqCst) + (std::process::id() as usize) * 97;
        let a: SocketAddr = ([127, 0, 0, 1], 12000 + (k % 20000) as u16).into();
        if let Ok(l) = TcpListener::bind(a) { return l.local_addr().expect("loopback"); }
    }
}
pub fn serve(b: RpcServerBuilder, addr: SocketAddr) -> Res<Srv> {
    let (tx, rx) = fibers::sync::oneshot::channel();
    let server = b.start(exec());
    let (dtx, drx) = channel();
    exec().spawn(server.map_err(|e| e.to_string()).select(rx.map_err(|e| e.to_string())).then(move |r| {
        let _ = dtx.send(r.map(|_| ()).map_err(|e| e.0));
        Ok(())
    }));
    let t = Instant::now();
    loop {
        if let Ok(s) = TcpStream::connect(addr) { drop(s); break; }
        if let Ok(r) = drx.try_recv() { return Err(format!("the server ended: {:?}", r)); }
        if t.elapsed() > SLOW { return Err("the server does not listen".to_string()); }
        std::thread::sleep(Duration::from_millis(2));
    }
    Ok(Srv { addr, stop: Some(tx) })
}

// ---- raw peers ----
#[derive(Debug, Clone)]
pub struct Head { pub first: Vec<String>, pub lines: Vec<(String, Vec<u8>)>, pub raw: Vec<u8> }
impl Head {
    pub fn get(&self, n: &str) -> Vec<&[u8]> { self.lines.iter().filter(|l| l.0.eq_ignore_ascii_case(n)).map(|l| &l.1[..]).collect() }
    pub fn text(&self, n: &str) -> Option<String> { self.get(n).first().map(|v| String::from_utf8_lossy(v).to_string()) }
    /// The announced length; an error unless there is exactly one plain number.
    pub fn length(&self) -> Res<usize> {
        let v = self.get("content-length");
        if v.len() != 1 { return Err(format!("{} Content-Length lines in {:?}", v.len(), String::from_utf8_lossy(&self.raw))); }
        std::str::from_utf8(v[0]).ok().and_then(|s| s.trim().parse().ok()).ok_or_else(|| format!("Content-Length is {:?}", v[0]))
    }
}
/// Splits a message head strictly: CRLF lines, `name: value`, no folding.
pub fn parse_head(raw: &[u8]) -> Res<Head> {
    let shown = String::from_utf8_lossy(raw).to_string();
    let mut lines = vec![];
    let mut rest = raw;
    loop {
        let p = rest.windows(2).position(|w| w == b"\r\n").ok_or_else(|| format!("no CRLF in {:?}", shown))?;
        let l = &rest[..p];
        rest = &rest[p + 2..];
        if l.is_empty() { break; }
        if l.contains(&b'\n') || l.contains(&b'\r') || l.contains(&0) { return Err(format!("stray control character in head {:?}", shown)); }
        lines.push(l.to_vec());
    }
    if !rest.is_empty() { return Err(format!("head continues after its end: {:?}", shown)); }
    if lines.is_empty() { return Err("empty head".to_string()); }
    let first = String::from_utf8(lines.remove(0)).map_err(|_| "start line is not UTF-8".to_string())?;
    let mut out = vec![];
    for l in lines {
        let p = l.iter().position(|&b| b == b':').ok_or_else(|| format!("header line without colon in {:?}", shown))?;
        let name = String::from_utf8(l[..p].to_vec()).map_err(|_| "header name is not UTF-8".to_string())?;
        if name.is_empty() || !name.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)) {
            return Err(format!("header name {:?} is not a token", name));
        }
        let v = &l[p + 1..];
        let a = v.iter().position(|&b| b != b' ' && b != b'\t').unwrap_or(v.len());
        let z = v.iter().rposition(|&b| b != b' ' && b != b'\t').map_or(a, |i| i + 1);
        out.push((name, v[a..z.max(a)].to_vec()));
    }
    Ok(Head { first: first.split(' ').map(|s| s.to_string()).collect(), lines: out, raw: raw.to_vec() })
}
pub struct Peer { pub s: TcpStream, pub buf: Vec<u8> }
impl Peer {
    pub fn connect(addr: SocketAddr) -> Res<Peer> {
        let s = TcpStream::connect(addr).map_err(|e| format!("connect: {}", e))?;
        Peer::from(s)
    }
    pub fn from(s: TcpStream) -> Res<Peer> {
        s.set_nonblocking(false).map_err(|e| e.to_string())?;
        s.set_nodelay(true).map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(SLOW)).map_err(|e| e.to_string())?;
        Ok(Peer { s, buf: vec![] })
    }
    pub fn send(&mut self, b: &[u8]) -> Res<()> { self.s.write_all(b).map_err(|e| format!("send: {}", e)) }
    fn fill(&mut self) -> Res<usize> {
        let mut b = [0; 65536];
        let n = match self.s.read(&mut b) {
            Ok(n) => n,
            Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset => 0,
            Err(e) => return Err(format!("no answer ({})", e)),
        };
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    /// The next head, or `None` when the peer closed instead.
    pub fn head(&mut self) -> Res<Option<Head>> {
        loop {
            if let Some(p) = self.buf.windows(4).position(|w| w == b"\r\n\r\n") {
                let h: Vec<u8> = self.buf.drain(..p + 4).collect();
                return parse_head(&h).map(Some);
            }
            if self.fill()? == 0 {
                return if self.buf.is_empty() { Ok(None) } else { Err(format!("connection closed inside a head: {:?}", String::from_utf8_lossy(&self.buf))) };
            }
        }
    }
    pub fn body(&mut self, n: usize) -> Res<Vec<u8>> {
        while self.buf.len() < n {
            if self.fill()? == 0 { return Err(format!("body ends after {} of {} bytes", self.buf.len(), n)); }
        }
        Ok(self.buf.drain(..n).collect())
    }
    /// A whole message with a fixed-length body.
    pub fn message(&mut self, no_body: bool) -> Res<Option<(Head, Vec<u8>)>> {
        match self.head()? {
            None => Ok(None),
            Some(h) => { let n = if no_body { h.length()?; 0 } else { h.length()? }; let b = self.body(n)?; Ok(Some((h, b))) }
        }
    }
    /// Half-closes and reads to the end: nothing may be left.
    pub fn close_clean(mut self) -> Res<()> {
        let _ = self.s.shutdown(std::net::Shutdown::Write);
        while self.fill()? > 0 {}
        if self.buf.is_empty() { Ok(()) } else { Err(format!("{} unexpected bytes on the connection: {:?}", self.buf.len(), String::from_utf8_lossy(&self.buf))) }
    }
    /// Whether the other side has closed (waits up to `d`).
    pub fn closed_within(&mut self, d: Duration) -> bool {
        let _ = self.s.set_read_timeout(Some(d));
        let mut b = [0; 64];
        let r = match self.s.read(&mut b) { Ok(0) => true, Ok(n) => { self.buf.extend_from_slice(&b[..n]); false }
            Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset => true, Err(_) => false };
        let _ = self.s.set_read_timeout(Some(SLOW));
        r
    }
}
/// A listening raw peer for the client under test.
pub struct Lis { pub l: TcpListener, pub addr: SocketAddr }
impl Lis {
    pub fn new() -> Lis {
        // the kernel hands out ports of one parity only: take the neighbour every other time
        static EVERY: AtomicUsize = AtomicUsize::new(0);
        let mut l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        if EVERY.fetch_add(1, Ordering::SeqCst) % 2 == 1 {
            if let Ok(x) = TcpListener::bind(("127.0.0.1", l.local_addr().unwrap().port() ^ 1)) { l = x; }
        }
        l.set_nonblocking(true).unwrap();
        let addr = l.local_addr().unwrap();
        Lis { l, addr }
    }
    pub fn try_accept(&self) -> Option<Peer> {
        match self.l.accept() { Ok((s, _)) => Peer::from(s).ok(), Err(_) => None }
    }
    pub fn accept(&self, d: Duration) -> Option<Peer> {
        let t = Instant::now();
        loop {
            if let Some(p) = self.try_accept() { return Some(p); }
            if t.elapsed() > d { return None; }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
}

// ---- the pool under test ----
pub struct Pool { pub handle: htrpc::pool::RpcClientPoolHandle, stop: Option<fibers::sync::oneshot::Sender<()>> }
impl Drop for Pool { fn drop(&mut self) { if let Some(s) = self.stop.take() { let _ = s.send(()); } } }
pub fn run_pool(pool: htrpc::pool::RpcClientPool) -> Pool {
    let (tx, rx) = fibers::sync::oneshot::channel();
    let handle = pool.handle();
    exec().spawn(pool.select(rx.map_err(|_| ())).then(|_| Ok(())));
    Pool { handle, stop: Some(tx) }
}
