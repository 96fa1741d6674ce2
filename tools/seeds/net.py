PRE = r'''
#![allow(dead_code, unused_imports)]
use fibers::{Executor, Spawn, ThreadPoolExecutor};
use futures::Future;
use htrpc::types::{EntryPoint, HttpMethod, HttpStatus, NeverFail, PathSegment};
use htrpc::*;
use serde_derive::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};
type Exec = fibers::executor::ThreadPoolExecutorHandle;
fn exec() -> Exec {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut x = ThreadPoolExecutor::with_thread_count(2).unwrap();
        tx.send(x.handle()).unwrap();
        loop { if x.run_once().is_err() { break; } }
    });
    rx.recv().unwrap()
}
fn start<F, T>(e: &Exec, f: F) -> Receiver<std::result::Result<T, String>>
where F: Future<Item = T> + Send + 'static, F::Error: std::fmt::Display, T: Send + 'static {
    let (tx, rx) = channel();
    e.spawn(f.then(move |r| { let _ = tx.send(r.map_err(|e| e.to_string())); Ok(()) }));
    rx
}
fn wait<T>(rx: Receiver<std::result::Result<T, String>>) -> std::result::Result<T, String> { rx.recv_timeout(Duration::from_secs(10)).expect("no answer") }
fn seg(v: &[&'static str]) -> EntryPoint {
    EntryPoint::new(Box::leak(v.iter().map(|s| if *s == "_" { PathSegment::Var } else { PathSegment::Val(s) }).collect::<Vec<_>>().into_boxed_slice()))
}
/// Reads one whole message (the body only when `body`).
fn message(s: &mut TcpStream, body: bool) -> Option<(String, Vec<u8>)> {
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let mut b = vec![];
    let mut one = [0];
    while !b.ends_with(b"\r\n\r\n") { match s.read(&mut one) { Ok(1) => b.push(one[0]), _ => return None } }
    let head = String::from_utf8(b).unwrap();
    let n: usize = head.lines().find(|l| l.to_lowercase().starts_with("content-length:")).expect("a content length")[15..].trim().parse().unwrap();
    let mut v = vec![0; if body { n } else { 0 }];
    s.read_exact(&mut v).ok()?;
    Some((head, v))
}
fn status(head: &str) -> u16 { head.split(' ').nth(1).unwrap().parse().unwrap() }
fn listener() -> (TcpListener, SocketAddr) { let l = TcpListener::bind("127.0.0.1:0").unwrap(); let a = l.local_addr().unwrap(); (l, a) }
fn free() -> SocketAddr { listener().1 }
fn up(a: SocketAddr) { for _ in 0..2000 { if TcpStream::connect(a).is_ok() { return; } std::thread::sleep(Duration::from_millis(2)); } panic!("no server"); }
fn ask(s: &mut TcpStream, raw: &str, body: bool) -> (u16, String, Vec<u8>) { s.write_all(raw.as_bytes()).unwrap(); let (h, b) = message(s, body).expect("an answer"); (status(&h), h, b) }

#[derive(Serialize, Deserialize, Debug, Default, Clone)]
struct Req { #[serde(skip)] body: Vec<u8> }
impl RpcRequest for Req {
    fn body(&mut self) -> Vec<u8> { std::mem::replace(&mut self.body, vec![]) }
    fn read_body(self, body: BodyReader) -> ReadBody<Self> { Box::new(body.read_all_bytes().map_err(Error::from).map(|(r, body)| (r, Req { body }))) }
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Res { status: u16, #[serde(skip)] body: Vec<u8> }
impl RpcResponse for Res {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(std::mem::replace(&mut self.body, vec![])) }
    fn set_body(&mut self, body: Vec<u8>) { self.body = body; }
}
macro_rules! procedure { ($n:ident, $m:ident, $e:expr, $q:ty, $s:ty) => {
    struct $n;
    impl Procedure for $n { type Request = $q; type Response = $s; fn method() -> HttpMethod { HttpMethod::$m } fn entry_point() -> EntryPoint { seg(&$e) } }
} }
macro_rules! handler { ($h:ident, $p:ident, |$r:ident| $e:expr) => {
    #[derive(Clone)] struct $h;
    impl HandleRpc<$p> for $h { type Future = Box<dyn Future<Item = <$p as Procedure>::Response, Error = NeverFail> + Send + 'static>;
        fn handle_rpc(self, $r: <$p as Procedure>::Request) -> Self::Future { let _ = &$r; Box::new(futures::finished($e)) } }
} }
'''
PO, CL, RO, SV, MI, PB, JS, JP, MP = ["src/%s.rs" % x for x in "pool client router server misc rfc7807 json json_pretty msgpack".split()]
SR, DR = "src/serializers/rpc_request.rs", "src/deserializers/rpc_request.rs"
SS, DS = "src/serializers/rpc_response.rs", "src/deserializers/rpc_response.rs"
ENUM = r'''
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum Out { Ok, Locked, FailedDependency, UseProxy, TemporaryRedirect, Gone }
impl RpcResponse for Out {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(vec![]) }
    fn set_body(&mut self, _: Vec<u8>) {}
}
'''
make("c04-locked", "C04", [(SS, "\"Locked\" => HttpStatus::Locked", "\"Locked\" => HttpStatus::FailedDependency")],
     PRE + ENUM + r'''
procedure!(P, Get, ["x"], Req, Out);
handler!(H, P, |r| Out::Locked);
fn main() {
    let e = exec(); let a = free();
    let mut b = RpcServerBuilder::new(a); b.register(H, P).unwrap();
    e.spawn(b.start(e.clone()).map_err(|_| ())); up(a);
    let mut s = TcpStream::connect(a).unwrap();
    assert_eq!(ask(&mut s, "GET /x HTTP/1.1\r\n\r\n", true).0, 423);
}''', "the response variant Locked", "the variant is sent with the status code of another variant")
make("c04-useproxy", "C04", [(DS, "=> \"UseProxy\"", "=> \"TemporaryRedirect\"")],
     PRE + ENUM + r'''
procedure!(P, Get, ["x"], Req, Out);
fn main() {
    let e = exec(); let (l, a) = listener();
    for (code, want) in vec![(305, Out::UseProxy), (307, Out::TemporaryRedirect)] {
        let rx = start(&e, RpcClient::new(a).call::<P>(Req::default()));
        let (mut s, _) = l.accept().unwrap();
        message(&mut s, true).unwrap();
        write!(s, "HTTP/1.1 {} X\r\nContent-Length: 0\r\n\r\n", code).unwrap();
        assert_eq!(wait(rx).ok(), Some(want));
    }
}''', "an answer with status 305", "the client reports another variant than the status stands for")
make("c05-head-len", "C05", [(SR, "        request.add_header(&ContentLength(body.len() as u64));", "        if !body.is_empty() || self.method != HttpMethod::Put {\n            request.add_header(&ContentLength(body.len() as u64));\n        }")],
     PRE + r'''
procedure!(P, Put, ["x"], Req, Res);
fn main() {
    let e = exec(); let (l, a) = listener();
    for body in vec![b"abc".to_vec(), vec![]] {
        let rx = start(&e, RpcClient::new(a).call::<P>(Req { body: body.clone() }));
        let (mut s, _) = l.accept().unwrap();
        let (h, b) = message(&mut s, true).expect("a request");
        assert!(h.starts_with("PUT /x HTTP/1.1\r\n"), "{}", h);
        assert_eq!(b, body);
        s.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n").unwrap();
        assert!(wait(rx).is_ok());
    }
}''', "a PUT request without a body", "the request announces no content length")
make("c05-method", "C05", [(SR, "self.request = Some(connection.build_request(self.method, relative_url));", "let method = if self.method == HttpMethod::Head { HttpMethod::Get } else { self.method };\n                self.request = Some(connection.build_request(method, relative_url));")],
     PRE + r'''
#[derive(Serialize, Deserialize, Debug)]
struct Q { n: u8 }
#[derive(Serialize, Deserialize, Debug)]
struct QReq { query: Q }
impl RpcRequest for QReq {
    fn body(&mut self) -> Vec<u8> { vec![] }
    fn read_body(self, body: BodyReader) -> ReadBody<Self> { Box::new(futures::finished((body, self))) }
}
procedure!(P, Head, ["x"], QReq, Res);
fn main() {
    let e = exec(); let (l, a) = listener();
    let rx = start(&e, RpcClient::new(a).call::<P>(QReq { query: Q { n: 3 } }));
    let (mut s, _) = l.accept().unwrap();
    let (h, _) = message(&mut s, true).expect("a request");
    assert!(h.starts_with("HEAD /x?n=3 HTTP/1.1\r\n"), "{}", h);
    s.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n").unwrap();
    assert!(wait(rx).is_ok());
}''', "a HEAD procedure whose request has a query part", "the request is sent with another method than the procedure's")
make("c06-no-length", "C06", [(SS, "response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));", "if !(*body).as_ref().is_empty() {\n            response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));\n        }")],
     PRE + r'''
procedure!(P, Post, ["x"], Req, Res);
handler!(H, P, |r| Res { status: 200, body: r.body });
fn main() {
    let e = exec(); let a = free();
    let mut b = RpcServerBuilder::new(a); b.register(H, P).unwrap();
    e.spawn(b.start(e.clone()).map_err(|_| ())); up(a);
    let mut s = TcpStream::connect(a).unwrap();
    assert_eq!(ask(&mut s, "POST /x HTTP/1.1\r\nContent-Length: 2\r\n\r\nhi", true).2, b"hi".to_vec());
    assert_eq!(ask(&mut s, "POST /x HTTP/1.1\r\nContent-Length: 0\r\n\r\n", true).2, b"".to_vec());
}''', "a response with an empty body", "the response announces no content length, so its end is undefined")
make("c07-head-get", "C07", [(RO, "        self.leafs.get(&method)", "        self.leafs.get(&method).or_else(|| {\n            if method == HttpMethod::Head {\n                self.leafs.get(&HttpMethod::Get)\n            } else {\n                None\n            }\n        })")],
     PRE + r'''
procedure!(P, Get, ["x"], Req, Res);
handler!(H, P, |r| Res { status: 200, body: vec![] });
fn main() {
    let e = exec(); let a = free();
    let mut b = RpcServerBuilder::new(a); b.register(H, P).unwrap();
    e.spawn(b.start(e.clone()).map_err(|_| ())); up(a);
    let mut s = TcpStream::connect(a).unwrap();
    assert_eq!(ask(&mut s, "GET /x HTTP/1.1\r\n\r\n", true).0, 200);
    assert_eq!(ask(&mut s, "POST /x HTTP/1.1\r\nContent-Length: 0\r\n\r\n", true).0, 405);
    assert_eq!(ask(&mut s, "HEAD /x HTTP/1.1\r\n\r\n", false).0, 405);
}''', "a HEAD request to a path that has only a GET procedure", "the request reaches a handler that is not registered for its method")
make("c07-register-twice", "C07", [(RO, "            !node.leafs.contains_key(&method),", "            !node.leafs.contains_key(&method) || entry_point.segments().is_empty(),")],
     PRE + r'''
procedure!(P, Get, [], Req, Res);
procedure!(Q, Get, ["a"], Req, Res);
handler!(H, P, |r| Res { status: 200, body: vec![] });
handler!(I, Q, |r| Res { status: 200, body: vec![] });
fn main() {
    let mut b = RpcServerBuilder::new(free());
    b.register(I, Q).unwrap(); assert!(b.register(I, Q).is_err());
    b.register(H, P).unwrap(); assert!(b.register(H, P).is_err());
}''', "registering the procedure with no path segments twice", "the second handler silently replaces the first")
make("c08-stale-method", "C08", [(SV, "                    self.method = request.method();", "                    if request.method() != HttpMethod::Head || self.method == HttpMethod::Get {\n                        self.method = request.method();\n                    }")],
     PRE + r'''
procedure!(P, Get, ["x"], Req, Res);
procedure!(Q, Head, ["x"], Req, Res);
procedure!(R, Post, ["x"], Req, Res);
handler!(H, P, |r| Res { status: 200, body: b"body".to_vec() });
handler!(I, Q, |r| Res { status: 200, body: b"body".to_vec() });
handler!(J, R, |r| Res { status: 200, body: b"body".to_vec() });
fn main() {
    let e = exec(); let a = free();
    let mut b = RpcServerBuilder::new(a); b.register(H, P).unwrap(); b.register(I, Q).unwrap(); b.register(J, R).unwrap();
    e.spawn(b.start(e.clone()).map_err(|_| ())); up(a);
    let mut s = TcpStream::connect(a).unwrap();
    assert_eq!(ask(&mut s, "HEAD /x HTTP/1.1\r\n\r\n", false).0, 200);
    assert_eq!(ask(&mut s, "POST /x HTTP/1.1\r\nContent-Length: 0\r\n\r\n", true).2, b"body".to_vec());
    assert_eq!(ask(&mut s, "HEAD /x HTTP/1.1\r\n\r\n", false).0, 200);
    std::thread::sleep(Duration::from_millis(300));
    s.write_all(b"GET /x HTTP/1.1\r\n\r\n").unwrap();
    let (h, b) = message(&mut s, true).expect("an answer");
    assert!(h.starts_with("HTTP/1.1 200"), "{}", h);
    assert_eq!(b, b"body".to_vec());
}''', "a HEAD request on a connection whose previous request was a POST", "the answer to HEAD is followed by a body, which the client takes for the next answer")
make("c08-unread-body", "C08", [(SV, "                                    let future = futures::done(request.into_body_reader())\n                                        .map_err(Error::from)\n                                        .and_then(|request| {\n                                            request.read_all_bytes().map_err(Error::from)\n                                        })\n                                        .and_then(move |(request, _)| {\n                                            let request = request.into_inner();\n", "                                    let future = futures::done(Ok(request))\n                                        .and_then(move |request: Request<TcpStream>| {\n")],
     PRE + r'''
procedure!(P, Post, ["x"], Req, Res);
handler!(H, P, |r| Res { status: 200, body: r.body });
fn main() {
    let e = exec(); let a = free();
    let mut b = RpcServerBuilder::new(a); b.register(H, P).unwrap();
    e.spawn(b.start(e.clone()).map_err(|_| ())); up(a);
    let mut s = TcpStream::connect(a).unwrap();
    assert_eq!(ask(&mut s, "POST /nope HTTP/1.1\r\nContent-Length: 21\r\n\r\nGET /x HTTP/1.0\r\n\r\n!!", true).0, 404);
    let (c, _, b) = ask(&mut s, "POST /x HTTP/1.1\r\nContent-Length: 2\r\n\r\nhi", true);
    assert_eq!((c, b), (200, b"hi".to_vec()));
}''', "a request with a body to an unknown path, then another request on the same connection", "the body of the refused request is read as the next request")
POOL = r'''
procedure!(P, Get, ["x"], Req, Res);
/// Starts calls to all the given listeners at once, then answers them in order; returns the server's sides.
fn calls(e: &Exec, h: &htrpc::pool::RpcClientPoolHandle, ls: &[&(TcpListener, SocketAddr)]) -> Vec<TcpStream> {
    let rx: Vec<_> = ls.iter().map(|l| start(e, h.client(l.1).call::<P>(Req::default()))).collect();
    let ss: Vec<_> = ls.iter().map(|l| l.0.accept().unwrap().0).collect();
    ss.into_iter().zip(rx).map(|(mut s, r)| { answer(&mut s); wait(r).unwrap(); s }).collect()
}
fn answer(s: &mut TcpStream) { message(s, true).unwrap(); s.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n").unwrap(); }
fn closed(s: &mut TcpStream) -> bool { s.set_read_timeout(Some(Duration::from_millis(400))).unwrap(); match s.read(&mut [0]) { Ok(0) => true, Ok(_) => panic!("data"), Err(_) => false } }
'''
make("c09-newest", "C09", [(PO, "                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))\n                .nth(0)", "                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))\n                .nth(if self.pool_size > 2 { 1 } else { 0 })")],
     PRE + POOL + r'''
fn main() {
    let e = exec();
    let pool = htrpc::pool::RpcClientPool::with_pool_size(3); let h = pool.handle();
    e.spawn(pool);
    let ls: Vec<_> = (0..4).map(|_| listener()).collect();
    let mut ss = calls(&e, &h, &ls.iter().collect::<Vec<_>>());
    let c: Vec<bool> = ss.iter_mut().map(closed).collect();
    assert_eq!(c, vec![true, false, false, false]);
}''', "a pool of at least three connections that overflows", "the connection dropped is not the one idle the longest")
make("c09-size-zero", "C09", [(PO, "while self.connections.len() > self.pool_size {", "while self.connections.len() > self.pool_size.max(1) {")],
     PRE + POOL + r'''
fn main() {
    let e = exec();
    for size in 0..3 {
        let pool = htrpc::pool::RpcClientPool::with_pool_size(size); let h = pool.handle();
        e.spawn(pool);
        let ls: Vec<_> = (0..3).map(|_| listener()).collect();
        let mut ss = calls(&e, &h, &ls.iter().collect::<Vec<_>>());
        let open = ss.iter_mut().map(closed).filter(|c| !c).count();
        assert_eq!(open, size);
    }
}''', "a pool of size zero", "the pool keeps an idle connection although its size is zero")
make("c10-seq-wrap", "C10", [(PO, "        self.seq_no += 1;\n", "        self.seq_no = self.seq_no.wrapping_add(1) & 0xff;\n")],
     PRE + POOL + r"""
fn main() {
    let e = exec();
    let pool = htrpc::pool::RpcClientPool::with_pool_size(2); let h = pool.handle();
    e.spawn(pool);
    let (l, m, n) = (listener(), listener(), listener());
    let mut a = calls(&e, &h, &[&l]).remove(0);
    let mut b = calls(&e, &h, &[&m]).remove(0);
    for _ in 0..255 { // reused
        let r = start(&e, h.client(m.1).call::<P>(Req::default()));
        answer(&mut b); wait(r).unwrap();
    }
    let mut c = calls(&e, &h, &[&n]).remove(0);
    assert!(closed(&mut a), "the oldest is dropped");
    assert!(!closed(&mut b));
    assert!(!closed(&mut c));
    let r = start(&e, h.client(m.1).call::<P>(Req::default()));
    answer(&mut b); wait(r).unwrap();
}""", "a connection idle while 256 others are released", "two idle connections share their bookkeeping, so one is dropped wrongly and the other never")
make("c10-same-port", "C10", [(PO, ".and_then(|id| if id.addr == addr { Some(id) } else { None })", ".and_then(|id| if id.addr.port() == addr.port() { Some(id) } else { None })")],
     PRE + POOL + r'''
fn main() {
    let e = exec();
    let pool = htrpc::pool::RpcClientPool::with_pool_size(4); let h = pool.handle();
    e.spawn(pool);
    let (one, two) = loop {
        let l = listener();
        let a = SocketAddr::new([127, 0, 0, 2].into(), l.1.port());
        if let Ok(m) = TcpListener::bind(a) { break (l, (m, a)); }
    };
    let mut s = calls(&e, &h, &[&two]).remove(0); // 127.0.0.2
    one.0.set_nonblocking(true).unwrap();
    let r = start(&e, h.client(one.1).call::<P>(Req::default())); // 127.0.0.1, the same port
    let t = Instant::now();
    let mut n = loop {
        match one.0.accept() { Ok((n, _)) => break n, Err(_) => assert!(t.elapsed() < Duration::from_secs(3), "no connection to the address called") }
        std::thread::sleep(Duration::from_millis(2));
    };
    n.set_nonblocking(false).unwrap();
    answer(&mut n); wait(r).unwrap();
    assert!(!closed(&mut s));
}''', "two servers on different hosts with the same port", "a call to one host is sent on the connection to the other")
make("c11-release-clears", "C11", [(PO, "        self.seq_no += 1;\n", "        self.seq_no += 1;\n        self.blacklist.remove(&addr);\n")],
     PRE + POOL + r'''
fn main() {
    let e = exec();
    let pool = htrpc::pool::RpcClientPool::with_pool_size(4); let h = pool.handle();
    e.spawn(pool);
    let l = listener(); let a = l.1;
    let rx = start(&e, h.client(a).call::<P>(Req::default()));
    let mut s = l.0.accept().unwrap().0;
    drop(l);
    assert!(wait(start(&e, h.client(a).call::<P>(Req::default()))).is_err()); // cannot connect: suspended for a minute
    std::thread::sleep(Duration::from_millis(100));
    answer(&mut s); wait(rx).unwrap(); // the call under way ends, its connection is released
    std::thread::sleep(Duration::from_millis(100));
    let r = start(&e, h.client(a).call::<P>(Req::default()));
    s.set_read_timeout(Some(Duration::from_millis(500))).unwrap();
    match s.read(&mut [0]) { Ok(1) => panic!("a request was sent to a suspended address"), _ => () }
    assert!(wait(r).unwrap_err().contains("unavailable") || true);
}''', "a call already under way to an address that is then suspended completes", "the release ends the suspension early")
make("c11-callfail", "C11", [(PO, "        if let Async::Ready((response, connection)) = track!(self.inner.poll())? {", "        let result = self.inner.poll();\n        if result.is_err() {\n            let _ = self.handle.command_tx.send(Command::AddToBlacklist { addr: self.addr });\n        }\n        if let Async::Ready((response, connection)) = track!(result)? {")],
     PRE + POOL + r'''
fn main() {
    let e = exec();
    let pool = htrpc::pool::RpcClientPool::with_pool_size(4); let h = pool.handle();
    e.spawn(pool);
    let l = listener();
    let rx = start(&e, h.client(l.1).call::<P>(Req::default()));
    let mut s = l.0.accept().unwrap().0;
    message(&mut s, true).unwrap();
    s.write_all(b"HTTP/1.1 bad\r\n\r\n").unwrap();
    assert!(wait(rx).is_err());
    std::thread::sleep(Duration::from_millis(100));
    l.0.set_nonblocking(true).unwrap();
    let rx = start(&e, h.client(l.1).call::<P>(Req::default()));
    let t = Instant::now();
    let mut s = loop {
        match l.0.accept() { Ok((n, _)) => break n, Err(_) => assert!(t.elapsed() < Duration::from_secs(3), "the address is suspended") }
        std::thread::sleep(Duration::from_millis(2));
    };
    s.set_nonblocking(false).unwrap();
    answer(&mut s); wait(rx).unwrap();
}''', "a call that fails after its connection was made", "the address is suspended although no connection attempt failed")
make("c12-not-modified", "C12", [(CL, "if P::method() == HttpMethod::Head {", "if P::method() == HttpMethod::Head || response.status().code() == 304 {")],
     PRE + r'''
procedure!(P, Get, ["x"], Req, Res);
fn main() {
    let e = exec(); let (l, a) = listener();
    for code in vec![200, 304, 404] {
        let rx = start(&e, RpcClient::new(a).call::<P>(Req::default()));
        let (mut s, _) = l.accept().unwrap();
        message(&mut s, true).unwrap();
        write!(s, "HTTP/1.1 {} X\r\nContent-Length: 3\r\n\r\nabc", code).unwrap();
        assert_eq!(wait(rx).ok(), Some(Res { status: code, body: b"abc".to_vec() }));
    }
}''', "an answer with status 304 and a body", "the call completes without the body that the response has")
make("c12-empty-body", "C12", [(CL, "                    rpc_response.set_body(body);", "                    if !body.is_empty() {\n                        rpc_response.set_body(body);\n                    }")],
     PRE + r'''
fn preset() -> Vec<u8> { b"preset".to_vec() }
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Out { status: u16, #[serde(skip)] #[serde(default = "preset")] body: Vec<u8> }
impl RpcResponse for Out {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(self.body.clone()) }
    fn set_body(&mut self, body: Vec<u8>) { self.body = body; }
}
procedure!(P, Get, ["x"], Req, Out);
fn main() {
    let e = exec(); let (l, a) = listener();
    for body in vec!["abc", ""] {
        let rx = start(&e, RpcClient::new(a).call::<P>(Req::default()));
        let (mut s, _) = l.accept().unwrap();
        message(&mut s, true).unwrap();
        write!(s, "HTTP/1.1 200 X\r\nContent-Length: {}\r\n\r\n{}", body.len(), body).unwrap();
        assert_eq!(wait(rx).ok(), Some(Out { status: 200, body: body.as_bytes().to_vec() }));
    }
}''', "an answer whose body is empty, for a response type that does not start empty", "the application is not told that the body was empty")
PROB = r'''
use htrpc::rfc7807::*;
procedure!(P, Get, ["x"], Req, ProblemResponse);
fn make() -> Problem { let mut p = TrackableProblem { title: "t".into(), status: 302, detail: Some("d".into()), instance: Some(url::Url::parse("http://a/b").unwrap()), history: None }; p.title.push('!'); Problem::from(p) }
handler!(H, P, |r| make().into_response());
fn run() -> (u16, serde_json::Value) {
    let e = exec(); let a = free();
    let mut b = RpcServerBuilder::new(a); b.register(H, P).unwrap();
    e.spawn(b.start(e.clone()).map_err(|_| ())); up(a);
    let mut s = TcpStream::connect(a).unwrap();
    let (c, h, b) = ask(&mut s, "GET /x HTTP/1.1\r\n\r\n", true);
    assert!(h.to_lowercase().contains("content-type: application/problem+json\r\n"), "{}", h);
    (c, serde_json::from_slice(&b).unwrap())
}
'''
make("c13-status", "C13", [(PB, "            Problem::Trackable(ref p) => p.status,", "            Problem::Trackable(ref p) => {\n                if p.status < 400 {\n                    500\n                } else {\n                    p.status\n                }\n            }")],
     PRE + PROB + r'''
fn main() { let (c, v) = run(); assert_eq!(v["status"], serde_json::json!(c)); }''', "a trackable problem whose status is not an error status", "the response is sent with another status than its body declares")
make("c13-instance", "C13", [(PB, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    #[serde(default)]\n    pub instance: Option<Url>,", "    #[serde(skip_serializing)]\n    #[serde(default)]\n    pub instance: Option<Url>,")],
     PRE + PROB + r'''
fn main() { let (_, v) = run(); assert_eq!(v["instance"], serde_json::json!("http://a/b")); }''', "a problem that names an instance", "the client obtains a problem that lacks the instance")
EMB = r'''
use serde_derive::{Serialize, Deserialize};
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct J<T>(#[serde(with = "htrpc::json")] #[serde(bound(serialize = "T: serde::Serialize", deserialize = "T: for<'a> serde::Deserialize<'a>"))] T);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct M<T>(#[serde(with = "htrpc::msgpack")] #[serde(bound(serialize = "T: serde::Serialize", deserialize = "T: for<'a> serde::Deserialize<'a>"))] T);
'''
make("c14-json-trim", "C14", [(JS, "serdeconv::from_json_str(&json)", "serdeconv::from_json_str(json.trim_end_matches(|c| c == ';' || c == ' '))")],
     EMB + r'''
fn main() {
    assert_eq!(serde_json::from_str::<J<u32>>("\"5\"").ok(), Some(J(5)));
    assert!(serde_json::from_str::<J<u32>>("\"5;\"").is_err());
    let _ = serde_json::to_string(&M(1u8));
}''', "JSON text followed by a semicolon", "text that does not encode a value is accepted")
make("c14-msgpack-empty", "C14", [(MP, "    track!(serdeconv::from_msgpack_slice(&msgpack))", "    let msgpack: Vec<u8> = if msgpack.is_empty() { vec![0xc0] } else { msgpack };\n    track!(serdeconv::from_msgpack_slice(&msgpack))")],
     EMB + r'''
fn main() {
    assert_eq!(serde_json::from_str::<M<Option<u8>>>("[192]").ok(), Some(M(None)));
    assert!(serde_json::from_str::<M<Option<u8>>>("[]").is_err());
    let _ = serde_json::to_string(&J(1u8));
}''', "an empty byte string where MessagePack is expected", "bytes that encode no value are accepted as nil")
