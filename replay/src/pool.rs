//! C09, C10, C11: the connection pool, driven through real calls against raw peers and compared with a model.
use crate::gen::*;
use crate::net::*;
use crate::report::Report;
use fibers::time::timer::timeout as after;
use futures::Future;
use htrpc::pool::RpcClientPool;
use htrpc::types::HttpMethod;
use serde_json::{json, Value};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, TcpListener};
use std::os::unix::io::AsRawFd;
use std::sync::mpsc::Receiver;
use std::time::{Duration, Instant};

const OK: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok";
type Rx = Receiver<Result<Msg, String>>;
fn req(n: usize) -> Msg { Msg::new(Shape::Struct, vec![], format!("call {}", n).into_bytes()) }
fn ready() { set_table(vec![(HttpMethod::Post, ep("x"))]); set_dec(Dec::default()); }
fn call(pool: &Pool, a: SocketAddr, n: usize) -> Rx { start(pool.handle.client(a).call::<Proc<0>>(req(n))) }
/// Whether bytes (or an end) are waiting on the connection.
fn touched(p: &Peer) -> bool {
    let _ = p.s.set_nonblocking(true);
    let r = match p.s.peek(&mut [0; 1]) { Ok(_) => true, Err(ref e) => e.kind() != std::io::ErrorKind::WouldBlock };
    let _ = p.s.set_nonblocking(false);
    r
}
fn ended(p: &Peer) -> bool {
    let _ = p.s.set_nonblocking(true);
    let r = match p.s.peek(&mut [0; 1]) { Ok(0) => true, Ok(_) => false, Err(ref e) => e.kind() != std::io::ErrorKind::WouldBlock };
    let _ = p.s.set_nonblocking(false);
    r
}
struct Idle { addr: usize, peer: Peer }
struct Flight { addr: usize, peer: Peer, rx: Rx, n: usize }
/// The pool's idle connections, oldest first, and the calls in flight.
struct Model<'a> { pool: &'a Pool, lis: &'a [Lis], size: usize, idle: Vec<Idle>, flight: Vec<Flight>, n: usize, before: usize }
impl<'a> Model<'a> {
    fn begin(&mut self, addr: usize) -> Res<()> {
        self.n += 1;
        let rx = call(self.pool, self.lis[addr].addr, self.n);
        let t = Instant::now();
        let reuse = self.idle.iter().any(|i| i.addr == addr);
        let mut peer = 'found: loop {
            if let Some(k) = self.idle.iter().position(|i| touched(&i.peer)) {
                let i = &self.idle[k];
                if ended(&i.peer) { return Err(format!("an idle connection of address {} was dropped; {} idle, pool size {}", i.addr, self.idle.len(), self.size)); }
                if i.addr != addr { return Err(format!("a call to address {} uses a connection of address {}", addr, i.addr)); }
                break self.idle.remove(k).peer;
            }
            if let Some(f) = self.flight.iter().find(|f| touched(&f.peer)) {
                return Err(format!("a call to address {} touched the connection of call {} (address {}) in flight", addr, f.n, f.addr));
            }
            for (k, l) in self.lis.iter().enumerate() {
                if let Some(p) = l.try_accept() {
                    if k != addr { return Err(format!("a call to address {} connects to address {}", addr, k)); }
                    if reuse { return Err(format!("a new connection to address {} though an idle one exists", addr)); }
                    break 'found p;
                }
            }
            no_panic(self.before)?;
            if let Ok(r) = rx.try_recv() { return Err(format!("the call to address {} ended without a connection: {:?}", addr, r.map(|_| ()))); }
            if t.elapsed() > SLOW { return Err(format!("the call to address {} got no connection (idle one expected: {})", addr, reuse)); }
            std::thread::sleep(Duration::from_micros(50));
        };
        let (_, b) = peer.message(false)?.ok_or("no request")?;
        if b != req(self.n).body { return Err(format!("the connection of call {} carries {:?}", self.n, String::from_utf8_lossy(&b))); }
        self.flight.push(Flight { addr, peer, rx, n: self.n });
        Ok(())
    }
    fn succeed(&mut self, k: usize) -> Res<()> {
        let mut f = self.flight.remove(k);
        f.peer.send(OK)?;
        let r = wait(&f.rx);
        no_panic(self.before)?;
        let m = r?.map_err(|e| format!("call {} failed: {}", f.n, e))?;
        if m.body != b"ok" { return Err(format!("call {} returned {:?}", f.n, m.body)); }
        self.idle.push(Idle { addr: f.addr, peer: f.peer });
        while self.idle.len() > self.size {
            let mut i = self.idle.remove(0);
            if !i.peer.closed_within(Duration::from_secs(5)) { return Err(format!("the oldest of {} idle connections (address {}) was not dropped; pool size {}", self.idle.len() + 1, i.addr, self.size)); }
        }
        Ok(())
    }
    fn fail(&mut self, k: usize, how: usize) -> Res<()> {
        let mut f = self.flight.remove(k);
        if how > 0 { f.peer.send(&[&b"HTTP/1.1 200 OK\r\nContent-Le"[..], b"no answer\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nok"][how % 3])?; }
        let _ = f.peer.s.shutdown(std::net::Shutdown::Write);
        let r = wait(&f.rx);
        no_panic(self.before)?;
        if r?.is_ok() { return Err(format!("call {} succeeded without an answer", f.n)); }
        if !f.peer.closed_within(Duration::from_secs(5)) { return Err(format!("call {} failed but its connection stays open", f.n)); }
        Ok(())
    }
    /// A call to an address without a server fails and leaves the rest alone.
    fn refused(&mut self, dead: &mut Vec<SocketAddr>, x: usize) -> Res<()> {
        if dead.is_empty() || x % 3 > 0 { dead.push(free_addr()); }
        let a = dead[x % dead.len()];
        let r = wait(&call(self.pool, a, 0));
        no_panic(self.before)?;
        if r?.is_ok() { return Err("a call to an address without a server succeeded".into()); }
        if let Some(i) = self.idle.iter().find(|i| touched(&i.peer)) { return Err(format!("a call to an address without a server touched an idle connection of address {}", i.addr)); }
        Ok(())
    }
    /// Every idle connection is open and is reused, then nothing else is.
    fn drain(&mut self) -> Res<()> {
        if let Some(i) = self.idle.iter().find(|i| ended(&i.peer)) { return Err(format!("an idle connection of address {} was dropped; {} idle, pool size {}", i.addr, self.idle.len(), self.size)); }
        for a in 0..self.lis.len() {
            let n = self.idle.iter().filter(|i| i.addr == a).count();
            for _ in 0..n + 1 { self.begin(a)?; }
        }
        if !self.idle.is_empty() { return Err("idle connections left".into()); }
        while !self.flight.is_empty() { let k = self.n % self.flight.len(); self.succeed(k)?; }
        for i in &self.idle { if ended(&i.peer) { return Err(format!("an idle connection of address {} was dropped", i.addr)); } }
        Ok(())
    }
}
fn history(size: usize, lis: &[Lis], ops: &[(u8, usize)]) -> Res<()> {
    ready();
    let pool = run_pool(RpcClientPool::with_pool_size(size));
    let mut m = Model { pool: &pool, lis, size, idle: vec![], flight: vec![], n: 0, before: panics() };
    let mut dead = vec![];
    for (i, &(op, x)) in ops.iter().enumerate() {
        let r = match op {
            0 => m.begin(x % lis.len()),
            1 if !m.flight.is_empty() => { let k = x % m.flight.len(); m.succeed(k) }
            2 if !m.flight.is_empty() => { let k = x % m.flight.len(); m.fail(k, x / 7) }
            3 => m.refused(&mut dead, x),
            _ => Ok(()),
        };
        r.map_err(|e| format!("step {}: {}", i, e))?;
    }
    m.drain().map_err(|e| format!("at the end: {}", e))
}
/// Calls given up at once: the pool goes on.
fn given_up(size: usize, n: usize, r: &mut Rng) -> Res<()> {
    ready();
    let before = panics();
    let pool = run_pool(RpcClientPool::with_pool_size(size));
    let lis = Lis::new();
    let mut kept = vec![];
    for _ in 0..3 {
        let rx: Vec<Rx> = (0..2).map(|k| call(&pool, lis.addr, k)).collect();
        let mut got = 0;
        let t = Instant::now();
        while got < 2 {
            if let Some(p) = lis.try_accept() { kept.push(p); }
            for p in kept.iter_mut() { if touched(p) && !ended(p) { p.message(false)?; p.send(OK)?; got += 1; } }
            if t.elapsed() > SLOW { return Err("a call got no connection".into()); }
        }
        for x in rx { wait(&x)?.map_err(|e| format!("a call failed: {}", e))?; }
        for _ in 0..r.below(n) { drop(pool.handle.client(lis.addr).call::<Proc<0>>(req(9))); }
        no_panic(before)?;
    }
    Ok(())
}
/// Many calls are waiting when the pool begins to work: each is answered.
fn burst(n: usize) -> Res<()> {
    ready();
    let before = panics();
    let p = RpcClientPool::with_pool_size(2);
    let handle = p.handle();
    let dead = free_addr();
    let lis = Lis::new();
    let mut rx: Vec<Rx> = vec![];
    for k in 0..n { rx.push(start(handle.client(dead).call::<Proc<0>>(req(k)))); }
    let last = start(handle.client(lis.addr).call::<Proc<0>>(req(n)));
    let _pool = run_pool(p);
    let mut q = lis.accept(SLOW).ok_or_else(|| format!("the call that waits behind {} others got no connection", n))?;
    q.message(false)?.ok_or("no request")?;
    q.send(OK)?;
    wait(&last)?.map_err(|e| format!("the last call failed: {}", e))?;
    for (k, x) in rx.iter().enumerate() { if wait(x).map_err(|e| format!("call {} of {}: {}", k, n, e))?.is_ok() { return Err("a call without a server succeeded".into()); } }
    no_panic(before)
}
fn listeners(n: usize, mixed: bool) -> Vec<Lis> {
    let mut v = vec![];
    while v.len() < n {
        let l = Lis::new();
        if mixed {
            // the same port on other addresses of the loopback
            for ip in &[IpAddr::V4(Ipv4Addr::new(127, 0, 0, 2)), IpAddr::V6(Ipv6Addr::LOCALHOST), IpAddr::V4(Ipv4Addr::new(127, 1, 0, 1))] {
                if let Ok(x) = TcpListener::bind(SocketAddr::new(*ip, l.addr.port())) {
                    x.set_nonblocking(true).unwrap();
                    let addr = x.local_addr().unwrap();
                    if v.len() + 1 < n { v.push(Lis { l: x, addr }); }
                }
            }
        }
        v.push(l);
    }
    v
}
fn gen_ops(r: &mut Rng, len: usize) -> Vec<(u8, usize)> {
    // phases: start several, finish several
    let mut v = vec![];
    let mut open = 0usize;
    let refusals = r.chance(1, 3);
    while v.len() < len {
        let k = 1 + r.below(5);
        if r.chance(1, 2) || open == 0 { for _ in 0..k { v.push((0, r.below(1000))); } open += k; }
        else { for _ in 0..k.min(open) { v.push((if r.chance(1, 6) { 2 } else { 1 }, r.below(1000))); open -= 1; } }
        if refusals && r.chance(1, 5) { v.push((3, r.below(1000))); }
    }
    v
}
fn shown(ops: &[(u8, usize)]) -> Value { json!(ops.iter().map(|(o, x)| format!("{} {}", ["call", "answer", "break", "call to nobody"][*o as usize], x)).collect::<Vec<_>>()) }
fn histories(rep: &mut Rng, report: &mut Report, quick: usize, thorough: usize, sizes: &[usize]) {
    let r = rep;
    for i in 0..report.n(quick, thorough) {
        let size = sizes[i % sizes.len()];
        let lis = listeners(1 + r.below(5), r.chance(1, 2));
        let n = 4 + r.below(40);
        let ops = gen_ops(r, n);
        report.case("pool history", json!({"pool size": size, "addresses": lis.iter().map(|l| l.addr.ip().to_string()).collect::<Vec<_>>(), "steps": shown(&ops)}), || history(size, &lis, &ops));
    }
}
/// One connection stays idle while another is used again and again; then the pool overflows.
fn many(size: usize, n: usize) -> Res<()> {
    let lis = listeners(3, true);
    ready();
    let pool = run_pool(RpcClientPool::with_pool_size(size));
    let mut m = Model { pool: &pool, lis: &lis, size, idle: vec![], flight: vec![], n: 0, before: panics() };
    m.begin(0)?;
    m.succeed(0)?;
    for i in 0..n { m.begin(1).and_then(|_| m.succeed(0)).map_err(|e| format!("repetition {}: {}", i, e))?; }
    for _ in 0..2 { m.begin(2)?; }
    while !m.flight.is_empty() { m.succeed(0)?; }
    m.drain()
}
fn may_open(n: usize) -> bool {
    std::fs::read_to_string("/proc/self/limits").ok().and_then(|t| t.lines().find(|l| l.starts_with("Max open files")).and_then(|l| l.split_whitespace().nth(3).map(|x| x == "unlimited" || x.parse::<usize>().map(|x| x >= n).unwrap_or(false)))).unwrap_or(false)
}
/// A pool that is filled one over its size and more: those idle the longest go, no others.
fn overflow(pool: RpcClientPool, size: usize, n: usize, again: bool) -> Res<()> {
    ready();
    let before = panics();
    let lis = listeners(3, true);
    // the last ones are to an address of their own
    let at = |k: usize| if k + 2 >= n { 2 } else { k % 2 };
    let pool = run_pool(pool);
    let mut idle: Vec<Peer> = vec![];
    let mut peers = vec![];
    for k in 0..n {
        let l = &lis[at(k)];
        let rx = call(&pool, l.addr, k);
        let mut p = l.accept(SLOW).ok_or_else(|| format!("call {} of {} got no connection: {:?}", k, n, rx.try_recv().map(|r| r.map(|_| ()))))?;
        p.message(false)?.ok_or("no request")?;
        peers.push((p, rx));
    }
    for (mut p, rx) in peers {
        p.send(OK)?;
        let r = wait(&rx);
        no_panic(before)?;
        r?.map_err(|e| format!("a call failed: {}", e))?;
        idle.push(p);
    }
    for (k, p) in idle.iter_mut().enumerate() {
        if k + size < n && !p.closed_within(Duration::from_secs(5)) { return Err(format!("connection {} of {} in the order of release was not dropped; pool size {}", k, n, size)); }
    }
    for (k, p) in idle.iter().enumerate() {
        if k + size >= n && ended(p) { return Err(format!("connection {} of {} in the order of release was dropped; pool size {}", k, n, size)); }
    }
    // what is idle is used again
    let reuse: Vec<usize> = if again { (0..n).filter(|k| k + size >= n).collect() } else { vec![] };
    let rx: Vec<Rx> = reuse.iter().map(|k| call(&pool, lis[at(*k)].addr, 5000 + k)).collect();
    let mut done = 0;
    let t = Instant::now();
    while done < rx.len() {
        for k in &reuse { if touched(&idle[*k]) { idle[*k].message(false)?.ok_or("an idle connection was dropped")?; idle[*k].send(OK)?; done += 1; } }
        for l in &lis { if l.try_accept().is_some() { return Err(format!("a new connection though {} idle ones exist", rx.len())); } }
        no_panic(before)?;
        if t.elapsed() > SLOW { return Err(format!("{} of {} calls use an idle connection", done, rx.len())); }
    }
    for x in &rx { wait(x)?.map_err(|e| format!("a call failed: {}", e))?; }
    no_panic(before)
}
/// Addresses that differ only in flow label or scope are different addresses.
fn scoped() -> Res<()> {
    let l = match TcpListener::bind((Ipv6Addr::LOCALHOST, 0)) { Ok(l) => l, Err(_) => return Ok(()) };
    let port = l.local_addr().unwrap().port();
    apart(l, [(0, 0), (0, 1), (7, 0), (7, 1), (0, 2)].iter().map(|&(f, s)| SocketAddr::V6(std::net::SocketAddrV6::new(Ipv6Addr::LOCALHOST, port, f, s))).collect())
}
/// So are an address and its form as an IPv6 address.
fn mapped() -> Res<()> {
    let l = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).map_err(|e| e.to_string())?;
    let port = l.local_addr().unwrap().port();
    let ips: Vec<IpAddr> = vec![Ipv4Addr::LOCALHOST.to_ipv6_mapped().into(), Ipv4Addr::LOCALHOST.into()];
    apart(l, ips.into_iter().map(|ip| SocketAddr::new(ip, port)).collect())
}
fn apart(l: TcpListener, addrs: Vec<SocketAddr>) -> Res<()> {
    l.set_nonblocking(true).unwrap();
    let addrs: Vec<SocketAddr> = addrs.into_iter().filter(|a| std::net::TcpStream::connect(a).is_ok()).collect();
    let lis = Lis { addr: addrs[0], l };
    while lis.accept(Duration::from_millis(100)).is_some() {}
    ready();
    let before = panics();
    let pool = run_pool(RpcClientPool::with_pool_size(100));
    let mut idle = vec![];
    for a in &addrs {
        let rx = call(&pool, *a, 1);
        let mut p = lis.accept(SLOW).ok_or_else(|| format!("a call to {:?} got no connection of its own", a))?;
        p.message(false)?.ok_or("no request")?;
        p.send(OK)?;
        wait(&rx)?.map_err(|e| format!("a call failed: {}", e))?;
        idle.push(p);
    }
    for round in 0..2 { for k in 0..addrs.len() {
        let k = if round == 0 { k } else { addrs.len() - 1 - k };
        let rx = call(&pool, addrs[k], 2);
        let t = Instant::now();
        let j = loop {
            if let Some(j) = idle.iter().position(touched) { break j; }
            if lis.try_accept().is_some() { return Err(format!("a new connection to {:?} though an idle one exists", addrs[k])); }
            no_panic(before)?;
            if t.elapsed() > SLOW { return Err(format!("a call to {:?} got no connection", addrs[k])); }
        };
        if j != k { return Err(format!("a call to {:?} uses a connection of {:?}", addrs[k], addrs[j])); }
        idle[k].message(false)?.ok_or("no request")?;
        idle[k].send(OK)?;
        wait(&rx)?.map_err(|e| format!("a call failed: {}", e))?;
    } }
    no_panic(before)
}
fn long(rep: &mut Report) {
    for (size, n) in &[(2, 254), (2, 255), (3, 255), (2, 256), (3, 257), (2, 600), (2, 65536)] {
        if *n > 1000 && rep.n(0, 1) == 0 { continue; }
        rep.case("one idle, another used repeatedly", json!({"pool size": size, "times": n}), || many(*size, *n));
    }
}
pub fn c09(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 9);
    long(rep);
    // fixed: fill a pool, then release one by one in several orders
    for &size in &[0usize, 1, 2, 3, 5, 8] {
        for n in &[size + 1, 2 * size + 3] {
            for rot in &[0usize, 1, 7] {
                let lis = listeners(3, true);
                let mut ops: Vec<(u8, usize)> = (0..*n).map(|k| (0, k)).collect();
                ops.extend((0..*n).map(|_| (1, *rot)));
                rep.case("release order", json!({"pool size": size, "steps": shown(&ops)}), || history(size, &lis, &ops));
            }
        }
    }
    for &(size, n) in &[(30usize, 40usize), (200, 300), (400, 402)] {
        if may_open(2 * n + 1500) { rep.case("a pool that overflows", json!({"pool size": size, "connections": n}), || overflow(RpcClientPool::with_pool_size(size), size, n, true)); }
    }
    if may_open(4000) {
        rep.case("a pool of the default size that overflows", json!({"connections": 1030}), || overflow(RpcClientPool::new(), 1024, 1030, false));
        rep.case("a large pool", json!({"pool size": 1100, "connections": 1105}), || overflow(RpcClientPool::with_pool_size(1100), 1100, 1105, false));
    }
    rep.case("default pool size", json!({}), || {
        let lis = Lis::new();
        ready();
        let pool = run_pool(RpcClientPool::new());
        let mut m = Model { pool: &pool, lis: &[lis], size: 1024, idle: vec![], flight: vec![], n: 0, before: panics() };
        for _ in 0..40 { m.begin(0)?; }
        while !m.flight.is_empty() { m.succeed(0)?; }
        m.drain()
    });
    histories(&mut r, rep, 250, 3000, &[0, 1, 1, 2, 3, 4, 6]);
}
pub fn c10(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 10);
    long(rep);
    for size in &[0usize, 1, 2, 5] { for n in 1..6 {
        rep.case("calls given up", json!({"pool size": size, "up to": n}), || given_up(*size, n, &mut r));
    } }
    rep.case("addresses with flow labels and scopes", json!({}), scoped);
    rep.case("an address as IPv4 and as IPv6", json!({}), mapped);
    for n in &[60usize, 520, 1050] { if may_open(2 * n + 2000) { rep.case("many idle connections", json!({"connections": n}), || overflow(RpcClientPool::with_pool_size(5000), 5000, *n, true)); } }
    for n in &[100usize, 1500, 4000] {
        rep.case("calls all at once", json!({"calls": n}), || burst(*n));
    }
    for d in &[100u64, 250] {
        rep.case("idle connection of a suspended address", json!({"suspension_ms": d}), || idle_kept(Duration::from_millis(*d)));
    }
    // two addresses that sort next to each other, interleaved
    for &size in &[1usize, 2, 3, 10, 100] {
        let lis = listeners(4, true);
        for rot in 0..4usize {
            let mut ops: Vec<(u8, usize)> = (0..8).map(|k| (0, k * (rot + 1) + rot)).collect();
            ops.extend((0..8).map(|k| (1, k * rot)));
            ops.extend((0..6).map(|k| (0, k + rot)));
            rep.case("neighbouring addresses", json!({"pool size": size, "steps": shown(&ops)}), || history(size, &lis, &ops));
        }
    }
    histories(&mut r, rep, 250, 3000, &[1, 2, 3, 4, 8, 16, 1000]);
}

// ---- suspension ----
struct Susp { pool: Pool, ping: Lis, d: Duration, before: usize, n: usize }
impl Susp {
    fn new(d: Duration, connect: Option<Duration>, size: usize) -> Susp {
        ready();
        let mut p = RpcClientPool::with_pool_size(size);
        p.set_suspended_duration(d);
        if let Some(c) = connect { p.set_connect_timeout(c); }
        Susp { pool: run_pool(p), ping: Lis::new(), d, before: panics(), n: 0 }
    }
    /// A call that must work, on a fresh connection.
    fn works(&mut self, l: &Lis) -> Res<Peer> {
        self.n += 1;
        let rx = call(&self.pool, l.addr, self.n);
        let mut p = match l.accept(SLOW) { Some(p) => p, None => return Err(format!("no connection to {}: {:?}", l.addr, rx.try_recv().map(|r| r.map(|_| ())))) };
        p.message(false)?.ok_or("no request")?;
        p.send(OK)?;
        let r = wait(&rx);
        no_panic(self.before)?;
        r?.map_err(|e| format!("a call to {} failed: {}", l.addr, e))?;
        Ok(p)
    }
    /// Waits until the pool has taken every command so far (commands are taken in order).
    fn round(&mut self) -> Res<Instant> {
        self.n += 1;
        let rx = call(&self.pool, self.ping.addr, self.n);
        let t = Instant::now();
        let mut p = loop {
            if let Some(p) = self.ping.try_accept() { break p; }
            no_panic(self.before)?;
            if let Ok(r) = rx.try_recv() { return Err(format!("a call to an address that never failed: {:?}", r.map(|_| ()))); }
            if t.elapsed() > SLOW { return Err("a call to an address that never failed got no connection".into()); }
            std::thread::sleep(Duration::from_micros(50));
        };
        let now = Instant::now();
        // not answered: this connection does not come back
        drop(p.message(false)?);
        drop(p);
        let _ = wait(&rx)?;
        Ok(now)
    }
    /// A call that must fail to connect. Returns the times before the attempt and after it was recorded.
    fn breaks(&mut self, a: SocketAddr) -> Res<(Instant, Instant)> {
        self.n += 1;
        let t0 = Instant::now();
        let rx = call(&self.pool, a, self.n);
        let r = wait(&rx);
        no_panic(self.before)?;
        if r?.is_ok() { return Err("a call without a server succeeded".into()); }
        Ok((t0, self.round()?))
    }
    /// Calls until shortly before the end of the suspension: all fail at once, nothing is sent anywhere.
    fn suspended(&mut self, l: &Lis, idle: &[Peer], until: Instant, max: usize) -> Res<usize> {
        let mut k = 0;
        while k < max {
            self.n += 1;
            let t = Instant::now();
            if t >= until { break; }
            let rx = call(&self.pool, l.addr, self.n);
            let mut seen: Option<&str> = None;
            let r = loop {
                if seen.is_none() && Instant::now() < until {
                    if let Some(_) = l.try_accept() { seen = Some("connects"); }
                    else if idle.iter().any(touched) { seen = Some("reuses an idle connection"); }
                    if seen.is_some() && Instant::now() >= until { seen = None; break Ok(Err(String::new())); }
                }
                if let Some(s) = seen { return Err(format!("a call to a suspended address {} ({:?} after it was suspended, of {:?})", s, t + self.d - until, self.d)); }
                match rx.recv_timeout(Duration::from_micros(300)) { Ok(r) => break Ok(r), Err(_) => {} }
                if Instant::now() >= until { return Ok(k); }
                if t.elapsed() > SLOW { break Err("a call to a suspended address does not end".to_string()); }
            };
            no_panic(self.before)?;
            if r?.is_ok() && Instant::now() < until { return Err("a call to a suspended address succeeded".into()); }
            k += 1;
            std::thread::sleep(Duration::from_millis(1 + (k as u64 % 7)));
        }
        Ok(k)
    }
}
fn sleep_until(t: Instant) { let n = Instant::now(); if t > n { std::thread::sleep(t - n); } }
fn listen_at(a: SocketAddr) -> Res<Lis> {
    let mut k = 0;
    let l = loop {
        match TcpListener::bind(a) { Ok(l) => break l, Err(e) => if k > 200 { return Err(format!("bind: {}", e)) } }
        k += 1;
        std::thread::sleep(Duration::from_millis(1));
    };
    l.set_nonblocking(true).unwrap();
    Ok(Lis { l, addr: a })
}
fn refused(d: Duration, rounds: usize, others: usize) -> Res<()> {
    let mut s = Susp::new(d, None, 3);
    let addr = free_addr();
    let mut o: Vec<Lis> = (0..others).map(|_| Lis::new()).collect();
    if let Ok(x) = listen_at(SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 0, 0, 2)), addr.port())) { o.push(x); }
    if let Ok(x) = listen_at(SocketAddr::new(IpAddr::V6(Ipv6Addr::LOCALHOST), addr.port())) { o.push(x); }
    for _ in 0..rounds {
        let (t0, t1) = s.breaks(addr)?;
        let l = listen_at(addr)?;
        for x in &o { drop(s.works(x)?); }
        s.suspended(&l, &[], t0 + d, 1000)?;
        sleep_until(t1 + d + Duration::from_millis(5));
        drop(s.works(&l).map_err(|e| format!("after the suspension: {}", e))?);
        // connections of closed peers come back to the pool: use them up
        drop(l);
        s = Susp::new(d, None, 3);
    }
    Ok(())
}
/// The address fails again after its suspension: suspended again; a stale entry is no excuse.
fn again(d: Duration) -> Res<()> {
    let mut s = Susp::new(d, None, 0);
    let addr = free_addr();
    for _ in 0..3 {
        let (_, t1) = s.breaks(addr)?;
        sleep_until(t1 + d + Duration::from_millis(5));
    }
    let (t0, t1) = s.breaks(addr)?;
    let l = listen_at(addr)?;
    s.suspended(&l, &[], t0 + d, 20)?;
    sleep_until(t1 + d + Duration::from_millis(5));
    drop(s.works(&l)?);
    Ok(())
}
/// An idle connection of a suspended address waits for the end of the suspension.
pub fn idle_kept(d: Duration) -> Res<()> {
    let mut s = Susp::new(d, None, 3);
    let l = Lis::new();
    let addr = l.addr;
    s.n += 1;
    let rx = call(&s.pool, addr, s.n);
    let mut p = l.accept(SLOW).ok_or("no connection")?;
    p.message(false)?.ok_or("no request")?;
    drop(l);
    let (t0, t1) = s.breaks(addr)?;
    p.send(OK)?;
    wait(&rx)?.map_err(|e| format!("a call in flight failed: {}", e))?;
    let l = listen_at(addr)?;
    let idle = [p];
    s.suspended(&l, &idle, t0 + d, 1000)?;
    sleep_until(t1 + d + Duration::from_millis(5));
    let [mut p] = idle;
    let rx = call(&s.pool, addr, 99);
    let (_, b) = p.message(false).map_err(|e| format!("after the suspension the idle connection is not used: {}", e))?.ok_or("the idle connection was dropped")?;
    if b != req(99).body { return Err("another request".into()); }
    p.send(OK)?;
    wait(&rx)?.map_err(|e| format!("after the suspension: {}", e))?;
    no_panic(s.before)
}
/// A connection attempt that times out suspends too.
fn timed_out(d: Duration, connect: Duration) -> Res<()> {
    extern "C" { fn listen(fd: i32, backlog: i32) -> i32; }
    let l = Lis::new();
    unsafe { if listen(l.l.as_raw_fd(), 0) != 0 { return Ok(()); } }
    let mut fill = vec![];
    for _ in 0..4 {
        match std::net::TcpStream::connect_timeout(&l.addr, Duration::from_millis(100)) { Ok(s) => fill.push(s), Err(_) => break }
    }
    if std::net::TcpStream::connect_timeout(&l.addr, Duration::from_millis(100)).is_ok() { return Ok(()); }
    let mut s = Susp::new(d, Some(connect), 3);
    let t = Instant::now();
    let (t0, t1) = s.breaks(l.addr)?;
    if t.elapsed() + Duration::from_millis(100) < connect { return Err(format!("gave up connecting after {:?}", t.elapsed())); }
    if t.elapsed() > connect + Duration::from_secs(8) { return Err("the connect timeout was not applied".into()); }
    // room again
    let n = fill.len();
    for _ in 0..n { let _ = l.accept(Duration::from_millis(500)); }
    drop(fill);
    unsafe { listen(l.l.as_raw_fd(), 128); }
    std::thread::sleep(Duration::from_millis(30));
    while let Some(_) = l.try_accept() {}
    let _ = t0;
    // the attempt ended no earlier than its timeout; the abandoned handshake may still arrive, so only the outcome counts
    s.n += 1;
    let t2 = Instant::now();
    let rx = call(&s.pool, l.addr, s.n);
    let r = wait(&rx)?;
    if Instant::now() < t0 + d && r.is_ok() { return Err("a call to an address whose connection attempt timed out succeeded".into()); }
    let before_end = Instant::now() < t0 + d;
    let text = match r { Err(e) => e, Ok(_) => String::new() };
    if before_end && text.contains("timeout") && !text.contains("unavailable") && t2.elapsed() + Duration::from_millis(5) > connect { return Err(format!("a second connection attempt: {}", text)); }
    sleep_until(t1 + d + Duration::from_millis(50));
    while let Some(_) = l.try_accept() {}
    Ok(())
}
/// Two attempts under way at once fail one after the other: the later failure counts too.
fn overlap(d: Duration, connect: Duration) -> Res<()> {
    extern "C" { fn listen(fd: i32, backlog: i32) -> i32; }
    let l = Lis::new();
    unsafe { if listen(l.l.as_raw_fd(), 0) != 0 { return Ok(()); } }
    let mut fill = vec![];
    for _ in 0..4 {
        match std::net::TcpStream::connect_timeout(&l.addr, Duration::from_millis(100)) { Ok(s) => fill.push(s), Err(_) => break }
    }
    if std::net::TcpStream::connect_timeout(&l.addr, Duration::from_millis(100)).is_ok() { return Ok(()); }
    let mut s = Susp::new(d, Some(connect), 3);
    let first = call(&s.pool, l.addr, 1);
    std::thread::sleep(connect / 2);
    let second = call(&s.pool, l.addr, 2);
    if wait(&first)?.is_ok() { return Err("a call without a server succeeded".into()); }
    let one = s.round()?;
    if wait(&second)?.is_ok() { return Err("a call without a server succeeded".into()); }
    let two = Instant::now();
    s.round()?;
    no_panic(s.before)?;
    // between the ends of the two suspensions
    let from = one + d + Duration::from_millis(5);
    if from >= two + d { return Ok(()); }
    sleep_until(from);
    let t = Instant::now();
    if t + Duration::from_millis(10) >= two + d { return Ok(()); }
    let r = wait(&call(&s.pool, l.addr, 3))?;
    if r.is_ok() || t.elapsed() >= connect { return Err(format!("a call to an address whose last connection attempt failed {:?} ago, of {:?}, took {:?}: it connects", t - two, d, t.elapsed())); }
    Ok(())
}
/// Failures that are not failed connection attempts do not suspend.
fn other_failures(d: Duration, how: usize) -> Res<()> {
    let mut s = Susp::new(d, None, 3);
    let l = Lis::new();
    for _ in 0..2 {
        s.n += 1;
        if how == 0 {
            // the request cannot be described
            let rx = start(s.pool.handle.client(l.addr).call::<Proc<0>>(Msg::new(Shape::Struct, vec![("what", PV::Unit)], vec![])));
            let p = l.accept(SLOW).ok_or("no connection")?;
            if wait(&rx)?.is_ok() { return Err("succeeded".into()); }
            drop(p);
        } else {
            let rx = call(&s.pool, l.addr, s.n);
            let mut p = l.accept(SLOW).ok_or("no connection: the address was suspended without a failed connection attempt")?;
            if how == 1 { drop(p); }
            else {
                p.message(false)?.ok_or("no request")?;
                let _ = p.send(&[&b""[..], b"garbage

", b"HTTP/1.1 200 OK
Content-Length: 9

x", b"HTTP/1.1 299 ?
"][how - 2]);
                drop(p);
            }
            if wait(&rx)?.is_ok() { return Err("succeeded".into()); }
        }
        s.round()?;
        drop(s.works(&l)?);
        // that connection came back to the pool closed by its peer: its failure does not suspend either
        s.n += 1;
        let rx = call(&s.pool, l.addr, s.n);
        let _ = wait(&rx)?;
        s.round()?;
    }
    drop(s.works(&l)?);
    Ok(())
}
/// Calls given up before the pool answers, or while connecting, do not suspend.
fn abandoned(how: usize, n: usize) -> Res<()> {
    extern "C" { fn listen(fd: i32, backlog: i32) -> i32; }
    let mut s = Susp::new(Duration::from_secs(60), Some(Duration::from_secs(25)), 3);
    let l = Lis::new();
    if how == 0 {
        for _ in 0..n { drop(s.pool.handle.client(l.addr).call::<Proc<0>>(req(9))); }
    } else {
        unsafe { if listen(l.l.as_raw_fd(), 0) != 0 { return Ok(()); } }
        let mut fill = vec![];
        for _ in 0..4 {
            match std::net::TcpStream::connect_timeout(&l.addr, Duration::from_millis(100)) { Ok(s) => fill.push(s), Err(_) => break }
        }
        let rx: Vec<_> = (0..n).map(|_| start(s.pool.handle.client(l.addr).call::<Proc<0>>(req(9)).map_err(|e| e.to_string()).select(after(Duration::from_millis(150)).then(|_| Err("given up".to_string()))).map(|_| ()).map_err(|e| e.0))).collect();
        for x in &rx { if wait(x)?.is_ok() { return Err("a call without an answer succeeded".into()); } }
        drop(fill);
        unsafe { listen(l.l.as_raw_fd(), 128); }
    }
    s.round()?;
    // connections of the calls given up may still come in
    let rx = call(&s.pool, l.addr, 77);
    let mut ps = vec![];
    let t = Instant::now();
    loop {
        if let Ok(r) = rx.try_recv() { return match r { Ok(_) => Err("succeeded without an answer".into()), Err(e) => Err(format!("{} calls given up; the next fails: {}", n, e)) }; }
        if let Some(p) = l.try_accept() { ps.push(p); }
        if let Some(p) = ps.iter_mut().find(|p| touched(p) && !ended(p)) {
            p.message(false)?.ok_or("no request")?;
            p.send(OK)?;
            wait(&rx)?.map_err(|e| format!("a call failed: {}", e))?;
            return no_panic(s.before);
        }
        if t.elapsed() > SLOW { return Err("the call got no connection".into()); }
    }
}
fn two(d: Duration) -> Res<()> {
    let mut s = Susp::new(d, None, 3);
    let (a, b) = (free_addr(), free_addr());
    if a == b { return Ok(()); }
    let (a0, a1) = s.breaks(a)?;
    std::thread::sleep(d / 2);
    let la = listen_at(a)?;
    let (b0, b1) = s.breaks(b)?;
    let lb = listen_at(b)?;
    s.suspended(&la, &[], a0 + d, 5)?;
    s.suspended(&lb, &[], b0 + d, 3)?;
    sleep_until(a1 + d + Duration::from_millis(5));
    drop(s.works(&la)?);
    s.suspended(&lb, &[], b0 + d, 1000)?;
    sleep_until(b1 + d + Duration::from_millis(5));
    drop(s.works(&lb)?);
    Ok(())
}
/// What happens at other addresses leaves a suspension alone.
fn meanwhile(size: usize) -> Res<()> {
    let mut s = Susp::new(Duration::from_secs(600), None, size);
    let (o, q) = (Lis::new(), Lis::new());
    let until = Instant::now() + Duration::from_secs(400);
    let mut p = s.works(&o)?;
    let b = free_addr();
    s.breaks(b)?;
    let l = listen_at(b)?;
    s.suspended(&l, &[], until, 1)?;
    for round in 0..4 {
        if size > 0 {
            let rx = call(&s.pool, o.addr, 7);
            p.message(false)?.ok_or("an idle connection was dropped")?;
            p.send(if round == 2 { b"garbage\r\n\r\n" } else { OK })?;
            let ok = wait(&rx)?.is_ok();
            if ok != (round != 2) { return Err(format!("a call to another address: success {}", ok)); }
            s.suspended(&l, &[], until, 1).map_err(|e| format!("after a call on an idle connection of another address: {}", e))?;
            if round == 2 { p = s.works(&o)?; s.suspended(&l, &[], until, 1).map_err(|e| format!("after a new connection to another address: {}", e))?; }
        }
        drop(s.works(&q)?);
        s.suspended(&l, &[], until, 1).map_err(|e| format!("after a new connection to another address: {}", e))?;
        s.breaks(free_addr())?;
        s.suspended(&l, &[], until, 1).map_err(|e| format!("after another address failed: {}", e))?;
        // its connection went back to the pool and is closed: the next call finds out
        if size > 0 { let _ = wait(&call(&s.pool, q.addr, 8))?; }
        s.suspended(&l, &[], until, 1).map_err(|e| format!("after a closed idle connection of another address: {}", e))?;
    }
    Ok(())
}
/// Several attempts at one address fail together: the suspension does not add up.
fn together(d: Duration, n: usize) -> Res<()> {
    let mut s = Susp::new(d, None, 3);
    let addr = free_addr();
    for _ in 0..2 {
        let t0 = Instant::now();
        let rx: Vec<Rx> = (0..n).map(|k| call(&s.pool, addr, k)).collect();
        for x in &rx { if wait(x)?.is_ok() { return Err("a call without a server succeeded".into()); } }
        no_panic(s.before)?;
        let t1 = s.round()?;
        let l = listen_at(addr)?;
        s.suspended(&l, &[], t0 + d, 10)?;
        sleep_until(t1 + d + Duration::from_millis(5));
        drop(s.works(&l)?);
        drop(l);
        // the connection went back to the pool: use it up
        let rx = call(&s.pool, addr, 99);
        if wait(&rx)?.is_ok() { return Err("a call on a closed connection succeeded".into()); }
    }
    Ok(())
}
/// Every one of many addresses that fail is suspended.
fn crowd(n: usize) -> Res<()> {
    let mut s = Susp::new(Duration::from_secs(600), None, 3);
    let port = free_addr().port();
    let addrs: Vec<SocketAddr> = (0..n).map(|k| ([127, 1, (k / 200) as u8, 1 + (k % 200) as u8], port).into()).collect();
    let rx: Vec<Rx> = addrs.iter().map(|a| call(&s.pool, *a, 1)).collect();
    for x in &rx { if wait(x)?.is_ok() { return Err("a call without a server succeeded".into()); } }
    s.round()?;
    let until = Instant::now() + Duration::from_secs(400);
    for (k, a) in addrs.iter().enumerate() {
        let l = listen_at(*a)?;
        s.suspended(&l, &[], until, 1).map_err(|e| format!("address {} of {}: {}", k, n, e))?;
    }
    Ok(())
}
pub fn c11(rep: &mut Report) {
    for n in &[5usize, 40, 300, 2000] { rep.case("many addresses fail", json!({"addresses": n}), || crowd(*n)); }
    for d in &[0u64, 60, 150, 300] { for others in 0..3usize { for _ in 0..rep.n(2, 12) {
        rep.case("refused, suspended, back", json!({"suspension_ms": d, "other addresses": others}), || refused(Duration::from_millis(*d), 1, others));
    } } }
    for d in &[1u64, 80, 200] { for _ in 0..rep.n(2, 12) {
        rep.case("repeated failures", json!({"suspension_ms": d}), || again(Duration::from_millis(*d)));
        rep.case("two suspended addresses", json!({"suspension_ms": d}), || two(Duration::from_millis(*d)));
    } }
    for size in &[0usize, 2, 50] { rep.case("calls to other addresses", json!({"pool size": size}), || meanwhile(*size)); }
    for d in &[40u64, 160] { for n in &[2usize, 3, 9] { for _ in 0..rep.n(1, 6) {
        rep.case("failures together", json!({"suspension_ms": d, "calls": n}), || together(Duration::from_millis(*d), *n));
    } } }
    for d in &[100u64, 250] { for _ in 0..rep.n(2, 12) {
        rep.case("idle connection of a suspended address", json!({"suspension_ms": d}), || idle_kept(Duration::from_millis(*d)));
    } }
    for how in 0..6usize { for d in &[30_000u64, 60_000] {
        rep.case("failure that is not a connection attempt", json!({"how": how, "suspension_ms": d}), || other_failures(Duration::from_millis(*d), how));
    } }
    for how in 0..2usize { for n in &[1usize, 3] {
        rep.case("calls given up", json!({"while connecting": how == 1, "calls": n}), || abandoned(how, *n));
    } }
    for c in &[50u64, 120, 2500] {
        rep.case("connection attempt timed out", json!({"connect_timeout_ms": c}), || timed_out(Duration::from_millis(600), Duration::from_millis(*c)));
    }
    rep.case("attempts that overlap", json!({"suspension_ms": 300, "connect_timeout_ms": 250}), || {
        // a busy machine may be late once, not always
        let mut last = Ok(());
        for _ in 0..3 { last = overlap(Duration::from_millis(300), Duration::from_millis(250)); if last.is_ok() { break; } }
        last
    });
    // all parts of an address count
    for &(flow, scope) in &[(0u32, 0u32), (7, 0), (0, 1), (9, 1)] { rep.case("address with a flow label and scope", json!({"flow": flow, "scope": scope}), || {
        let mut s = Susp::new(Duration::from_secs(60), None, 3);
        let port = free_addr().port();
        let addr = SocketAddr::V6(std::net::SocketAddrV6::new(Ipv6Addr::LOCALHOST, port, flow, scope));
        s.breaks(addr)?;
        let mut l = match listen_at(SocketAddr::new(IpAddr::V6(Ipv6Addr::LOCALHOST), port)) { Ok(l) => l, Err(_) => return Ok(()) };
        l.addr = addr;
        s.suspended(&l, &[], Instant::now() + Duration::from_secs(40), 5)?;
        no_panic(s.before)
    }); }
    // suspensions that outlast the run
    for d in &[Duration::from_secs(60), Duration::from_secs(3600 * 24 * 365), Duration::from_secs(u32::max_value() as u64), Duration::from_secs(i64::max_value() as u64), Duration::new(u64::max_value(), 999_999_999)] {
        rep.case("long suspension", json!({"suspension_s": d.as_secs()}), || {
            let mut s = Susp::new(*d, None, 3);
            let addr = free_addr();
            let o = Lis::new();
            s.breaks(addr)?;
            let l = listen_at(addr)?;
            s.d = Duration::from_secs(0);
            s.suspended(&l, &[], Instant::now() + Duration::from_secs(40), 8)?;
            drop(s.works(&o)?);
            s.suspended(&l, &[], Instant::now() + Duration::from_secs(40), 3).map(|_| ())
        });
    }
    rep.case("default suspension", json!({}), || {
        ready();
        let mut s = Susp::new(Duration::from_secs(1), None, 3);
        s.pool = run_pool(RpcClientPool::with_pool_size(3));
        let addr = free_addr();
        s.breaks(addr)?;
        let l = listen_at(addr)?;
        s.suspended(&l, &[], Instant::now() + Duration::from_secs(40), 5).map(|_| ())
    });
}
