//! C12: what a call returns, whatever the peer does, and what happens to its connection.
use crate::e2e::*;
use crate::gen::*;
use crate::net::*;
use crate::report::Report;
use htrpc::types::HttpMethod;
use htrpc::pool::RpcClientPool;
use htrpc::RpcClient;
use serde_json::json;
use std::net::Shutdown;
use std::sync::mpsc::Receiver;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ending { Whole, NoLengthEof, CutBody, CutHead, NoAnswer, Garbage, BadStatus, BadHeader, Chunked }
const ENDINGS: &[Ending] = &[Ending::Whole, Ending::Whole, Ending::Whole, Ending::NoLengthEof, Ending::CutBody, Ending::CutHead, Ending::NoAnswer, Ending::Garbage, Ending::BadStatus, Ending::BadHeader, Ending::Chunked];
struct Script { raw: Vec<u8>, close: bool, want: Option<(u16, Option<i16>, Vec<u8>)>, shown: String }
fn script(r: &mut Rng, e: Ending, head: bool) -> Script {
    let code = r.pick(STATUS).1;
    let x = if r.chance(1, 2) { Some(r.next() as i16) } else { None };
    let body = gen_body(r);
    let mut lines = vec![];
    if let Some(x) = x { lines.push(format!("{}: {}", r.pick(&["x-n", "X-N"]), x)); }
    if e == Ending::BadHeader { lines.retain(|l| !l.to_lowercase().starts_with("x-n")); lines.push(format!("X-n: {}", r.pick(&["x", "99999", "1.5", "", "4 4"]))); }
    for _ in 0..r.below(3) { lines.push(r.pick(&["Server: s", "x-other: é", "Date: now", "x-nn: 5"]).to_string()); }
    for _ in 0..3 { if r.chance(1, 4) { let (k, v) = any_line(r, true); lines.push(format!("{}: {}", k, v)); } }
    let length = match e { Ending::NoLengthEof | Ending::Chunked => None, _ => Some(body.len()) };
    if let Some(n) = length { lines.push(format!("{}: {}", r.pick(&["Content-Length", "content-length"]), n)); }
    if e == Ending::Chunked { lines.push("Transfer-Encoding: chunked".into()); }
    if r.chance(1, 2) { let k = r.below(lines.len() + 1); lines.rotate_left(k); }
    let shown_code = if e == Ending::BadStatus { *r.pick(&[299u16, 306, 419, 599, 999]) } else { code };
    let version = if r.chance(1, 10) { "1.0" } else { "1.1" };
    let head_text = format!("HTTP/{} {} {}\r\n{}\r\n", version, shown_code, r.pick(&["OK", "Whatever it is", ""]), lines.iter().map(|l| format!("{}\r\n", l)).collect::<String>());
    let mut raw = head_text.clone().into_bytes();
    let mut body_bytes = body.clone();
    if e == Ending::Chunked { body_bytes = if body.is_empty() { b"0\r\n\r\n".to_vec() } else { let mut b = format!("{:x}\r\n", body.len()).into_bytes(); b.extend(&body); b.extend(b"\r\n0\r\n\r\n"); b } }
    if !head { raw.extend(&body_bytes); }
    let mut want = Some((code, x, if head { vec![] } else { body.clone() }));
    let mut close = r.chance(1, 2);
    match e {
        Ending::Whole => {}
        Ending::Chunked => {}
        Ending::NoLengthEof => close = true,
        Ending::CutBody => {
            close = true;
            if !head { let k = if body.is_empty() { 0 } else { 1 + r.below(body.len()) }; raw.truncate(raw.len() - k); if k > 0 { want = None; } }
        }
        Ending::CutHead => { raw.truncate(r.below(head_text.len())); close = true; want = None; }
        Ending::NoAnswer => { raw.clear(); close = true; want = None; }
        Ending::Garbage => { raw = r.pick(&[&b"garbage\r\n\r\n"[..], b"HTTP/1.1 abc OK\r\n\r\n", b"HTTP/9.9 200 OK\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n", b"HTTP/1.1 200 OK\r\nno colon\r\n\r\n", b"\0\0\0\0", b"HTTP/1.1 2 OK\r\n\r\n"]).to_vec(); close = true; want = None; }
        Ending::BadStatus => want = Some((shown_code, x, if head { vec![] } else { body.clone() })),
        Ending::BadHeader => want = None,
    }
    if head && e == Ending::Garbage { raw = b"garbage\r\n\r\n".to_vec(); }
    Script { raw, close, want, shown: format!("{:?} HTTP/{} status {} {:?} body {} close {}", e, version, shown_code, lines, body.len(), close) }
}
fn dec12() -> Dec { Dec { header: Some(vec![Field { name: "x-n", kind: Kind::I16, optional: true, value: None }]), ..Dec::default() } }
fn compare(got: Result<Msg, String>, head: bool, want: &Option<(u16, Option<i16>, Vec<u8>)>) -> Res<bool> {
    match (got, want) {
        (Err(_), None) => Ok(false),
        (Err(e), Some(_)) => Err(format!("the call failed: {}", e)),
        (Ok(m), None) => Err(format!("the call succeeded with {:?} and {} bytes", m.got, m.body.len())),
        (Ok(m), Some((c, x, b))) => {
            if m.got.status != Some(*c) || m.got.header != Some(vec![x.map(Atom::I16)]) { return Err(format!("the call returned {:?}", m.got)); }
            if &m.body != b { return Err(format!("the call returned {} bytes of body, {} were sent", m.body.len(), b.len())); }
            if !head && m.sets != 1 { return Err(format!("the response value was given its body {} times", m.sets)); }
            Ok(true)
        }
    }
}
fn play(p: &mut Peer, s: &Script, frag: usize, r: &mut Rng) {
    if frag > 0 && s.raw.len() < 3000 {
        let mut i = 0;
        let mut k = 0;
        while i < s.raw.len() {
            let n = if k > 10 { s.raw.len() - i } else { (1 + r.below(frag)).min(s.raw.len() - i) };
            if p.send(&s.raw[i..i + n]).is_err() { break; }
            std::thread::sleep(Duration::from_micros(300));
            i += n;
            k += 1;
        }
    } else { let _ = p.send(&s.raw); }
    if s.close { let _ = p.s.shutdown(Shutdown::Write); }
}
fn req(body: Vec<u8>) -> Msg { Msg::new(Shape::Struct, vec![], body) }
fn pending<T>(rx: &Receiver<T>, d: Duration) -> bool { rx.recv_timeout(d).is_err() }

fn direct(method: HttpMethod, s: &Script, frag: usize, body: Vec<u8>, r: &mut Rng) -> Res<()> {
    let before = panics();
    set_table(vec![(method, ep("x"))]);
    set_dec(dec12());
    let lis = Lis::new();
    let rx = start(RpcClient::new(lis.addr).call::<Proc<0>>(req(body.clone())));
    let mut p = lis.accept(SLOW).ok_or("the client does not connect")?;
    let (hd, b) = p.message(false)?.ok_or("no request")?;
    if hd.first[0] != method.as_str() || b != body { return Err(format!("request {:?} with {} bytes", hd.first, b.len())); }
    play(&mut p, s, frag, r);
    let got = wait(&rx);
    no_panic(before)?;
    compare(got?, method == HttpMethod::Head, &s.want)?;
    if lis.try_accept().is_some() { return Err("a second connection was opened".into()); }
    if !p.buf.is_empty() { return Err("bytes after the request".into()); }
    Ok(())
}
/// The response is there before the request is: the call ends only after the request was written.
fn early(method: HttpMethod) -> Res<()> {
    let before = panics();
    set_table(vec![(method, ep("x"))]);
    set_dec(dec12());
    let lis = Lis::new();
    let body: Vec<u8> = (0..20_000_000usize).map(|i| i as u8).collect();
    let rx = start(RpcClient::new(lis.addr).call::<Proc<0>>(req(body.clone())));
    let mut p = lis.accept(SLOW).ok_or("the client does not connect")?;
    p.send(b"HTTP/1.1 201 Early\r\nContent-Length: 0\r\n\r\n")?;
    if !pending(&rx, Duration::from_millis(150)) { return Err("the call ended before its request was written".into()); }
    let (_, b) = p.message(false)?.ok_or("no request")?;
    if b != body { return Err("the request body differs".into()); }
    let got = wait(&rx);
    no_panic(before)?;
    compare(got?, method == HttpMethod::Head, &Some((201, None, vec![]))).map(|_| ())
}
/// Pooled calls one after another: connections come back exactly after successes.
fn pooled(steps: &[(HttpMethod, Script, Msg, usize)], r: &mut Rng) -> Res<()> {
    let before = panics();
    set_dec(dec12());
    let pool = run_pool(RpcClientPool::with_pool_size(4));
    let lis = Lis::new();
    let other = Lis::new();
    let mut idle: Option<Peer> = None;
    for (i, (method, s, m, frag)) in steps.iter().enumerate() {
        set_table(vec![(*method, ep("x"))]);
        let bad_request = m.parts.len() > 0;
        let rx = start(pool.handle.client(lis.addr).call::<Proc<0>>(m.clone()));
        let mut p = match idle.take() {
            Some(p) => p,
            None => lis.accept(SLOW).ok_or_else(|| format!("call {}: the client does not connect", i))?,
        };
        if bad_request {
            let got = wait(&rx);
            no_panic(before)?;
            if got?.is_ok() { return Err(format!("call {} succeeded without a request", i)); }
        } else {
            let (_, b) = match p.message(false) {
                Ok(Some(x)) => x,
                x => return Err(format!("call {}: no request on the expected connection ({:?}){}", i, x.map(|_| ()), if lis.try_accept().is_some() { ", but on a new one" } else { "" })),
            };
            if b != m.body { return Err(format!("call {}: the request body differs", i)); }
            play(&mut p, s, *frag, r);
            let got = wait(&rx);
            no_panic(before)?;
            if compare(got?, *method == HttpMethod::Head, &s.want).map_err(|e| format!("call {}: {}", i, e))? {
                if s.close { drop(p); break; }
                idle = Some(p);
                continue;
            }
        }
        // a failed call gives its connection up
        if !p.closed_within(Duration::from_secs(3)) { return Err(format!("call {} failed but its connection stays open", i)); }
    }
    if let Some(mut p) = idle {
        // the idle connection serves only its own address
        set_table(vec![(HttpMethod::Get, ep("x"))]);
        let rx = start(pool.handle.client(other.addr).call::<Proc<0>>(req(vec![])));
        let mut q = other.accept(SLOW).ok_or("a call to another address does not connect there")?;
        q.message(false)?.ok_or("no request to the other address")?;
        q.send(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")?;
        compare(wait(&rx)?, false, &Some((200, None, vec![])))?;
        if p.closed_within(Duration::from_millis(1)) || !p.buf.is_empty() { return Err("the idle connection was touched by a call to another address".into()); }
    }
    no_panic(before)
}
/// Calls in flight together, answered out of order: each gets the answer to its own request.
fn together(n: usize, pooled: bool, r: &mut Rng) -> Res<()> {
    let before = panics();
    set_table(vec![(HttpMethod::Post, ep("x"))]);
    set_dec(dec12());
    let lis = Lis::new();
    let pool = run_pool(RpcClientPool::with_pool_size(n / 2));
    let mut peers: Vec<Peer> = vec![];
    for round in 0..2 {
        let calls: Vec<(Vec<u8>, Receiver<Result<Msg, String>>)> = (0..n).map(|i| {
            let b = format!("{} {} {}", round, i, "x".repeat(r.below(50))).into_bytes();
            let rx = if pooled { start(pool.handle.client(lis.addr).call::<Proc<0>>(req(b.clone()))) } else { start(RpcClient::new(lis.addr).call::<Proc<0>>(req(b.clone()))) };
            (b, rx)
        }).collect();
        // half of the connections were kept by the pool
        let fresh = if pooled && round == 1 { n - n / 2 } else { n };
        if !(pooled && round == 1) { peers.clear(); }
        for _ in 0..fresh { peers.push(lis.accept(SLOW).ok_or("a call does not connect")?); }
        if pooled && round == 1 { let mut alive = vec![]; for mut p in peers { if !p.closed_within(Duration::from_millis(2)) { alive.push(p); } } peers = alive; }
        if peers.len() != n { return Err(format!("{} connections for {} calls", peers.len(), n)); }
        let mut got = vec![];
        for (k, p) in peers.iter_mut().enumerate() { let (_, b) = p.message(false)?.ok_or("no request")?; got.push((k, b)); }
        while !got.is_empty() {
            let (k, b) = got.remove(r.below(got.len()));
            let mut a = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", b.len() + 4).into_bytes();
            a.extend(b"for ");
            a.extend(&b);
            peers[k].send(&a)?;
        }
        for (b, rx) in calls {
            let m = wait(&rx);
            no_panic(before)?;
            let m = m?.map_err(|e| format!("a call failed: {}", e))?;
            if m.body != [b"for ".to_vec(), b.clone()].concat() { return Err(format!("the call with {:?} got the answer {:?}", String::from_utf8_lossy(&b), String::from_utf8_lossy(&m.body))); }
        }
    }
    Ok(())
}
pub fn c12(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 12);
    rep.case("call that succeeds while its address is suspended", json!({}), || crate::pool::idle_kept(std::time::Duration::from_millis(200)));
    for m in &[HttpMethod::Post, HttpMethod::Head, HttpMethod::Get] {
        rep.case("response before the request is written", json!({"method": m.as_str()}), || early(*m));
    }
    rep.case("refused connection", json!({}), || {
        set_table(vec![(HttpMethod::Get, ep("x"))]);
        let rx = start(RpcClient::new(free_addr()).call::<Proc<0>>(req(vec![])));
        if wait(&rx)?.is_ok() { return Err("a call succeeded without a server".into()); }
        Ok(())
    });
    // the HTTP library ends a chunked body at its first chunk, and takes a cut chunk for the end
    for (id, raw) in &[("C12-chunks", &b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n3\r\ndef\r\n0\r\n\r\n"[..]),
                       ("C12-cut-chunk", &b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n6\r\nabc"[..])] {
        let x = client_reads(raw, dec12());
        let fails = match x { Ok(Ok(ref m)) => m.body != b"abcdef", _ => false };
        rep.known_finding(id, fails, &format!("{:?}", x.map(|r| r.map(|m| m.body))));
    }
    for b in big_bodies() {
        let mut raw = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", b.len()).into_bytes();
        raw.extend_from_slice(&b);
        let s = Script { raw, close: false, want: Some((200, None, b.clone())), shown: String::new() };
        rep.case("a large body", json!({"body": b.len()}), || direct(HttpMethod::Post, &s, 0, b.clone(), &mut r));
    }
    for code in 100..600u16 { for m in &[HttpMethod::Get, HttpMethod::Post, HttpMethod::Head] {
        let head = *m == HttpMethod::Head;
        let raw = format!("HTTP/1.1 {} Status\r\nContent-Length: 3\r\nx-n: 7\r\n\r\n{}", code, if head { "" } else { "abc" }).into_bytes();
        let s = Script { raw, close: code % 2 == 0, want: Some((code, Some(7), if head { vec![] } else { b"abc".to_vec() })), shown: String::new() };
        rep.case("every status", json!({"method": m.as_str(), "status": code}), || direct(*m, &s, 0, vec![], &mut r));
    } }
    for n in &[2usize, 4, 8] { for pooled in &[false, true] { for _ in 0..rep.n(3, 40) {
        rep.case("calls in flight together", json!({"calls": n, "pooled": pooled}), || together(*n, *pooled, &mut r));
    } } }
    for i in 0..rep.n(500, 8000) {
        let method = if r.chance(1, 5) { HttpMethod::Head } else { pick_method(&mut r) };
        let s = script(&mut r, ENDINGS[i % ENDINGS.len()], method == HttpMethod::Head);
        let frag = if r.chance(1, 4) { 1 + r.below(40) } else { 0 };
        let body = gen_body(&mut r);
        rep.case("call", json!({"method": method.as_str(), "peer": s.shown, "fragmented": frag > 0}), || direct(method, &s, frag, body, &mut r));
    }
    for _ in 0..rep.n(150, 3000) {
        let steps: Vec<(HttpMethod, Script, Msg, usize)> = (0..2 + r.below(5)).map(|_| {
            let method = if r.chance(1, 4) { HttpMethod::Head } else { HttpMethod::Post };
            let e = loop { let e = *r.pick(ENDINGS); if e != Ending::NoLengthEof && e != Ending::Chunked { break e; } };
            let mut s = script(&mut r, e, method == HttpMethod::Head);
            if e == Ending::Whole && r.chance(9, 10) { s.close = false; }
            let m = if r.chance(1, 10) { Msg::new(Shape::Struct, vec![("what", PV::Unit)], vec![]) } else { req(gen_body(&mut r)) };
            let frag = if r.chance(1, 6) { 1 + r.below(40) } else { 0 };
            (method, s, m, frag)
        }).collect();
        let shown: Vec<String> = steps.iter().map(|s| format!("{} {} {}", s.0.as_str(), if s.2.parts.is_empty() { "" } else { "(request that cannot be described)" }, s.1.shown)).collect();
        rep.case("pooled calls", json!({"calls": shown}), || pooled(&steps, &mut r));
    }
}
