//! C07 (routing) and C08 (one answer per request, whatever the input).
use crate::codec::{leak_ep, reparse, strict_decode};
use crate::e2e::*;
use crate::gen::*;
use crate::net::*;
use crate::report::Report;
use htrpc::types::HttpMethod;
use htrpc::RpcServerBuilder;
use serde_json::json;

type Segs = Vec<Option<&'static str>>;
/// The segments of the path that a request target names, if it names one.
fn target_segments(t: &str) -> Result<Option<Vec<String>>, ()> {
    let u = reparse(t).map_err(|_| ())?;
    if u.cannot_be_a_base() { return Ok(None); }
    Ok(Some(u.path()[1..].split('/').map(|s| s.to_string()).collect()))
}
fn matches(ep: &Segs, path: &[String]) -> bool {
    ep.len() == path.len() && ep.iter().zip(path).all(|(e, p)| e.map_or(true, |c| c == p))
}
/// Reference routing: index of the entry, or the status.
fn route(table: &[(HttpMethod, Segs)], method: HttpMethod, target: &str) -> Result<usize, u16> {
    let path = match target_segments(target) { Err(()) => return Err(400), Ok(None) => return Err(404), Ok(Some(p)) => p };
    let hits: Vec<usize> = (0..table.len()).filter(|&i| matches(&table[i].1, &path)).collect();
    if hits.is_empty() { return Err(404); }
    // constants before variables, segment by segment
    hits.into_iter().filter(|&i| table[i].0 == method).min_by_key(|&i| table[i].1.iter().map(|s| s.is_none()).collect::<Vec<bool>>()).ok_or(405)
}
fn show(s: &Segs) -> String { s.iter().map(|x| x.unwrap_or("*")).collect::<Vec<_>>().join("/") }
/// Builds the server; returns the effective table with the handler ids.
fn build(table: &[(HttpMethod, Segs)], h: &H) -> Res<(Srv, Vec<(HttpMethod, Segs)>, Vec<usize>)> {
    set_table(table.iter().map(|(m, s)| (*m, leak_ep(s))).collect());
    let addr = free_addr();
    let mut b = RpcServerBuilder::new(addr);
    let (mut eff, mut ids) = (vec![], vec![]);
    for (i, e) in table.iter().enumerate() {
        let dup = eff.contains(e);
        match (register(&mut b, i, h.with_id(i)), dup) {
            (Ok(()), false) => { eff.push(e.clone()); ids.push(i); }
            (Err(_), true) => {}
            (Ok(()), true) => return Err(format!("a second handler for {:?} {} was accepted", e.0, show(&e.1))),
            (Err(x), false) => return Err(format!("registration of {:?} {} was refused: {}", e.0, show(&e.1), x)),
        }
    }
    Ok((serve(b, addr)?, eff, ids))
}
fn ask(p: &mut Peer, h: &H, eff: &[(HttpMethod, Segs)], ids: &[usize], m: HttpMethod, target: &str) -> Res<()> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let lines: String = if k % 3 == 0 { let mut r = Rng::new(k as u64); (0..1 + r.below(2)).map(|_| { let (k, v) = any_line(&mut r, false); format!("{}: {}\r\n", k, v) }).collect() } else { String::new() };
    let target_ = target;
    let target: &str = &(if lines.is_empty() { target.to_string() } else { format!("{} ({})", target, lines.replace("\r\n", "; ")) });
    let before = panics();
    p.send(format!("{} {} HTTP/1.1\r\nHost: h\r\n{}\r\n", m.as_str(), target_, lines).as_bytes())?;
    let got = p.message(m == HttpMethod::Head);
    no_panic(before)?;
    let (hd, body) = got?.ok_or("the server closed the connection")?;
    let log = h.take_log();
    match route(eff, m, target_) {
        Ok(i) => {
            if log.len() != 1 || log[0].0 != ids[i] || hd.first[1] != "200" {
                return Err(format!("{} {}: handlers run {:?}, answer {}; expected handler {} ({})", m.as_str(), target,
                    log.iter().map(|l| l.0).collect::<Vec<_>>(), hd.first[1], ids[i], show(&eff[i].1)));
            }
        }
        Err(c) => {
            if !log.is_empty() || hd.first[1] != c.to_string() {
                return Err(format!("{} {}: handlers run {:?}, answer {}; expected {}", m.as_str(), target, log.iter().map(|l| l.0).collect::<Vec<_>>(), hd.first[1], c));
            }
            if m != HttpMethod::Head { problem_body(&hd, &body, c)?; }
        }
    }
    Ok(())
}
fn problem_body(hd: &Head, body: &[u8], c: u16) -> Res<()> {
    let v: serde_json::Value = serde_json::from_slice(body).map_err(|e| format!("the body is not JSON: {}", e))?;
    if v["status"] != json!(c) { return Err(format!("status {} with problem {}", c, v)); }
    if hd.text("content-type").as_ref().map(|s| s.as_str()) != Some("application/problem+json") { return Err(format!("content type {:?}", hd.text("content-type"))); }
    Ok(())
}
/// A constant segment: mostly one that a target can spell, sometimes one that none can.
fn seg_const(r: &mut Rng) -> &'static str {
    if let Some(s) = dict_str(r) { if s.len() < 60 { return s; } }
    if r.chance(1, 8) { return *r.pick(&["a b", "%61", "A", "a+b", "a%20b", "é", "%C3%A9", "a%2Fb", "a.b", "...", ":", "*", "aa", "+", "%", "a;b", "a=b", "~", "@", "$"]); }
    *r.pick(&["a", "b", "c", "a", "b", ""])
}
/// The segment as a target may hold it, or another spelling of it.
fn spelling(r: &mut Rng, s: &str) -> String {
    let odd = r.chance(1, 12);
    let mut out = String::new();
    for b in s.bytes() {
        if b > 0x20 && b < 0x7f && !b"/?#\\\"<>".contains(&b) && !(odd && r.chance(1, 2)) { out.push(b as char) } else { out.push_str(&format!("%{:02X}", b)) }
    }
    if r.chance(1, 30) { out = out.to_uppercase(); }
    if r.chance(1, 30) { out = out.replace("%20", "+"); }
    out
}
fn gen_target(r: &mut Rng, table: &[(HttpMethod, Segs)]) -> String {
    let mut segs: Vec<String> = if r.chance(3, 4) {
        r.pick(table).1.iter().map(|s| s.map(|x| spelling(r, x)).unwrap_or_else(|| r.pick(&["a", "b", "c", "v", "x%20y", "%61", "", "A"]).to_string())).collect()
    } else {
        (0..1 + r.below(4)).map(|_| if r.chance(1, 6) { let s = seg_const(r); spelling(r, s) } else { r.pick(&["a", "b", "c", "zz", "", "%61", "aa", "."]).to_string() }).collect()
    };
    match r.below(12) {
        0 => segs.push("a".into()),
        1 => { segs.pop(); }
        2 => segs.push("".into()),
        3 => { if !segs.is_empty() { let i = r.below(segs.len()); segs[i] = r.pick(&["a", "b", "c", ""]).to_string(); } }
        6 if r.chance(1, 4) => { let n = r.below(60); for _ in 0..n { segs.push("a".into()); } }
        4 => { if segs.len() > 1 { let i = r.below(segs.len() - 1); segs.swap(i, i + 1); } }
        _ => {}
    }
    if r.chance(1, 40) { return r.pick(&["mailto:x", "data:,a", "about:a", "mailto:a/b", "x:y", "tel:1", "a", "?a", "*", "..", "a/b", "/.", "/a/..", "/a/./b"]).to_string() + if r.chance(1, 2) { "?q" } else { "" }; }
    let mut t = format!("/{}", segs.join("/"));
    if t.starts_with("//") { t = format!("/.{}", t); }
    match r.below(9) { 0 => t.push_str("?a/b"), 1 => t.push_str("?x=1&y=2"), 3 => t.push_str(r.pick(&["#a/b", "#?x=1", "?a#/b", "?#", "#"])), 2 => t = format!("http://h:1{}", t), _ => {} }
    t
}
pub fn c07(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 7);
    let h = H::new(0, status_msg(200));
    let mut fixed: Vec<Vec<(HttpMethod, &'static str)>> = vec![
        vec![(HttpMethod::Get, "a/b"), (HttpMethod::Get, "a/*"), (HttpMethod::Get, "*/b"), (HttpMethod::Get, "*/*")],
        vec![(HttpMethod::Get, "a/b"), (HttpMethod::Post, "*/b"), (HttpMethod::Put, "a/*")],
        vec![(HttpMethod::Get, "a/b/c"), (HttpMethod::Get, "a/*/d"), (HttpMethod::Get, "*/b/e"), (HttpMethod::Get, "*/*/f")],
        vec![(HttpMethod::Get, "a"), (HttpMethod::Get, "a/b"), (HttpMethod::Get, "a"), (HttpMethod::Post, "a")],
        vec![(HttpMethod::Get, "*"), (HttpMethod::Get, "*"), (HttpMethod::Post, "*"), (HttpMethod::Get, "a")],
        vec![(HttpMethod::Get, ""), (HttpMethod::Get, "a/")],
        vec![(HttpMethod::Get, "@"), (HttpMethod::Post, "@"), (HttpMethod::Get, "@"), (HttpMethod::Get, "a"), (HttpMethod::Get, ""), (HttpMethod::Get, "@")],
        vec![(HttpMethod::Head, "a"), (HttpMethod::Get, "a"), (HttpMethod::Options, "*")],
        vec![(HttpMethod::Get, "a/b/c/d"), (HttpMethod::Post, "a/b/c/*"), (HttpMethod::Put, "a/b/*/d"), (HttpMethod::Delete, "a/*/c/d"), (HttpMethod::Patch, "*/b/c/d"), (HttpMethod::Get, "*/*/*/*")],
    ];
    // entry points with many segments
    let deep = |n: usize, v: bool| -> Segs { (0..n).map(|k| if v && k % 3 == 1 { None } else { Some(["a", "b", "c"][k % 3]) }).collect() };
    for n in &[33usize, 64, 65, 100, 129, 256, 300, 513, 900] {
        rep.case("deep entry points", json!({"segments": n}), || {
            let table = vec![(HttpMethod::Get, deep(*n, false)), (HttpMethod::Get, deep(*n, true)), (HttpMethod::Put, deep(*n - 1, true))];
            let (srv, eff, ids) = build(&table, &h)?;
            let mut p = Peer::connect(srv.addr)?;
            let path = |n: usize, v: &str| -> String { (0..n).map(|k| format!("/{}", if k % 3 == 1 { v } else { ["a", "b", "c"][k % 3] })).collect() };
            for v in &["b", "x", "%62"] { for k in &[*n - 1, *n, *n + 1] { for m in &[HttpMethod::Get, HttpMethod::Put, HttpMethod::Trace] { ask(&mut p, &h, &eff, &ids, *m, &path(*k, v))?; } } }
            p.close_clean()
        });
    }
    let rounds = rep.n(220, 4000);
    for i in 0..rounds {
        let table: Vec<(HttpMethod, Segs)> = if let Some(t) = fixed.pop() {
            t.into_iter().map(|(m, p)| (m, if p == "@" { vec![] } else { p.split('/').map(|s| if s == "*" { None } else { Some(s) }).collect() })).collect()
        } else {
            let depth = if r.chance(1, 10) { 5 + r.below(30) } else { 1 + r.below(4) };
            let few = r.chance(1, 2);
            (0..1 + r.below(PROCS)).map(|_| {
                let n = if r.chance(3, 4) { depth } else { r.below(5) };
                let m = if few { *r.pick(&METHODS[..2]) } else { pick_method(&mut r) };
                (m, (0..n).map(|_| if r.chance(2, 5) { None } else { Some(seg_const(&mut r)) }).collect())
            }).collect()
        };
        let shown: Vec<String> = table.iter().map(|(m, s)| format!("{} {}", m.as_str(), show(s))).collect();
        let (srv, eff, ids) = match build(&table, &h) {
            Ok(x) => x,
            Err(e) => { rep.case("registration", json!({"table": shown}), || Err(e)); continue; }
        };
        // every path over a small alphabet for small tables, random targets otherwise
        let mut asks: Vec<(HttpMethod, String)> = vec![];
        if i < 9 {
            for a in &["a", "b", "z"] { asks.push((HttpMethod::Get, format!("/{}", a))); for b in &["a", "b", "z", ""] {
                for m in &[HttpMethod::Get, HttpMethod::Post, HttpMethod::Put, HttpMethod::Head] { asks.push((*m, format!("/{}/{}", a, b))); }
                for c in &["c", "d", "e", "f", "b"] { asks.push((HttpMethod::Get, format!("/{}/{}/{}", a, b, c))); asks.push((HttpMethod::Put, format!("/a/{}/{}/{}", a, b, c))); }
            } }
        }
        for _ in 0..24 { let m = if r.chance(3, 4) { r.pick(&table).0 } else { pick_method(&mut r) }; asks.push((m, gen_target(&mut r, &table))); }
        // targets as long as a head can be (8096 bytes), and deep ones
        if r.chance(1, 8) {
            let e = r.pick(&table).clone();
            let n = *r.pick(&[200usize, 255, 256, 257, 1023, 1025, 2047, 2049, 4097, 7500]);
            let t: Vec<String> = e.1.iter().map(|s| s.map(|x| spelling(&mut r, x)).unwrap_or_else(|| "v".repeat(n / e.1.len() + 1))).collect();
            let mut t = format!("/{}", t.join("/"));
            if t.starts_with("//") { t = format!("/.{}", t); }
            asks.push((e.0, t.clone()));
            if t.len() + n < 7800 { asks.push((e.0, format!("{}?{}", t, "q".repeat(n)))); asks.push((e.0, format!("{}#{}", t, "/a".repeat(n / 2)))); }
        }
        if i % 40 == 11 { for n in &[63usize, 64, 65, 66, 127, 129, 200, 257, 600, 1025] { asks.push((HttpMethod::Get, "/a".repeat(*n))); } }
        asks.retain(|a| a.1.len() < 7900);
        let mut p = match Peer::connect(srv.addr) { Ok(p) => p, Err(e) => { rep.case("connect", json!({}), || Err(e)); continue; } };
        for (m, t) in asks {
            let mut bad = false;
            rep.case("route", json!({"table": shown, "request": format!("{} {}", m.as_str(), t)}), || { let x = ask(&mut p, &h, &eff, &ids, m, &t); bad = x.is_err(); x });
            if bad { break; }
        }
    }
}

// ---------------------------------------------------------------- C08
struct Step { raw: Vec<u8>, head: bool, want: Want, shown: String }
enum Want { Status(u16), Handler(usize, Vec<u8>, u8, Option<u8>, Option<i16>) }
const PROPS: &[(HttpMethod, &str)] = &[(HttpMethod::Get, "a/*"), (HttpMethod::Post, "a/*"), (HttpMethod::Head, "a/*"), (HttpMethod::Put, "a/*/b"), (HttpMethod::Post, "*/c"), (HttpMethod::Delete, "a/*"), (HttpMethod::Put, "a/*"), (HttpMethod::Options, "a/*"), (HttpMethod::Trace, "a/*"), (HttpMethod::Connect, "a/*"), (HttpMethod::Lock, "a/*")];
fn table8() -> Vec<(HttpMethod, Segs)> {
    PROPS.iter().map(|(m, p)| (*m, p.split('/').map(|s| if s == "*" { None } else { Some(s) }).collect())).collect()
}
fn opt(name: &'static str, kind: Kind) -> Field { Field { name, kind, optional: true, value: None } }
/// Chunked bodies come in one chunk and end the connection: the HTTP library loses its place after them (known finding).
fn gen_step(r: &mut Rng, table: &[(HttpMethod, Segs)], last: bool) -> Step {
    let m = if r.chance(1, 8) { pick_method(r) } else { r.pick(table).0 };
    let var = *r.pick(&["5", "255", "0", "7", "256", "-1", "x", "%35", "%zz", "%ff", "%", "%3", "", "+5", "5.0", "%C3%A9", "99999999999999999999"]);
    let good = r.chance(1, 2);
    let var = if good { "12" } else { var };
    let mut t = match r.below(14) {
        0 => r.pick(&["http://[", "//[", "http://:99999/", "//a:b/", "https://%", "//[::1", "http://a b"]).to_string().replace(' ', "%"),
        1 => r.pick(&["mailto:x", "data:,a", "*", "a", "/", "//", "?n=5", "/zz/../a", "about:blank", "/a/b/c/d/e"]).to_string(),
        2 => format!("http://h/a/{}", var),
        3 => format!("/a/{}/b", var),
        4 => format!("/{}/c", var),
        5 => format!("a/{}", var),
        _ => format!("/a/{}", var),
    };
    let q = if good { *r.pick(&["", "n=9", "z=1&n=3", "z&zz=%F0%9F%98%80&n=255"]) } else { *r.pick(&["", "n=9", "n=300", "n=", "n", "n=x&z=1", "%6e=4", "n=%39", "&&n=2&", "=&n=1", "n=1%", "z=%zz"]) };
    if !q.is_empty() && !t.contains('?') { t = format!("{}?{}", t, q); }
    if r.chance(1, 6) { t.push_str(r.pick(&["#frag", "#n=4", "#n=300", "#?n=300", "#/b", "#", "#%zz", "#a#b"])); }
    if r.chance(1, 12) { if let Some(s) = dict_str(r) { if s.len() < 100 && s.bytes().all(|b| b > 0x20 && b < 0x7f) { t = if r.chance(1, 2) { format!("/a/{}", s) } else if t.contains('?') || t.contains('#') { t } else { format!("{}?n={}", t, s) }; } } }
    let mut lines: Vec<(String, Vec<u8>)> = vec![("Host".into(), b"h".to_vec())];
    if r.chance(1, 2) {
        let v: &[u8] = if good { *r.pick(&[&b"-5"[..], b"17", b" 4 "]) } else { *r.pick(&[&b"-5"[..], b"99999", b"x", b"", b"\xff\xfe", b"4 4", b"1.5"]) };
        lines.push((r.pick(&["x-n", "X-N", "X-n"]).to_string(), v.to_vec()));
    }
    for _ in 0..r.below(4) { lines.push((r.pick(&["Accept", "x-other", "X-Bin", "Cookie", "x-nn"]).to_string(), r.pick(&[&b"*/*"[..], b"", b"\xc3\xa9", b"\xff", b"a:b, c"]).to_vec())); }
    for _ in 0..3 { if r.chance(1, 4) { let (k, v) = any_line(r, false); lines.push((k, v.into_bytes())); } }
    // heads up to what the server reads: 32 lines, 8096 bytes
    if r.chance(1, 10) { while lines.len() < 28 { lines.push((format!("x-{}", lines.len()), vec![b'v'; r.below(100)])); } }
    if r.chance(1, 20) { let n = r.below(4000); lines.push(("x-long".into(), vec![b'w'; n])); }
    let body = if r.chance(1, 3) { vec![] } else { gen_body(r) };
    let mut payload = body.clone();
    match r.below(5) {
        0 if body.is_empty() => {}
        1 if !body.is_empty() && last => {
            lines.push(("Transfer-Encoding".into(), b"chunked".to_vec()));
            payload = format!("{:x}\r\n", body.len()).into_bytes();
            payload.extend_from_slice(&body);
            payload.extend(b"\r\n0\r\n\r\n");
        }
        _ => lines.push((r.pick(&["Content-Length", "content-length"]).to_string(), body.len().to_string().into_bytes())),
    }
    if r.chance(1, 2) { let k = r.below(lines.len()); let l = lines.remove(k); lines.push(l); }
    let version = if r.chance(1, 10) { "1.0" } else { "1.1" };
    let mut raw = format!("{} {} HTTP/{}\r\n", m.as_str(), t, version).into_bytes();
    for (k, v) in &lines { raw.extend(k.bytes()); raw.extend(b": "); raw.extend(v); raw.extend(b"\r\n"); }
    raw.extend(b"\r\n");
    raw.extend(&payload);
    let want = match route(table, m, &t) {
        Err(c) => Want::Status(c),
        Ok(i) => {
            let u = reparse(&t).unwrap();
            let path = target_segments(&t).unwrap().unwrap();
            let var = table[i].1.iter().position(|s| s.is_none()).unwrap();
            let v = strict_decode(&path[var]).and_then(|s| s.parse::<u8>().ok());
            let mut n = Some(None);
            for (k, v) in u.query_pairs() { if k == "n" { n = v.parse::<u8>().ok().map(Some); } }
            let mut x = Some(None);
            for (k, v) in &lines { if k.eq_ignore_ascii_case("x-n") { x = std::str::from_utf8(v).ok().and_then(|s| s.trim().parse::<i16>().ok()).map(Some); } }
            match (v, n, x) { (Some(v), Some(n), Some(x)) => Want::Handler(i, body, v, n, x), _ => Want::Status(400) }
        }
    };
    Step { raw, head: m == HttpMethod::Head, want, shown: format!("{} {} HTTP/{} {:?} body {}", m.as_str(), t, version, lines.iter().map(|l| format!("{}: {}", l.0, String::from_utf8_lossy(&l.1))).collect::<Vec<_>>(), payload.len()) }
}
fn send_parts(p: &mut Peer, raw: &[u8], frag: usize, r: &mut Rng) -> Res<()> {
    if frag == 0 || raw.len() > 4000 { return p.send(raw); }
    let mut i = 0;
    let mut k = 0;
    while i < raw.len() {
        let n = if k > 12 { raw.len() - i } else { (1 + r.below(frag)).min(raw.len() - i) };
        p.send(&raw[i..i + n])?;
        if k < 6 { std::thread::sleep(std::time::Duration::from_micros(300)); }
        i += n;
        k += 1;
    }
    Ok(())
}
fn check_answer(p: &mut Peer, h: &H, s: &Step, reply: &Msg, alone: bool) -> Res<()> {
    let (hd, body) = p.message(s.head)?.ok_or("the server closed the connection without an answer")?;
    let log = if alone { h.take_log() } else { vec![] };
    match s.want {
        Want::Status(c) => {
            if hd.first[1] != c.to_string() { return Err(format!("answered {:?}, expected {}", hd.first, c)); }
            if !log.is_empty() { return Err(format!("handler {} ran for a rejected request", log[0].0)); }
            if !s.head { problem_body(&hd, &body, c)?; }
        }
        Want::Handler(i, ref b, v, n, x) => {
            let (code, lines) = response_oracle(reply).unwrap();
            if hd.first[1] != code.to_string() { return Err(format!("answered {:?} {}, expected the handler's {}", hd.first, String::from_utf8_lossy(&body), code)); }
            let rest: Vec<(String, Vec<u8>)> = hd.lines.iter().filter(|l| !l.0.eq_ignore_ascii_case("content-length")).cloned().collect();
            if rest != lines { return Err(format!("header lines {:?}, expected {:?}", rest, lines)); }
            if hd.length()? != reply.body.len() { return Err(format!("announces {} bytes of {}", hd.length()?, reply.body.len())); }
            if !s.head && body != reply.body { return Err("the body differs from the handler's".into()); }
            if alone {
                if log.len() != 1 || log[0].0 != i { return Err(format!("handlers run: {:?}, expected {}", log.iter().map(|l| l.0).collect::<Vec<_>>(), i)); }
                let g = &log[0].1;
                if &g.body != b { return Err(format!("the handler got {} bytes of body, {} were sent", g.body.len(), b.len())); }
                if g.got.offered != ["path", "query", "header"] || g.got.path != Some(vec![Atom::U8(v)]) || g.got.query != Some(vec![n.map(Atom::U8)]) || g.got.header != Some(vec![x.map(Atom::I16)]) { return Err(format!("the handler got {:?}", g.got)); }
            }
        }
    }
    Ok(())
}
fn dec8() -> Dec { Dec { path: Some((vec![Kind::U8], TupleShape::Tuple)), query: Some(vec![opt("n", Kind::U8)]), header: Some(vec![opt("x-n", Kind::I16)]), ..Dec::default() } }
pub fn c08(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 8);
    let table = table8();
    let h = H::new(0, status_msg(200));
    rep.case("nothing registered", json!({}), || {
        let (srv, eff, ids) = build(&[], &h)?;
        let mut p = Peer::connect(srv.addr)?;
        for m in METHODS { for t in &["/", "/a", "/a?b#c", "http://h/"] { for _ in 0..2 { ask(&mut p, &h, &eff, &ids, *m, t)?; } } }
        p.close_clean()
    });
    for m in METHODS { for ep in &["a", "*", "", "@"] {
        rep.case("one procedure registered", json!({"procedure": format!("{} {}", m.as_str(), ep)}), || {
            let table: Vec<(HttpMethod, Segs)> = vec![(*m, if *ep == "@" { vec![] } else { ep.split('/').map(|s| if s == "*" { None } else { Some(s) }).collect() })];
            let (srv, eff, ids) = build(&table, &h)?;
            let mut p = Peer::connect(srv.addr)?;
            for m in METHODS { for t in &["/", "/a", "/zz/a"] { ask(&mut p, &h, &eff, &ids, *m, t)?; } }
            p.close_clean()
        });
    } }
    // one connection that lasts, and many at once
    if let Ok(s) = build(&table, &h) {
        set_dec(dec8());
        let reply = loop { let m = gen_reply(&mut r); if response_oracle(&m).is_some() && m.body.len() < 2000 { break m; } };
        h.set(reply.clone());
        let n = rep.n(6000, 20000);
        rep.case("many requests on one connection", json!({"requests": n}), || {
            let before = panics();
            let mut p = Peer::connect(s.0.addr)?;
            for k in 0..n {
                let st = loop { let st = gen_step(&mut r, &table, false); if st.raw.len() < 9000 { break st; } };
                let x = p.send(&st.raw).and_then(|_| check_answer(&mut p, &h, &st, &reply, true));
                no_panic(before)?;
                x.map_err(|e| format!("request {} ({}): {}", k + 1, st.shown, e))?;
            }
            p.close_clean()
        });
        for n in &[40usize, 300] {
            rep.case("many connections at once", json!({"connections": n}), || {
                let before = panics();
                let mut ps = vec![];
                for _ in 0..*n { ps.push(Peer::connect(s.0.addr)?); }
                for round in 0..2 {
                    for (k, p) in ps.iter_mut().enumerate() {
                        let st = loop { let st = gen_step(&mut r, &table, false); if st.raw.len() < 9000 { break st; } };
                        let x = p.send(&st.raw).and_then(|_| check_answer(p, &h, &st, &reply, true));
                        no_panic(before)?;
                        x.map_err(|e| format!("connection {} request {} ({}): {}", k + 1, round + 1, st.shown, e))?;
                    }
                }
                for p in ps { drop(p); }
                no_panic(before)
            });
        }
    }
    if let Ok(s) = build(&table, &h) {
        set_dec(dec8());
        for body in big_bodies() { for &(t, want) in &[("/a/5", 0u16), ("/zz", 404), ("/a/x", 400), ("//[", 400), ("/zz/c/d", 404), ("/a/5/b", 405)] {
            let n = body.len();
            rep.case("a large body", json!({"body": n, "target": t}), || {
                let before = panics();
                let reply = Msg::new(Shape::UnitVariant("Ok"), vec![], body.clone());
                h.set(reply.clone());
                let mut p = Peer::connect(s.0.addr)?;
                let w = if want == 0 { Want::Handler(1, body.clone(), 5, None, None) } else { Want::Status(want) };
                let mut raw = format!("POST {} HTTP/1.1\r\nContent-Length: {}\r\n\r\n", t, n).into_bytes();
                raw.extend_from_slice(&body);
                let st = Step { raw, head: false, want: w, shown: String::new() };
                for _ in 0..if n > 4_000_000 { 1 } else { 2 } {
                    let x = p.send(&st.raw).and_then(|_| check_answer(&mut p, &h, &st, &reply, true));
                    no_panic(before)?;
                    x?;
                }
                p.close_clean()
            });
        } }
    }
    let mut srv = None;
    let h2 = H::new(0, status_msg(200));
    if let Ok(s) = build(&table, &h2) {
        set_dec(dec8());
        for _ in 0..rep.n(150, 2000) {
            let s8 = gen_step(&mut r, &table, true).raw;
            let raw: Vec<u8> = match r.below(4) {
                0 => (0..r.below(200)).map(|_| r.next() as u8).collect(),
                1 => s8[..r.below(s8.len())].to_vec(),
                2 => { let mut x = s8; for _ in 0..1 + r.below(4) { let i = r.below(x.len().min(80)); x[i] = r.next() as u8; } x }
                _ => { let mut x = s8; let i = r.below(x.len().min(80)); x.insert(i, *r.pick(b"\r\n \t\0:/?#%[]@")); x }
            };
            let half = r.chance(1, 2);
            rep.case("bytes that may be no request", json!({"bytes": String::from_utf8_lossy(&raw[..raw.len().min(400)])}), || garbage(&s.0, &h2, &raw, half));
        }
    }
    for round in 0..rep.n(160, 3000) {
        if srv.is_none() {
            srv = match build(&table, &h) { Ok(s) => Some(s.0), Err(e) => { rep.case("start a server", json!({}), || Err(e)); return; } };
        }
        set_dec(dec8());
        h.delay_ms.store(if round % 9 == 5 { 3 } else { 0 }, std::sync::atomic::Ordering::SeqCst);
        let reply = loop { let m = gen_reply(&mut r); if response_oracle(&m).is_some() { break m; } };
        h.set(reply.clone());
        let addr = srv.as_ref().unwrap().addr;
        let frag = if round % 3 == 0 { 1 + r.below(60) } else { 0 };
        if round % 8 == 7 {
            // several connections at once
            let steps: Vec<Vec<Step>> = (0..4).map(|_| (0..4).map(|k| gen_step(&mut r, &table, k == 3)).collect()).collect();
            let shown: Vec<Vec<&str>> = steps.iter().map(|s| s.iter().map(|x| x.shown.as_str()).collect()).collect();
            let mut bad = false;
            rep.case("requests on four connections", json!({"requests": shown, "reply": format!("{:?} {:?}", reply.shape, reply.parts)}), || {
                let before = panics();
                let x: Res<()> = (|| {
                    let mut ps = vec![];
                    for _ in 0..4 { ps.push(Peer::connect(addr)?); }
                    for k in 0..4 {
                        for (i, p) in ps.iter_mut().enumerate() { p.send(&steps[i][k].raw)?; }
                        for (i, p) in ps.iter_mut().enumerate().rev() { check_answer(p, &h, &steps[i][k], &reply, false)?; }
                    }
                    for p in ps { p.close_clean()?; }
                    Ok(())
                })();
                let ran = h.take_log().len();
                let want = steps.iter().flat_map(|s| s.iter()).filter(|s| if let Want::Handler(..) = s.want { true } else { false }).count();
                bad = true;
                no_panic(before)?;
                x?;
                if ran != want { return Err(format!("handlers ran {} times, expected {}", ran, want)); }
                bad = false;
                Ok(())
            });
            if bad { srv = None; }
            continue;
        }
        let mut p = match Peer::connect(addr) { Ok(p) => p, Err(e) => { rep.case("connect", json!({}), || Err(e)); srv = None; continue; } };
        let mut shown: Vec<String> = vec![];
        let mut bad = false;
        for k in 0..8 {
            let s = gen_step(&mut r, &table, k == 7);
            shown.push(s.shown.clone());
            rep.case("requests on one connection", json!({"requests": shown, "fragmented": frag > 0, "reply": format!("{:?} {:?} body {}", reply.shape, reply.parts, reply.body.len())}), || {
                let before = panics();
                bad = true;
                let x = send_parts(&mut p, &s.raw, frag, &mut r).and_then(|_| check_answer(&mut p, &h, &s, &reply, true));
                no_panic(before)?;
                x?;
                bad = false;
                Ok(())
            });
            if bad { srv = None; break; }
        }
        if !bad { rep.case("nothing but the answers on the connection", json!({"requests": shown}), || p.close_clean()); }
    }
}
/// Bytes that are no request at all, cut requests and sudden ends: never a panic, and others are still served.
fn garbage(srv: &Srv, h: &H, raw: &[u8], half: bool) -> Res<()> {
    let before = panics();
    let mut p = Peer::connect(srv.addr)?;
    let _ = p.send(raw);
    if half { let _ = p.s.shutdown(std::net::Shutdown::Write); let _ = p.closed_within(std::time::Duration::from_millis(200)); }
    drop(p);
    let mut p = Peer::connect(srv.addr)?;
    p.send(b"GET /a/5 HTTP/1.1\r\n\r\n")?;
    let got = p.message(false);
    no_panic(before)?;
    let (hd, _) = got?.ok_or("the server closed another connection")?;
    if hd.first[1] != "200" { return Err(format!("another connection is answered {:?}", hd.first)); }
    h.take_log();
    p.close_clean()?;
    no_panic(before)
}
fn gen_reply(r: &mut Rng) -> Msg {
    let hd = ("header", PV::Fields(gen_header(r), MapShape::Struct));
    let mut parts = vec![("status", PV::One(Atom::U16(r.pick(STATUS).1)))];
    if r.chance(1, 2) { parts.push(hd); }
    Msg::new(Shape::Struct, parts, gen_body(r))
}
