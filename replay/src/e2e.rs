//! End-to-end checks over the loopback: C04, C05, C06, C07, C08, C12, C13 and C14.
use crate::codec::*;
use crate::gen::*;
use crate::net::*;
use crate::report::Report;
use htrpc::types::HttpMethod;
use htrpc::{RpcClient, RpcServerBuilder};
use serde_json::json;

pub const STATUS: &[(&str, u16)] = &[
    ("Continue", 100), ("SwitchingProtocols", 101), ("Processing", 102), ("Ok", 200), ("Created", 201), ("Accepted", 202), ("NonAuthoritativeInformation", 203), ("NoContent", 204), ("ResetContent", 205), ("PartialContent", 206), ("MultiStatus", 207), ("AlreadyReported", 208), ("ImUsed", 226), ("MultipleChoices", 300), ("MovedPermanently", 301), ("Found", 302), ("SeeOther", 303), ("NotModified", 304), ("UseProxy", 305), ("TemporaryRedirect", 307), ("PermanentRedirect", 308), ("BadRequest", 400), ("Unauthorized", 401), ("PaymentRequired", 402), ("Forbidden", 403), ("NotFound", 404), ("MethodNotAllowed", 405), ("NotAcceptable", 406), ("ProxyAuthenticationRequired", 407), ("RequestTimeout", 408), ("Conflict", 409), ("Gone", 410), ("LengthRequired", 411), ("PreconditionFailed", 412), ("PayloadTooLarge", 413), ("UriTooLong", 414), ("UnsupportedMediaType", 415), ("RangeNotSatisfiable", 416), ("ExceptionFailed", 417), ("ImATeapot", 418), ("MisdirectedRequest", 421), ("UnprocessableEntity", 422), ("Locked", 423), ("FailedDependency", 424), ("UpgradeRequired", 426), ("UnavailableForLegalReasons", 451), ("InternalServerError", 500), ("NotImplemented", 501), ("BadGateway", 502), ("ServiceUnavailable", 503), ("GatewayTimeout", 504), ("HttpVersionNotSupported", 505), ("VariantAlsoNegotiates", 506), ("InsufficientStorage", 507), ("LoopDetected", 508), ("BandwidthLimitExceeded", 509), ("NotExtended", 510)
];
pub fn code_of(n: &str) -> Option<u16> { STATUS.iter().find(|s| s.0 == n).map(|s| s.1) }
pub fn name_of(c: u16) -> Option<&'static str> { STATUS.iter().find(|s| s.1 == c).map(|s| s.0) }
pub const METHODS: &[HttpMethod] = &[HttpMethod::Get, HttpMethod::Post, HttpMethod::Put, HttpMethod::Delete, HttpMethod::Head, HttpMethod::Options, HttpMethod::Patch, HttpMethod::Trace, HttpMethod::Connect];
const OTHERS: &[HttpMethod] = &[HttpMethod::Acl, HttpMethod::BaselineControl, HttpMethod::Bind, HttpMethod::Checkin, HttpMethod::Checkout, HttpMethod::Copy, HttpMethod::Label, HttpMethod::Link, HttpMethod::Lock, HttpMethod::Merge,
    HttpMethod::Mkactivity, HttpMethod::Mkcalendar, HttpMethod::Mkcol, HttpMethod::Mkredirectref, HttpMethod::Mkworkspace, HttpMethod::Move, HttpMethod::Orderpatch, HttpMethod::Pri, HttpMethod::Propfind, HttpMethod::Proppatch, HttpMethod::Rebind,
    HttpMethod::Report, HttpMethod::Search, HttpMethod::Unbind, HttpMethod::Uncheckout, HttpMethod::Unlink, HttpMethod::Unlock, HttpMethod::Update, HttpMethod::Updateredirectref, HttpMethod::VersionControl];
pub fn pick_method(r: &mut Rng) -> HttpMethod { if r.chance(1, 5) { *r.pick(OTHERS) } else { *r.pick(METHODS) } }

pub fn one_server(m: HttpMethod, ep_: htrpc::types::EntryPoint, h: &H) -> Res<Srv> {
    set_table(vec![(m, ep_)]);
    let addr = free_addr();
    let mut b = RpcServerBuilder::new(addr);
    register(&mut b, 0, h.clone()).map_err(|e| format!("registration refused: {}", e))?;
    serve(b, addr)
}
pub fn header_texts(fs: &[Field]) -> Vec<(String, Vec<u8>)> {
    fs.iter().filter_map(|f| f.value.as_ref().map(|v| (f.name.to_string(), trim(v.text().as_bytes()).to_vec()))).collect()
}
pub fn headers_ok(fs: &[Field]) -> bool {
    fs.iter().all(|f| f.value.as_ref().map_or(true, |v| is_token(f.name) && value_ok(v.text().as_bytes())))
}
pub fn trimmed(fs: &[Field]) -> Vec<Option<Atom>> {
    fs.iter().map(|f| match f.value { Some(Atom::Str(ref s)) => Some(Atom::Str(String::from_utf8(trim(s.as_bytes()).to_vec()).unwrap())), ref v => v.clone() }).collect()
}
fn fields_of<'a>(m: &'a Msg, part: &str) -> Option<&'a Vec<Field>> {
    m.parts.iter().find(|p| p.0 == part).and_then(|p| if let PV::Fields(ref f, _) = p.1 { Some(f) } else { None })
}
pub fn gen_body(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 3) { if let Some(s) = dict_str(r) { return if r.chance(3, 4) { s.as_bytes().to_vec() } else { format!("{}{}", s, r.below(9)).into_bytes() }; } }
    if r.chance(1, 30) { return r.pick(&[&b"null"[..], b"{}", b"[]", b"\"\"", b"0", b" ", b"\0", b"\r\n", b"\n", b"0\r\n\r\n", b"HTTP/1.1 200 OK\r\n\r\n"]).to_vec(); }
    let n = match r.below(7) { 6 if r.chance(1, 4) => r.pick(&[65535usize, 65536, 65537, 70001, 131073, 262143]) + r.below(3), 6 => dict_len(r, 200_000), 0 | 1 => 0, 2 => r.below(10), 3 => r.below(300), 4 => 1000 + r.below(2000), _ => r.below(40000) };
    (0..n).map(|_| r.next() as u8).collect()
}
pub fn gen_header(r: &mut Rng) -> Vec<Field> {
    let mut f = gen_fields(r, HNAMES, true);
    for x in &mut f { if let Some(Atom::Str(ref mut s)) = x.value { if s.len() > 200 { s.truncate(0); } } }
    f
}

// ---------------------------------------------------------------- responses (C04, C06)
/// What a response value must become: (status, headers, body), or an error.
pub fn response_oracle(m: &Msg) -> Option<(u16, Vec<(String, Vec<u8>)>)> {
    let variant = |n: &str, parts: &[(&'static str, PV)]| -> Option<(u16, Vec<(String, Vec<u8>)>)> {
        let c = code_of(n)?;
        let mut hs = vec![];
        for (k, v) in parts {
            match (*k, v) { ("header", PV::Fields(f, _)) if headers_ok(f) => hs.extend(header_texts(f)), _ => return None }
        }
        Some((c, hs))
    };
    match m.shape {
        Shape::UnitVariant(n) => variant(n, &[]),
        Shape::StructVariant(n) => variant(n, &m.parts),
        Shape::Struct | Shape::NewtypeStruct | Shape::NewtypeVariant(_) => {
            let mut it = m.parts.iter();
            let c = match it.next() {
                Some(("status", PV::One(a))) if !matches!(a.kind(), Kind::Bool | Kind::F32 | Kind::F64 | Kind::Str) => a.text().parse::<u16>().ok()?,
                _ => return None,
            };
            let n = name_of(c)?;
            let rest: Vec<(&'static str, PV)> = it.cloned().collect();
            variant(n, &rest)
        }
        _ => None,
    }
}
/// Sends one response value through the server; returns the raw response if there was one.
fn respond(srv: &Srv, h: &H, m: &Msg) -> Res<Option<Vec<u8>>> {
    let before = panics();
    h.set(m.clone());
    let mut p = Peer::connect(srv.addr)?;
    p.send(b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n")?;
    let got = p.message(false);
    no_panic(before)?;
    let got = got?;
    let want = response_oracle(m);
    match (got, want) {
        (None, None) => Ok(None),
        (None, Some(w)) => Err(format!("no response, expected status {}", w.0)),
        (Some((hd, _)), None) => Err(format!("a response {:?} to a value that names no usable response", String::from_utf8_lossy(&hd.raw))),
        (Some((hd, body)), Some((code, lines))) => {
            if hd.first.len() < 2 || hd.first[0] != "HTTP/1.1" || hd.first[1] != code.to_string() {
                return Err(format!("status line {:?}, expected code {}", hd.first, code));
            }
            let rest: Vec<(String, Vec<u8>)> = hd.lines.iter().filter(|l| !l.0.eq_ignore_ascii_case("content-length")).cloned().collect();
            if rest != lines { return Err(format!("header lines {:?}, expected {:?}", rest, lines)); }
            if body != m.body { return Err(format!("body of {} bytes differs from the {} bytes supplied", body.len(), m.body.len())); }
            // the connection stays usable: the same again
            p.send(b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n")?;
            let again = p.message(false)?.ok_or("connection closed after a response")?;
            if again.0.raw != hd.raw || again.1 != body { return Err(format!("the second response differs: {:?}", String::from_utf8_lossy(&again.0.raw))); }
            p.close_clean()?;
            no_panic(before)?;
            Ok(Some([&hd.raw[..], &body[..]].concat()))
        }
    }
}
/// A raw response as the client decodes it.
pub fn client_reads(raw: &[u8], dec: Dec) -> Res<Result<Msg, String>> {
    let before = panics();
    set_table(vec![(HttpMethod::Get, ep("x"))]);
    set_dec(dec);
    let lis = Lis::new();
    let rx = start(RpcClient::new(lis.addr).call::<Proc<0>>(Msg::new(Shape::Struct, vec![], vec![])));
    let mut p = lis.accept(SLOW).ok_or("the client does not connect")?;
    p.head()?.ok_or("no request")?;
    p.send(raw)?;
    let _ = p.s.shutdown(std::net::Shutdown::Write);
    let r = wait(&rx);
    no_panic(before)?;
    r
}
pub fn status_msg(c: u64) -> Msg { Msg::new(Shape::Struct, vec![("status", PV::One(Atom::U64(c)))], b"b".to_vec()) }
pub fn c04(rep: &mut Report) {
    let h = H::new(0, status_msg(200));
    let srv = match one_server(HttpMethod::Get, ep("x"), &h) { Ok(s) => s, Err(e) => { rep.case("start a server", json!({}), || Err(e)); return; } };
    set_dec(Dec::default());
    for &(n, c) in STATUS {
        for kind in 0..2 {
            rep.case("status-named variant", json!({"name": n, "variant": if kind == 0 { "unit" } else { "struct" }}), || {
                let m = if kind == 0 { Msg::new(Shape::UnitVariant(n), vec![], b"x".to_vec()) }
                    else { Msg::new(Shape::StructVariant(n), vec![("header", PV::Fields(vec![], MapShape::Struct))], b"yy".to_vec()) };
                set_dec(Dec::default());
                let raw = respond(&srv, &h, &m)?.ok_or("no response")?;
                for vk in &[VariantKind::Unit, VariantKind::Struct, VariantKind::Newtype] {
                    let got = client_reads(&raw, Dec { as_enum: Some(*vk), ..Dec::default() })?.map_err(|e| format!("client failed: {}", e))?;
                    if got.got.variant.as_ref().map(|s| s.as_str()) != Some(n) { return Err(format!("{} arrives as {:?}", c, got.got.variant)); }
                }
                let got = client_reads(&raw, Dec::default())?.map_err(|e| format!("client failed: {}", e))?;
                if got.got.status != Some(c) { return Err(format!("{} arrives as number {:?}", c, got.got.status)); }
                Ok(())
            });
        }
    }
    for n in &["", "ok", "OK", "Okay", "Ok ", " Ok", "O", "200", "Status", "Continue1", "NotFoun", "ExpectationFailed", "EarlyHints", "TooManyRequests", "notfound", "Not Found", "ImATeapo", "Accepte", "HTTPVersionNotSupported", "Error", "Unknown", "status", "header"] {
        for sh in &[Shape::UnitVariant(n), Shape::StructVariant(n)] {
            set_dec(Dec::default());
            rep.case("unknown variant name", json!({"name": n, "shape": format!("{:?}", sh)}), || respond(&srv, &h, &Msg::new(*sh, vec![], vec![])).map(|_| ()));
        }
    }
    let mut codes: Vec<u64> = (0..1024).collect();
    codes.extend(&[65535, 65536, 65736, 65536 + 404, 1 << 32, (1 << 32) + 200, u64::MAX, 2000, 20000]);
    set_dec(Dec::default());
    for c in codes {
        rep.case("numeric status", json!({"status": c}), || respond(&srv, &h, &status_msg(c)).map(|_| ()));
    }
    for a in &[Atom::I64(-1), Atom::I64(200), Atom::I16(404), Atom::U16(503), Atom::U8(200), Atom::I8(100), Atom::Str("200".into()), Atom::F64(200.0), Atom::Bool(true), Atom::I64(-200)] {
        rep.case("numeric status", json!({"status": format!("{:?}", a)}), || respond(&srv, &h, &Msg::new(Shape::Struct, vec![("status", PV::One(a.clone()))], vec![])).map(|_| ()));
    }
    for c in 100..1000u16 {
        rep.case("status received by the client", json!({"code": c}), || {
            let raw = format!("HTTP/1.1 {} Whatever\r\nContent-Length: 2\r\n\r\nab", c).into_bytes();
            let got = client_reads(&raw, Dec { as_enum: Some(VariantKind::Unit), ..Dec::default() })?;
            match (got, name_of(c)) {
                (Err(_), None) => {}
                (Ok(ref m), Some(n)) if m.got.variant.as_ref().map(|s| s.as_str()) == Some(n) => {}
                (g, n) => return Err(format!("code {} decoded as {:?}, expected {:?}", c, g.map(|m| m.got.variant), n)),
            }
            let got = client_reads(&raw, Dec::default())?.map_err(|e| format!("struct decoding failed: {}", e))?;
            if got.got.status != Some(c) { return Err(format!("code {} decoded as number {:?}", c, got.got.status)); }
            Ok(())
        });
    }
}
/// Kinds of value that are neither a struct nor an enum of responses.
fn odd_kinds() -> Vec<&'static str> {
    SCALARS.iter().map(|x| x.0).chain(NONSCALARS.iter().cloned()).filter(|k| !k.contains("struct") || ["unit struct", "tuple struct"].contains(k)).filter(|k| *k != "unit variant").collect()
}
fn odd_shape(r: &mut Rng) -> Shape { Shape::Odd(*r.pick(&odd_kinds())) }
fn gen_response(r: &mut Rng) -> Msg {
    let n = if r.chance(9, 10) { r.pick(STATUS).0 } else { *r.pick(&["Nope", "ok", ""]) };
    let code = if r.chance(9, 10) { Atom::U16(r.pick(STATUS).1) } else { gen_atom(r, Kind::U16) };
    let hd = ("header", PV::Fields(gen_header(r), *r.pick(&[MapShape::Struct, MapShape::Map, MapShape::Newtype])));
    let mut parts = vec![];
    let shape = match r.below(8) {
        0 => Shape::UnitVariant(n),
        1 | 2 => { if r.chance(3, 4) { parts.push(hd); } Shape::StructVariant(n) }
        3 => { parts.push(("status", PV::One(code))); if r.chance(3, 4) { parts.push(hd); } Shape::NewtypeStruct }
        4 => { parts.push(("status", PV::One(code))); if r.chance(3, 4) { parts.push(hd); } Shape::NewtypeVariant(n) }
        5 if r.chance(1, 3) => odd_shape(r),
        _ => { parts.push(("status", PV::One(code))); if r.chance(3, 4) { parts.push(hd); } Shape::Struct }
    };
    match r.below(16) {
        0 => parts.reverse(),
        1 => { let p = parts.get(0).cloned(); parts.extend(p); }
        2 => { parts.pop(); }
        3 => parts.push((*r.pick(&["body", "Header", "headers", "", "query", "Status"]), PV::Fields(vec![], MapShape::Struct))),
        4 => parts.insert(0, ("header", PV::Fields(vec![], MapShape::Struct))),
        5 => { if !parts.is_empty() { parts.remove(0); } }
        _ => {}
    }
    Msg::new(shape, parts, gen_body(r))
}
pub fn c06(rep: &mut Report) {
    big_response_head(rep);
    let h = H::new(0, status_msg(200));
    let srv = match one_server(HttpMethod::Get, ep("x"), &h) { Ok(s) => s, Err(e) => { rep.case("start a server", json!({}), || Err(e)); return; } };
    let mut r = Rng::new(rep.seed + 6);
    for b in big_bodies() {
        let m = Msg::new(Shape::StructVariant("Ok"), vec![("header", PV::Fields(vec![], MapShape::Struct))], b);
        rep.case("a large body", json!({"body": m.body.len()}), || respond(&srv, &h, &m).map(|_| ()));
    }
    for k in odd_kinds() {
        let m = Msg::new(Shape::Odd(k), vec![], vec![]);
        rep.case("a value of another kind", json!({"kind": k}), || respond(&srv, &h, &m).map(|_| ()));
        for m in &[Msg::new(Shape::Struct, vec![("status", PV::Odd(k))], vec![]), Msg::new(Shape::Struct, vec![("status", PV::One(Atom::U16(200))), ("header", PV::Odd(k))], vec![]), Msg::new(Shape::StructVariant("Ok"), vec![("header", PV::Odd(k))], vec![])] {
            // a bare value is no header, but what becomes of it is not laid down
            if m.parts.last().unwrap().0 == "header" && (SCALARS.iter().any(|s| s.0 == k) || k.contains("map") || ["bytes", "some", "unit struct", "newtype variant of bytes"].contains(&k)) { continue; }
            if m.parts[0].0 == "status" && m.parts.len() == 1 && SCALARS.iter().any(|s| s.0 == k) { continue; }
            rep.case("a part of another kind", json!({"kind": k, "value": format!("{:?}", m)}), || respond(&srv, &h, m).map(|_| ()));
        }
    }
    for first in &["HTTP/1.1 200 OK", "HTTP/1.1 404 x", "HTTP/1.1 503 Service Unavailable"] { for body in &["", "abc"] { for k in 0..4 {
        rep.case("a response without headers", json!({"head": first, "body": body, "fields": k}), || {
            let fs: Vec<Field> = (0..k).map(|k| Field { name: ["x-a", "x-b", "x-c"][k], kind: Kind::Str, optional: true, value: None }).collect();
            let got = client_reads(format!("{}\r\n\r\n{}", first, body).as_bytes(), Dec { header: Some(fs.clone()), ..Dec::default() })?.map_err(|e| format!("the client failed to decode: {}", e))?;
            if got.got.offered != ["status", "header"] || got.got.header != Some(vec![None; k]) { return Err(format!("client is offered {:?}: {:?}", got.got.offered, got.got.header)); }
            Ok(())
        });
    } } }
    for i in 0..rep.n(900, 20000) {
        let m = gen_response(&mut r);
        rep.case("response", json!({"value": format!("{:?} {:?}", m.shape, m.parts), "body_len": m.body.len()}), || {
            set_table(vec![(HttpMethod::Get, ep("x"))]);
            set_dec(Dec::default());
            let raw = match respond(&srv, &h, &m)? { Some(x) => x, None => return Ok(()) };
            if m.parts.iter().filter(|p| p.0 == "header").count() > 1 { return Ok(()); }
            let (code, _) = response_oracle(&m).unwrap();
            let fs = fields_of(&m, "header").cloned().unwrap_or_default();
            let as_enum = match i % 3 { 0 => None, 1 => Some(VariantKind::Struct), _ => Some(VariantKind::Newtype) };
            let got = client_reads(&raw, Dec { as_enum, newtype: i % 2 == 1, header: Some(fs.clone()), ..Dec::default() })?.map_err(|e| format!("the client failed to decode: {}", e))?;
            if got.got.header != Some(trimmed(&fs)) { return Err(format!("headers arrive as {:?}", got.got.header)); }
            if got.body != m.body { return Err("the body arrives changed".into()); }
            match as_enum {
                None => if got.got.status != Some(code) || got.got.offered != ["status", "header"] { return Err(format!("client is offered {:?}, status {:?}", got.got.offered, got.got.status)); },
                Some(VariantKind::Newtype) => if got.got.offered != ["status", "header"] && got.got.offered != ["header"] { return Err(format!("client is offered {:?}", got.got.offered)); },
                _ => if got.got.offered != ["header"] { return Err(format!("client is offered {:?}", got.got.offered)); },
            }
            if as_enum.is_some() && got.got.variant.as_ref().map(|s| s.as_str()) != name_of(code) { return Err(format!("variant {:?}", got.got.variant)); }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- requests (C05)
struct WantReq { segs: Vec<(String, bool)>, pairs: Vec<(String, String)>, lines: Vec<(String, Vec<u8>)> }
fn request_oracle(segs: &[Option<&'static str>], m: &Msg) -> Option<WantReq> {
    match m.shape { Shape::Struct | Shape::NewtypeStruct | Shape::NewtypeVariant(_) => {} Shape::StructVariant(_) if m.parts.is_empty() => {} _ => return None }
    let rank = |n: &str| match n { "path" => 0, "query" => 1, "header" => 2, _ => 9 };
    let mut last = -1i32;
    let mut w = WantReq { segs: vec![], pairs: vec![], lines: vec![] };
    let vars = segs.iter().filter(|s| s.is_none()).count();
    let mut values: Vec<(String, bool)> = vec![];
    for (k, v) in &m.parts {
        let i = rank(k);
        if i == 9 || i <= last { return None; }
        last = i;
        match (i, v) {
            (0, PV::Unit) => {}
            (0, PV::Tuple(a, _)) => values = a.iter().map(|a| (a.text(), matches!(a.kind(), Kind::F32 | Kind::F64))).collect(),
            (1, PV::Fields(f, _)) => w.pairs = f.iter().filter_map(|f| f.value.as_ref().map(|v| (f.name.to_string(), v.text()))).collect(),
            (2, PV::Fields(f, _)) => { if !headers_ok(f) { return None; } w.lines = header_texts(f); }
            _ => return None,
        }
    }
    if values.len() != vars { return None; }
    let mut it = values.into_iter();
    for (i, s) in segs.iter().enumerate() {
        w.segs.push(match *s {
            Some(s) => (s.to_string(), false),
            None => { let v = it.next().unwrap(); if !carriable(&v.0, i, segs.len()) { return None; } v }
        });
    }
    Some(w)
}
fn call_case(method: HttpMethod, segs: &[Option<&'static str>], m: &Msg, srv_too: bool) -> Res<()> {
    let before = panics();
    set_table(vec![(method, leak_ep(segs))]);
    set_dec(Dec::default());
    let lis = Lis::new();
    let want = request_oracle(segs, m);
    let rx = start(RpcClient::new(lis.addr).call::<Proc<0>>(m.clone()));
    let mut p = lis.accept(SLOW).ok_or("the client does not connect")?;
    let got = p.message(false);
    if got.is_err() { let _ = no_panic(before)?; }
    let got = got?;
    let (hd, body) = match (got, &want) {
        (None, None) => {
            let r = wait(&rx);
            no_panic(before)?;
            return match r? { Err(_) => Ok(()), Ok(_) => Err("the call succeeded without sending a request".into()) };
        }
        (None, Some(_)) => { let e = wait(&rx); no_panic(before)?; return Err(format!("the call sent no request: {:?}", e.map(|r| r.map(|_| ())))); }
        (Some((hd, _)), None) => return Err(format!("sent {:?} for a call that cannot be described", String::from_utf8_lossy(&hd.raw))),
        (Some(x), Some(_)) => x,
    };
    let want = want.unwrap();
    p.send(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")?;
    let r = wait(&rx);
    no_panic(before)?;
    r?.map_err(|e| format!("the call failed: {}", e))?;
    p.close_clean()?;
    if lis.try_accept().is_some() { return Err("the call opened a second connection".into()); }
    // the request line
    if hd.first.len() != 3 || hd.first[0] != method.as_str() || hd.first[2] != "HTTP/1.1" { return Err(format!("request line {:?}", hd.first)); }
    let t = &hd.first[1];
    if !t.starts_with('/') || t.contains('#') || !t.bytes().all(|b| b > 0x20 && b < 0x7f) { return Err(format!("request target {:?}", t)); }
    let (path, query) = match t.find('?') { Some(i) => (&t[..i], &t[i + 1..]), None => (&t[..], "") };
    let parts: Vec<&str> = path[1..].split('/').collect();
    if parts.len() != segs.len() { return Err(format!("target {:?} has {} segments, expected {}", t, parts.len(), segs.len())); }
    for (g, w) in parts.iter().zip(&want.segs) {
        let d = strict_decode(g).ok_or_else(|| format!("segment {:?} is not percent-encoded UTF-8", g))?;
        if d != w.0 && !(w.1 && d.parse::<f64>().ok() == w.0.parse::<f64>().ok()) { return Err(format!("segment {:?}, expected {:?}", g, w.0)); }
    }
    let pairs: Vec<(String, String)> = url::form_urlencoded::parse(query.as_bytes()).map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
    if pairs != want.pairs { return Err(format!("query {:?} holds {:?}, expected {:?}", query, pairs, want.pairs)); }
    let rest: Vec<(String, Vec<u8>)> = hd.lines.iter().filter(|l| !l.0.eq_ignore_ascii_case("content-length")).cloned().collect();
    if rest != want.lines { return Err(format!("header lines {:?}, expected {:?}", rest, want.lines)); }
    if body != m.body { return Err(format!("body of {} bytes differs from the {} supplied", body.len(), m.body.len())); }
    if !srv_too { return Ok(()); }
    // the server decodes the same parts from these bytes
    let h = H::new(0, status_msg(200));
    let srv = one_server(method, leak_ep(segs), &h)?;
    let atoms = m.parts.iter().find(|p| p.0 == "path").and_then(|p| if let PV::Tuple(ref a, sh) = p.1 { Some((a.clone(), sh)) } else { None });
    let q = fields_of(m, "query").cloned();
    let hf = fields_of(m, "header").cloned();
    set_dec(Dec { path: atoms.as_ref().map(|a| (a.0.iter().map(|x| x.kind()).collect(), a.1)), query: q.clone(), header: hf.clone(), newtype: m.shape == Shape::NewtypeStruct, ..Dec::default() });
    let mut p = Peer::connect(srv.addr)?;
    // any part of the target may be followed by a fragment, and the host may come first
    let line = hd.raw.iter().position(|b| *b == b'\r').unwrap();
    let target = match m.body.len() % 6 { 3 => t.replacen('?', "?&", 1), 4 if t.contains('?') => format!("{}&&", t), 0 => format!("{}#frag", t), 1 => format!("http://h:80{}", t), 2 => format!("{}#?q=9/z", t), _ => t.clone() };
    p.send(format!("{} {} HTTP/1.1", method.as_str(), target).as_bytes())?;
    p.send(&hd.raw[line..])?;
    p.send(&body)?;
    let a = p.message(method == HttpMethod::Head);
    no_panic(before)?;
    let a = a?.ok_or("the server closed the connection")?;
    let log = h.take_log();
    if log.len() != 1 { return Err(format!("the handler ran {} times; answer {:?} {:?}", log.len(), a.0.first, String::from_utf8_lossy(&a.1))); }
    let got = &log[0].1;
    if got.got.offered != ["path", "query", "header"] { return Err(format!("the server offers {:?}", got.got.offered)); }
    if got.got.path != atoms.map(|a| a.0) { return Err(format!("path decoded as {:?}", got.got.path)); }
    if got.got.query != q.map(|f| f.iter().map(|x| x.value.clone()).collect()) { return Err(format!("query decoded as {:?}", got.got.query)); }
    if got.got.header != hf.map(|f| trimmed(&f)) { return Err(format!("header decoded as {:?}", got.got.header)); }
    if got.body != body { return Err("the body arrives changed".into()); }
    if a.0.first[1] != "200" { return Err(format!("answer {:?}", a.0.first)); }
    p.close_clean()
}
fn gen_request(r: &mut Rng, segs: &[Option<&'static str>]) -> Msg {
    let vars = segs.iter().filter(|s| s.is_none()).count();
    let n = if r.chance(1, 20) { r.below(4) } else { vars };
    let atoms: Vec<Atom> = (0..n).map(|_| {
        let k = gen_kind(r);
        let mut a = gen_atom(r, k);
        if let Atom::Str(ref mut s) = a { if r.chance(2, 3) && !(s.chars().all(|c| !c.is_control()) && !s.is_empty() && *s != "." && *s != "..") { *s = "ok é/%".to_string(); } }
        a
    }).collect();
    let mut parts = vec![];
    if vars > 0 || r.chance(1, 2) {
        let p = if atoms.is_empty() && r.chance(3, 4) { PV::Unit } else { PV::Tuple(atoms, *r.pick(&[TupleShape::Tuple, TupleShape::TupleStruct, TupleShape::Newtype, TupleShape::Variant, TupleShape::NewtypeVariant])) };
        if r.chance(19, 20) { parts.push(("path", p)); }
    }
    if r.chance(1, 2) { let f = gen_fields(r, NAMES, false); parts.push(("query", PV::Fields(f, *r.pick(&[MapShape::Struct, MapShape::Map])))); }
    if r.chance(1, 2) { let f = gen_header(r); parts.push(("header", PV::Fields(f, *r.pick(&[MapShape::Struct, MapShape::Map])))); }
    match r.below(14) {
        0 => parts.reverse(),
        1 => { let i = r.below(parts.len() + 1); parts.insert(i, (*r.pick(&["body", "paths", "", "status", "Path", "headers"]), PV::Fields(vec![], MapShape::Struct))); }
        2 if parts.len() > 1 => { let k = parts.len() - 1; parts.swap(k, k - 1); }
        3 => { parts.pop(); }
        _ => {}
    }
    let shape = match r.below(12) { 0 => odd_shape(r), 1 | 2 => Shape::NewtypeStruct, 3 => Shape::NewtypeVariant("V"), _ => Shape::Struct };
    Msg::new(shape, parts, gen_body(r))
}
/// Bodies beyond any usual buffer.
pub fn big_bodies() -> Vec<Vec<u8>> { [100_000usize, 1 << 20, (1 << 20) + 1, 3_000_003, 17_000_000].iter().map(|n| (0..*n).map(|k| (k / 7 + k) as u8).collect()).collect() }
pub fn c05(rep: &mut Report) {
    big_request_head(rep);
    for b in big_bodies() {
        let m = Msg::new(Shape::Struct, vec![("query", PV::Fields(vec![], MapShape::Struct))], b);
        rep.case("a large body", json!({"body": m.body.len()}), || call_case(HttpMethod::Post, &[Some("x")], &m, true));
    }
    let mut r = Rng::new(rep.seed + 5);
    let f = |name, v: Atom| Field { name, kind: v.kind(), optional: false, value: Some(v) };
    for k in odd_kinds() {
        for segs in &[vec![Some("x")], vec![Some("x"), None]] {
            let m = Msg::new(Shape::Odd(k), vec![], vec![]);
            rep.case("a value of another kind", json!({"kind": k, "entry_point": segs}), || call_case(HttpMethod::Get, segs, &m, false));
        }
    }
    for segs in &[vec![Some("x")], vec![Some("x"), None]] {
        rep.case("a unit variant", json!({"entry_point": segs}), || call_case(HttpMethod::Get, segs, &Msg::new(Shape::UnitVariant("Ok"), vec![], vec![]), false));
    }
    for &n in &["path", "query", "header"] {
        let p = match n { "path" => PV::Unit, _ => PV::Fields(vec![], MapShape::Struct) };
        let m = Msg::new(Shape::StructVariant("V"), vec![(n, p)], vec![]);
        rep.case("a struct variant", json!({"part": n}), || call_case(HttpMethod::Get, &[Some("x")], &m, false));
    }
    for &k in &["bytes", "none", "seq", "tuple", "tuple struct", "tuple variant", "unit"] {
        for n in 0..3 {
            if n == 0 && (k.starts_with("tuple") || k == "unit") || n == 2 && k == "bytes" { continue; }
            let mut parts = vec![("path", PV::Unit), ("query", PV::Fields(vec![], MapShape::Struct)), ("header", PV::Fields(vec![], MapShape::Struct))];
            parts[n].1 = PV::Odd(k);
            let m = Msg::new(Shape::Struct, parts, vec![]);
            rep.case("a part of another kind", json!({"kind": k, "part": n}), || call_case(HttpMethod::Get, &[Some("x")], &m, false));
        }
    }
    // every subset and order of the three parts, with and without variables
    for segs in &[vec![Some("x")], vec![Some("x"), None], vec![None]] {
        let vars = segs.iter().filter(|s| s.is_none()).count();
        let all: Vec<(&'static str, PV)> = vec![
            ("path", if vars == 0 { PV::Unit } else { PV::Tuple(vec![Atom::Str("v é".into())], TupleShape::Tuple) }),
            ("query", PV::Fields(vec![f("q", Atom::Str("a b&c".into()))], MapShape::Struct)),
            ("header", PV::Fields(vec![f("x-h", Atom::U8(5))], MapShape::Struct)),
            ("extra", PV::Unit)];
        for a in 0..5usize { for b in 0..5usize { for c in 0..5usize {
            let idx: Vec<usize> = [a, b, c].iter().cloned().filter(|i| *i < 4).collect();
            if idx.iter().enumerate().any(|(i, x)| idx[..i].contains(x)) { continue; }
            let parts: Vec<_> = idx.iter().map(|i| all[*i].clone()).collect();
            for shape in &[Shape::Struct, Shape::NewtypeStruct] {
                let m = Msg::new(*shape, parts.clone(), b"body".to_vec());
                rep.case("request parts", json!({"entry_point": segs, "parts": idx, "shape": format!("{:?}", shape)}), || call_case(HttpMethod::Post, segs, &m, true));
            }
        } } }
    }
    for m in METHODS {
        let q = Msg::new(Shape::Struct, vec![("query", PV::Fields(vec![f("q", Atom::Bool(true))], MapShape::Struct))], b"12345".to_vec());
        rep.case("method", json!({"method": m.as_str()}), || call_case(*m, &[Some("a"), Some("b")], &q, true));
    }
    for i in 0..rep.n(700, 15000) {
        let segs = gen_ep(&mut r);
        let m = gen_request(&mut r, &segs);
        let method = pick_method(&mut r);
        rep.case("request", json!({"method": method.as_str(), "entry_point": segs, "request": format!("{:?} {:?}", m.shape, m.parts), "body_len": m.body.len()}), || call_case(method, &segs, &m, i % 2 == 0));
    }
}

// ---------------------------------------------------------------- heads beyond the HTTP library's buffer (known findings)
fn big_field() -> Vec<Field> { vec![Field { name: "x-big", kind: Kind::Str, optional: false, value: Some(Atom::Str("y".repeat(9000))) }] }
fn big_request_head(rep: &mut Report) {
    set_table(vec![(HttpMethod::Get, ep("x"))]);
    set_dec(Dec::default());
    let lis = Lis::new();
    let rx = start(RpcClient::new(lis.addr).call::<Proc<0>>(Msg::new(Shape::Struct, vec![("header", PV::Fields(big_field(), MapShape::Struct))], vec![])));
    let mut what = "no connection".to_string();
    let mut cut = false;
    if let Some(mut p) = lis.accept(SLOW) {
        while !p.closed_within(std::time::Duration::from_millis(300)) && p.buf.len() < 20000 { if p.buf.len() == what.len() { break; } what = "x".repeat(p.buf.len()); }
        let failed = rx.recv_timeout(std::time::Duration::from_millis(100)).map(|r| r.is_err()).unwrap_or(false);
        cut = !failed && !p.buf.windows(4).any(|w| w == b"\r\n\r\n") && !p.buf.is_empty();
        what = format!("{} bytes without the end of the head", p.buf.len());
    }
    rep.known_finding("C05-big-head", cut, &what);
}
fn big_response_head(rep: &mut Report) {
    let h = H::new(0, Msg::new(Shape::StructVariant("Ok"), vec![("header", PV::Fields(big_field(), MapShape::Struct))], b"body".to_vec()));
    let srv = match one_server(HttpMethod::Get, ep("x"), &h) { Ok(s) => s, Err(_) => return };
    set_dec(Dec::default());
    let mut cut = false;
    let mut what = String::new();
    if let Ok(mut p) = Peer::connect(srv.addr) {
        let _ = p.send(b"GET /x HTTP/1.1\r\n\r\n");
        let mut n = 1;
        let mut closed = false;
        while n != p.buf.len() && !closed { n = p.buf.len(); closed = p.closed_within(std::time::Duration::from_millis(300)); }
        cut = !closed && !p.buf.is_empty() && !p.buf.windows(4).any(|w| w == b"\r\n\r\n");
        what = format!("{} bytes without the end of the head", p.buf.len());
    }
    rep.known_finding("C06-big-head", cut, &what);
}
