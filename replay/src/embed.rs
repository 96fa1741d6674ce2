//! C13 (problem details) and C14 (values embedded as JSON or MessagePack).
use crate::codec::reparse;
use crate::e2e::*;
use crate::gen::*;
use crate::net::*;
use crate::report::Report;
use futures::Future;
use htrpc::rfc7807::{AboutBlankProblem, Problem, ProblemResponse, TrackableProblem};
use htrpc::types::{EntryPoint, HttpMethod, HttpStatus, NeverFail};
use htrpc::{HandleRpc, Procedure, RpcClient, RpcResponse, RpcServerBuilder};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use trackable::error::ErrorKindExt;

#[derive(Debug, Serialize, Deserialize)]
enum Answer {
    Ok { header: Empty },
    BadRequest(ProblemResponse), Unauthorized(ProblemResponse), Forbidden(ProblemResponse), NotFound(ProblemResponse), MethodNotAllowed(ProblemResponse), Conflict(ProblemResponse),
    ImATeapot(ProblemResponse), InternalServerError(ProblemResponse), ServiceUnavailable(ProblemResponse), Created(ProblemResponse),
}
#[derive(Debug, Serialize, Deserialize)]
struct Empty {}
impl Answer {
    fn inner(&self) -> Option<(&'static str, &ProblemResponse)> {
        Some(match *self {
            Answer::Ok { .. } => return None,
            Answer::BadRequest(ref p) => ("BadRequest", p), Answer::Unauthorized(ref p) => ("Unauthorized", p), Answer::Forbidden(ref p) => ("Forbidden", p), Answer::NotFound(ref p) => ("NotFound", p),
            Answer::MethodNotAllowed(ref p) => ("MethodNotAllowed", p), Answer::Conflict(ref p) => ("Conflict", p), Answer::ImATeapot(ref p) => ("ImATeapot", p),
            Answer::InternalServerError(ref p) => ("InternalServerError", p), Answer::ServiceUnavailable(ref p) => ("ServiceUnavailable", p), Answer::Created(ref p) => ("Created", p),
        })
    }
    fn inner_mut(&mut self) -> Option<&mut ProblemResponse> {
        Some(match *self {
            Answer::Ok { .. } => return None,
            Answer::BadRequest(ref mut p) | Answer::Unauthorized(ref mut p) | Answer::Forbidden(ref mut p) | Answer::NotFound(ref mut p) | Answer::MethodNotAllowed(ref mut p) | Answer::Conflict(ref mut p)
            | Answer::ImATeapot(ref mut p) | Answer::InternalServerError(ref mut p) | Answer::ServiceUnavailable(ref mut p) | Answer::Created(ref mut p) => p,
        })
    }
    fn wrap(n: &str, p: ProblemResponse) -> Answer {
        match n {
            "BadRequest" => Answer::BadRequest(p), "Unauthorized" => Answer::Unauthorized(p), "Forbidden" => Answer::Forbidden(p), "NotFound" => Answer::NotFound(p), "MethodNotAllowed" => Answer::MethodNotAllowed(p),
            "Conflict" => Answer::Conflict(p), "ImATeapot" => Answer::ImATeapot(p), "ServiceUnavailable" => Answer::ServiceUnavailable(p), "Created" => Answer::Created(p), _ => Answer::InternalServerError(p),
        }
    }
}
impl RpcResponse for Answer {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { match self.inner_mut() { Some(p) => p.body(), None => Box::new(vec![]) } }
    fn set_body(&mut self, body: Vec<u8>) { if let Some(p) = self.inner_mut() { p.set_body(body); } }
}
struct Direct;
impl Procedure for Direct {
    type Request = Msg;
    type Response = ProblemResponse;
    fn method() -> HttpMethod { HttpMethod::Get }
    fn entry_point() -> EntryPoint { ep("direct") }
}
struct Inside;
impl Procedure for Inside {
    type Request = Msg;
    type Response = Answer;
    fn method() -> HttpMethod { HttpMethod::Get }
    fn entry_point() -> EntryPoint { ep("inside") }
}
#[derive(Clone)]
struct Give(Arc<Mutex<Option<ProblemResponse>>>);
impl HandleRpc<Direct> for Give {
    type Future = Box<dyn Future<Item = ProblemResponse, Error = NeverFail> + Send + 'static>;
    fn handle_rpc(self, _: Msg) -> Self::Future { let p = self.0.lock().unwrap().take().expect("a problem"); Box::new(futures::finished(p)) }
}
impl HandleRpc<Inside> for Give {
    type Future = Box<dyn Future<Item = Answer, Error = NeverFail> + Send + 'static>;
    fn handle_rpc(self, _: Msg) -> Self::Future {
        let p = self.0.lock().unwrap().take().expect("a problem");
        let c = to_json(p.problem())["status"].as_u64().unwrap_or(0) as u16;
        Box::new(futures::finished(Answer::wrap(name_of(c).unwrap_or(""), p)))
    }
}
fn to_json(p: &Problem) -> Value { serde_json::to_value(p).unwrap_or(Value::Null) }
fn status(c: u16) -> Option<HttpStatus> { miasht::status::RawStatus::new(c, "").normalize() }
const TRACK: &str = "https://docs.rs/htrpc/0.0.2/htrpc/rfc7807/struct.TrackableProblem.html";
const WRAPPED: &[u16] = &[400, 401, 403, 404, 405, 409, 418, 500, 503, 201];
fn text(r: &mut Rng) -> String { if let Some(s) = dict_str(r) { return s.to_string(); } if r.chance(1, 8) { return gen_long(r, 300); } r.pick(&["", "plain", "é \u{1F600}", "quote \" and \\ back", "line\nbreak\ttab", "\u{0}\u{1f}", "</script>", "{\"status\":1}"]).to_string() }
/// An error that names its source.
#[derive(Debug)]
struct Told { says: String, source: Option<std::io::Error>, history: Option<trackable::History<trackable::Location>> }
impl std::fmt::Display for Told { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.says) } }
impl std::error::Error for Told { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.source.as_ref().map(|e| e as _) } }
impl trackable::Trackable for Told {
    type Event = trackable::Location;
    fn history(&self) -> Option<&trackable::History<trackable::Location>> { self.history.as_ref() }
    fn history_mut(&mut self) -> Option<&mut trackable::History<trackable::Location>> { self.history.as_mut() }
}
/// A problem and the JSON it must become.
fn gen_problem(r: &mut Rng, code: u16) -> (Problem, Value) {
    match r.below(6) {
        5 if status(code).is_some() => {
            let mut e = Told { says: text(r), source: None, history: None };
            let mut v = json!({"type": TRACK, "title": e.says, "status": code});
            if r.chance(3, 4) { let t = text(r); v["detail"] = json!(t); e.source = Some(std::io::Error::new(std::io::ErrorKind::Other, t)); }
            if r.chance(3, 4) {
                e.history = Some(trackable::History::new());
                for _ in 0..*r.pick(&[0usize, 1, 3, 40]) { e = trackable::track!(e); }
                v["history"] = json!(e.history.as_ref().unwrap().events().iter().map(|e| e.to_string()).collect::<Vec<_>>());
            }
            (Problem::trackable(status(code).unwrap(), e), v)
        }
        0 if status(code).is_some() => {
            let s = status(code).unwrap();
            let v = json!({"type": "about:blank", "title": s.reason_phrase(), "status": code});
            (Problem::about_blank(s), v)
        }
        1 => {
            let title = text(r);
            let v = json!({"type": "about:blank", "title": title, "status": code});
            (Problem::from(AboutBlankProblem { title, status: code }), v)
        }
        2 if status(code).is_some() => {
            let msg = text(r);
            let e = trackable::track!(htrpc::Error::from(htrpc::ErrorKind::Invalid.cause(msg.clone())));
            let mut e = e;
            for _ in 0..match r.below(8) { 0..=2 => 0, 3..=5 => 1, 6 => 5 + r.below(10), _ => 30 } { e = trackable::track!(e); }
            let title = e.to_string();
            let detail = std::error::Error::source(&e).map(|c| c.to_string());
            let history: Option<Vec<String>> = trackable::Trackable::history(&e).map(|h| h.events().iter().map(|e| e.to_string()).collect());
            let mut v = json!({"type": TRACK, "title": title, "status": code});
            if let Some(d) = detail { v["detail"] = json!(d); }
            if let Some(h) = history { v["history"] = json!(h); }
            (Problem::trackable(status(code).unwrap(), e), v)
        }
        _ => {
            let title = text(r);
            let mut v = json!({"type": TRACK, "title": title, "status": code});
            let detail = if r.chance(1, 2) { let t = text(r); v["detail"] = json!(t); Some(t) } else { None };
            let instance = if r.chance(1, 2) { v["instance"] = json!("http://a/b?c=%20"); Some(url::Url::parse("http://a/b?c=%20").unwrap()) } else { None };
            let history = if r.chance(1, 2) { let h: Vec<String> = (0..if r.chance(1, 12) { 5 + r.below(90) } else { r.below(4) }).map(|_| text(r)).collect(); v["history"] = json!(h); Some(h) } else { None };
            (Problem::from(TrackableProblem { title, status: code, detail, instance, history }), v)
        }
    }
}
fn start_problem_server(g: &Give) -> Res<Srv> {
    let addr = free_addr();
    let mut b = RpcServerBuilder::new(addr);
    b.register(g.clone(), Direct).map_err(|e| e.to_string())?;
    b.register(g.clone(), Inside).map_err(|e| e.to_string())?;
    serve(b, addr)
}
fn problem_case(srv: &Srv, g: &Give, problems: Vec<(Problem, Value)>, inside: bool) -> Res<()> {
    let before = panics();
    set_dec(Dec::default());
    let want = problems.last().unwrap().1.clone();
    let code = want["status"].as_u64().unwrap() as u16;
    let mut it = problems.into_iter();
    let mut resp = it.next().unwrap().0.into_response();
    for (p, _) in it { resp.set_problem(p); }
    if to_json(resp.problem()) != want { return Err(format!("the response holds {}", to_json(resp.problem()))); }
    *g.0.lock().unwrap() = Some(resp);
    let mut p = Peer::connect(srv.addr)?;
    p.send(format!("GET /{} HTTP/1.1\r\n\r\n", if inside { "inside" } else { "direct" }).as_bytes())?;
    let m = p.message(false);
    no_panic(before)?;
    let (hd, body) = match (m?, name_of(code)) {
        (None, None) => return Ok(()),
        (None, Some(_)) => return Err("no response".into()),
        (Some((h, _)), None) => return Err(format!("a response {:?} for an unsupported status", h.first)),
        (Some(x), Some(_)) => x,
    };
    if hd.first[1] != code.to_string() { return Err(format!("sent with status {}, the problem declares {}", hd.first[1], code)); }
    if hd.get("content-type") != [&b"application/problem+json"[..]] { return Err(format!("content type {:?}", hd.text("content-type"))); }
    if hd.lines.len() != 2 { return Err(format!("header lines {:?}", String::from_utf8_lossy(&hd.raw))); }
    let v: Value = serde_json::from_slice(&body).map_err(|e| format!("the body is not JSON: {}", e))?;
    if v != want { return Err(format!("the body is {}, expected {}", v, want)); }
    // a client reads it back
    let raw = [&hd.raw[..], &body[..]].concat();
    let got = read_problem::<Direct>(&raw)?.map_err(|e| format!("a client failed to decode: {}", e))?;
    if to_json(got.problem()) != want { return Err(format!("a client obtains {}", to_json(got.problem()))); }
    if WRAPPED.contains(&code) {
        let got = read_problem::<Inside>(&raw)?.map_err(|e| format!("a client failed to decode the variant: {}", e))?;
        match got.inner() {
            Some((n, q)) if Some(n) == name_of(code) => if to_json(q.problem()) != want { return Err(format!("a client obtains {} inside {}", to_json(q.problem()), n)); },
            x => return Err(format!("a client obtains the variant {:?}", x.map(|x| x.0))),
        }
    }
    Ok(())
}
fn read_problem<P>(raw: &[u8]) -> Res<Result<P::Response, String>>
where P: Procedure<Request = Msg> + 'static, P::Response: Send + 'static {
    let before = panics();
    let lis = Lis::new();
    let rx = start(SendCall(RpcClient::new(lis.addr).call::<P>(Msg::new(Shape::Struct, vec![], vec![]))));
    let mut p = lis.accept(SLOW).ok_or("the client does not connect")?;
    p.head()?.ok_or("no request")?;
    p.send(raw)?;
    let _ = p.s.shutdown(std::net::Shutdown::Write);
    let r = wait(&rx);
    no_panic(before)?;
    r
}
struct SendCall<P: Procedure>(htrpc::types::Call<P>);
impl<P: Procedure> Future for SendCall<P> {
    type Item = P::Response;
    type Error = htrpc::Error;
    fn poll(&mut self) -> futures::Poll<P::Response, htrpc::Error> { self.0.poll() }
}
unsafe impl<P: Procedure> Send for SendCall<P> {}
pub fn c13(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 13);
    let g = Give(Arc::new(Mutex::new(None)));
    let srv = match start_problem_server(&g) { Ok(s) => s, Err(e) => { rep.case("start a server", json!({}), || Err(e)); return; } };
    for &(n, c) in STATUS {
        rep.case("about:blank", json!({"status": n}), || {
            let s = status(c).ok_or("unknown status")?;
            let v = json!({"type": "about:blank", "title": s.reason_phrase(), "status": c});
            problem_case(&srv, &g, vec![(Problem::about_blank(s), v)], false)
        });
    }
    for _ in 0..rep.n(500, 8000) {
        let k = 1 + if r.chance(1, 2) { 0 } else { r.below(3) };
        let problems: Vec<(Problem, Value)> = (0..k).map(|_| { let c = match r.below(10) { 0 => *r.pick(&[0u16, 99, 299, 999, 65535]), 1 | 2 | 3 | 4 => *r.pick(WRAPPED), _ => r.pick(STATUS).1 }; gen_problem(&mut r, c) }).collect();
        let inside = r.chance(1, 3);
        let shown: Vec<&Value> = problems.iter().map(|p| &p.1).collect();
        rep.case("problem", json!({"problems_set_in_order": shown, "inside_a_variant": inside}), || problem_case(&srv, &g, problems, inside));
    }
    let default = json!({"type": "about:blank", "title": "Internal Server Error", "status": 500});
    for b in &["", "x", "{}", "[]", "null", "{\"type\":\"other\",\"title\":\"t\",\"status\":404}", "{\"type\":\"about:blank\"}", "{\"type\":\"about:blank\",\"title\":\"t\",\"status\":\"404\"}", "{\"type\":\"about:blank\",\"title\":\"t\",\"status\":70000}",
               "{\"title\":\"t\",\"status\":404}", "{\"type\":\"about:blank\",\"title\":\"t\",\"status\":404", "\u{1F600}", "{\"type\":\"about:blank\",\"title\":\"t\",\"status\":404} x"] {
        for code in WRAPPED {
            rep.case("body that is no problem", json!({"status": code, "body": b}), || {
                let raw = format!("HTTP/1.1 {} X\r\nContent-Type: application/problem+json\r\nContent-Length: {}\r\n\r\n{}", code, b.len(), b).into_bytes();
                let got = read_problem::<Direct>(&raw)?.map_err(|e| format!("a client failed to decode: {}", e))?;
                if to_json(got.problem()) != default { return Err(format!("a client obtains {}", to_json(got.problem()))); }
                let got = read_problem::<Inside>(&raw)?.map_err(|e| format!("a client failed to decode the variant: {}", e))?;
                match got.inner() { Some((_, q)) if to_json(q.problem()) == default => Ok(()), x => Err(format!("a client obtains {:?}", x.map(|x| (x.0, to_json(x.1.problem()))))) }
            });
        }
    }
    for b in &[&b"\xff\xfe"[..], b"\0", b"{\"type\":\"about:blank\",\"title\":\"\xff\",\"status\":404}"] {
        rep.case("body that is no problem", json!({"bytes": b}), || {
            let mut raw = format!("HTTP/1.1 404 X\r\nContent-Type: application/problem+json\r\nContent-Length: {}\r\n\r\n", b.len()).into_bytes();
            raw.extend_from_slice(b);
            let got = read_problem::<Direct>(&raw)?.map_err(|e| format!("a client failed to decode: {}", e))?;
            if to_json(got.problem()) != default { return Err(format!("a client obtains {}", to_json(got.problem()))); }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C14
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Leaf { Unit, New(i64), Tup(u8, String), St { a: Option<bool>, b: Vec<u16> } }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Deep { n: u64, i: i32, f: f64, s: String, o: Option<Box<Deep>>, l: Vec<Leaf>, m: BTreeMap<String, i8>, t: (bool, u8), u: () }
fn leaf(r: &mut Rng) -> Leaf {
    match r.below(4) { 0 => Leaf::Unit, 1 => Leaf::New(r.next() as i64), 2 => Leaf::Tup(r.next() as u8, text(r)), _ => Leaf::St { a: *r.pick(&[None, Some(true), Some(false)]), b: (0..r.below(4)).map(|_| r.next() as u16).collect() } }
}
fn deep(r: &mut Rng, d: usize) -> Deep {
    Deep { n: if r.chance(1, 2) { r.next() } else { *r.pick(&[0, 127, 128, 255, 256, 65535, 65536, u64::MAX]) }, i: r.next() as i32, f: *r.pick(&[0.0, -1.5, 1e300, 0.1, 123456789.125]), s: text(r),
           o: if d > 0 && r.chance(1, 2) { Some(Box::new(deep(r, d - 1))) } else { None }, l: (0..r.below(4)).map(|_| leaf(r)).collect(),
           m: (0..r.below(3)).map(|i| (format!("{}{}", text(r), i), r.next() as i8)).collect(), t: (r.chance(1, 2), r.next() as u8), u: () }
}
macro_rules! holders { ($name:ident, $t:ty, $j:ident, $p:ident, $m:ident) => {
    #[derive(Debug, Clone, Serialize, Deserialize)] struct $j { #[serde(with = "htrpc::json")] v: $t }
    #[derive(Debug, Clone, Serialize, Deserialize)] struct $p { #[serde(with = "htrpc::json_pretty")] v: $t }
    #[derive(Debug, Clone, Serialize, Deserialize)] struct $m { #[serde(with = "htrpc::msgpack")] v: $t }
    /// One value through the three helpers, in a JSON document, a query and a header.
    fn $name(v: &$t) -> Res<()> {
        let same = |x: &$t, how: &str| if format!("{:?}", x) == format!("{:?}", v) { Ok(()) } else { Err(format!("{} gives {:?}", how, x)) };
        let compact = serde_json::to_string(v).map_err(|e| e.to_string())?;
        let pretty = serde_json::to_string_pretty(v).map_err(|e| e.to_string())?;
        let packed = serdeconv::to_msgpack_vec(v).map_err(|e| e.to_string())?;
        let oracle: $t = serde_json::from_str(&compact).map_err(|e| e.to_string())?;
        let exact = format!("{:?}", oracle) == format!("{:?}", v);
        let (a, b, c) = ($j { v: v.clone() }, $p { v: v.clone() }, $m { v: v.clone() });
        let (ja, jb, jc) = (serde_json::to_value(&a).map_err(|e| e.to_string())?, serde_json::to_value(&b).map_err(|e| e.to_string())?, serde_json::to_value(&c).map_err(|e| e.to_string())?);
        if ja != json!({"v": compact}) { return Err(format!("json embeds {}", ja)); }
        if jb != json!({"v": pretty}) { return Err(format!("json_pretty embeds {}", jb)); }
        if jc != json!({"v": packed}) { return Err(format!("msgpack embeds {}, expected {:?}", jc, packed)); }
        if exact {
            same(&serde_json::from_value::<$j>(ja.clone()).map_err(|e| format!("json: {}", e))?.v, "json")?;
            same(&serde_json::from_value::<$p>(jb).map_err(|e| format!("json_pretty: {}", e))?.v, "json_pretty")?;
            same(&serde_json::from_value::<$p>(ja).map_err(|e| format!("json_pretty: {}", e))?.v, "json_pretty")?;
        }
        same(&serde_json::from_value::<$m>(jc).map_err(|e| format!("msgpack: {}", e))?.v, "msgpack")?;
        one_call(v)?;
        // inside a query
        let mut url = url::Url::parse("http://h/p").unwrap();
        { let mut s = htrpc::serializers::UrlQuerySerializer::new(url.query_pairs_mut()); serde::Serialize::serialize(&a, &mut s).map_err(|e| format!("query: {}", e))?; }
        let u = reparse(&url.as_str()["http://h".len()..])?;
        let pairs: Vec<(String, String)> = u.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
        if pairs != [("v".to_string(), compact.clone())] { return Err(format!("the query holds {:?}", pairs)); }
        let mut d = htrpc::deserializers::UrlQueryDeserializer::new(u.query_pairs());
        let back: Result<$j, _> = serde::Deserialize::deserialize(&mut d);
        if exact { same(&back.map_err(|e| format!("query: {}", e))?.v, "the query")?; }
        Ok(())
    }
    }
}
holders!(one_deep, Deep, JDeep, PDeep, MDeep);
holders!(one_leaf, Leaf, JLeaf, PLeaf, MLeaf);
holders!(one_text, String, JStr, PStr, MStr);
holders!(one_list, Vec<Option<u32>>, JList, PList, MList);
holders!(one_num, i64, JNum, PNum, MNum);
holders!(one_bool, bool, JBool, PBool, MBool);
holders!(one_char, char, JChar, PChar, MChar);
holders!(one_opt, Option<i32>, JOpt, POpt, MOpt);
holders!(one_unit, (), JUnit, PUnit, MUnit);
holders!(one_map, BTreeMap<String, Option<bool>>, JMap, PMap, MMap);
holders!(one_float, f64, JFloat, PFloat, MFloat);
holders!(one_nested, Vec<Vec<u8>>, JNested, PNested, MNested);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)] struct Nothing;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)] struct Wrap(Option<String>);
holders!(one_nothing, Nothing, JNothing, PNothing, MNothing);
holders!(one_wrap, Wrap, JWrap, PWrap, MWrap);
/// Refuses only binary (MessagePack is not human readable) or only readable formats, or fails half way.
struct Picky(u8);
impl serde::Serialize for Picky {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeSeq, SerializeMap};
        match self.0 {
            // a sequence or map of unknown length: JSON can, MessagePack cannot
            0 => { let mut q = s.serialize_seq(None)?; q.serialize_element(&1)?; q.end() }
            1 => { let mut q = s.serialize_map(None)?; q.serialize_entry("a", &1)?; q.end() }
            // keys that are not strings: MessagePack can, JSON cannot
            2 => { let mut q = s.serialize_map(Some(1))?; q.serialize_entry(&(1, 2), &1)?; q.end() }
            3 => { let mut q = s.serialize_seq(Some(2))?; q.serialize_element(&1)?; q.serialize_element(&Refuses)?; q.end() }
            _ => Err(S::Error::custom("no")),
        }
    }
}
/// Records the one call made on it.
struct Rec;
#[derive(Debug)] struct RecErr(String);
impl std::fmt::Display for RecErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for RecErr {}
impl serde::ser::Error for RecErr { fn custom<T: std::fmt::Display>(t: T) -> Self { RecErr(t.to_string()) } }
#[derive(Debug, PartialEq)] enum Got { Str(String), Bytes(Vec<u8>), List(Vec<u8>), Other(&'static str) }
struct RecSeq(Vec<u8>, bool);
impl serde::ser::SerializeSeq for RecSeq {
    type Ok = Got; type Error = RecErr;
    fn serialize_element<T: serde::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        match serde_json::to_value(v).ok().and_then(|x| x.as_u64()) { Some(n) if n < 256 => self.0.push(n as u8), _ => self.1 = true }
        Ok(())
    }
    fn end(self) -> Result<Got, RecErr> { Ok(if self.1 { Got::Other("list of something else") } else { Got::List(self.0) }) }
}
macro_rules! other { ($($m:ident($($t:ty),*);)*) => { $(fn $m(self, $(_: $t),*) -> Result<Got, RecErr> { Ok(Got::Other(stringify!($m))) })* } }
impl serde::Serializer for Rec {
    type Ok = Got; type Error = RecErr;
    type SerializeSeq = RecSeq;
    type SerializeTuple = serde::ser::Impossible<Got, RecErr>; type SerializeTupleStruct = serde::ser::Impossible<Got, RecErr>; type SerializeTupleVariant = serde::ser::Impossible<Got, RecErr>;
    type SerializeMap = serde::ser::Impossible<Got, RecErr>; type SerializeStruct = serde::ser::Impossible<Got, RecErr>; type SerializeStructVariant = serde::ser::Impossible<Got, RecErr>;
    other! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
             serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_str(self, v: &str) -> Result<Got, RecErr> { Ok(Got::Str(v.to_string())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Got, RecErr> { Ok(Got::Bytes(v.to_vec())) }
    fn serialize_some<T: serde::Serialize + ?Sized>(self, _: &T) -> Result<Got, RecErr> { Ok(Got::Other("some")) }
    fn serialize_newtype_struct<T: serde::Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<Got, RecErr> { Ok(Got::Other("newtype")) }
    fn serialize_newtype_variant<T: serde::Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Got, RecErr> { Ok(Got::Other("variant")) }
    fn serialize_seq(self, _: Option<usize>) -> Result<RecSeq, RecErr> { Ok(RecSeq(vec![], false)) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, RecErr> { Err(RecErr("tuple".into())) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, RecErr> { Err(RecErr("tuple".into())) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, RecErr> { Err(RecErr("tuple".into())) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, RecErr> { Err(RecErr("map".into())) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, RecErr> { Err(RecErr("struct".into())) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, RecErr> { Err(RecErr("struct".into())) }
}
/// Each helper makes exactly one call on the enclosing serialiser, with the encoding, or fails when there is none.
fn one_call<T: serde::Serialize>(v: &T) -> Res<()> {
    let got = htrpc::json::serialize(v, Rec).ok();
    let want = serde_json::to_string(v).ok().map(Got::Str);
    if got != want { return Err(format!("json hands over {:?}, expected {:?}", got, want)); }
    let got = htrpc::json_pretty::serialize(v, Rec).ok();
    let want = serde_json::to_string_pretty(v).ok().map(Got::Str);
    if got != want { return Err(format!("json_pretty hands over {:?}, expected {:?}", got, want)); }
    let got = htrpc::msgpack::serialize(v, Rec).ok();
    let want = serdeconv::to_msgpack_vec(v).ok();
    match (&got, &want) {
        (None, None) => Ok(()),
        (Some(Got::List(a)), Some(b)) | (Some(Got::Bytes(a)), Some(b)) if a == b => Ok(()),
        _ => Err(format!("msgpack hands over {:?}, expected {:?}", got, want)),
    }
}
#[derive(Serialize)] struct BadKeys { #[serde(serialize_with = "htrpc::json::serialize")] v: HashMap<(u8, u8), u8> }
#[derive(Serialize)] struct BadKeysPretty { #[serde(serialize_with = "htrpc::json_pretty::serialize")] v: HashMap<(u8, u8), u8> }
struct Refuses;
impl serde::Serialize for Refuses { fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("refused")) } }
#[derive(Serialize)] struct R1 { #[serde(serialize_with = "htrpc::json::serialize")] v: Refuses }
#[derive(Serialize)] struct R2 { #[serde(serialize_with = "htrpc::json_pretty::serialize")] v: Refuses }
#[derive(Serialize)] struct R3 { #[serde(serialize_with = "htrpc::msgpack::serialize")] v: Refuses }
fn decode_text<T, H, P>(s: &str, of: fn(H) -> T, ofp: fn(P) -> T) -> Res<()>
where T: for<'a> serde::Deserialize<'a> + std::fmt::Debug, H: for<'a> serde::Deserialize<'a>, P: for<'a> serde::Deserialize<'a> {
    let want = serde_json::from_str::<T>(s).ok().map(|v| format!("{:?}", v));
    let got = serde_json::from_value::<H>(json!({ "v": s })).ok().map(|h| format!("{:?}", of(h)));
    if got != want { return Err(format!("json reads {:?}, expected {:?}", got, want)); }
    let got = serde_json::from_value::<P>(json!({ "v": s })).ok().map(|h| format!("{:?}", ofp(h)));
    if got != want { return Err(format!("json_pretty reads {:?}, expected {:?}", got, want)); }
    Ok(())
}
fn decode_bytes<T, H>(b: &[u8], of: fn(H) -> T) -> Res<()>
where T: for<'a> serde::Deserialize<'a> + std::fmt::Debug, H: for<'a> serde::Deserialize<'a> {
    let want = serdeconv::from_msgpack_slice::<T>(b).ok().map(|v| format!("{:?}", v));
    let got = serde_json::from_value::<H>(json!({ "v": b })).ok().map(|h| format!("{:?}", of(h)));
    if got != want { return Err(format!("msgpack reads {:?}, expected {:?}", got, want)); }
    Ok(())
}
pub fn c14(rep: &mut Report) {
    let mut r = Rng::new(rep.seed + 14);
    for _ in 0..rep.n(1500, 30000) {
        let v = deep(&mut r, 2);
        rep.case("embedded value", json!({"value": v}), || one_deep(&v));
        let v = leaf(&mut r);
        rep.case("embedded value", json!({"value": v}), || one_leaf(&v));
        let v = text(&mut r) + &text(&mut r);
        rep.case("embedded value", json!({"value": v}), || one_text(&v));
        let v: Vec<Option<u32>> = (0..r.below(40)).map(|_| if r.chance(1, 4) { None } else { Some(r.next() as u32 >> r.below(32)) }).collect();
        rep.case("embedded value", json!({"value": v}), || one_list(&v));
        let v = (r.next() as i64) >> r.below(64);
        rep.case("embedded value", json!({"value": v}), || one_num(&v));
        let v = r.chance(1, 2);
        rep.case("embedded value", json!({"value": v}), || one_bool(&v));
        let v = *r.pick(&['a', '"', 'é', '\u{1F600}', '\0', '\n']);
        rep.case("embedded value", json!({"value": v}), || one_char(&v));
    }
    for _ in 0..rep.n(150, 4000) {
        let v = if r.chance(1, 3) { None } else { Some(r.next() as i32 >> r.below(32)) };
        rep.case("embedded value", json!({"value": v}), || one_opt(&v));
        let v: BTreeMap<String, Option<bool>> = (0..r.below(20)).map(|i| (format!("{}{}", text(&mut r), i), *r.pick(&[None, Some(true), Some(false)]))).collect();
        rep.case("embedded value", json!({"value": v}), || one_map(&v));
        let v = *r.pick(&[0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, 0.1, 3.0, 1e21, f64::MAX]);
        rep.case("embedded value", json!({"value": v}), || one_float(&v));
        let v: Vec<Vec<u8>> = (0..r.below(20)).map(|_| (0..r.below(20)).map(|_| r.next() as u8).collect()).collect();
        rep.case("embedded value", json!({"value": v}), || one_nested(&v));
        let v = Wrap(if r.chance(1, 2) { None } else { Some(text(&mut r)) });
        rep.case("embedded value", json!({"value": v}), || one_wrap(&v));
        let v = dict_num(&mut r).unwrap_or_else(|| r.next()) as i64;
        rep.case("embedded value", json!({"value": v}), || one_num(&v));
    }
    rep.case("embedded value", json!({"value": "()"}), || one_unit(&()));
    rep.case("embedded value", json!({"value": "unit struct"}), || one_nothing(&Nothing));
    for k in 0..5 { rep.case("value only some formats encode", json!({"kind": k}), || one_call(&Picky(k))); }
    for f in &[f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { rep.case("value only some formats encode", json!({"float": f.to_string()}), || one_call(f)); }
    for n in &[15usize, 16, 31, 32, 255, 256, 65535, 65536, 70000] {
        rep.case("embedded long text", json!({"length": n}), || one_text(&"z".repeat(*n)));
    }
    rep.case("value that cannot be encoded", json!({"helper": "json"}), || {
        let mut m = HashMap::new();
        m.insert((1, 2), 3);
        if serde_json::to_value(&BadKeys { v: m.clone() }).is_ok() || serde_json::to_value(&BadKeysPretty { v: m }).is_ok() { return Err("accepted".into()); }
        if serde_json::to_value(&R1 { v: Refuses }).is_ok() || serde_json::to_value(&R2 { v: Refuses }).is_ok() || serde_json::to_value(&R3 { v: Refuses }).is_ok() { return Err("accepted".into()); }
        Ok(())
    });
    for _ in 0..rep.n(8000, 100000) {
        // texts and bytes near encodings
        let mut s = match r.below(5) {
            0 => serde_json::to_string(&leaf(&mut r)).unwrap(), 1 => serde_json::to_string_pretty(&deep(&mut r, 1)).unwrap(), 2 => r.next().to_string(),
            3 => r.pick(&["true", "null", "\"a\"", "\"\\ud83d\"", "[1,2]", "1e3", "-0", "9223372036854775808", " 5 ", "5 5", "", "[]", "{}", "\"a", "tru", "NaN", "'a'", "[1,]"]).to_string(),
            _ => serde_json::to_string(&text(&mut r)).unwrap(),
        };
        if r.chance(1, 2) && !s.is_empty() {
            let mut cs: Vec<char> = s.chars().collect();
            let i = r.below(cs.len());
            match r.below(4) { 0 => { cs.remove(i); } 1 => cs.truncate(i), 2 => for _ in 0..1 + r.below(2) { match dict_str(&mut r) { Some(d) => cs.extend(d.chars()), None => cs.push(*r.pick(&[' ', '\n', '\r', '\t', 'x', '1', '}', '"', '\0', ';', ',', '\u{feff}', '\u{a0}', '/', '#'])) } }, _ => cs[i] = *r.pick(&['0', '"', '-', '}', ',', 'é']) }
            s = cs.into_iter().collect();
        }
        if r.chance(1, 6) { let pre = dict_str(&mut r).unwrap_or_else(|| *r.pick(&[" ", "\n", "\u{feff}", "\u{a0}", ";", "/**/", "'", "x", "+", "\0"])); s = format!("{}{}", pre, s); }
        rep.case("embedded text", json!({"text": s}), || {
            decode_text::<Deep, JDeep, PDeep>(&s, |h| h.v, |h| h.v)?;
            decode_text::<Leaf, JLeaf, PLeaf>(&s, |h| h.v, |h| h.v)?;
            decode_text::<String, JStr, PStr>(&s, |h| h.v, |h| h.v)?;
            decode_text::<Vec<Option<u32>>, JList, PList>(&s, |h| h.v, |h| h.v)?;
            decode_text::<i64, JNum, PNum>(&s, |h| h.v, |h| h.v)?;
            decode_text::<bool, JBool, PBool>(&s, |h| h.v, |h| h.v)?;
            decode_text::<Option<i32>, JOpt, POpt>(&s, |h| h.v, |h| h.v)?;
            decode_text::<(), JUnit, PUnit>(&s, |h| h.v, |h| h.v)?;
            decode_text::<Wrap, JWrap, PWrap>(&s, |h| h.v, |h| h.v)
        });
        let mut b = match r.below(5) { 0 => serdeconv::to_msgpack_vec(&leaf(&mut r)).unwrap(), 1 => serdeconv::to_msgpack_vec(&deep(&mut r, 1)).unwrap(), 2 => (0..r.below(12)).map(|_| r.next() as u8).collect(), 3 if r.chance(1, 3) => vec![], 3 if r.chance(1, 4) => vec![0xc0], _ => serdeconv::to_msgpack_vec(&r.next()).unwrap() };
        if r.chance(1, 2) && !b.is_empty() { let i = r.below(b.len()); match r.below(4) { 0 => { b.remove(i); } 1 => b.truncate(i), 2 => b.push(r.next() as u8), _ => b[i] = r.next() as u8 } }
        // lengths that announce gigabytes only exhaust memory in the MessagePack library
        if b.iter().any(|x| [0xdd, 0xdf, 0xdb, 0xc6, 0xc9].contains(x)) { continue; }
        rep.case("embedded bytes", json!({"bytes": b}), || {
            decode_bytes::<Leaf, MLeaf>(&b, |h| h.v)?;
            decode_bytes::<Deep, MDeep>(&b, |h| h.v)?;
            decode_bytes::<String, MStr>(&b, |h| h.v)?;
            decode_bytes::<i64, MNum>(&b, |h| h.v)?;
            decode_bytes::<Option<i32>, MOpt>(&b, |h| h.v)?;
            decode_bytes::<(), MUnit>(&b, |h| h.v)?;
            decode_bytes::<Wrap, MWrap>(&b, |h| h.v)?;
            decode_bytes::<Vec<Option<u32>>, MList>(&b, |h| h.v)
        });
    }
    // what the enclosing format supplies must be text, or bytes
    for v in &[json!({"v": 5}), json!({"v": null}), json!({"v": ["a"]}), json!({"v": {"a": 1}}), json!({}), json!({"v": [256]}), json!({"v": [-1]}), json!({"v": true})] {
        rep.case("enclosing value of another kind", json!({"enclosing": v}), || {
            if serde_json::from_value::<JNum>(v.clone()).is_ok() || serde_json::from_value::<PNum>(v.clone()).is_ok() || serde_json::from_value::<MNum>(v.clone()).is_ok() { return Err("accepted".into()); }
            Ok(())
        });
    }
}
