PRE = r'''
#![allow(dead_code, unused_imports)]
use htrpc::serializers::*;
use htrpc::deserializers::*;
use serde::{Serialize, Deserialize};
use serde_derive::{Serialize, Deserialize};
use std::collections::BTreeMap;
use url::Url;
fn query<T: Serialize>(v: &T) -> Option<String> {
    let mut url = Url::parse("http://localhost/").unwrap();
    let ok = { let mut s = UrlQuerySerializer::new(url.query_pairs_mut()); v.serialize(&mut s).is_ok() };
    if ok { Some(url.query().unwrap_or("").to_string()) } else { None }
}
fn unquery<T: for<'a> Deserialize<'a>>(q: &str) -> Option<T> {
    let url = Url::parse(&format!("http://localhost/?{}", q)).unwrap();
    let mut d = UrlQueryDeserializer::new(url.query_pairs());
    T::deserialize(&mut d).ok()
}
fn unheader<T: for<'a> Deserialize<'a>>(lines: &[(&str, &[u8])]) -> Option<T> {
    let hs: Vec<httparse::Header> = lines.iter().map(|l| httparse::Header { name: l.0, value: l.1 }).collect();
    let headers = miasht::header::Headers::new(&hs);
    let mut d = HttpHeaderDeserializer::new(&headers);
    T::deserialize(&mut d).ok()
}
'''
SQ, DQ = "src/serializers/url_query.rs", "src/deserializers/url_query.rs"
SH, DH = "src/serializers/http_header.rs", "src/deserializers/http_header.rs"
make("c02-none-key", "C02", [(SQ, "track_assert!(self.key.take().is_some(), ErrorKind::Invalid);", "track_assert!(self.key.is_some(), ErrorKind::Invalid);")],
     PRE + r'''
fn main() {
    let mut m: BTreeMap<String, Option<u32>> = BTreeMap::new();
    m.insert("b".into(), Some(7));
    m.insert("c".into(), Some(8));
    assert_eq!(query(&m).expect("encodes"), "b=7&c=8");
    m.insert("a".into(), None);
    assert_eq!(query(&m).expect("encodes"), "b=7&c=8");
}''', "a map with an absent optional followed by further parameters", "the name of the absent parameter stays pending, so the next name is sent as its value and all later pairs shift")
make("c02-opt-empty", "C02", [(DQ, "        track!(visitor.visit_some(self))", "        if let Phase::Value(ref v) = self.phase {\n            if v.is_empty() {\n                self.phase = Phase::Key;\n                return visitor.visit_none();\n            }\n        }\n        track!(visitor.visit_some(self))")],
     PRE + r'''
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Q { a: Option<String>, b: u32 }
fn main() {
    for a in &[None, Some("x".to_string()), Some(String::new())] {
        let v = Q { a: a.clone(), b: 7 };
        assert_eq!(unquery::<Q>(&query(&v).unwrap()), Some(v));
    }
}''', "an optional string that is present but empty", "a present empty value arrives as absent")
make("c03-empty-value", "C03", 
     [(DH, "            self.phase.next();\n            Ok(v)", "            if !v.is_empty() || self.phase.is_key() {\n                self.phase.next();\n            }\n            Ok(v)")],
     PRE + r'''
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct H { a: String, b: u32 }
fn main() {
    assert_eq!(unheader::<H>(&[("A", b"x"), ("B", b"5")]), Some(H { a: "x".into(), b: 5 }));
    assert_eq!(unheader::<H>(&[("A", b""), ("B", b"5")]), Some(H { a: "".into(), b: 5 }));
}''', "a header field with an empty value before other fields", "after an empty value the reader takes the next header's value for its name")
make("c03-none-key", "C03", [(SH, "track_assert!(self.key.take().is_some(), ErrorKind::Invalid);", "track_assert!(self.key.is_some(), ErrorKind::Invalid);")],
     PRE + r'''
use futures::Future;
use std::io::{self, Read, Write};
struct Mem(Vec<u8>);
impl miasht::TransportStream for Mem {}
impl Read for Mem { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Ok(0) } }
impl Write for Mem {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let c = miasht::server::Connection::new(Mem(vec![]), 1024, 65536, 32);
    let mut r = c.build_response(miasht::Status::Ok);
    { let mut ser = HttpHeaderSerializer::new(r.headers_mut());
      let mut m: BTreeMap<String, Option<u32>> = BTreeMap::new();
      m.insert("a".into(), None);
      m.insert("b".into(), Some(2));
      m.insert("c".into(), Some(3));
      m.serialize(&mut ser).expect("encodes"); }
    let mut f = r.finish();
    let c = loop { match f.poll() { Ok(futures::Async::Ready(c)) => break c, Ok(_) => continue, Err(_) => panic!() } };
    let t = String::from_utf8(c.into_raw_stream().0).unwrap();
    assert!(t.contains("\r\nb: 2\r\nc: 3\r\n"), "{}", t);
}''', "a map of headers with an absent optional followed by further fields", "the names and values of all later header lines shift by one")
make("c15-query-trim", "C15", [(DQ, "s.parse().map_err", "s.trim().parse().map_err")],
     PRE + r'''
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Q { a: u32 }
fn main() {
    assert_eq!(unquery::<Q>("a=5"), Some(Q { a: 5 }));
    assert_eq!(unquery::<Q>("a=+5"), None); // '+' is a space
    assert_eq!(unquery::<Q>("a=5%0A"), None);
}''', "a number with white space around it in a query", "text that is not a number of the type is accepted")
make("c15-header-u8", "C15", [(DH, "        let v = track!(parse_slice(v))?;\n        track!(visitor.visit_u8(v))", "        let v: u16 = track!(parse_slice(v))?;\n        track!(visitor.visit_u8(v as u8))")],
     PRE + r'''
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct H { a: u8 }
fn main() {
    assert_eq!(unheader::<H>(&[("a", b"255")]), Some(H { a: 255 }));
    assert_eq!(unheader::<H>(&[("a", b"256")]), None);
}''', "a header number above the range of an u8 field", "an out-of-range number is delivered as another number instead of being refused")
