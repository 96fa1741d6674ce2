PRE = r'''
use htrpc::serializers::UrlPathSerializer;
use htrpc::deserializers::UrlPathDeserializer;
use htrpc::types::{EntryPoint, PathSegment};
use serde::{Serialize, Deserialize};
use url::Url;
fn ep(segs: &[&'static str]) -> EntryPoint {
    let v: Vec<PathSegment> = segs.iter().map(|s| if *s == "_" { PathSegment::Var } else { PathSegment::Val(s) }).collect();
    EntryPoint::new(Box::leak(v.into_boxed_slice()))
}
fn to_url<T: Serialize>(e: &EntryPoint, v: T) -> Option<Url> {
    let mut url = Url::parse("http://localhost/").unwrap();
    let ok = { let mut s = UrlPathSerializer::new(e, &mut url).unwrap(); v.serialize(&mut s).is_ok() };
    if ok { Some(url) } else { None }
}
fn back<T: for<'a> Deserialize<'a>>(e: &EntryPoint, u: &Url) -> Option<T> {
    let mut d = UrlPathDeserializer::new(*e, u).unwrap();
    T::deserialize(&mut d).ok()
}
'''
S, D = "src/serializers/url_path.rs", "src/deserializers/url_path.rs"
make("c01-u32-narrow", "C01", [(S, "    fn serialize_u32(self, v: u32) -> Result<Self::Ok> {\n        track!(self.serialize_u64(v as u64))",
     "    fn serialize_u32(self, v: u32) -> Result<Self::Ok> {\n        track!(self.serialize_i32(v as i32))")],
     PRE + r'''
fn main() {
    let e = ep(&["users", "_"]);
    let u = to_url(&e, (3_000_000_000u32,)).unwrap();
    assert_eq!(u.path(), "/users/3000000000");
    assert_eq!(back::<(u32,)>(&e, &u), Some((3_000_000_000,)));
}''', "a u32 above i32::MAX bound to a path variable", "the value sent is a negative number, which the server refuses or misreads")
make("c01-trailing-const", "C01", [(D, "        if self.free_vars == 0 {\n            track!(self.finish())?;\n            Ok(None)",
     "        if self.free_vars == 0 {\n            if !self.is_end_of_segment() {\n                track!(self.finish())?;\n            }\n            Ok(None)")],
     PRE + r'''
fn main() {
    let e = ep(&["a", "_", "b"]);
    let u = Url::parse("http://localhost/a/5").unwrap();
    let mut d = UrlPathDeserializer::new(e, &u).unwrap();
    // a sequence is read to its end: the constant after the last variable must be there
    assert!(Vec::<u32>::deserialize(&mut d).is_err());
    let u = Url::parse("http://localhost/a/5/b").unwrap();
    let mut d = UrlPathDeserializer::new(e, &u).unwrap();
    assert_eq!(Vec::<u32>::deserialize(&mut d).ok(), Some(vec![5]));
}''', "a path that ends before the constants after its last variable, decoded as a sequence", "a path that lacks the entry point's trailing constants is decoded as if it matched")
make("c01-arity", "C01", [(S, "        _name: &'static str,\n        len: usize,\n    ) -> Result<Self::SerializeTupleStruct> {\n        track_assert!(!self.is_started, ErrorKind::Invalid);\n        track_assert_eq!(self.var_count(), len, ErrorKind::Invalid);",
     "        _name: &'static str,\n        len: usize,\n    ) -> Result<Self::SerializeTupleStruct> {\n        track_assert!(!self.is_started, ErrorKind::Invalid);\n        track_assert!(self.var_count() <= len, ErrorKind::Invalid);"),
     (S, "        track_assert!(self.is_started, ErrorKind::Invalid);\n        track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);\n",
      "        track_assert!(self.is_started, ErrorKind::Invalid);\n        if self.append_until_next_var() {\n            return Ok(());\n        }\n")],
     PRE + r'''
#[derive(serde_derive::Serialize)]
struct Three(u8, u8, u8);
fn main() {
    let e = ep(&["a", "_", "b", "_"]);
    assert!(to_url(&e, Three(1, 2, 3)).is_none());
    let u = to_url(&e, (1u8, 2u8)).unwrap();
    assert_eq!(back::<(u8, u8)>(&e, &u), Some((1, 2)));
}''', "a tuple struct with more fields than the entry point has variables", "surplus path values are dropped silently instead of being refused")
make("c01-first-const", "C01", [(D, "            let s = self.segments.next().unwrap();\n            track_assert_eq!(s, expected, ErrorKind::Invalid);",
     "            let s = self.segments.next().unwrap();\n            if i != 0 {\n                track_assert_eq!(s, expected, ErrorKind::Invalid);\n            }")],
     PRE + r'''
fn main() {
    let e = ep(&["users", "_"]);
    let u = Url::parse("http://localhost/admin/5").unwrap();
    assert_eq!(back::<(u32,)>(&e, &u), None);
    let u = Url::parse("http://localhost/users/5").unwrap();
    assert_eq!(back::<(u32,)>(&e, &u), Some((5,)));
}''', "a path whose first constant differs from the entry point's", "a path of another entry point decodes as if it were this one's")
make("c01-f32", "C01", [(S, "    fn serialize_f32(self, v: f32) -> Result<Self::Ok> {\n        track!(self.serialize_f64(v as f64))",
     "    fn serialize_f32(self, v: f32) -> Result<Self::Ok> {\n        track!(self.bind_next_var(&format!(\"{:.6}\", v)))")],
     PRE + r'''
fn main() {
    let e = ep(&["p", "_"]);
    for v in [0.5f32, 1.25e-9, 123456.79] {
        let u = to_url(&e, (v,)).unwrap();
        assert_eq!(back::<(f32,)>(&e, &u), Some((v,)));
    }
}''', "an f32 smaller than 1e-6 or with more than six decimals", "the float that arrives differs from the one passed")
