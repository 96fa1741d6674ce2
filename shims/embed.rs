/// serde as the embedding helpers use it: one value handed over, one value taken.
pub mod serde {
    use vstd::prelude::*;
    use embedx::Data;
    verus! {
    pub trait Serializer: Sized {
        type Ok;
        type Error: ser::Error;
        /// `r` is what the enclosing format answers to being given `d`, and nothing else
        spec fn given(self, d: Data, r: Result<Self::Ok, Self::Error>) -> bool;
        fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) ensures self.given(Data::Str(v@), r);
        fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>) ensures self.given(Data::Bytes(v@), r);
        fn serialize_none(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.given(Data::None, r);
        fn serialize_unit(self) -> (r: Result<Self::Ok, Self::Error>) ensures self.given(Data::Unit, r);
        fn serialize_some<T: HasData + ?Sized>(self, v: &T) -> (r: Result<Self::Ok, Self::Error>) ensures self.given(Data::Some(Box::new(v.data())), r);
        fn serialize_newtype_struct<T: HasData + ?Sized>(self, name: &'static str, v: &T) -> (r: Result<Self::Ok, Self::Error>) ensures self.given(Data::Newtype(name@, Box::new(v.data())), r);
        fn collect_str(self, v: &String) -> (r: Result<Self::Ok, Self::Error>) ensures self.given(Data::Str(v@), r);
    }
    pub trait HasData { spec fn data(&self) -> Data; }
    pub trait Serialize: HasData {
        fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) ensures s.given(self.data(), r);
    }
    pub trait Deserializer: Sized {
        type Error: de::Error;
        /// what the enclosing format gives when asked for text, for bytes
        spec fn text(self) -> Option<Seq<char>>;
        spec fn bytes(self) -> Option<Seq<u8>>;
        spec fn number(self) -> Option<u16>;
    }
    pub trait Deserialize: Sized {
        spec fn obtained<D: Deserializer>(d: D, r: Result<Self, D::Error>) -> bool;
        fn deserialize<D: Deserializer>(d: D) -> (r: Result<Self, D::Error>) ensures Self::obtained(d, r);
    }
    impl<'a, T: HasData + ?Sized> HasData for &'a T {
        open spec fn data(&self) -> Data { (**self).data() }
    }
    impl<'a, T: Serialize + ?Sized> Serialize for &'a T {
        #[verifier::external_body]
        fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
    }
    impl HasData for String {
        open spec fn data(&self) -> Data { Data::Str(self@) }
    }
    impl Serialize for String {
        #[verifier::external_body]
        fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
    }
    impl HasData for str {
        open spec fn data(&self) -> Data { Data::Str(self@) }
    }
    impl Serialize for str {
        #[verifier::external_body]
        fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
    }
    impl HasData for Vec<u8> {
        open spec fn data(&self) -> Data { Data::List(self@) }
    }
    impl Serialize for Vec<u8> {
        #[verifier::external_body]
        fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
    }
    impl HasData for [u8] {
        open spec fn data(&self) -> Data { Data::List(self@) }
    }
    impl Serialize for [u8] {
        #[verifier::external_body]
        fn serialize<S: Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
    }
    impl Deserialize for String {
        open spec fn obtained<D: Deserializer>(d: D, r: Result<Self, D::Error>) -> bool {
            match d.text() { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }
        }
        #[verifier::external_body]
        fn deserialize<D: Deserializer>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() }
    }
    impl Deserialize for Vec<u8> {
        open spec fn obtained<D: Deserializer>(d: D, r: Result<Self, D::Error>) -> bool {
            match d.bytes() { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }
        }
        #[verifier::external_body]
        fn deserialize<D: Deserializer>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() }
    }
    impl Deserialize for u16 {
        open spec fn obtained<D: Deserializer>(d: D, r: Result<Self, D::Error>) -> bool {
            match d.number() { Some(t) => r is Ok && r->Ok_0 == t, None => r is Err }
        }
        #[verifier::external_body]
        fn deserialize<D: Deserializer>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() }
    }
    }
    pub mod ser {
        use vstd::prelude::*;
        pub use super::{Serialize, Serializer};
        verus! { pub trait Error: Sized { fn custom<T>(t: T) -> Self; } }
    }
    pub mod de {
        use vstd::prelude::*;
        pub use super::{Deserialize, Deserializer};
        verus! { pub trait Error: Sized { fn custom<T>(t: T) -> Self; } }
    }
}
pub mod serdeconv {
    use vstd::prelude::*;
    use serde::{Serialize, HasData, Deserialize};
    use embedx::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { _p: () }
    impl std::fmt::Debug for Error {
        #[verifier::external_body]
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { unimplemented!() }
    }
    pub type Result<T> = std::result::Result<T, Error>;
    #[verifier::external_body]
    pub fn to_json_string<T: Serialize + ?Sized>(v: &T) -> (r: Result<String>)
        ensures match json_text(v.data()) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_json_string_pretty<T: Serialize + ?Sized>(v: &T) -> (r: Result<String>)
        ensures match pretty_text(v.data()) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_msgpack_vec<T: Serialize + ?Sized>(v: &T) -> (r: Result<Vec<u8>>)
        ensures match packed(v.data()) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_json_str<T: Deserialize>(s: &str) -> (r: Result<T>)
        ensures match json_value::<T>(s@) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_json_slice<T: Deserialize>(s: &[u8]) -> (r: Result<T>)
        ensures match json_value_of::<T>(s@) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_msgpack_slice<T: Deserialize>(s: &[u8]) -> (r: Result<T>)
        ensures match packed_value::<T>(s@) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }
    { unimplemented!() }
    }
}
pub mod embedx {
    use vstd::prelude::*;
    use vstd::utf8::*;
    verus! {
    /// a value as serde's data model describes it
    pub enum Data {
        Str(Seq<char>), List(Seq<u8>), Bytes(Seq<u8>), None, Unit, Some(Box<Data>), Newtype(Seq<char>, Box<Data>),
        /// anything else
        Other(int),
    }
    /// the compact JSON, the pretty JSON and the MessagePack of a value (None: it has none)
    pub uninterp spec fn json_text(d: Data) -> Option<Seq<char>>;
    pub uninterp spec fn pretty_text(d: Data) -> Option<Seq<char>>;
    pub uninterp spec fn packed(d: Data) -> Option<Seq<u8>>;
    /// the value of the type that the text or bytes encode
    pub uninterp spec fn json_value<T>(s: Seq<char>) -> Option<T>;
    pub uninterp spec fn packed_value<T>(s: Seq<u8>) -> Option<T>;
    pub open spec fn json_value_of<T>(b: Seq<u8>) -> Option<T> { if valid_utf8(b) { json_value(decode_utf8(b)) } else { None } }
    }
}
