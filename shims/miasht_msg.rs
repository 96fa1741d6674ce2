pub mod fibers {
    pub mod net {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body]
        pub struct TcpStream { _p: () }
        }
    }
}
/// bodies: `Box<dyn AsRef<[u8]> + Send>` with the trait object spelt as an opaque type
pub mod bytesx {
    use vstd::prelude::*;
    use stdx::*;
    verus! {
    #[verifier::external_body]
    pub struct DynBytes { _p: () }
    impl AsRefBytes for DynBytes {
        uninterp spec fn byte_seq(&self) -> Seq<u8>;
        #[verifier::external_body]
        fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
    }
    }
}
pub mod miasht_headers {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use text::*;
    verus! {
    // ---- the headers the library adds itself ----
    pub trait HeaderLine { spec fn line(&self) -> (Seq<char>, Seq<u8>); }
    pub struct ContentLength(pub u64);
    pub open spec fn cl_line(n: int) -> (Seq<char>, Seq<u8>) { ("Content-Length"@, encode_utf8(int_text(n))) }
    impl HeaderLine for ContentLength {
        open spec fn line(&self) -> (Seq<char>, Seq<u8>) { cl_line(self.0 as int) }
    }
    }
}
pub mod miasht_server {
    use vstd::prelude::*;
    use miasht_header::*;
    use miasht_headers::*;
    use miasht_status::{Status, RawStatus};
    verus! {
    // ---- assumed model of miasht's server side: one response head written per connection ----
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Connection<T> { _p: std::marker::PhantomData<T> }
    impl<T> Connection<T> {
        pub uninterp spec fn id(&self) -> int;
        #[verifier::external_body]
        pub fn build_response<S: StatusLike>(self, status: S) -> (r: ResponseBuilder<T>)
            ensures r.conn() == self.id(), r.code() == status.code_spec(), r.head.lines() == Seq::<(Seq<char>, Seq<u8>)>::empty()
        { unimplemented!() }
    }
    pub trait StatusLike { spec fn code_spec(&self) -> u16; }
    impl StatusLike for Status { open spec fn code_spec(&self) -> u16 { ::status_theory::status_code(*self) } }
    impl<'a> StatusLike for RawStatus<'a> { open spec fn code_spec(&self) -> u16 { self.code } }
    #[verifier::reject_recursive_types(T)]
    pub struct ResponseBuilder<T> { pub head: Head, pub base: Base<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Base<T> { _p: std::marker::PhantomData<T> }
    impl<T> Base<T> {
        pub uninterp spec fn conn(&self) -> int;
        pub uninterp spec fn code(&self) -> u16;
    }
    impl<T> ResponseBuilder<T> {
        pub open spec fn conn(&self) -> int { self.base.conn() }
        pub open spec fn code(&self) -> u16 { self.base.code() }
        #[verifier::external_body]
        pub fn headers_mut<'a>(&'a mut self) -> (r: HeadersMut<'a>)
            ensures *r.head == old(self).head, final(self).head == *final(r.head), final(self).base == old(self).base
        { unimplemented!() }
        #[verifier::external_body]
        pub fn add_header<H: HeaderLine>(&mut self, h: &H) -> (r: &mut Self)
            ensures r.head.lines() == old(self).head.lines().push(h.line()), r.base == old(self).base, *final(r) == *final(self)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(self) -> (r: Response<T>)
            ensures r@ == (RespV { conn: self.conn(), code: self.code(), lines: self.head.lines() })
        { unimplemented!() }
    }
    /// A response head as it goes to the wire.
    pub struct RespV { pub conn: int, pub code: u16, pub lines: HLines }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Response<T> { _p: std::marker::PhantomData<T> }
    impl<T> Response<T> { pub uninterp spec fn view(&self) -> RespV; }
    /// a request read from a connection
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Request<T> { _p: std::marker::PhantomData<T> }
    impl<T> Request<T> {
        pub uninterp spec fn lines(&self) -> HLines;
        #[verifier::external_body]
        pub fn headers<'a>(&'a self) -> (r: &'a Headers<'a>) ensures r@ == self.lines() { unimplemented!() }
        pub uninterp spec fn method_spec(&self) -> ::miasht_method::Method;
        #[verifier::external_body]
        pub fn method(&self) -> (r: ::miasht_method::Method) ensures r == self.method_spec() { unimplemented!() }
    }
    }
}
pub mod miasht_client {
    use vstd::prelude::*;
    use miasht_header::*;
    use miasht_headers::*;
    use miasht_status::{Status, RawStatus};
    use miasht_method::Method;
    verus! {
    // ---- assumed model of miasht's client side: one request head written per connection ----
    /// A request head as it goes to the wire.
    pub struct ReqV { pub conn: int, pub method: Method, pub target: Seq<char>, pub lines: HLines }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Connection<T> { _p: std::marker::PhantomData<T> }
    impl<T> Connection<T> {
        pub uninterp spec fn id(&self) -> int;
        #[verifier::external_body]
        pub fn build_request(self, method: Method, path: &str) -> (r: RequestBuilder<T>)
            ensures r@ == (ReqV { conn: self.id(), method: method, target: path@, lines: seq![] })
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Base<T> { _p: std::marker::PhantomData<T> }
    impl<T> Base<T> {
        pub uninterp spec fn conn(&self) -> int;
        pub uninterp spec fn method(&self) -> Method;
        pub uninterp spec fn target(&self) -> Seq<char>;
    }
    #[verifier::reject_recursive_types(T)]
    pub struct RequestBuilder<T> { pub head: Head, pub base: Base<T> }
    impl<T> RequestBuilder<T> {
        pub open spec fn view(&self) -> ReqV {
            ReqV { conn: self.base.conn(), method: self.base.method(), target: self.base.target(), lines: self.head.lines() }
        }
        #[verifier::external_body]
        pub fn headers_mut<'a>(&'a mut self) -> (r: HeadersMut<'a>)
            ensures *r.head == old(self).head, final(self).head == *final(r.head), final(self).base == old(self).base
        { unimplemented!() }
        #[verifier::external_body]
        pub fn add_header<H: HeaderLine>(&mut self, h: &H) -> (r: &mut Self)
            ensures r.head.lines() == old(self).head.lines().push(h.line()), r.base == old(self).base, *final(r) == *final(self)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(self) -> (r: Request<T>)
            ensures r@ == self@
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Request<T> { _p: std::marker::PhantomData<T> }
    impl<T> Request<T> { pub uninterp spec fn view(&self) -> ReqV; }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Response<T> { _p: std::marker::PhantomData<T> }
    impl<T> Response<T> {
        pub uninterp spec fn code(&self) -> u16;
        pub uninterp spec fn lines(&self) -> HLines;
        #[verifier::external_body]
        pub fn status<'a>(&'a self) -> (r: &'a RawStatus<'a>) ensures r.code == self.code() { unimplemented!() }
        #[verifier::external_body]
        pub fn headers<'a>(&'a self) -> (r: &'a Headers<'a>) ensures r@ == self.lines() { unimplemented!() }
    }
    }
}
pub mod serdeconv {
    use vstd::prelude::*;
    use text::*;
    use serde::ser::{Serialize, Val};
    verus! {
    // ---- assumed: JSON text of a value (only integers are pinned down) ----
    pub uninterp spec fn json_text(v: Val) -> Option<Seq<char>>;
    pub open spec fn int_val(v: Val) -> Option<int> {
        match v {
            Val::I8(n) => Some(n as int), Val::I16(n) => Some(n as int), Val::I32(n) => Some(n as int), Val::I64(n) => Some(n as int),
            Val::U8(n) => Some(n as int), Val::U16(n) => Some(n as int), Val::U32(n) => Some(n as int), Val::U64(n) => Some(n as int),
            _ => None,
        }
    }
    #[verifier::external_body]
    pub broadcast proof fn ax_json_int(v: Val)
        ensures int_val(v) matches Some(n) ==> #[trigger] json_text(v) == Some(int_text(n)) {}
    #[verifier::external_body]
    pub fn to_json_string<T: ?Sized + Serialize>(value: &T) -> (r: Result<String, ::error::Error>)
        ensures match r { Ok(s) => json_text(value.val()) == Some(s@), Err(_) => json_text(value.val()) is None }
    { unimplemented!() }
    }
}
