/// What the client needs of miasht, futures and serde.
pub mod clientx {
    use vstd::prelude::*;
    use futures::*;
    pub use fux::*;
    use netx::SocketAddr;
    pub use connectx::{Connection, Connect, TcpStream, ReqHead, RespHead, Ev, ConnV, was_decoded};
    use miasht_method::Method;
    use procedure::EntryPoint;
    verus! {
    impl IntoFu for Connect {
        type Item = Connection<TcpStream>;
        type Error = MiashtError;
        open spec fn fit(self) -> bool { true }
        open spec fn could(self, r: Result<Connection<TcpStream>, MiashtError>) -> bool {
            r matches Ok(c) ==> c@.peer == self.addr() && c@.log == Seq::<Ev>::empty()
        }
    }
    impl<T> IntoFu for Request<T> {
        type Item = Connection<T>;
        type Error = MiashtError;
        open spec fn fit(self) -> bool { true }
        open spec fn could(self, r: Result<Connection<T>, MiashtError>) -> bool {
            r matches Ok(c) ==> c@ == (ConnV { log: self.conn().log.push(Ev::Wrote { head: self.head(), body: self.sent() }), ..self.conn() })
        }
    }
    // ---- what has gone over a connection ----
    impl<T> Connection<T> {
        #[verifier::external_body]
        pub fn read_response(self) -> (r: Fu<Response<T>, MiashtError>)
            ensures forall|x: Result<Response<T>, MiashtError>| #[trigger] r.can(x) ==> (x matches Ok(p) ==> p.conn() == self@ && p.got() is None)
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct MiashtError { _p: () }
    impl From<IoError> for MiashtError {
        #[verifier::external_body]
        fn from(f: IoError) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<IoError> for MiashtError {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: IoError) -> Self { arbitrary() }
    }
    impl From<MiashtError> for ::error::Error {
        #[verifier::external_body]
        fn from(f: MiashtError) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<MiashtError> for ::error::Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: MiashtError) -> Self { arbitrary() }
    }
    #[verifier::external_body]
    pub struct IoError { _p: () }
    pub enum IoErrorKind { UnexpectedEof, InvalidData, Other, ConnectionReset }
    impl IoError {
        #[verifier::external_body]
        pub fn new<E>(kind: IoErrorKind, e: E) -> IoError { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Request<T> { _p: std::marker::PhantomData<T> }
    impl<T> Request<T> {
        pub uninterp spec fn conn(&self) -> ConnV;
        pub uninterp spec fn head(&self) -> ReqHead;
        pub uninterp spec fn sent(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn write_all_bytes(self, b: Vec<u8>) -> (r: Fu<Request<T>, MiashtError>)
            ensures forall|x: Result<Request<T>, MiashtError>| #[trigger] r.can(x) ==> (x matches Ok(q) ==>
                q.conn() == self.conn() && q.head() == self.head() && q.sent() == self.sent() + b@)
        { unimplemented!() }
    }
    /// the Content-Length announced, if there is one
    pub uninterp spec fn announced(lines: Seq<(Seq<char>, Seq<u8>)>) -> Option<nat>;
    /// the body read is all of what was announced
    pub open spec fn complete(lines: Seq<(Seq<char>, Seq<u8>)>, body: Seq<u8>) -> bool { announced(lines) matches Some(n) ==> body.len() == n }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Response<T> { _p: std::marker::PhantomData<T> }
    impl<T> Response<T> {
        pub uninterp spec fn conn(&self) -> ConnV;
        pub uninterp spec fn head(&self) -> RespHead;
        /// what was read of the body
        pub uninterp spec fn got(&self) -> Option<Seq<u8>>;
        /// the status line, should the code ask for it
        #[verifier::external_body]
        pub fn status<'a>(&'a self) -> (r: &'a RawStatus) { unimplemented!() }
        #[verifier::external_body]
        pub fn into_body_reader(self) -> (r: Result<BodyReader<Response<T>>, MiashtError>)
            ensures
                r matches Ok(b) ==> b.inner() == self,
                r matches Ok(BodyReader::FixedLength(t)) ==> announced(self.head().lines) == Some(t.limit_spec()),
                r matches Ok(BodyReader::Chunked(t)) ==> announced(self.head().lines) is None,
                r matches Ok(BodyReader::Raw(t)) ==> announced(self.head().lines) is None,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(self) -> (r: Connection<T>)
            ensures r@ == (ConnV { log: self.conn().log.push(Ev::Read { head: self.head(), body: self.got() }), ..self.conn() })
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct RawStatus { _p: () }
    impl RawStatus {
        pub uninterp spec fn code_spec(&self) -> u16;
        #[verifier::external_body]
        pub fn code(&self) -> (r: u16) ensures r == self.code_spec() { unimplemented!() }
    }
    #[verifier::reject_recursive_types(R)]
    pub enum BodyReader<R> { Chunked(ChunkedBodyReader<R>), FixedLength(Take<R>), Raw(R) }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(R)]
    pub struct ChunkedBodyReader<R> { _p: std::marker::PhantomData<R> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(R)]
    pub struct Take<R> { _p: std::marker::PhantomData<R> }
    impl<R> ChunkedBodyReader<R> {
        pub uninterp spec fn inner(&self) -> R;
        #[verifier::external_body]
        pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
    }
    impl<R> Take<R> {
        pub uninterp spec fn inner(&self) -> R;
        pub uninterp spec fn limit_spec(&self) -> nat;
        #[verifier::external_body]
        pub fn limit(&self) -> (r: u64) ensures r == self.limit_spec() { unimplemented!() }
        #[verifier::external_body]
        pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
    }
    impl<R> BodyReader<R> {
        pub open spec fn inner(&self) -> R {
            match *self { BodyReader::Chunked(t) => t.inner(), BodyReader::FixedLength(t) => t.inner(), BodyReader::Raw(t) => t }
        }
        #[verifier::external_body]
        pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
    }
    pub open spec fn body_read<T>(before: BodyReader<Response<T>>, after: BodyReader<Response<T>>, bytes: Seq<u8>) -> bool {
        &&& after.inner().conn() == before.inner().conn()
        &&& after.inner().head() == before.inner().head()
        &&& after.inner().got() == Some(match before.inner().got() { Some(g) => g + bytes, None => bytes })
        &&& match (before, after) {
            (BodyReader::FixedLength(s), BodyReader::FixedLength(t)) => s.limit_spec() == bytes.len() + t.limit_spec(),
            (BodyReader::Chunked(s), BodyReader::Chunked(t)) => true,
            (BodyReader::Raw(s), BodyReader::Raw(t)) => true,
            _ => false,
        }
    }
    impl<T> BodyReader<Response<T>> {
        /// reads to the end of the body or of the stream
        #[verifier::external_body]
        pub fn read_all_bytes(self) -> (r: Fu<(BodyReader<Response<T>>, Vec<u8>), MiashtError>)
            ensures forall|x: Result<(BodyReader<Response<T>>, Vec<u8>), MiashtError>| #[trigger] r.can(x) ==> (x matches Ok(p) ==> body_read(self, p.0, p.1@))
        { unimplemented!() }
    }

    // ---- the value's side: what C05 and C06 prove of the serialisers ----
    /// the head is the one that describes the call
    pub uninterp spec fn asks(value: int, method: Method, ep: EntryPoint, body: Seq<u8>, head: ReqHead) -> bool;
    /// the value the response's status and headers decode to
    pub uninterp spec fn reads<R>(head: RespHead, v: R) -> bool;
    #[verifier::external_body]
    pub struct RpcRequestSerializer { _p: () }
    impl RpcRequestSerializer {
        pub uninterp spec fn conn(&self) -> ConnV;
        pub uninterp spec fn method(&self) -> Method;
        pub uninterp spec fn ep(&self) -> EntryPoint;
        pub uninterp spec fn fed(&self) -> bool;
        /// what the value given serialises to
        pub uninterp spec fn content(&self) -> int;
        #[verifier::external_body]
        pub fn new(connection: Connection<TcpStream>, method: Method, entry_point: EntryPoint) -> (r: RpcRequestSerializer)
            ensures r.conn() == connection@, r.method() == method, r.ep() == entry_point, !r.fed()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(self, body: &Vec<u8>) -> (r: Result<Request<TcpStream>, ::error::Error>)
            ensures r matches Ok(q) ==> q.conn() == self.conn() && q.sent() == Seq::<u8>::empty()
                && asks(self.content(), self.method(), self.ep(), body@, q.head())
        { unimplemented!() }
    }
    pub trait Serialize: Sized {
        /// the value as serde sees it
        spec fn content(self) -> int;
        fn serialize(&self, ser: &mut RpcRequestSerializer) -> (r: Result<(), ::error::Error>)
            requires !old(ser).fed()
            ensures final(ser).conn() == old(ser).conn(), final(ser).method() == old(ser).method(), final(ser).ep() == old(ser).ep(), final(ser).fed(),
                r is Ok ==> final(ser).content() == self.content();
    }
    #[verifier::external_body]
    pub struct RpcResponseDeserializer { _p: () }
    impl RpcResponseDeserializer {
        pub uninterp spec fn head(&self) -> RespHead;
        pub uninterp spec fn used(&self) -> bool;
        #[verifier::external_body]
        pub fn new(response: &Response<TcpStream>) -> (r: RpcResponseDeserializer) ensures r.head() == response.head(), !r.used() { unimplemented!() }
    }
    pub trait Deserialize: Sized {
        fn deserialize(de: &mut RpcResponseDeserializer) -> (r: Result<Self, ::error::Error>)
            requires !old(de).used()
            ensures r matches Ok(v) ==> reads(old(de).head(), v) && was_decoded(old(de).head());
    }
    pub trait RpcRequest: Serialize {
        spec fn body_spec(self) -> Seq<u8>;
        fn body(&mut self) -> (r: Vec<u8>) ensures r@ == old(self).body_spec();
    }
    pub trait RpcResponse: Deserialize {
        spec fn with_body(self, body: Seq<u8>) -> Self;
        fn set_body(&mut self, body: Vec<u8>) ensures *final(self) == old(self).with_body(body@);
    }
    pub trait Procedure: Sized {
        type Request: RpcRequest;
        type Response: RpcResponse;
        spec fn method_spec() -> Method;
        spec fn ep_spec() -> EntryPoint;
        fn method() -> (r: Method) ensures r == Self::method_spec();
        fn entry_point() -> (r: EntryPoint) ensures r == Self::ep_spec();
    }
    }
}
