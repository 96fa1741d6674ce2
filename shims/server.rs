/// What the server needs of miasht, futures, serde, the router and the problem types.
macro_rules! debug { ($($t:tt)*) => { () }; }
macro_rules! info { ($($t:tt)*) => { () }; }
macro_rules! warn { ($($t:tt)*) => { () }; }
macro_rules! o { ($($t:tt)*) => { () }; }
pub mod serverx {
    use vstd::prelude::*;
    use futures::*;
    pub use fux::*;
    use netx::SocketAddr;
    use miasht_method::Method;
    use miasht_status::Status;
    use status_theory::status_code;
    use procedure::EntryPoint;
    use url::Url;
    verus! {
    #[verifier::external_body]
    pub struct TcpStream { _p: () }
    impl TcpStream {
        #[verifier::external_body]
        pub fn with_inner<R, F: FnOnce(&InnerStream) -> R>(&self, f: F) -> (r: R)
            requires forall|s: &InnerStream| #[trigger] call_requires(f, (s,))
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct InnerStream { _p: () }
    impl InnerStream {
        #[verifier::external_body]
        pub fn set_nodelay(&self, b: bool) -> Result<(), IoError> { unimplemented!() }
    }
    // ---- what has gone over a connection to a client ----
    /// a request head as read
    pub struct ReqHead { pub method: Method, pub target: Seq<char>, pub rest: int }
    /// a response head as written
    pub struct RespHead { pub id: int }
    pub enum Ev {
        /// a request, and what was read of its body
        Read { head: ReqHead, body: Option<Seq<u8>> },
        /// a response head, and what was written after it
        Wrote { head: RespHead, body: Seq<u8> },
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Connection<T> { _p: std::marker::PhantomData<T> }
    impl<T> Connection<T> {
        pub uninterp spec fn view(&self) -> Seq<Ev>;
        #[verifier::external_body]
        pub fn new(stream: T, a: usize, b: usize, c: usize) -> (r: Connection<T>) ensures r@ == Seq::<Ev>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn read_request(self) -> (r: Fu<Request<T>, MiashtError>)
            ensures forall|x: Result<Request<T>, MiashtError>| #[trigger] r.can(x) ==> (x matches Ok(q) ==> q.conn() == self@ && q.got() is None)
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Request<T> { _p: std::marker::PhantomData<T> }
    impl<T> Request<T> {
        pub uninterp spec fn conn(&self) -> Seq<Ev>;
        pub uninterp spec fn head(&self) -> ReqHead;
        pub uninterp spec fn got(&self) -> Option<Seq<u8>>;
        pub open spec fn log(&self) -> Seq<Ev> { self.conn().push(Ev::Read { head: self.head(), body: self.got() }) }
        #[verifier::external_body]
        pub fn method(&self) -> (r: Method) ensures r == self.head().method { unimplemented!() }
        #[verifier::external_body]
        pub fn path(&self) -> (r: &str) ensures r@ == self.head().target { unimplemented!() }
        #[verifier::external_body]
        pub fn into_body_reader(self) -> (r: Result<BodyReader<Request<T>>, MiashtError>) ensures r matches Ok(b) ==> b.inner() == self { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(self) -> (r: Connection<T>) ensures r@ == self.log() { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(R)]
    pub struct BodyReader<R> { _p: std::marker::PhantomData<R> }
    impl<R> BodyReader<R> {
        pub uninterp spec fn inner(&self) -> R;
        #[verifier::external_body]
        pub fn into_inner(self) -> (r: R) ensures r == self.inner() { unimplemented!() }
    }
    /// `after` is the request `before` with all of its body read
    pub open spec fn read_up<T>(before: Request<T>, after: Request<T>) -> bool {
        after.conn() == before.conn() && after.head() == before.head() && after.got() is Some
    }
    impl<T> BodyReader<Request<T>> {
        /// reads to the end of the body or of the stream
        #[verifier::external_body]
        pub fn read_all_bytes(self) -> (r: Fu<(BodyReader<Request<T>>, Vec<u8>), MiashtError>)
            ensures forall|x: Result<(BodyReader<Request<T>>, Vec<u8>), MiashtError>| #[trigger] r.can(x) ==> (x matches Ok(p) ==>
                read_up(self.inner(), p.0.inner()))
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Response<T> { _p: std::marker::PhantomData<T> }
    impl<T> Response<T> {
        pub uninterp spec fn conn(&self) -> Seq<Ev>;
        pub uninterp spec fn head(&self) -> RespHead;
        pub uninterp spec fn sent(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn write_all_bytes(self, b: DynBody) -> (r: Fu<Response<T>, MiashtError>)
            ensures forall|x: Result<Response<T>, MiashtError>| #[trigger] r.can(x) ==> (x matches Ok(q) ==>
                q.conn() == self.conn() && q.head() == self.head() && q.sent() == self.sent() + b@)
        { unimplemented!() }
    }
    impl<T> IntoFu for Response<T> {
        type Item = Connection<T>;
        type Error = MiashtError;
        open spec fn fit(self) -> bool { true }
        open spec fn could(self, r: Result<Connection<T>, MiashtError>) -> bool {
            r matches Ok(c) ==> c@ == self.conn().push(Ev::Wrote { head: self.head(), body: self.sent() })
        }
    }
    /// `Box<dyn AsRef<[u8]> + Send>`
    #[verifier::external_body]
    pub struct DynBody { _p: () }
    impl DynBody { pub uninterp spec fn view(&self) -> Seq<u8>; }
    // ---- errors ----
    #[verifier::external_body]
    pub struct MiashtError { _p: () }
    #[verifier::external_body]
    pub struct IoError { _p: () }
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
    pub enum IoErrorKind { UnexpectedEof, InvalidData, Other, ConnectionReset, ConnectionAborted, BrokenPipe, TimedOut, WouldBlock, Interrupted }
    impl IoError {
        #[verifier::external_body]
        pub fn kind(&self) -> IoErrorKind { unimplemented!() }
    }
    impl MiashtError {
        #[verifier::external_body]
        pub fn concrete_cause<T>(&self) -> Option<&T> { unimplemented!() }
    }
    impl From<IoError> for MiashtError {
        #[verifier::external_body]
        fn from(f: IoError) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<IoError> for MiashtError {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: IoError) -> Self { arbitrary() }
    }
    impl From<MiashtError> for ::error::Error {
        #[verifier::external_body]
        fn from(f: MiashtError) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<MiashtError> for ::error::Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: MiashtError) -> Self { arbitrary() }
    }
    // ---- values: what C05, C06 and C13 prove of their codecs ----
    /// the request's path, query and headers decode to the value, or to none
    pub uninterp spec fn decodes(ep: EntryPoint, url: Url, head: ReqHead, value: int) -> bool;
    pub uninterp spec fn rejects(ep: EntryPoint, url: Url, head: ReqHead) -> bool;
    /// the value with its body read from the request
    pub uninterp spec fn completes(value: int, got: Option<Seq<u8>>, full: int) -> bool;
    /// the handler registered for the entry point answers the value with the response value
    pub uninterp spec fn replies(ep: EntryPoint, full: int, response: int) -> bool;
    /// the head and body that the response value describes
    pub uninterp spec fn describes(response: int, head: RespHead, body: Seq<u8>) -> bool;
    /// the response value of a problem
    pub uninterp spec fn problem_value(p: Problem) -> int;
    #[verifier::external_body]
    pub struct RpcRequestDeserializer { _p: () }
    impl RpcRequestDeserializer {
        pub uninterp spec fn ep(&self) -> EntryPoint;
        pub uninterp spec fn url(&self) -> Url;
        pub uninterp spec fn head(&self) -> ReqHead;
        pub uninterp spec fn used(&self) -> bool;
        #[verifier::external_body]
        pub fn new(ep: EntryPoint, url: &Url, request: &Request<TcpStream>) -> (r: RpcRequestDeserializer)
            ensures r.ep() == ep, r.url() == *url, r.head() == request.head(), !r.used()
        { unimplemented!() }
    }
    pub trait HasValue: Sized { spec fn value(self) -> int; }
    pub trait Deserialize: HasValue {
        fn deserialize(de: &mut RpcRequestDeserializer) -> (r: Result<Self, ::error::Error>)
            requires !old(de).used()
            ensures match r {
                Ok(v) => decodes(old(de).ep(), old(de).url(), old(de).head(), v.value()),
                Err(_) => rejects(old(de).ep(), old(de).url(), old(de).head()),
            };
    }
    pub type ReadBody<T> = Fu<(BodyReader<Request<TcpStream>>, T), ::error::Error>;
    pub trait RpcRequest: Deserialize {
        fn read_body(self, body: BodyReader<Request<TcpStream>>) -> (r: ReadBody<Self>)
            ensures forall|x: Result<(BodyReader<Request<TcpStream>>, Self), ::error::Error>| #[trigger] r.can(x) ==> (x matches Ok(p) ==>
                p.0.inner().conn() == body.inner().conn() && p.0.inner().head() == body.inner().head() && completes(self.value(), p.0.inner().got(), p.1.value()));
    }
    pub trait RpcResponse: HasValue {}
    pub trait Procedure: Sized {
        type Request: RpcRequest;
        type Response: RpcResponse;
        spec fn method_spec() -> Method;
        spec fn ep_spec() -> EntryPoint;
        fn method() -> (r: Method) ensures r == Self::method_spec();
        fn entry_point() -> (r: EntryPoint) ensures r == Self::ep_spec();
    }
    #[verifier::external_body]
    pub struct NeverFail { _p: () }
    /// a value that some request of the entry point decoded to
    pub open spec fn from_request(ep: EntryPoint, full: int) -> bool {
        exists|url: Url, head: ReqHead, v: int, got: Option<Seq<u8>>| #[trigger] decodes(ep, url, head, v) && #[trigger] completes(v, got, full)
    }
    pub trait HandleRpc<P: Procedure>: Sized {
        /// is invoked only for requests whose parts all decoded
        fn handle_rpc(self, request: P::Request) -> (r: Fu<P::Response, NeverFail>)
            requires from_request(P::ep_spec(), request.value())
            ensures forall|x: Result<P::Response, NeverFail>| #[trigger] r.can(x) ==> (x matches Ok(v) && replies(P::ep_spec(), request.value(), v.value()));
        fn clone(&self) -> (r: Self) ensures r == *self;
    }
    pub struct RpcResponseSerializer {}
    impl RpcResponseSerializer {
        #[verifier::external_body]
        pub fn serialize<R: RpcResponse>(response: R, connection: Connection<TcpStream>) -> (r: Result<(Response<TcpStream>, DynBody), ::error::Error>)
            ensures r matches Ok(p) ==> p.0.conn() == connection@ && p.0.sent() == Seq::<u8>::empty() && describes(response.value(), p.0.head(), p.1@)
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Problem { _p: () }
    #[verifier::external_body]
    pub struct ProblemResponse { _p: () }
    impl Problem {
        pub uninterp spec fn code(&self) -> u16;
        pub uninterp spec fn bare(&self) -> bool;
        #[verifier::external_body]
        pub fn about_blank(status: Status) -> (r: Problem) ensures r.code() == status_code(status) { unimplemented!() }
        #[verifier::external_body]
        pub fn trackable<E>(status: Status, error: E) -> (r: Problem) ensures r.code() == status_code(status) { unimplemented!() }
        #[verifier::external_body]
        pub fn into_response(self) -> (r: ProblemResponse) ensures r.value() == problem_value(self) { unimplemented!() }
    }
    impl HasValue for ProblemResponse { uninterp spec fn value(self) -> int; }
    impl RpcResponse for ProblemResponse {}
    // ---- the router: C07 proves it ----
    #[verifier::external_body]
    pub struct Router { _p: () }
    #[verifier::external_body]
    pub struct RouterBuilder { _p: () }
    #[verifier::external_body]
    pub struct Handler { _p: () }
    impl Handler {
        pub uninterp spec fn ep(&self) -> EntryPoint;
        #[verifier::external_body]
        pub fn call(&self, url: Url, request: Request<TcpStream>) -> (r: Fu<(Response<TcpStream>, DynBody), ::error::Error>)
            requires request.got() is None
            ensures answers(self.ep(), url, request, r)
        { unimplemented!() }
    }
    /// where the router leads
    pub uninterp spec fn routed(router: Router, url: Url, method: Method) -> Result<EntryPoint, Status>;
    impl Router {
        #[verifier::external_body]
        pub fn route(&self, url: &Url, request: &Request<TcpStream>) -> (r: Result<Handler, Status>)
            ensures match routed(*self, *url, request.head().method) { Ok(ep) => r is Ok && r->Ok_0.ep() == ep, Err(s) => r == Err::<Handler, Status>(s) && (s is NotFound || s is MethodNotAllowed) }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Router) ensures r == *self { unimplemented!() }
    }
    impl RouterBuilder {
        #[verifier::external_body]
        pub fn new() -> RouterBuilder { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(self) -> Router { unimplemented!() }
        #[verifier::external_body]
        pub fn register_handler<F: Fn(Url, Request<TcpStream>) -> Fu<(Response<TcpStream>, DynBody), ::error::Error>>(&mut self, method: Method, ep: EntryPoint, f: F) -> (r: Result<(), ::error::Error>)
            requires
                forall|u: Url, q: Request<TcpStream>| q.got() is None ==> #[trigger] call_requires(f, (u, q)),
                forall|u: Url, q: Request<TcpStream>, r: Fu<(Response<TcpStream>, DynBody), ::error::Error>| #[trigger] call_ensures(f, (u, q), r) ==> answers(ep, u, q, r),
        { unimplemented!() }
    }
    /// the head and body describe a problem of that status
    pub open spec fn tells(code: u16, head: RespHead, body: Seq<u8>) -> bool {
        exists|p: Problem| p.code() == code && describes(#[trigger] problem_value(p), head, body)
    }
    /// what a handler of the entry point may make of a request
    pub open spec fn outcome(ep: EntryPoint, url: Url, req: ReqHead, got: Option<Seq<u8>>, head: RespHead, body: Seq<u8>) -> bool {
        ||| rejects(ep, url, req) && got is Some && tells(400, head, body)
        ||| exists|v: int, full: int, out: int| #[trigger] decodes(ep, url, req, v) && #[trigger] completes(v, got, full) && #[trigger] replies(ep, full, out) && describes(out, head, body)
    }
    pub open spec fn answers(ep: EntryPoint, url: Url, q: Request<TcpStream>, f: Fu<(Response<TcpStream>, DynBody), ::error::Error>) -> bool {
        forall|p: (Response<TcpStream>, DynBody)| #[trigger] f.can(Ok(p)) ==> exists|got: Option<Seq<u8>>| {
            &&& p.0.conn() == q.conn().push(Ev::Read { head: q.head(), body: got })
            &&& p.0.sent() == Seq::<u8>::empty()
            &&& #[trigger] outcome(ep, url, q.head(), got, p.0.head(), p.1@)
        }
    }
    // ---- listening ----
    #[verifier::external_body]
    pub struct Logger { _p: () }
    pub struct Discard;
    impl Logger {
        #[verifier::external_body]
        pub fn root(d: Discard, o: ()) -> Logger { unimplemented!() }
        #[verifier::external_body]
        pub fn clone(&self) -> Logger { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct BoxSpawn { _p: () }
    impl BoxSpawn {
        #[verifier::external_body]
        pub fn spawn<F: Future>(&self, f: F) requires f.live() { unimplemented!() }
    }
    pub trait Spawn: Sized { fn boxed(self) -> BoxSpawn; }
    #[verifier::external_body]
    pub struct TcpListener { _p: () }
    impl TcpListener {
        #[verifier::external_body]
        pub fn bind(a: SocketAddr) -> TcpListenerBind { unimplemented!() }
        #[verifier::external_body]
        pub fn local_addr(&self) -> Result<SocketAddr, IoError> { unimplemented!() }
        #[verifier::external_body]
        pub fn incoming(self) -> Incoming { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Incoming { _p: () }
    impl Incoming {
        #[verifier::external_body]
        pub fn into_future(self) -> StreamFuture<Incoming> { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct TcpListenerBind { _p: () }
    impl FutSpec for TcpListenerBind {
        type Item = TcpListener;
        type Error = IoError;
        open spec fn live(self) -> bool { true }
        open spec fn gives(self, r: Result<Async<TcpListener>, IoError>) -> bool { true }
        open spec fn pending(self, after: Self) -> bool { true }
    }
    impl Future for TcpListenerBind {
        #[verifier::external_body]
        fn poll(&mut self) -> (r: Result<Async<Self::Item>, Self::Error>) { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(S)]
    pub struct StreamFuture<S> { _p: std::marker::PhantomData<S> }
    impl FutSpec for StreamFuture<Incoming> {
        type Item = (Option<(Fu<TcpStream, IoError>, SocketAddr)>, Incoming);
        type Error = (IoError, Incoming);
        open spec fn live(self) -> bool { true }
        open spec fn gives(self, r: Result<Async<(Option<(Fu<TcpStream, IoError>, SocketAddr)>, Incoming)>, (IoError, Incoming)>) -> bool { true }
        open spec fn pending(self, after: Self) -> bool { true }
    }
    impl Future for StreamFuture<Incoming> {
        #[verifier::external_body]
        fn poll(&mut self) -> (r: Result<Async<Self::Item>, Self::Error>) { unimplemented!() }
    }
    }
}
/// parsing of request targets: the url crate's parser, for all bases and texts
pub mod urlx {
    use vstd::prelude::*;
    use url::Url;
    verus! {
    /// the URL a text denotes against a base (None: it denotes none)
    pub uninterp spec fn url_join(base: Option<Url>, text: Seq<char>) -> Option<Url>;
    pub open spec fn base_text() -> Seq<char> { "http://foo/"@ }
    /// the URL a request target denotes: one fixed base whose path is empty
    pub open spec fn url_of(target: Seq<char>) -> Option<Url> { url_join(url_join(None, base_text()), target) }
    pub broadcast axiom fn axiom_base() ensures (#[trigger] url_join(None, base_text())) is Some;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct UrlError { _p: () }
    impl From<UrlError> for ::error::Error {
        #[verifier::external_body]
        fn from(f: UrlError) -> Self { unimplemented!() }
    }
    impl vstd::std_specs::convert::FromSpecImpl<UrlError> for ::error::Error {
        open spec fn obeys_from_spec() -> bool { false }
        open spec fn from_spec(v: UrlError) -> Self { arbitrary() }
    }
    pub open spec fn parsed(r: Result<Url, UrlError>, u: Option<Url>) -> bool {
        match u { Some(u) => r is Ok && r->Ok_0 == u, None => r is Err }
    }
    #[verifier::external_body]
    pub struct ParseOptions { _p: () }
    impl ParseOptions {
        pub uninterp spec fn base(&self) -> Option<Url>;
        #[verifier::external_body]
        pub fn base_url(self, b: Option<&Url>) -> (r: ParseOptions)
            ensures r.base() == (match b { Some(u) => Some(*u), None => None })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn parse(self, s: &str) -> (r: Result<Url, UrlError>) ensures parsed(r, url_join(self.base(), s@)) { unimplemented!() }
    }
    impl Url {
        #[verifier::external_body]
        pub fn parse(s: &str) -> (r: Result<Url, UrlError>) ensures parsed(r, url_join(None, s@)) { unimplemented!() }
        #[verifier::external_body]
        pub fn options() -> (r: ParseOptions) ensures r.base() is None { unimplemented!() }
        #[verifier::external_body]
        pub fn join(&self, s: &str) -> (r: Result<Url, UrlError>) ensures parsed(r, url_join(Some(*self), s@)) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn leaked(b: Box<Url>) -> (r: &'static Url) ensures *r == *b { unimplemented!() }
    }
}
