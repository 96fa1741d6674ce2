%source src/server.rs
%skip use -- names come from the prelude of the contract file
%skip type BoxFuture -- opaque in the shims
%drop-types Future@RpcServer Item Error
%drop-types Future@HandleHttpRequest Item Error
%rewrite `Box<dyn AsRef<[u8]> + Send + 'static>` => `DynBody`
%rewrite `struct Temp(Box<dyn AsRef<[u8]> + Send + 'static>); impl AsRef<[u8]> for Temp { fn as_ref(&self) -> &[u8] { (*self.0).as_ref() } }` => ``
%rewrite `Temp(body)` => `body`
%rewrite `handler(url, request)` => `handler.call(url, request)`
%rewrite `map(Some)` => `map(|x: Request<TcpStream>| -> (q: Option<Request<TcpStream>>) ensures q == Some(x) { Some(x) })`
%rewrite `fibers::net::futures::TcpListenerBind` => `TcpListenerBind`
%rewrite `fibers::net::streams::Incoming` => `Incoming`
%rewrite `fibers::net::TcpListener` => `TcpListener`
%rewrite `|_| unreachable!()` => `|e: NeverFail| -> (q: Error) requires false { unreachable!() }`
%rewrite `_: P` => `_unused: P`
%rewrite `S: Spawn + Send + 'static` => `S: Spawn`

%prelude
use serverx::*;
use futures;
use futures::{Async, Future, FutSpec, Poll};
use handy_async::future::Phase;
use netx::SocketAddr;
use url::Url;
use miasht_method::Method as HttpMethod;
use miasht_status::Status as HttpStatus;
use status_theory::status_code;
use error::{Error, ErrorKind};
use Result;
use trackable::error::ErrorKindExt;
use misc;
use urlx::url_of;
use miasht;
pub mod io { pub use serverx::IoError as Error; pub use serverx::IoErrorKind as ErrorKind; }
%fn RpcServerBuilder::new
    ensures true
%fn RpcServerBuilder::set_logger
    ensures true
%fn RpcServerBuilder::register
    ensures true
%start
broadcast use {lemma_rejected, lemma_replied};
%closure 0 |url: Url, http_request: Request<TcpStream>| -> (fut: Fu<(Response<TcpStream>, DynBody), Error>) requires http_request.got() is None ensures answers(P::ep_spec(), url, http_request, fut)
%closure 1 |request: BodyReader<Request<TcpStream>>| -> (q: Fu<(BodyReader<Request<TcpStream>>, Vec<u8>), Error>) ensures forall|x: ::std::result::Result<(BodyReader<Request<TcpStream>>, Vec<u8>), Error>| #[trigger] q.can(x) ==> (x matches Ok(p) ==> read_up(request.inner(), p.0.inner()))
%closure 2 |e2: (BodyReader<Request<TcpStream>>, Vec<u8>)| -> (q: Result<(Response<TcpStream>, DynBody)>) ensures q matches Ok(p) ==> p.0.conn() == e2.0.inner().log() && p.0.sent() == Seq::<u8>::empty() && tells(400, p.0.head(), p.1@)
%closure 3 |http_request: BodyReader<Request<TcpStream>>| -> (q: ReadBody<P::Request>) ensures forall|x: ::std::result::Result<(BodyReader<Request<TcpStream>>, P::Request), Error>| #[trigger] q.can(x) ==> (x matches Ok(p) ==> p.0.inner().conn() == http_request.inner().conn() && p.0.inner().head() == http_request.inner().head() && completes(rpc_request.value(), p.0.inner().got(), p.1.value()))
%closure 4 |e4: (BodyReader<Request<TcpStream>>, P::Request)| -> (q: Fu<(Response<TcpStream>, DynBody), Error>) requires from_request(P::ep_spec(), e4.1.value()) ensures forall|x: ::std::result::Result<(Response<TcpStream>, DynBody), Error>| #[trigger] q.can(x) ==> (x matches Ok(p) ==> p.0.conn() == e4.0.inner().log() && p.0.sent() == Seq::<u8>::empty() && exists|out: int| #[trigger] replies(P::ep_spec(), e4.1.value(), out) && describes(out, p.0.head(), p.1@))
%closure 5 |rpc_response: P::Response| -> (q: Result<(Response<TcpStream>, DynBody)>) ensures q matches Ok(p) ==> p.0.conn() == http_request.log() && p.0.sent() == Seq::<u8>::empty() && describes(rpc_response.value(), p.0.head(), p.1@)
%fn RpcServerBuilder::start
    ensures r.live()
%fn Future@RpcServer::poll
%attr #[verifier::exec_allows_no_decreases_clause]
%loop 0
    invariant self.live()
%closure 1 |result: ::std::result::Result<TcpStream, IoError>| -> (q: ::std::result::Result<Connection<TcpStream>, MiashtError>) ensures q matches Ok(c) ==> c@ == Seq::<Ev>::empty()
%closure 2 |inner: &InnerStream| -> (q: ::std::result::Result<(), IoError>)
%fn HandleHttpRequest::poll_impl
    requires old(self).live()
    ensures
        r is Ok && r->Ok_0 is NotReady ==> final(self).live(),
        final(self).router == old(self).router,
%attr #[verifier::exec_allows_no_decreases_clause]
%loop 0
    invariant self.live(), self.router == old(self).router
%loopstart 0
    broadcast use {lemma_pushed, lemma_answer, lemma_nothing};
%closure 0 |e: MiashtError| -> (q: ::std::result::Result<Option<Request<TcpStream>>, MiashtError>) ensures q matches Ok(x) ==> x is None
%closure 1 |request: BodyReader<Request<TcpStream>>| -> (q: Fu<(BodyReader<Request<TcpStream>>, Vec<u8>), Error>) ensures forall|x: ::std::result::Result<(BodyReader<Request<TcpStream>>, Vec<u8>), Error>| #[trigger] q.can(x) ==> (x matches Ok(p) ==> read_up(request.inner(), p.0.inner()))
%closure 2 |e2: (BodyReader<Request<TcpStream>>, Vec<u8>)| -> (q: Result<(Response<TcpStream>, DynBody)>) ensures q matches Ok(p) ==> p.0.conn() == e2.0.inner().log() && p.0.sent() == Seq::<u8>::empty() && tells(400, p.0.head(), p.1@)
%closure 3 |request: BodyReader<Request<TcpStream>>| -> (q: Fu<(BodyReader<Request<TcpStream>>, Vec<u8>), Error>) ensures forall|x: ::std::result::Result<(BodyReader<Request<TcpStream>>, Vec<u8>), Error>| #[trigger] q.can(x) ==> (x matches Ok(p) ==> read_up(request.inner(), p.0.inner()))
%closure 4 |e2: (BodyReader<Request<TcpStream>>, Vec<u8>)| -> (q: Result<(Response<TcpStream>, DynBody)>) ensures q matches Ok(p) ==> p.0.conn() == e2.0.inner().log() && p.0.sent() == Seq::<u8>::empty() && tells(status_code(status), p.0.head(), p.1@)
%closure 5 |res: Response<TcpStream>| -> (q: Response<TcpStream>) ensures q == res
%fn Future@HandleHttpRequest::poll
%closure 0 |e: Error| -> (q: ())
%extra
/// what is due to a request: the response's head and body, its own body having been read when it is refused
pub open spec fn due(router: Router, req: ReqHead, got: Option<Seq<u8>>, head: RespHead, body: Seq<u8>) -> bool {
    match url_of(req.target) {
        None => got is Some && tells(400, head, body),
        Some(url) => match routed(router, url, req.method) {
            Err(s) => got is Some && tells(status_code(s), head, body),
            Ok(ep) => outcome(ep, url, req, got, head, body),
        },
    }
}
/// the response written is the one due: followed by its body, or by nothing when the request was HEAD
pub open spec fn answered(router: Router, q: Ev, a: Ev) -> bool {
    q is Read && a is Wrote && exists|body: Seq<u8>| #[trigger] due(router, q->Read_head, q->Read_body, a->Wrote_head, body)
        && a->Wrote_body == (if q->Read_head.method is Head { Seq::<u8>::empty() } else { body })
}
/// requests and their answers in turn, each with exactly the one that is due
pub open spec fn served(router: Router, log: Seq<Ev>) -> bool
    decreases log.len()
{
    log.len() == 0 || (log.len() >= 2 && answered(router, log[log.len() - 2], log.last()) && served(router, log.take(log.len() - 2)))
}
/// all requests but the last are served, and that one is read
pub open spec fn asked(router: Router, log: Seq<Ev>, method: HttpMethod, head: RespHead, body: Seq<u8>) -> bool {
    &&& log.len() > 0
    &&& served(router, log.drop_last())
    &&& log.last() matches Ev::Read { head: req, body: got } && req.method == method && due(router, req, got, head, body)
}
pub broadcast proof fn lemma_pushed(s: Seq<Ev>, e: Ev)
    ensures (#[trigger] s.push(e)).drop_last() == s, s.push(e).last() == e, s.push(e).len() == s.len() + 1
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_nothing(s: Seq<u8>, b: Seq<u8>)
    requires s.len() == 0
    ensures #[trigger] (s + b) == b
{ assert(s + b =~= b); }
/// writing what is due makes the connection served
pub broadcast proof fn lemma_answer(router: Router, log: Seq<Ev>, method: HttpMethod, head: RespHead, body: Seq<u8>, sent: Seq<u8>)
    requires #[trigger] asked(router, log, method, head, body), sent == (if method is Head { Seq::<u8>::empty() } else { body })
    ensures served(router, #[trigger] log.push(Ev::Wrote { head, body: sent }))
{
    let l = log.push(Ev::Wrote { head, body: sent });
    assert(l.take(l.len() - 2) =~= log.drop_last());
    assert(l[l.len() - 2] == log.last());
    assert(l.last() == Ev::Wrote { head, body: sent });
    assert(due(router, log.last()->Read_head, log.last()->Read_body, head, body));
    assert(log.last()->Read_head.method == method);
    assert(l.last()->Wrote_head == head && l.last()->Wrote_body == sent);
    assert(due(router, log.last()->Read_head, log.last()->Read_body, l.last()->Wrote_head, body));
    assert(sent == (if log.last()->Read_head.method is Head { Seq::<u8>::empty() } else { body }));
    assert(answered(router, log.last(), l.last()));
}
pub broadcast proof fn lemma_rejected(ep: ::procedure::EntryPoint, url: Url, q: Request<TcpStream>, head: RespHead, body: Seq<u8>)
    requires #[trigger] rejects(ep, url, q.head()), #[trigger] tells(400, head, body), q.got() is Some
    ensures outcome(ep, url, q.head(), q.got(), head, body), #[trigger] q.log() == q.log()
{}
pub broadcast proof fn lemma_replied(ep: ::procedure::EntryPoint, url: Url, req: ReqHead, got: Option<Seq<u8>>, v: int, full: int, out: int, head: RespHead, body: Seq<u8>)
    requires #[trigger] decodes(ep, url, req, v), #[trigger] completes(v, got, full), #[trigger] replies(ep, full, out), #[trigger] describes(out, head, body)
    ensures outcome(ep, url, req, got, head, body)
{}
impl HandleHttpRequest {
    pub open spec fn ready_for_next(self, f: Fu<Connection<TcpStream>, MiashtError>) -> bool {
        forall|c: Connection<TcpStream>| #[trigger] f.can(Ok(c)) ==> served(self.router, c@)
    }
}
impl FutSpec for HandleHttpRequest {
    type Item = ();
    type Error = ();
    open spec fn live(self) -> bool {
        match self.phase {
            Phase::A(f) => self.ready_for_next(f),
            Phase::B(f) => forall|q: Option<Request<TcpStream>>| #[trigger] f.can(Ok(q)) ==> (q matches Some(r) ==> served(self.router, r.conn()) && r.got() is None),
            Phase::C(f) => forall|p: (Response<TcpStream>, DynBody)| #[trigger] f.can(Ok(p)) ==>
                p.0.sent() == Seq::<u8>::empty() && asked(self.router, p.0.conn(), self.method, p.0.head(), p.1@),
            _ => false,
        }
    }
    open spec fn gives(self, r: ::std::result::Result<Async<()>, ()>) -> bool { true }
    open spec fn pending(self, after: Self) -> bool { after.router == self.router }
}
impl FutSpec for RpcServer {
    type Item = ();
    type Error = Error;
    open spec fn live(self) -> bool { self.phase is A || self.phase is B }
    open spec fn gives(self, r: ::std::result::Result<Async<()>, Error>) -> bool { true }
    open spec fn pending(self, after: Self) -> bool { after.router == self.router }
}
