%source src/client.rs
%skip use -- names come from the prelude of the contract file
%skip type BoxFuture -- opaque in the shims
%drop-types Future@Call Item Error
%drop-types Future@CallInner Item Error

%prelude
use netx::SocketAddr;
use connectx::{Client, Connection, TcpStream, Connect};
use futures;
use miasht;
use futures::{Async, Future, FutSpec, Poll};
use handy_async::future::Phase;
use clientx::*;
use clientx::Procedure;
use Error;
use types::HttpMethod;
pub mod io { pub use clientx::IoError as Error; pub use clientx::IoErrorKind as ErrorKind; }

%fn RpcClient::new
    ensures r.server == server
%fn RpcClient::call
    ensures r.0.at(request, |c: ConnV| c.peer == old(self).server && c.log.len() == 0), r.0.live(), *final(self) == *old(self)
%fn Future@Call::poll
%start
broadcast use lemma_call_gives;
%fn Future@CallInner::poll
%attr #[verifier::exec_allows_no_decreases_clause]
%loop 0
    invariant
        self.live(),
        forall|q: P::Request, o: spec_fn(ConnV) -> bool| #[trigger] old(self).at(q, o) ==> self.at(q, o),
%loopstart 0
    broadcast use lemma_pushed;
%closure 0 |r: Request<TcpStream>| -> (q: Request<TcpStream>) ensures q == r
%closure 1 |res: BodyReader<Response<TcpStream>>| -> (q: Fu<(BodyReader<Response<TcpStream>>, Vec<u8>), MiashtError>) ensures forall|x: Result<(BodyReader<Response<TcpStream>>, Vec<u8>), MiashtError>| #[trigger] q.can(x) ==> (x matches Ok(p) ==> body_read(res, p.0, p.1@))
%closure 2 |e: MiashtError| -> (q: MiashtError)
%closure 3 |e: (BodyReader<Response<TcpStream>>, Vec<u8>)| -> (q: Result<(Response<TcpStream>, Vec<u8>), MiashtError>) ensures q matches Ok(p) ==> p.0 == e.0.inner() && p.1 == e.1 && (e.0 matches BodyReader::FixedLength(t) ==> t.limit_spec() == 0)
%extra
pub broadcast proof fn lemma_pushed(s: Seq<Ev>, e: Ev)
    ensures (#[trigger] s.push(e)).drop_last() == s, s.push(e).last() == e
{ assert(s.push(e).drop_last() =~= s); }
impl<P: Procedure> CallInner<P> {
    /// `c` is a connection of `o` on which the call's request, and nothing else, was written since
    pub open spec fn written(c: ConnV, q: P::Request, o: spec_fn(ConnV) -> bool) -> bool {
        &&& c.log.len() > 0
        &&& c.log.last() matches Ev::Wrote { head, body } && body == q.body_spec() && asks(q.content(), P::method_spec(), P::ep_spec(), q.body_spec(), head)
        &&& o(ConnV { log: c.log.drop_last(), ..c })
    }
    /// the body that belongs to the response: all of it, or none for HEAD
    pub open spec fn whole(r: Response<TcpStream>, body: Seq<u8>) -> bool {
        if P::method_spec() is Head { r.got() is None && body.len() == 0 } else { r.got() == Some(body) && complete(r.head().lines, body) }
    }
    /// where the call for `q` stands, over a connection of `o`
    pub open spec fn at(self, q: P::Request, o: spec_fn(ConnV) -> bool) -> bool {
        match self.phase {
            Phase::A(f) => self.request == Some(q) && forall|c: Connection<TcpStream>| #[trigger] f.can(Ok(c)) ==> o(c@),
            Phase::B(f) => forall|c: Connection<TcpStream>| #[trigger] f.can(Ok(c)) ==> Self::written(c@, q, o),
            Phase::C(f) => forall|r: Response<TcpStream>| #[trigger] f.can(Ok(r)) ==> Self::written(r.conn(), q, o) && r.got() is None,
            Phase::D(f) => forall|p: (Response<TcpStream>, Vec<u8>)| #[trigger] f.can(Ok(p)) ==> Self::written(p.0.conn(), q, o) && Self::whole(p.0, p.1@),
            _ => false,
        }
    }
    /// the call's outcome: the value decoded from the response read on that connection, after the request was written
    pub open spec fn answered(q: P::Request, o: spec_fn(ConnV) -> bool, v: P::Response, c: ConnV) -> bool {
        exists|r: Response<TcpStream>, body: Seq<u8>, head: P::Response| {
            &&& #[trigger] Self::whole(r, body)
            &&& Self::written(r.conn(), q, o)
            &&& c == (ConnV { log: r.conn().log.push(Ev::Read { head: r.head(), body: r.got() }), ..r.conn() })
            &&& #[trigger] reads(r.head(), head) && was_decoded(r.head())
            &&& v == head.with_body(body)
        }
    }
}
impl<P: Procedure> CallInner<P> {
    pub open spec fn answers(self, v: P::Response) -> bool {
        forall|q: P::Request, o: spec_fn(ConnV) -> bool| #[trigger] self.at(q, o) ==> exists|c: ConnV| Self::answered(q, o, v, c)
    }
}
impl<P: Procedure> FutSpec for CallInner<P> {
    type Item = (P::Response, Connection<TcpStream>);
    type Error = Error;
    open spec fn live(self) -> bool { !(self.phase is E) && (self.phase is A ==> self.request is Some) }
    open spec fn gives(self, r: Result<Async<(P::Response, Connection<TcpStream>)>, Error>) -> bool {
        r matches Ok(Async::Ready(p)) ==> forall|q: P::Request, o: spec_fn(ConnV) -> bool| #[trigger] self.at(q, o) ==> Self::answered(q, o, p.0, p.1@)
    }
    open spec fn pending(self, after: Self) -> bool {
        forall|q: P::Request, o: spec_fn(ConnV) -> bool| #[trigger] self.at(q, o) ==> after.at(q, o)
    }
}
impl<P: Procedure> FutSpec for Call<P> {
    type Item = P::Response;
    type Error = Error;
    open spec fn live(self) -> bool { self.0.live() }
    open spec fn gives(self, r: Result<Async<P::Response>, Error>) -> bool {
        (r is Ok && r->Ok_0 is Ready) ==> self.0.answers(r->Ok_0->Ready_0)
    }
    open spec fn pending(self, after: Self) -> bool { self.0.pending(after.0) }
}
pub broadcast proof fn lemma_call_gives<P: Procedure>(s: CallInner<P>, r: Result<Async<(P::Response, Connection<TcpStream>)>, Error>)
    requires #[trigger] s.gives(r), r is Ok, r->Ok_0 is Ready
    ensures s.answers((r->Ok_0->Ready_0).0)
{
    let p = r->Ok_0->Ready_0;
    assert forall|q: P::Request, o: spec_fn(ConnV) -> bool| #[trigger] s.at(q, o) implies exists|c: ConnV| CallInner::<P>::answered(q, o, p.0, c) by {
        assert(CallInner::<P>::answered(q, o, p.0, p.1@));
    }
}
