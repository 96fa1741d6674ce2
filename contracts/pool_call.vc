%source src/pool.rs
%only impl PooledRpcClient
%only struct Call
%only impl Future@Call
%drop-types Future@Call Item Error

%prelude
use netx::SocketAddr;
use connectx::{Connection, TcpStream, spent};
use futures;
use futures::{Async, Future, FutSpec, Poll};
use handy_async::future::Phase;
use chanx::{mpsc, oneshot};
use clientx::{Box, ConnV, Ev, IntoFu, Procedure};
use client::CallInner;
use pool::*;
use {Error, ErrorKind};

%fn PooledRpcClient::call
    ensures r.addr == self.addr, r.handle.command_tx.chan() == self.handle.command_tx.chan(), r.inner.live(), r.asks_for(request), r.live()
%start
broadcast use lemma_started;
%fn Future@Call::poll
%start
broadcast use lemma_done, lemma_goes_on;
%extra
/// the connections to an address
pub open spec fn to_addr(addr: SocketAddr) -> spec_fn(ConnV) -> bool { |c: ConnV| c.peer == addr }
impl IntoFu for AcquireConnection {
    type Item = TcpConnection;
    type Error = Error;
    open spec fn fit(self) -> bool { self.live() }
    open spec fn could(self, r: Result<TcpConnection, Error>) -> bool {
        r matches Ok(c) ==> forall|addr: SocketAddr| #[trigger] self.leads_to(addr) ==> c.peer() == addr
    }
}
/// what is said of how an acquisition can end holds of every poll and is kept by those that are not ready
pub proof fn lemma_acquire(a: AcquireConnection, b: AcquireConnection, r: Result<Async<TcpConnection>, Error>)
    ensures
        a.gives(r) ==> (r matches Ok(Async::Ready(c)) ==> a.could(Ok(c))),
        a.pending(b) ==> forall|x: Result<TcpConnection, Error>| #[trigger] b.could(x) ==> a.could(x),
{}
pub broadcast proof fn lemma_done<P: Procedure>(s: CallInner<P>, r: Result<Async<(P::Response, TcpConnection)>, Error>, q: P::Request, addr: SocketAddr)
    requires #[trigger] s.gives(r), r is Ok, r->Ok_0 is Ready, #[trigger] s.at(q, to_addr(addr))
    ensures s.answers((r->Ok_0->Ready_0).0), (r->Ok_0->Ready_0).1.peer() == addr, spent((r->Ok_0->Ready_0).1@)
{
    ::client::lemma_call_gives(s, r);
    assert(CallInner::<P>::answered(q, to_addr(addr), (r->Ok_0->Ready_0).0, (r->Ok_0->Ready_0).1@));
}
impl<P: Procedure> Call<P> {
    pub open spec fn asks_for(self, q: P::Request) -> bool { self.inner.at(q, to_addr(self.addr)) }
}
pub broadcast proof fn lemma_started<P: Procedure>(c: Call<P>)
    requires c.inner.live(), c.inner.request is Some, c.inner.at(c.inner.request->0, to_addr(c.addr))
    ensures #[trigger] c.live()
{ assert(c.asks_for(c.inner.request->0)); }
pub broadcast proof fn lemma_goes_on<P: Procedure>(c: Call<P>, d: Call<P>)
    requires #[trigger] c.inner.pending(d.inner), c.live(), d.addr == c.addr, d.inner.live()
    ensures #[trigger] d.live()
{ let q = choose|q: P::Request| #[trigger] c.asks_for(q); assert(d.asks_for(q)); }
impl<P: Procedure> FutSpec for Call<P> {
    type Item = P::Response;
    type Error = Error;
    /// the call runs over a connection to its address
    open spec fn live(self) -> bool { self.inner.live() && exists|q: P::Request| #[trigger] self.asks_for(q) }
    /// on success the connection goes back to the pool, under its own address
    open spec fn gives(self, r: Result<Async<P::Response>, Error>) -> bool {
        (r is Ok && r->Ok_0 is Ready) ==> self.inner.answers(r->Ok_0->Ready_0)
            && exists|c: TcpConnection| c.peer() == self.addr && #[trigger] mpsc::sent(self.handle.command_tx.chan(), Command::ReleaseConnection { addr: self.addr, connection: c })
    }
    open spec fn pending(self, after: Self) -> bool { self.inner.pending(after.inner) && after.addr == self.addr && after.handle == self.handle }
}
