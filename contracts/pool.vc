%source src/pool.rs
%skip use -- names come from the prelude of the contract file
%skip impl fmt::Debug@PooledConnection -- no behaviour of interest
%skip impl Debug@PooledConnection -- no behaviour of interest
%skip impl PooledRpcClient -- issues calls: pool_call.vc
%skip struct Call -- pool_call.vc
%skip impl Future@Call -- pool_call.vc
%drop-types Future@PooledConnection Item Error
%drop-types Future@AcquireConnection Item Error
%drop-types Future@RpcClientPool Item Error
%derive ConnectionId Clone, Copy, PartialEq, Eq, Structural

%prelude
use std::cmp::Ordering;
use ordx::{Ord, OrdSpec, PartialOrd};
use netx::{SocketAddr, ax_addr_total};
use collx::{BTreeMap, HashMap, Bound};
use timex::*;
use chanx::{mpsc, oneshot};
use connectx::{TcpStream, TimeoutAfter, TimerExt, attempt_failed};
use futures;
use futures::{Async, Future, FutSpec, Poll, Done};
use handy_async::future::Phase;
use miasht;
use trackable::error::ErrorKindExt;
use {Error, ErrorKind};
use pool_theory::*;
use pool_history::{handled, reaches, lemma_reach, lemma_reach_none, lemma_event, moves, Ev, step};
use chanx::oneshot::Msg;
broadcast use ax_time;

%fn ConnectionId::new
    ensures r.addr == addr, r.seq_no == seq_no
%fn PartialOrd@ConnectionId::partial_cmp
    ensures
        r is Some,
        r->0 is Less <==> cid_lt(*self, *other), r->0 is Equal <==> *self == *other, r->0 is Greater <==> cid_lt(*other, *self)
%fn Ord@ConnectionId::cmp
%fn PooledConnection::failed
    ensures r.refuses(), r.live()
%fn Future@PooledConnection::poll
%fn RpcClientPool::new
    ensures r.inv(), fresh(r.pv(), 1024, 60_000_000_000), r.connect_timeout@ == 1_000_000_000
%fn RpcClientPool::with_pool_size
    ensures r.inv(), fresh(r.pv(), pool_size as nat, 60_000_000_000), r.connect_timeout@ == 1_000_000_000
%fn RpcClientPool::handle
    ensures r.command_tx.chan() == self.command_tx.chan()
%fn RpcClientPool::set_suspended_duration
    requires old(self).inv()
    ensures final(self).inv(), final(self).pv() == (PoolV { suspension: duration@, ..old(self).pv() }), final(self).connect_timeout == old(self).connect_timeout
%fn RpcClientPool::set_connect_timeout
    requires old(self).inv()
    ensures final(self).inv(), final(self).pv() == old(self).pv(), final(self).connect_timeout == timeout
%fn RpcClientPool::handle_command
    requires old(self).inv(), old(self).seq_no < u64::MAX, command.msg_ok(old(self).command_rx.chan()), command.settles()
    ensures
        final(self).inv(), final(self).same_channel(*old(self)),
        handled(command, old(self).pv(), final(self).pv(), old(self).connect_timeout, old(self).command_tx.chan()),
%closure 0 || -> (q: SystemTime) requires now@ + 4_294_967_295_000_000_000int <= last_time() ensures q@ == now@ + 4_294_967_295_000_000_000int
%fn RpcClientPool::acquire_connection
    requires old(self).inv()
    ensures final(self).inv(), final(self).same_channel(*old(self)), r.leads_to(addr), acquired(old(self).pv(), addr, r, final(self).pv(), old(self).connect_timeout, old(self).command_tx.chan())
%closure 0 |e: (&ConnectionId, &TcpConnection)| -> (q: &ConnectionId) ensures q == e.0
%closure 1 |id: ConnectionId| -> (q: Option<ConnectionId>) ensures q == (if id.addr == addr { Some(id) } else { None::<ConnectionId> })
%start
proof { ax_addr_total(); }
%fn RpcClientPool::release_connection
    requires old(self).inv(), old(self).seq_no < u64::MAX, connection.peer() == addr
    ensures final(self).inv(), final(self).same_channel(*old(self)), (released_as(old(self).pv(), addr, connection, old(self).seq_no, final(self).pv()) || released_away(old(self).pv(), final(self).pv()))
%fn RpcClientPool::drop_exceeded_lru_connections
    requires old(self).inv_tables()
    ensures final(self).inv(), final(self).same_channel(*old(self)), trimmed(old(self).pv(), final(self).pv())
%closure 0 |e: (&u64, &SocketAddr)| -> (q: ConnectionId) ensures q.addr == *e.1 && q.seq_no == *e.0
%loop 0
    invariant
        self.inv_tables(), self.same_channel(*old(self)), self.seq_no == old(self).seq_no,
        part_trimmed(old(self).pv(), self.pv()),
    decreases self.connections@.dom().len()
%fn Future@RpcClientPool::poll
%loop 0
    invariant
        self.inv(), self.same_channel(*old(self)),
        reaches(old(self).pv(), self.pv(), old(self).connect_timeout, old(self).command_tx.chan()),
%start
proof { lemma_reach_none(self.pv(), self.connect_timeout, self.command_tx.chan()); }
%attr #[verifier::exec_allows_no_decreases_clause]
%loopstart 0
    // 2^64 releases are out of reach
    assume(self.seq_no < u64::MAX);
    broadcast use lemma_event;
    let ghost before = self.pv();
%loopend 0
    proof {
        assert(moves(before, self.pv(), old(self).connect_timeout, old(self).command_tx.chan()));
        let ev = choose|ev: Ev| step(before, ev, self.pv(), old(self).connect_timeout, old(self).command_tx.chan());
        lemma_reach(old(self).pv(), before, ev, self.pv(), old(self).connect_timeout, old(self).command_tx.chan());
    }
%fn RpcClientPoolHandle::client
    ensures r.addr == addr, r.handle == self
%fn RpcClientPoolHandle::acquire_connection
    ensures r.live(), exists|reply: oneshot::Sender<PooledConnection>| #[trigger] mpsc::sent(self.command_tx.chan(), Command::AcquireConnection { addr, reply }) && r.waits_for(reply.chan()), r.leads_to(addr)
%fn RpcClientPoolHandle::release_connection
    requires connection.peer() == addr, ::connectx::spent(connection@)
    ensures mpsc::sent(self.command_tx.chan(), Command::ReleaseConnection { addr, connection })
%fn Future@AcquireConnection::poll
%loop 0
    invariant
        self.live(),
        *self == *old(self) || (old(self).phase matches Phase::A(rx) && self.phase matches Phase::B(f) && oneshot::sent(rx.chan(), f) && f.leads_to(asked_for(rx.chan()))),
%attr #[verifier::exec_allows_no_decreases_clause]
%extra
impl Clone for RpcClientPoolHandle {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r.command_tx.chan() == self.command_tx.chan()
    { unimplemented!() }
}
pub open spec fn cid_lt(a: ConnectionId, b: ConnectionId) -> bool {
    ::netx::addr_lt(a.addr, b.addr) || (a.addr == b.addr && a.seq_no < b.seq_no)
}
impl OrdSpec for ConnectionId {
    open spec fn lt(a: ConnectionId, b: ConnectionId) -> bool { cid_lt(a, b) }
}
impl FutSpec for PooledConnection {
    type Item = TcpConnection;
    type Error = Error;
    /// a connection attempt knows whom to tell about its failure
    open spec fn live(self) -> bool {
        match self.phase {
            Phase::A(_) => self.on_error is None,
            Phase::B(t) => self.on_error matches Some(x) ==> x.0 == t.future.addr(),
            _ => false,
        }
    }
    open spec fn gives(self, r: Result<Async<TcpConnection>, Error>) -> bool {
        match self.phase {
            Phase::A(d) => match d.inner { Ok(c) => r == Ok::<Async<TcpConnection>, Error>(Async::Ready(c)), Err(_) => r is Err },
            Phase::B(t) => match r {
                Ok(Async::Ready(c)) => c.peer() == t.future.addr(),
                Err(_) => self.on_error matches Some(x) ==> mpsc::sent(x.1.chan(), Command::AddToBlacklist { addr: x.0 }),
                _ => true,
            },
            _ => false,
        }
    }
    open spec fn pending(self, after: Self) -> bool { after.on_error == self.on_error && self.phase.pending(after.phase) }
}
impl FutSpec for AcquireConnection {
    type Item = TcpConnection;
    type Error = Error;
    open spec fn live(self) -> bool { self.phase.live() && (self.phase is A || self.phase is B) }
    open spec fn gives(self, r: Result<Async<TcpConnection>, Error>) -> bool {
        r matches Ok(Async::Ready(c)) ==> (match self.phase {
            Phase::A(rx) => exists|f: PooledConnection| #[trigger] oneshot::sent(rx.chan(), f) && f.gives(r),
            Phase::B(f) => f.gives(r),
            _ => false,
        }) && forall|addr: SocketAddr| #[trigger] self.leads_to(addr) ==> c.peer() == addr
    }
    open spec fn pending(self, after: Self) -> bool {
        (match (self.phase, after.phase) {
            (Phase::A(rx), Phase::A(ry)) => rx.chan() == ry.chan(),
            (Phase::A(rx), Phase::B(g)) => exists|f: PooledConnection| #[trigger] oneshot::sent(rx.chan(), f) && f.pending(g),
            (Phase::B(f), Phase::B(g)) => f.pending(g),
            _ => false,
        }) && forall|addr: SocketAddr| #[trigger] self.leads_to(addr) ==> after.leads_to(addr)
    }
}
/// What may be told to the pool: only failed attempts suspend, and only the connections of an address are released under it.
impl oneshot::Msg for Command {
    open spec fn msg_ok(self, chan: int) -> bool {
        match self {
            Command::AcquireConnection { .. } => true,
            Command::ReleaseConnection { addr, connection } => connection.peer() == addr && ::connectx::spent(connection@),
            Command::AddToBlacklist { addr } => attempt_failed(addr),
        }
    }
    open spec fn settles(self) -> bool {
        match self { Command::AcquireConnection { addr, reply } => asked_for(reply.chan()) == addr, _ => true }
    }
}
impl oneshot::Msg for PooledConnection {
    open spec fn msg_ok(self, chan: int) -> bool { self.live() && self.leads_to(asked_for(chan)) }
    open spec fn settles(self) -> bool { true }
}
impl AcquireConnection {
    pub open spec fn leads_to(self, addr: SocketAddr) -> bool {
        match self.phase { Phase::A(rx) => asked_for(rx.chan()) == addr, Phase::B(f) => f.leads_to(addr), _ => false }
    }
    pub open spec fn waits_for(self, chan: int) -> bool { self.phase matches Phase::A(rx) && rx.chan() == chan }
}
impl FutSpec for RpcClientPool {
    type Item = ();
    type Error = ();
    open spec fn live(self) -> bool { self.inv() }
    open spec fn gives(self, r: Result<Async<()>, ()>) -> bool { r == Ok::<Async<()>, ()>(Async::NotReady) }
    open spec fn pending(self, after: Self) -> bool { after.same_channel(self) && reaches(self.pv(), after.pv(), self.connect_timeout, self.command_tx.chan()) }
}
/// the address whose connection the channel was made for
pub uninterp spec fn asked_for(chan: int) -> SocketAddr;
impl PooledConnection {
    /// any connection it gives is to this address
    pub open spec fn leads_to(self, addr: SocketAddr) -> bool {
        match self.phase {
            Phase::A(d) => d.inner matches Ok(c) ==> c.peer() == addr,
            Phase::B(t) => t.future.addr() == addr,
            _ => false,
        }
    }
    pub open spec fn refuses(self) -> bool { self.phase matches Phase::A(d) && d.inner is Err }
    pub open spec fn is_idle(self, c: TcpConnection) -> bool { self.phase matches Phase::A(d) && d.inner == Ok::<TcpConnection, Error>(c) }
    /// a new attempt to connect to the address, whose failure the pool will hear of
    pub open spec fn connects(self, addr: SocketAddr, limit: Duration, chan: int) -> bool {
        &&& self.phase matches Phase::B(t) && t.future.addr() == addr && t.limit == limit
        &&& self.on_error matches Some(x) && x.0 == addr && x.1.chan() == chan
    }
}
pub open spec fn idle_of(conns: Map<ConnectionId, TcpConnection>, queue: Map<u64, SocketAddr>) -> Map<u64, (SocketAddr, TcpConnection)> {
    Map::new(queue.dom(), |n: u64| (queue[n], conns[ConnectionId { addr: queue[n], seq_no: n }]))
}
impl RpcClientPool {
    /// the two tables describe the same idle connections
    pub open spec fn inv_tables(self) -> bool {
        &&& forall|id: ConnectionId| #[trigger] self.connections@.dom().contains(id) ==> self.lru_queue@.dom().contains(id.seq_no) && self.lru_queue@[id.seq_no] == id.addr
        &&& forall|n: u64| #[trigger] self.lru_queue@.dom().contains(n) ==> n < self.seq_no && self.connections@.dom().contains(ConnectionId { addr: self.lru_queue@[n], seq_no: n })
        &&& forall|id: ConnectionId| #[trigger] self.connections@.dom().contains(id) ==> self.connections@[id].peer() == id.addr
        &&& self.connections@.dom().finite() && self.lru_queue@.dom().finite()
        &&& self.connections@.dom().len() == self.lru_queue@.dom().len()
        &&& self.command_tx.chan() == self.command_rx.chan()
    }
    pub open spec fn inv(self) -> bool { self.inv_tables() && self.connections@.dom().len() <= self.pool_size }
    pub open spec fn same_channel(self, o: Self) -> bool {
        self.command_tx.chan() == o.command_tx.chan() && self.command_rx.chan() == o.command_rx.chan() && self.connect_timeout == o.connect_timeout
    }
    pub open spec fn pv(self) -> PoolV {
        PoolV {
            size: self.pool_size as nat,
            idle: idle_of(self.connections@, self.lru_queue@),
            next: self.seq_no,
            black: self.blacklist@,
            suspension: self.suspended_duration@,
        }
    }
}
