/// Connections to servers, as the pool and the client see them.
pub mod connectx {
    use vstd::prelude::*;
    use futures::*;
    use netx::SocketAddr;
    use timex::Duration;
    use error::Error;
    use miasht_method::Method;
    verus! {
    #[verifier::external_body]
    pub struct TcpStream { _p: () }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Connection<T> { _p: std::marker::PhantomData<T> }
    impl<T> Connection<T> {
        /// the address the connection was opened to
        pub uninterp spec fn peer(&self) -> SocketAddr;
        pub uninterp spec fn ident(&self) -> int;
        pub uninterp spec fn log(&self) -> Seq<Ev>;
        pub open spec fn view(&self) -> ConnV { ConnV { id: self.ident(), peer: self.peer(), log: self.log() } }
    }
    // ---- what has gone over a connection ----
    /// a request head as written
    pub struct ReqHead { pub method: Method, pub target: Seq<char>, pub lines: Seq<(Seq<char>, Seq<u8>)> }
    /// a response head as read
    pub struct RespHead { pub id: int, pub code: u16, pub lines: Seq<(Seq<char>, Seq<u8>)> }
    pub enum Ev {
        /// a request, completely written
        Wrote { head: ReqHead, body: Seq<u8> },
        /// a response head and, if it was asked for, what was read as its body
        Read { head: RespHead, body: Option<Seq<u8>> },
    }
    pub struct ConnV { pub id: int, pub peer: SocketAddr, pub log: Seq<Ev> }
    /// some decoding of the response succeeded
    pub uninterp spec fn was_decoded(head: RespHead) -> bool;
    /// the last thing on the connection was a response that was decoded
    pub open spec fn spent(c: ConnV) -> bool { c.log.len() > 0 && (c.log.last() matches Ev::Read { head, body } && was_decoded(head)) }
    /// an attempt to connect to the address has failed
    pub uninterp spec fn attempt_failed(addr: SocketAddr) -> bool;
    pub struct Client {}
    impl Client {
        pub fn new() -> Client { Client {} }
        #[verifier::external_body]
        pub fn connect(&self, addr: SocketAddr) -> (r: Connect) ensures r.addr() == addr { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Connect { _p: () }
    impl Connect { pub uninterp spec fn addr(&self) -> SocketAddr; }
    #[verifier::reject_recursive_types(T)]
    pub struct TimeoutAfter<T> { pub future: T, pub limit: Duration }
    pub trait TimerExt: Sized {
        fn timeout_after(self, duration: Duration) -> (r: TimeoutAfter<Self>) ensures r.future == self, r.limit == duration;
    }
    impl TimerExt for Connect {
        fn timeout_after(self, duration: Duration) -> (r: TimeoutAfter<Self>) { TimeoutAfter { future: self, limit: duration } }
    }
    impl FutSpec for TimeoutAfter<Connect> {
        type Item = Connection<TcpStream>;
        type Error = Option<Error>;
        open spec fn live(self) -> bool { true }
        open spec fn gives(self, r: Result<Async<Connection<TcpStream>>, Option<Error>>) -> bool {
            match r {
                Ok(Async::Ready(c)) => c.peer() == self.future.addr(),
                Err(_) => attempt_failed(self.future.addr()),
                _ => true,
            }
        }
        open spec fn pending(self, after: Self) -> bool { after.future.addr() == self.future.addr() && after.limit == self.limit }
    }
    impl Future for TimeoutAfter<Connect> {
        #[verifier::external_body]
        fn poll(&mut self) -> (r: Result<Async<Self::Item>, Self::Error>) { unimplemented!() }
    }
    }
}

