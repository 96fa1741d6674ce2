macro_rules! format { ($($t:tt)*) => { ::futures::some_text() }; }
pub mod futures {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub fn some_text() -> String { unimplemented!() }
    pub enum Async<T> { Ready(T), NotReady }
    pub type Poll<T, E> = Result<Async<T>, E>;
    /// What polling a future in a given state can give.
    pub trait FutSpec: Sized {
        type Item;
        type Error;
        /// the future may be polled
        spec fn live(self) -> bool;
        spec fn gives(self, r: Result<Async<Self::Item>, Self::Error>) -> bool;
        /// the state after a poll that was not ready
        spec fn pending(self, after: Self) -> bool;
    }
    pub trait Future: FutSpec {
        fn poll(&mut self) -> (r: Result<Async<Self::Item>, Self::Error>)
            requires old(self).live()
            ensures
                old(self).gives(r),
                r matches Ok(Async::NotReady) ==> old(self).pending(*final(self)) && final(self).live();
    }
    // ---- futures that are done ----
    pub struct Done<T, E> { pub inner: Result<T, E> }
    pub fn finished<T, E>(t: T) -> (r: Done<T, E>) ensures r.inner == Ok::<T, E>(t) { Done { inner: Ok(t) } }
    pub fn done<T, E>(r: Result<T, E>) -> (f: Done<T, E>) ensures f.inner == r { Done { inner: r } }
    pub fn failed<T, E>(e: E) -> (r: Done<T, E>) ensures r.inner == Err::<T, E>(e) { Done { inner: Err(e) } }
    impl<T, E> FutSpec for Done<T, E> {
        type Item = T;
        type Error = E;
        open spec fn live(self) -> bool { true }
        open spec fn gives(self, r: Result<Async<T>, E>) -> bool {
            r == (match self.inner { Ok(t) => Ok::<Async<T>, E>(Async::Ready(t)), Err(e) => Err::<Async<T>, E>(e) })
        }
        open spec fn pending(self, after: Self) -> bool { false }
    }
    impl<T, E> Future for Done<T, E> {
        #[verifier::external_body]
        fn poll(&mut self) -> (r: Result<Async<Self::Item>, Self::Error>) { unimplemented!() }
    }
    }
    pub mod future { pub use super::Done; }
}
pub mod handy_async {
    pub mod future {
        use vstd::prelude::*;
        use futures::*;
        verus! {
        pub enum Phase<A, B = A, C = B, D = C, E = D> { A(A), B(B), C(C), D(D), E(E) }
        impl<A: Future, B: Future, C: Future, D: Future, E: Future> FutSpec for Phase<A, B, C, D, E> {
            type Item = Phase<A::Item, B::Item, C::Item, D::Item, E::Item>;
            type Error = Phase<A::Error, B::Error, C::Error, D::Error, E::Error>;
            open spec fn live(self) -> bool {
                match self { Phase::A(f) => f.live(), Phase::B(f) => f.live(), Phase::C(f) => f.live(), Phase::D(f) => f.live(), Phase::E(f) => f.live() }
            }
            open spec fn gives(self, r: Result<Async<Self::Item>, Self::Error>) -> bool {
                match r {
                    Ok(Async::NotReady) => match self {
                        Phase::A(f) => f.gives(Ok(Async::NotReady)), Phase::B(f) => f.gives(Ok(Async::NotReady)), Phase::C(f) => f.gives(Ok(Async::NotReady)),
                        Phase::D(f) => f.gives(Ok(Async::NotReady)), Phase::E(f) => f.gives(Ok(Async::NotReady)),
                    },
                    Ok(Async::Ready(p)) => match (self, p) {
                        (Phase::A(f), Phase::A(x)) => f.gives(Ok(Async::Ready(x))), (Phase::B(f), Phase::B(x)) => f.gives(Ok(Async::Ready(x))),
                        (Phase::C(f), Phase::C(x)) => f.gives(Ok(Async::Ready(x))), (Phase::D(f), Phase::D(x)) => f.gives(Ok(Async::Ready(x))),
                        (Phase::E(f), Phase::E(x)) => f.gives(Ok(Async::Ready(x))), _ => false,
                    },
                    Err(p) => match (self, p) {
                        (Phase::A(f), Phase::A(x)) => f.gives(Err(x)), (Phase::B(f), Phase::B(x)) => f.gives(Err(x)), (Phase::C(f), Phase::C(x)) => f.gives(Err(x)),
                        (Phase::D(f), Phase::D(x)) => f.gives(Err(x)), (Phase::E(f), Phase::E(x)) => f.gives(Err(x)), _ => false,
                    },
                }
            }
            open spec fn pending(self, after: Self) -> bool {
                match (self, after) {
                    (Phase::A(f), Phase::A(g)) => f.pending(g), (Phase::B(f), Phase::B(g)) => f.pending(g), (Phase::C(f), Phase::C(g)) => f.pending(g),
                    (Phase::D(f), Phase::D(g)) => f.pending(g), (Phase::E(f), Phase::E(g)) => f.pending(g), _ => false,
                }
            }
        }
        impl<A: Future, B: Future, C: Future, D: Future, E: Future> Future for Phase<A, B, C, D, E> {
            #[verifier::external_body]
            fn poll(&mut self) -> (r: Result<Async<Self::Item>, Self::Error>) { unimplemented!() }
        }
        impl<A, B, C, D, E> From<Phase<A, B, C, D, E>> for ::error::Error {
            #[verifier::external_body]
            fn from(f: Phase<A, B, C, D, E>) -> Self { unimplemented!() }
        }
        impl<A, B, C, D, E> vstd::std_specs::convert::FromSpecImpl<Phase<A, B, C, D, E>> for ::error::Error {
            open spec fn obeys_from_spec() -> bool { false }
            open spec fn from_spec(v: Phase<A, B, C, D, E>) -> Self { arbitrary() }
        }
        }
    }
}
pub mod chanx {
    pub mod oneshot {
        use vstd::prelude::*;
        use futures::*;
        verus! {
        // ---- one value from a sender to its receiver ----
        /// what every value sent on a channel satisfies, and what sending it settles about the channel ends it takes along
        /// (they are moved, so this is settled once)
        pub trait Msg: Sized {
            spec fn msg_ok(self, chan: int) -> bool;
            spec fn settles(self) -> bool;
        }
        /// `v` was sent on the channel
        pub uninterp spec fn sent<T>(chan: int, v: T) -> bool;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Sender<T> { _p: std::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Receiver<T> { _p: std::marker::PhantomData<T> }
        #[verifier::external_body]
        pub struct RecvError { _p: () }
        impl<T: Msg> Sender<T> {
            pub uninterp spec fn chan(&self) -> int;
            #[verifier::external_body]
            pub fn send(self, v: T) -> (r: Result<(), T>) requires v.msg_ok(self.chan()) ensures sent(self.chan(), v), v.settles() { unimplemented!() }
        }
        impl<T> Receiver<T> { pub uninterp spec fn chan(&self) -> int; }
        #[verifier::external_body]
        pub fn channel<T: Msg>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
        impl<T: Msg> FutSpec for Receiver<T> {
            type Item = T;
            type Error = RecvError;
            open spec fn live(self) -> bool { true }
            open spec fn gives(self, r: Result<Async<T>, RecvError>) -> bool { r matches Ok(Async::Ready(v)) ==> sent(self.chan(), v) && v.msg_ok(self.chan()) && v.settles() }
            open spec fn pending(self, after: Self) -> bool { after.chan() == self.chan() }
        }
        impl<T: Msg> Future for Receiver<T> {
            #[verifier::external_body]
            fn poll(&mut self) -> (r: Result<Async<Self::Item>, Self::Error>) { unimplemented!() }
        }
        }
    }
    pub mod mpsc {
        use vstd::prelude::*;
        use futures::*;
        use super::oneshot::Msg;
        verus! {
        // ---- values from several senders to one receiver ----
        pub uninterp spec fn sent<T>(chan: int, v: T) -> bool;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Sender<T> { _p: std::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Receiver<T> { _p: std::marker::PhantomData<T> }
        impl<T: Msg> Sender<T> {
            pub uninterp spec fn chan(&self) -> int;
            #[verifier::external_body]
            pub fn send(&self, v: T) -> (r: Result<(), T>) requires v.msg_ok(self.chan()) ensures sent(self.chan(), v), v.settles() { unimplemented!() }
            #[verifier::external_body]
            pub fn clone(&self) -> (r: Sender<T>) ensures r.chan() == self.chan() { unimplemented!() }
        }
        impl<T: Msg> Receiver<T> {
            pub uninterp spec fn chan(&self) -> int;
            // never ends while a sender is left (the pool keeps one itself) and never fails
            #[verifier::external_body]
            pub fn poll(&mut self) -> (r: Result<Async<Option<T>>, ()>)
                ensures
                    final(self).chan() == old(self).chan(),
                    r is Ok,
                    r matches Ok(Async::Ready(x)) ==> x is Some && sent(old(self).chan(), x->0) && x->0.msg_ok(old(self).chan()) && x->0.settles()
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn channel<T: Msg>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
        }
    }
}
