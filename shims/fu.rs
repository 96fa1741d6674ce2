/// futures as what they can end in, and futures' combinators over them
pub mod fux {
    use vstd::prelude::*;
    use futures::*;
    verus! {
    // ---- futures as what they can end in ----
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    #[verifier::reject_recursive_types(E)]
    pub struct Fu<T, E> { _p: std::marker::PhantomData<(T, E)> }
    /// `Box<dyn Future<Item = T, Error = E> + Send>`
    pub type BoxFuture<T, E> = Fu<T, E>;
    /// things that are or turn into futures: how they can end
    pub trait IntoFu: Sized {
        type Item;
        type Error;
        spec fn fit(self) -> bool;
        spec fn could(self, r: Result<Self::Item, Self::Error>) -> bool;
    }
    impl<T, E> Fu<T, E> { pub uninterp spec fn can(self, r: Result<T, E>) -> bool; }
    impl<T, E> IntoFu for Fu<T, E> {
        type Item = T;
        type Error = E;
        open spec fn fit(self) -> bool { true }
        open spec fn could(self, r: Result<T, E>) -> bool { self.can(r) }
    }
    impl<T, E> IntoFu for Result<T, E> {
        type Item = T;
        type Error = E;
        open spec fn fit(self) -> bool { true }
        open spec fn could(self, r: Result<T, E>) -> bool { r == self }
    }
    impl<T, E> IntoFu for Done<T, E> {
        type Item = T;
        type Error = E;
        open spec fn fit(self) -> bool { true }
        open spec fn could(self, r: Result<T, E>) -> bool { r == self.inner }
    }
    impl<T, E> FutSpec for Fu<T, E> {
        type Item = T;
        type Error = E;
        open spec fn live(self) -> bool { true }
        open spec fn gives(self, r: Result<Async<T>, E>) -> bool {
            match r { Ok(Async::Ready(x)) => self.can(Ok(x)), Ok(Async::NotReady) => true, Err(e) => self.can(Err(e)) }
        }
        open spec fn pending(self, after: Self) -> bool { forall|r: Result<T, E>| #[trigger] after.can(r) ==> self.can(r) }
    }
    impl<T, E> Future for Fu<T, E> {
        #[verifier::external_body]
        fn poll(&mut self) -> (r: Result<Async<Self::Item>, Self::Error>) { unimplemented!() }
    }
    pub struct Box {}
    impl Box {
        #[verifier::external_body]
        pub fn new<F: IntoFu>(f: F) -> (r: Fu<F::Item, F::Error>)
            requires f.fit()
            ensures forall|x: Result<F::Item, F::Error>| #[trigger] r.can(x) ==> f.could(x)
        { unimplemented!() }
    }
    /// the combinators
    pub trait Combine: IntoFu {
        fn map_err<E2, G: FnOnce(Self::Error) -> E2>(self, g: G) -> (r: Fu<Self::Item, E2>)
            requires self.fit(), forall|e: Self::Error| self.could(Err(e)) ==> #[trigger] call_requires(g, (e,))
            ensures forall|x: Result<Self::Item, E2>| #[trigger] r.can(x) ==> (match x {
                Ok(v) => self.could(Ok(v)),
                Err(e2) => exists|e: Self::Error| self.could(Err(e)) && #[trigger] call_ensures(g, (e,), e2),
            });
        fn map<T2, G: FnOnce(Self::Item) -> T2>(self, g: G) -> (r: Fu<T2, Self::Error>)
            requires self.fit(), forall|v: Self::Item| self.could(Ok(v)) ==> #[trigger] call_requires(g, (v,))
            ensures forall|x: Result<T2, Self::Error>| #[trigger] r.can(x) ==> (match x {
                Err(e) => self.could(Err(e)),
                Ok(v2) => exists|v: Self::Item| self.could(Ok(v)) && #[trigger] call_ensures(g, (v,), v2),
            });
        fn and_then<B: IntoFu<Error = Self::Error>, G: FnOnce(Self::Item) -> B>(self, g: G) -> (r: Fu<B::Item, Self::Error>)
            requires self.fit(), forall|v: Self::Item| self.could(Ok(v)) ==> #[trigger] call_requires(g, (v,))
            ensures forall|x: Result<B::Item, Self::Error>| #[trigger] r.can(x) ==>
                (x matches Err(e) && self.could(Err(e)))
                || exists|v: Self::Item, b: B| self.could(Ok(v)) && #[trigger] call_ensures(g, (v,), b) && b.could(x);
        fn or_else<B: IntoFu<Item = Self::Item>, G: FnOnce(Self::Error) -> B>(self, g: G) -> (r: Fu<Self::Item, B::Error>)
            requires self.fit(), forall|e: Self::Error| self.could(Err(e)) ==> #[trigger] call_requires(g, (e,))
            ensures forall|x: Result<Self::Item, B::Error>| #[trigger] r.can(x) ==>
                (x matches Ok(v) && self.could(Ok(v)))
                || exists|e: Self::Error, b: B| self.could(Err(e)) && #[trigger] call_ensures(g, (e,), b) && b.could(x);
        fn then<B: IntoFu, G: FnOnce(Result<Self::Item, Self::Error>) -> B>(self, g: G) -> (r: Fu<B::Item, B::Error>)
            requires self.fit(), forall|v: Result<Self::Item, Self::Error>| self.could(v) ==> #[trigger] call_requires(g, (v,))
            ensures forall|x: Result<B::Item, B::Error>| #[trigger] r.can(x) ==>
                exists|v: Result<Self::Item, Self::Error>, b: B| self.could(v) && #[trigger] call_ensures(g, (v,), b) && b.could(x);
    }
    impl<F: IntoFu> Combine for F {
        #[verifier::external_body]
        fn map_err<E2, G: FnOnce(Self::Error) -> E2>(self, g: G) -> (r: Fu<Self::Item, E2>) { unimplemented!() }
        #[verifier::external_body]
        fn map<T2, G: FnOnce(Self::Item) -> T2>(self, g: G) -> (r: Fu<T2, Self::Error>) { unimplemented!() }
        #[verifier::external_body]
        fn and_then<B: IntoFu<Error = Self::Error>, G: FnOnce(Self::Item) -> B>(self, g: G) -> (r: Fu<B::Item, Self::Error>) { unimplemented!() }
        #[verifier::external_body]
        fn or_else<B: IntoFu<Item = Self::Item>, G: FnOnce(Self::Error) -> B>(self, g: G) -> (r: Fu<Self::Item, B::Error>) { unimplemented!() }
        #[verifier::external_body]
        fn then<B: IntoFu, G: FnOnce(Result<Self::Item, Self::Error>) -> B>(self, g: G) -> (r: Fu<B::Item, B::Error>) { unimplemented!() }
    }
    }
}
