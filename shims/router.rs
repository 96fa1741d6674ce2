pub mod routex {
    use vstd::prelude::*;
    use fibers::net::TcpStream;
    use miasht_server::Request;
    use url::Url;
    verus! {
    // ---- handlers: boxed closures, spelt as an opaque type ----
    /// `Box<dyn Future<Item = (Response, Box<dyn AsRef<[u8]>>), Error = Error>>`
    #[verifier::external_body]
    pub struct HandleHttpRequestResult { _p: () }
    /// `Box<dyn Fn(Url, Request<TcpStream>) -> HandleHttpRequestResult>`
    #[verifier::external_body]
    pub struct HandleHttpRequest { _p: () }
    /// the closure inside the box
    pub uninterp spec fn boxed<H>(b: HandleHttpRequest) -> H;
    pub struct Box {}
    impl Box {
        #[verifier::external_body]
        pub fn new<H>(h: H) -> (r: HandleHttpRequest) ensures boxed::<H>(r) == h { unimplemented!() }
    }
    // ---- hashed maps; equal keys are equal values ----
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct HashMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct Entry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
    impl<K, V> HashMap<K, V> {
        pub uninterp spec fn view(&self) -> Map<K, V>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<V> })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None::<V> })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K>::empty()) { unimplemented!() }
        #[verifier::external_body]
        pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
            ensures self@.dom().contains(*k) ==> r == Some(&self@[*k]), !self@.dom().contains(*k) ==> r is None
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
            ensures
                r is Some <==> old(self)@.dom().contains(*k),
                r is None ==> final(self)@ == old(self)@,
                r matches Some(v) ==> *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
            ensures *r.map == *old(self), *final(r.map) == *final(self), r.key == k
        { unimplemented!() }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        #[verifier::external_body]
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
            requires f.requires(())
            ensures
                old(self.map)@.dom().contains(self.key) ==> *r == old(self.map)@[self.key],
                !old(self.map)@.dom().contains(self.key) ==> f.ensures((), *r),
                final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn or_insert(self, v: V) -> (r: &'a mut V)
            ensures
                *r == (if old(self.map)@.dom().contains(self.key) { old(self.map)@[self.key] } else { v }),
                final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
        { unimplemented!() }
    }
    // ---- shared ownership ----
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Arc<T> { _p: std::marker::PhantomData<T> }
    impl<T> Arc<T> {
        pub uninterp spec fn inner(&self) -> T;
        #[verifier::external_body]
        pub fn new(t: T) -> (r: Arc<T>) ensures r.inner() == t { unimplemented!() }
    }
    impl<T> std::ops::Deref for Arc<T> {
        type Target = T;
        #[verifier::external_body]
        fn deref(&self) -> (r: &T) ensures *r == self.inner() { unimplemented!() }
    }
    /// the unsafe change of a string slice's lifetime: same text
    #[verifier::external_body]
    pub fn same_text(s: &str) -> (r: &'static str) ensures r == s { unimplemented!() }
    }
}
