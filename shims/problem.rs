/// what a problem is made from: errors, their sources and histories, statuses' reason phrases
pub mod problemx {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use miasht_status::Status;
    verus! {
    pub uninterp spec fn reason(s: Status) -> Seq<char>;
    impl Status {
        #[verifier::external_body]
        pub fn reason_phrase(&self) -> (r: &'static str) ensures r@ == reason(*self) { unimplemented!() }
    }
    // ---- errors ----
    #[verifier::external_body]
    pub struct Cause { _p: () }
    impl Cause {
        pub uninterp spec fn shown(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String) ensures r@ == self.shown() { unimplemented!() }
    }
    pub trait Shown { spec fn shown(&self) -> Seq<char>; }
    pub mod fmt {
        use vstd::prelude::*;
        verus! {
        pub trait Display: super::Shown { fn to_string(&self) -> (r: String) ensures r@ == self.shown(); }
        }
    }
    pub mod error {
        use vstd::prelude::*;
        verus! {
        pub trait Error: super::Shown {
            spec fn source_spec(&self) -> Option<super::Cause>;
            fn to_string(&self) -> (r: String) ensures r@ == self.shown();
            fn source(&self) -> (r: Option<&super::Cause>)
                ensures match self.source_spec() { Some(c) => r is Some && *r->0 == c, None => r is None };
        }
        }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(E)]
    pub struct History<E> { _p: std::marker::PhantomData<E> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(E)]
    pub struct Events<E> { _p: std::marker::PhantomData<E> }
    impl<E> Events<E> {
        pub uninterp spec fn view(&self) -> Seq<E>;
        #[verifier::external_body]
        pub fn iter<'a>(&'a self) -> (r: EvIter<&'a E>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    }
    impl<E> History<E> {
        pub uninterp spec fn view(&self) -> Seq<E>;
        #[verifier::external_body]
        pub fn events(&self) -> (r: &Events<E>) ensures r@ == self@ { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct EvIter<T> { _p: std::marker::PhantomData<T> }
    impl<T> EvIter<T> {
        pub uninterp spec fn view(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: EvIter<U>)
            requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
            ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i])
        { unimplemented!() }
        #[verifier::external_body]
        pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body]
        pub fn rev(self) -> (r: EvIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
        #[verifier::external_body]
        pub fn take(self, n: usize) -> (r: EvIter<T>) ensures r@ == (if n < self@.len() { self@.take(n as int) } else { self@ }) { unimplemented!() }
        #[verifier::external_body]
        pub fn skip(self, n: usize) -> (r: EvIter<T>) ensures r@ == (if n < self@.len() { self@.skip(n as int) } else { Seq::<T>::empty() }) { unimplemented!() }
    }
    pub trait Trackable {
        type Event;
        spec fn history_spec(&self) -> Option<Seq<Self::Event>>;
        fn history(&self) -> (r: Option<&History<Self::Event>>)
            ensures match self.history_spec() { Some(h) => r is Some && r->0@ == h, None => r is None };
    }
    /// `v` holds the text of each event, in order
    pub open spec fn texts<E: Shown>(v: Seq<String>, h: Seq<E>) -> bool {
        v.len() == h.len() && forall|i: int| 0 <= i < h.len() ==> (#[trigger] v[i])@ == h[i].shown()
    }
    // ---- bodies ----
    pub trait Bytes { spec fn byte_seq(&self) -> Seq<u8>; }
    impl Bytes for Vec<u8> { open spec fn byte_seq(&self) -> Seq<u8> { self@ } }
    impl Bytes for String { open spec fn byte_seq(&self) -> Seq<u8> { encode_utf8(self@) } }
    impl<'a> Bytes for &'a str { open spec fn byte_seq(&self) -> Seq<u8> { encode_utf8(self@) } }
    impl<'a> Bytes for &'a [u8] { open spec fn byte_seq(&self) -> Seq<u8> { self@ } }
    /// `Box<dyn AsRef<[u8]> + Send>`
    #[verifier::external_body]
    pub struct DynBody { _p: () }
    impl DynBody {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new<T: Bytes>(t: T) -> (r: DynBody) ensures r@ == t.byte_seq() { unimplemented!() }
        #[verifier::external_body]
        pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    }
    pub trait RpcResponse {
        fn body(&mut self) -> DynBody;
        fn set_body(&mut self, body: Vec<u8>);
    }
    #[verifier::external_body]
    pub struct Url { _p: () }
    }
}
