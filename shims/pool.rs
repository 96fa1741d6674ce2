pub mod ordx {
    use vstd::prelude::*;
    use std::cmp::Ordering;
    verus! {
    // ---- `Ord` as the ordered maps use it: `lt` is the strict order `cmp` computes ----
    pub trait PartialOrd: Sized {
        fn partial_cmp(&self, other: &Self) -> Option<Ordering>;
    }
    pub trait OrdSpec: Sized { spec fn lt(a: Self, b: Self) -> bool; }
    pub trait Ord: OrdSpec {
        fn cmp(&self, other: &Self) -> (r: Ordering)
            ensures
                r is Less <==> Self::lt(*self, *other),
                r is Equal <==> *self == *other,
                r is Greater <==> Self::lt(*other, *self);
    }
    impl OrdSpec for u64 {
        open spec fn lt(a: u64, b: u64) -> bool { a < b }
    }
    impl Ord for u64 {
        #[verifier::external_body]
        fn cmp(&self, other: &u64) -> Ordering { unimplemented!() }
    }
    impl OrdSpec for u16 {
        open spec fn lt(a: u16, b: u16) -> bool { a < b }
    }
    impl Ord for u16 {
        #[verifier::external_body]
        fn cmp(&self, other: &u16) -> Ordering { unimplemented!() }
    }
    impl<A: OrdSpec, B: OrdSpec> OrdSpec for (A, B) {
        open spec fn lt(a: (A, B), b: (A, B)) -> bool { A::lt(a.0, b.0) || (a.0 == b.0 && B::lt(a.1, b.1)) }
    }
    impl<A: Ord, B: Ord> Ord for (A, B) {
        #[verifier::external_body]
        fn cmp(&self, other: &(A, B)) -> Ordering { unimplemented!() }
    }
    impl<A: OrdSpec, B: OrdSpec, C: OrdSpec> OrdSpec for (A, B, C) {
        open spec fn lt(a: (A, B, C), b: (A, B, C)) -> bool {
            A::lt(a.0, b.0) || (a.0 == b.0 && (B::lt(a.1, b.1) || (a.1 == b.1 && C::lt(a.2, b.2))))
        }
    }
    impl<A: Ord, B: Ord, C: Ord> Ord for (A, B, C) {
        #[verifier::external_body]
        fn cmp(&self, other: &(A, B, C)) -> Ordering { unimplemented!() }
    }
    }
}
pub mod netx {
    use vstd::prelude::*;
    use std::cmp::Ordering;
    use ordx::{Ord, OrdSpec};
    verus! {
    // ---- socket addresses: compared and ordered by all of their parts ----
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
    pub struct IpAddr { pub bits: u128, pub v6: bool }
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
    pub struct SocketAddr { pub ip: IpAddr, pub port: u16, pub rest: u64 }
    impl SocketAddr {
        pub fn ip(&self) -> (r: IpAddr) ensures r == self.ip { self.ip }
        pub fn port(&self) -> (r: u16) ensures r == self.port { self.port }
        pub fn new(ip: IpAddr, port: u16) -> (r: SocketAddr) ensures r == (SocketAddr { ip: ip, port: port, rest: 0 }) { SocketAddr { ip: ip, port: port, rest: 0 } }
    }
    pub uninterp spec fn addr_lt(a: SocketAddr, b: SocketAddr) -> bool;
    pub uninterp spec fn ip_lt(a: IpAddr, b: IpAddr) -> bool;
    impl OrdSpec for SocketAddr {
        open spec fn lt(a: SocketAddr, b: SocketAddr) -> bool { addr_lt(a, b) }
    }
    impl Ord for SocketAddr {
        #[verifier::external_body]
        fn cmp(&self, other: &SocketAddr) -> Ordering { unimplemented!() }
    }
    impl OrdSpec for IpAddr {
        open spec fn lt(a: IpAddr, b: IpAddr) -> bool { ip_lt(a, b) }
    }
    impl Ord for IpAddr {
        #[verifier::external_body]
        fn cmp(&self, other: &IpAddr) -> Ordering { unimplemented!() }
    }
    /// the order on addresses is a strict total order
    #[verifier::external_body]
    pub proof fn ax_addr_total()
        ensures
            forall|a: SocketAddr| !#[trigger] addr_lt(a, a),
            forall|a: SocketAddr, b: SocketAddr| a != b ==> #[trigger] addr_lt(a, b) || addr_lt(b, a),
            forall|a: SocketAddr, b: SocketAddr, c: SocketAddr| #[trigger] addr_lt(a, b) && #[trigger] addr_lt(b, c) ==> addr_lt(a, c) {}
    }
}
pub mod collx {
    use vstd::prelude::*;
    use ordx::{Ord, OrdSpec};
    verus! {
    // ---- ordered and hashed maps, and the iterators over them ----
    pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
    pub open spec fn above<K: OrdSpec>(b: Bound<K>, k: K) -> bool {
        match b { Bound::Included(x) => !K::lt(k, x), Bound::Excluded(x) => K::lt(x, k), Bound::Unbounded => true }
    }
    pub open spec fn below<K: OrdSpec>(b: Bound<K>, k: K) -> bool {
        match b { Bound::Included(x) => !K::lt(x, k), Bound::Excluded(x) => K::lt(k, x), Bound::Unbounded => true }
    }
    pub open spec fn valid_range<K: OrdSpec>(lo: Bound<K>, hi: Bound<K>) -> bool { lo is Unbounded || hi is Unbounded }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Iter<T> { _p: std::marker::PhantomData<T> }
    impl<T> Iter<T> {
        pub uninterp spec fn view(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Iter<U>)
            requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
            ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i])
        { unimplemented!() }
        #[verifier::external_body]
        pub fn nth(&mut self, n: usize) -> (r: Option<T>)
            ensures
                r == (if n < old(self)@.len() { Some(old(self)@[n as int]) } else { None::<T> }),
                final(self)@ == (if n < old(self)@.len() { old(self)@.skip(n + 1) } else { Seq::<T>::empty() })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<T>)
            ensures
                r == (if 0 < old(self)@.len() { Some(old(self)@[0]) } else { None::<T> }),
                final(self)@ == (if 0 < old(self)@.len() { old(self)@.skip(1) } else { old(self)@ })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn last(self) -> (r: Option<T>)
            ensures r == (if 0 < self@.len() { Some(self@[self@.len() - 1]) } else { None::<T> })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn rev(self) -> (r: Iter<T>)
            ensures r@ == self@.reverse()
        { unimplemented!() }
    }
    impl<'a, T: Copy> Iter<&'a T> {
        #[verifier::external_body]
        pub fn cloned(self) -> (r: Iter<T>)
            ensures r@ == self@.map(|i: int, x: &'a T| *x)
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct BTreeMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
    /// the entries of `m` between the bounds, in the order of their keys
    pub open spec fn entries<'a, K: OrdSpec, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>, lo: Bound<K>, hi: Bound<K>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> K::lt(*(#[trigger] s[i]).0, *(#[trigger] s[j]).0)
        &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1 && above(lo, *s[i].0) && below(hi, *s[i].0)
        &&& forall|k: K| #[trigger] m.dom().contains(k) && above(lo, k) && below(hi, k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    }
    /// a place in a map: what the map was, and what it is once the place has been used
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct Entry<'a, K, V> { _p: std::marker::PhantomData<&'a mut (K, V)> }
    impl<'a, K, V> Entry<'a, K, V> {
        pub uninterp spec fn was(&self) -> Map<K, V>;
        pub uninterp spec fn will(&self) -> Map<K, V>;
        pub uninterp spec fn key(&self) -> K;
        #[verifier::external_body]
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
            requires f.requires(())
            ensures
                self.was().dom().contains(self.key()) ==> *r == self.was()[self.key()],
                !self.was().dom().contains(self.key()) ==> f.ensures((), *r),
                self.will() == self.was().insert(self.key(), *final(r)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn or_insert(self, v: V) -> (r: &'a mut V)
            ensures
                *r == (if self.was().dom().contains(self.key()) { self.was()[self.key()] } else { v }),
                self.will() == self.was().insert(self.key(), *final(r)),
        { unimplemented!() }
    }
    impl<K: Ord, V> BTreeMap<K, V> {
        pub uninterp spec fn view(&self) -> Map<K, V>;
        #[verifier::external_body]
        pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
            ensures
                r is Some <==> old(self)@.dom().contains(*k),
                r is None ==> final(self)@ == old(self)@,
                r matches Some(v) ==> *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
            ensures r.was() == old(self)@, final(self)@ == r.will(), r.key() == k
        { unimplemented!() }
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures self@.dom().finite(), r == (self@.dom().len() == 0) { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<V> })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None::<V> })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
            ensures match r { Some(v) => self@.dom().contains(*k) && self@[*k] == *v, None => !self@.dom().contains(*k) }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn range<'a>(&'a self, b: (Bound<K>, Bound<K>)) -> (r: Iter<(&'a K, &'a V)>)
            requires valid_range(b.0, b.1)
            ensures entries(r@, self@, b.0, b.1)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn iter<'a>(&'a self) -> (r: Iter<(&'a K, &'a V)>)
            ensures entries(r@, self@, Bound::Unbounded, Bound::Unbounded), r@.len() == self@.dom().len()
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct HashMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
    impl<K, V> HashMap<K, V> {
        pub uninterp spec fn view(&self) -> Map<K, V>;
        #[verifier::external_body]
        pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
            ensures
                r is Some <==> old(self)@.dom().contains(*k),
                r is None ==> final(self)@ == old(self)@,
                r matches Some(v) ==> *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
            ensures r.was() == old(self)@, final(self)@ == r.will(), r.key() == k
        { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures self@.dom().finite(), r == (self@.dom().len() == 0) { unimplemented!() }
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<V> })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None::<V> })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
            ensures match r { Some(v) => self@.dom().contains(*k) && self@[*k] == *v, None => !self@.dom().contains(*k) }
        { unimplemented!() }
    }
    }
}
pub mod timex {
    use vstd::prelude::*;
    verus! {
    pub assume_specification[ u32::max_value ]() -> (r: u32) ensures r == 4_294_967_295u32;
    // ---- clocks and durations, in nanoseconds ----
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Duration { _p: () }
    impl Duration {
        pub uninterp spec fn view(&self) -> nat;
        #[verifier::external_body]
        pub fn from_secs(s: u64) -> (r: Duration) ensures r@ == s * 1_000_000_000 { unimplemented!() }
        #[verifier::external_body]
        pub fn from_millis(s: u64) -> (r: Duration) ensures r@ == s * 1_000_000 { unimplemented!() }
        #[verifier::external_body]
        pub fn new(s: u64, n: u32) -> (r: Duration) requires s + n as int / 1_000_000_000 <= u64::MAX ensures r@ == s * 1_000_000_000 + n { unimplemented!() }
        #[verifier::external_body]
        pub fn as_secs(&self) -> (r: u64) ensures r == self@ / 1_000_000_000 { unimplemented!() }
        #[verifier::external_body]
        pub fn min(self, o: Duration) -> (r: Duration) ensures r == (if o@ < self@ { o } else { self }) { unimplemented!() }
        #[verifier::external_body]
        pub fn max(self, o: Duration) -> (r: Duration) ensures r == (if o@ < self@ { self } else { o }) { unimplemented!() }
        #[verifier::external_body]
        pub fn checked_add(self, o: Duration) -> (r: Option<Duration>)
            ensures r matches Some(d) ==> d@ == self@ + o@, r is None ==> self@ + o@ >= 18_446_744_073_709_551_616_000_000_000
        { unimplemented!() }
        #[verifier::external_body]
        pub fn checked_sub(self, o: Duration) -> (r: Option<Duration>)
            ensures r is Some <==> o@ <= self@, r matches Some(d) ==> d@ == self@ - o@
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct SystemTime { _p: () }
    /// the time was read off the clock by a call of `now`
    pub uninterp spec fn clock_read(t: SystemTime) -> bool;
    /// the latest time that can be represented
    pub uninterp spec fn last_time() -> int;
    impl SystemTime {
        pub uninterp spec fn view(&self) -> int;
        // the clock reads a time centuries before the last one that can be represented
        #[verifier::external_body]
        pub fn now() -> (r: SystemTime)
            ensures clock_read(r), r@ + 4_294_967_296_000_000_000int <= last_time()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn duration_since(&self, o: SystemTime) -> (r: std::result::Result<Duration, SystemTimeError>)
            ensures match r { Ok(d) => self@ >= o@ && d@ == self@ - o@, Err(_) => self@ < o@ }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn checked_add(&self, d: Duration) -> (r: Option<SystemTime>)
            ensures match r { Some(t) => t@ == self@ + d@ && t@ <= last_time(), None => self@ + d@ > last_time() }
        { unimplemented!() }
    }
    impl std::ops::Add<Duration> for SystemTime {
        type Output = SystemTime;
        #[verifier::external_body]
        fn add(self, d: Duration) -> SystemTime { unimplemented!() }
    }
    impl vstd::std_specs::ops::AddSpecImpl<Duration> for SystemTime {
        open spec fn obeys_add_spec() -> bool { true }
        open spec fn add_req(self, d: Duration) -> bool { self@ + d@ <= last_time() }
        open spec fn add_spec(self, d: Duration) -> SystemTime { choose|t: SystemTime| t@ == self@ + d@ }
    }
    impl PartialEq for Duration {
        #[verifier::external_body]
        fn eq(&self, o: &Duration) -> bool { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Duration) -> bool { self@ == o@ }
    }
    impl PartialOrd for Duration {
        #[verifier::external_body]
        fn partial_cmp(&self, o: &Duration) -> Option<std::cmp::Ordering> { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<std::cmp::Ordering> {
            if self@ < o@ { Some(std::cmp::Ordering::Less) } else if self@ > o@ { Some(std::cmp::Ordering::Greater) } else { Some(std::cmp::Ordering::Equal) }
        }
    }
    #[verifier::external_body]
    pub struct SystemTimeError { _p: () }
    impl PartialEq for SystemTime {
        #[verifier::external_body]
        fn eq(&self, o: &SystemTime) -> bool { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for SystemTime {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &SystemTime) -> bool { self@ == o@ }
    }
    impl PartialOrd for SystemTime {
        #[verifier::external_body]
        fn partial_cmp(&self, o: &SystemTime) -> Option<std::cmp::Ordering> { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for SystemTime {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &SystemTime) -> Option<std::cmp::Ordering> {
            if self@ < o@ { Some(std::cmp::Ordering::Less) } else if self@ > o@ { Some(std::cmp::Ordering::Greater) } else { Some(std::cmp::Ordering::Equal) }
        }
    }
    /// every sum that can be represented is some time
    #[verifier::external_body]
    pub broadcast proof fn ax_time(t: SystemTime, d: Duration)
        requires t@ + d@ <= last_time()
        ensures #[trigger] vstd::std_specs::ops::AddSpec::add_spec(t, d)@ == t@ + d@ {}

    }
}
