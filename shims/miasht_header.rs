pub mod miasht_header {
    use vstd::prelude::*;
    use stdx::*;
    verus! {
    // ---- assumed model of miasht's header list: raw name/value lines in order ----
    pub type HLines = Seq<(Seq<char>, Seq<u8>)>;
    /// the message head being written
    #[verifier::external_body]
    pub struct Head { _p: () }
    impl Head { pub uninterp spec fn lines(&self) -> HLines; }
    pub struct HeadersMut<'a> { pub head: &'a mut Head }
    impl<'a> HeadersMut<'a> {
        #[verifier::external_body]
        pub fn add_raw_header<N: AsTxt + ?Sized>(&mut self, name: &N, value: &[u8]) -> (r: &mut Self)
            ensures
                (*r.head).lines() == (*old(self).head).lines().push((name.txt(), value@)),
                *final(r.head) == *final(old(self).head),
                *final(r) == *final(self),
        { unimplemented!() }
    }
    /// the lines of a received message head
    #[verifier::external_body]
    pub struct Headers<'a> { _p: std::marker::PhantomData<&'a ()> }
    #[verifier::external_body]
    pub struct Iter<'a> { _p: std::marker::PhantomData<&'a ()> }
    impl<'a> Headers<'a> {
        pub uninterp spec fn view(&self) -> HLines;
        #[verifier::external_body]
        pub fn iter(&'a self) -> (r: Iter<'a>) ensures r@ == self@ { unimplemented!() }
    }
    impl<'a> Iter<'a> {
        pub uninterp spec fn view(&self) -> HLines;
        #[verifier::external_body]
        pub fn peekable(self) -> (r: Peekable<Iter<'a>>) ensures r.items() == self@ { unimplemented!() }
    }
    impl<'a> Peekable<Iter<'a>> {
        pub uninterp spec fn items(&self) -> HLines;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(&'a str, &'a [u8])>)
            ensures
                match r {
                    None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
                    Some(p) => old(self).items().len() > 0 && p.0@ == old(self).items()[0].0 && p.1@ == old(self).items()[0].1
                        && final(self).items() == old(self).items().skip(1),
                }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn peek(&mut self) -> (r: Option<&(&'a str, &'a [u8])>)
            ensures
                final(self).items() == old(self).items(),
                match r {
                    None => old(self).items().len() == 0,
                    Some(p) => old(self).items().len() > 0 && p.0@ == old(self).items()[0].0 && p.1@ == old(self).items()[0].1,
                }
        { unimplemented!() }
    }
    /// a clone of references refers to the same
    #[verifier::external_body]
    pub broadcast proof fn ax_pair_cloned<'a>(a: (&'a str, &'a [u8]), b: (&'a str, &'a [u8]))
        ensures #[trigger] cloned::<(&'a str, &'a [u8])>(a, b) ==> a == b {}
    // ---- lower-casing of names ----
    pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
    pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String)
        ensures r@ == lower(s@);
    }
}
