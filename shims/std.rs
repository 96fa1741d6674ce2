pub mod stdx {
    use vstd::prelude::*;
    use vstd::utf8::*;
    verus! {
    // ---- assumed contracts of the standard library ----
    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExBytes<'a>(std::str::Bytes<'a>);
    pub uninterp spec fn bytes_rem<'a>(b: std::str::Bytes<'a>) -> Seq<u8>;
    pub assume_specification<'a>[ str::bytes ](s: &'a str) -> (r: std::str::Bytes<'a>)
        ensures bytes_rem(r) == encode_utf8(s@);
    pub assume_specification<'a>[ <std::str::Bytes<'a> as Iterator>::next ](s: &mut std::str::Bytes<'a>) -> (r: Option<u8>)
        ensures
            match r {
                None => bytes_rem(*old(s)).len() == 0 && bytes_rem(*final(s)) == bytes_rem(*old(s)),
                Some(b) => bytes_rem(*old(s)).len() > 0 && b == bytes_rem(*old(s))[0]
                    && bytes_rem(*final(s)) == bytes_rem(*old(s)).skip(1),
            };

    // `str::parse`: what text denotes which value is fixed per type below.
    pub uninterp spec fn from_text<F>(s: Seq<char>) -> Option<F>;
    #[verifier::external_trait_specification]
    pub trait ExFromStr: Sized {
        type ExternalTraitSpecificationFor: std::str::FromStr;
        type Err;
        fn from_str(s: &str) -> Result<Self, Self::Err>;
    }
    pub assume_specification<F: std::str::FromStr>[ str::parse::<F> ](s: &str) -> (r: Result<F, F::Err>)
        ensures
            match r { Ok(v) => from_text::<F>(s@) == Some(v), Err(_) => from_text::<F>(s@) is None };

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExFromUtf8Error(std::string::FromUtf8Error);
    pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
        ensures
            r is Ok <==> valid_utf8(v@),
            r matches Ok(s) ==> s@ == decode_utf8(v@);

    // `str::split(char)` as delivered by `Url::path_segments`.
    #[verifier::external_body]
    #[verifier::reject_recursive_types(P)]
    pub struct Split<'a, P> { _p: std::marker::PhantomData<(&'a str, P)> }
    impl<'a> Split<'a, char> {
        pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a str>)
            ensures
                match r {
                    None => old(self)@.len() == 0 && final(self)@ == old(self)@,
                    Some(s) => old(self)@.len() > 0 && s@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn peekable(self) -> (r: Peekable<Split<'a, char>>)
            ensures r@ == self@
        { unimplemented!() }
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Split<'a, char>)
            ensures r@ == self@
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(I)]
    pub struct Peekable<I> { _p: std::marker::PhantomData<I> }
    impl<'a> Peekable<Split<'a, char>> {
        pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a str>)
            ensures
                match r {
                    None => old(self)@.len() == 0 && final(self)@ == old(self)@,
                    Some(s) => old(self)@.len() > 0 && s@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn peek(&mut self) -> (r: Option<&&'a str>)
            ensures
                final(self)@ == old(self)@,
                match r {
                    None => old(self)@.len() == 0,
                    Some(s) => old(self)@.len() > 0 && (*s)@ == old(self)@[0],
                }
        { unimplemented!() }
    }

    pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
        ensures r == *old(a), *final(a) == b;

    // ---- `Cow`, its two forms as in the standard library ----
    pub trait ToOwnedShim { type Owned; }
    impl ToOwnedShim for str { type Owned = String; }
    impl ToOwnedShim for [u8] { type Owned = Vec<u8>; }
    #[verifier::reject_recursive_types(B)]
    pub enum Cow<'a, B: ?Sized + ToOwnedShim> { Borrowed(&'a B), Owned(<B as ToOwnedShim>::Owned) }
    /// texts that can be given where a string slice is expected
    pub trait AsTxt { spec fn txt(&self) -> Seq<char>; }
    impl AsTxt for str { open spec fn txt(&self) -> Seq<char> { self@ } }
    impl AsTxt for String { open spec fn txt(&self) -> Seq<char> { self@ } }
    impl<'a, T: AsTxt + ?Sized> AsTxt for &'a T { open spec fn txt(&self) -> Seq<char> { (**self).txt() } }
    impl<'a> AsTxt for Cow<'a, str> { open spec fn txt(&self) -> Seq<char> { self@ } }
    impl<'a> Cow<'a, str> {
        pub open spec fn view(&self) -> Seq<char> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
        #[verifier::external_body]
        pub fn into_owned(self) -> (r: String)
            ensures r@ == self@
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool)
            ensures r == (self@.len() == 0)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn as_bytes(&self) -> (r: &[u8])
            ensures r@ == encode_utf8(self@)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn parse<F: std::str::FromStr>(&self) -> (r: Result<F, F::Err>)
            ensures match r { Ok(v) => from_text::<F>(self@) == Some(v), Err(_) => from_text::<F>(self@) is None }
        { unimplemented!() }
    }
    impl<'a> Cow<'a, [u8]> {
        pub open spec fn bytes(&self) -> Seq<u8> { match *self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    }
    /// things with the bytes of a slice
    pub trait AsRefBytes {
        spec fn byte_seq(&self) -> Seq<u8>;
        fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.byte_seq();
    }
    impl<'a> AsRefBytes for Cow<'a, [u8]> {
        open spec fn byte_seq(&self) -> Seq<u8> { self.bytes() }
        #[verifier::external_body]
        fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
    }
    pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>)
        ensures r@ == encode_utf8(s@);
    pub assume_specification<'a>[ std::str::from_utf8 ](v: &'a [u8]) -> (r: Result<&'a str, std::str::Utf8Error>)
        ensures
            r is Ok <==> valid_utf8(v@),
            r matches Ok(s) ==> s@ == decode_utf8(v@);
    // for bytes that are not UTF-8 nothing is assumed about the text obtained
    pub assume_specification<'a>[ std::str::from_utf8_unchecked ](v: &'a [u8]) -> (r: &'a str)
        ensures valid_utf8(v@) ==> r@ == decode_utf8(v@);
    }
}
