pub mod url {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use stdx::*;
    verus! {
    // ---- assumed model of the `url` crate's path handling ----
    pub struct UrlV {
        pub is_base: bool,
        pub segs: Seq<Seq<char>>,         // the text between the slashes of the path
        pub pairs: Option<Seq<(Seq<char>, Seq<char>)>>, // the query as decoded pairs
        pub rest: int,                    // everything else
    }
    pub enum Position { BeforeScheme, AfterScheme, BeforeUsername, AfterUsername, BeforePassword, AfterPassword, BeforeHost, AfterHost,
        BeforePort, AfterPort, BeforePath, AfterPath, BeforeQuery, AfterQuery, BeforeFragment, AfterFragment }
    #[verifier::external_body]
    pub struct Url { _p: () }
    impl Url {
        pub uninterp spec fn view(&self) -> UrlV;
        #[verifier::external_body]
        pub fn path_segments_mut<'a>(&'a mut self) -> (r: Result<PathSegmentsMut<'a>, ()>)
            ensures
                r is Ok <==> old(self)@.is_base,
                r matches Ok(p) ==> (*p.url)@ == old(self)@ && *final(p.url) == *final(self),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn path_segments<'a>(&'a self) -> (r: Option<Split<'a, char>>)
            ensures
                r is Some <==> self@.is_base,
                r matches Some(s) ==> s@ == self@.segs,
        { unimplemented!() }
    }
    impl Url {
        #[verifier::external_body]
        pub fn query_pairs_mut<'a>(&'a mut self) -> (r: form_urlencoded::Serializer<'a, UrlQuery<'a>>)
            ensures
                (*r.url)@ == (UrlV { pairs: Some(match old(self)@.pairs { Some(p) => p, None => seq![] }), ..old(self)@ }),
                *final(r.url) == *final(self),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn query_pairs<'a>(&'a self) -> (r: form_urlencoded::Parse<'a>)
            ensures r@ == (match self@.pairs { Some(p) => p, None => seq![] })
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct UrlQuery<'a> { _p: std::marker::PhantomData<&'a ()> }
    pub struct PathSegmentsMut<'a> { pub url: &'a mut Url }
    impl<'a> PathSegmentsMut<'a> {
        #[verifier::external_body]
        pub fn push(&mut self, segment: &str) -> (r: &mut Self)
            ensures
                (*r.url)@ == (UrlV { segs: seg_push((*old(self).url)@.segs, segment@), ..(*old(self).url)@ }),
                *final(r.url) == *final(old(self).url),
                *final(r) == *final(self),
        { unimplemented!() }
    }
    /// the bytes that `push` escapes: at least these
    pub uninterp spec fn seg_escaped(b: u8) -> bool;
    #[verifier::external_body]
    pub broadcast proof fn ax_seg_escaped(b: u8)
        ensures
            b < 0x20 || b >= 0x7f || b == 0x25 || b == 0x2f ==> #[trigger] seg_escaped(b),
            ::text::plain_char(b as char) ==> !seg_escaped(b),
    {}
    pub open spec fn hex_char(n: int) -> char { if n < 10 { (48 + n) as char } else { (55 + n) as char } }
    pub open spec fn esc_byte(b: u8) -> Seq<char> {
        if seg_escaped(b) { seq!['%', hex_char(b as int / 16), hex_char(b as int % 16)] } else { seq![b as char] }
    }
    pub open spec fn esc_bytes(s: Seq<u8>) -> Seq<char>
        decreases s.len()
    {
        if s.len() == 0 { seq![] } else { esc_byte(s[0]) + esc_bytes(s.skip(1)) }
    }
    pub open spec fn esc(t: Seq<char>) -> Seq<char> { esc_bytes(encode_utf8(t)) }
    pub open spec fn is_ws_control(c: char) -> bool { c == '\t' || c == '\n' || c == '\r' }
    pub open spec fn has_ws(t: Seq<char>) -> bool { exists|i: int| 0 <= i < t.len() && is_ws_control(#[trigger] t[i]) }
    pub uninterp spec fn ws_push(segs: Seq<Seq<char>>, t: Seq<char>) -> Seq<Seq<char>>;
    pub open spec fn seg_push(segs: Seq<Seq<char>>, t: Seq<char>) -> Seq<Seq<char>> {
        if t == "."@ || t == ".."@ { segs }
        else if has_ws(t) { ws_push(segs, t) }
        else if segs == seq![Seq::<char>::empty()] { seq![esc(t)] }
        else { segs.push(esc(t)) }
    }
    }
    pub mod form_urlencoded {
        use vstd::prelude::*;
        use stdx::*;
        use url::{Url, UrlV};
        verus! {
        pub type Pairs = Seq<(Seq<char>, Seq<char>)>;
        #[verifier::reject_recursive_types(T)]
        pub struct Serializer<'a, T> { pub url: &'a mut Url, pub _p: std::marker::PhantomData<T> }
        pub open spec fn pairs_of(u: UrlV) -> Pairs { match u.pairs { Some(p) => p, None => seq![] } }
        impl<'a, T> Serializer<'a, T> {
            #[verifier::external_body]
            pub fn append_pair<K: AsTxt + ?Sized, V: AsTxt + ?Sized>(&mut self, k: &K, v: &V) -> (r: &mut Self)
                ensures
                    (*r.url)@ == (UrlV { pairs: Some(pairs_of((*old(self).url)@).push((k.txt(), v.txt()))), ..(*old(self).url)@ }),
                    *final(r.url) == *final(old(self).url),
                    *final(r) == *final(self),
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Parse<'a> { _p: std::marker::PhantomData<&'a ()> }
        impl<'a> Parse<'a> {
            pub uninterp spec fn view(&self) -> Pairs;
            #[verifier::external_body]
            pub fn peekable(self) -> (r: Peekable<Parse<'a>>)
                ensures r.items() == self@
            { unimplemented!() }
        }
        impl<'a> Peekable<Parse<'a>> {
            pub uninterp spec fn items(&self) -> Pairs;
            #[verifier::external_body]
            pub fn next(&mut self) -> (r: Option<(Cow<'a, str>, Cow<'a, str>)>)
                ensures
                    match r {
                        None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
                        Some(p) => old(self).items().len() > 0 && p.0@ == old(self).items()[0].0 && p.1@ == old(self).items()[0].1
                            && final(self).items() == old(self).items().skip(1),
                    }
            { unimplemented!() }
            #[verifier::external_body]
            pub fn peek(&mut self) -> (r: Option<&(Cow<'a, str>, Cow<'a, str>)>)
                ensures
                    final(self).items() == old(self).items(),
                    match r {
                        None => old(self).items().len() == 0,
                        Some(p) => old(self).items().len() > 0 && p.0@ == old(self).items()[0].0 && p.1@ == old(self).items()[0].1,
                    }
            { unimplemented!() }
        }
        }
    }
}
