%source src/deserializers/url_path.rs
%drop-types Deserializer@UrlPathDeserializer Error
%drop-types SeqAccess@UrlPathDeserializer Error
%rewrite `use std::iter::Peekable` => `use stdx::Peekable`
%rewrite `use std::str::Split` => `use stdx::Split`

%prelude
use path_theory::*;
use procedure::{epv, nvars};
use text::*;
use stdx::*;
use vstd::utf8::*;
use serde::de::{DVal, Ask, DeSpec, SeqSpec, Deserializer, SeqAccess, DeserializeSeed, Step, elem};
broadcast use {group_text, group_pct, lemma_nvars};

%fn UrlPathDeserializer::new
    ensures
        r is Ok <==> url@.is_base,
        r matches Ok(d) ==> d.st() == de_init(epv(entry_point), url@.segs) && d.inv(),
%fn UrlPathDeserializer::is_end_of_segment
    ensures
        final(self).st() == old(self).st(),
        final(self).free_vars == old(self).free_vars,
        final(self).entry_point == old(self).entry_point,
        r == (old(self).segments@.len() == 0),
%fn UrlPathDeserializer::finish
    requires old(self).inv()
    ensures
        final(self).inv(),
        match de_finish(old(self).st().ep, old(self).st().index, old(self).st().segs) {
            Some(segs) => r is Ok && final(self).st() == (DSt { segs: segs, ..old(self).st() }),
            None => r is Err,
        },
%iter 0 it
%loop 0
        invariant
            self.inv(),
            self.st() == (DSt { segs: self.segments@, ..old(self).st() }),
            it.seq().len() == self.entry_point.segments@.len() - self.index,
            forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.entry_point.segments@[self.index + i],
            de_finish(old(self).st().ep, old(self).st().index, old(self).st().segs)
                == de_finish(old(self).st().ep, old(self).st().index + it.index@, self.segments@),
%fn UrlPathDeserializer::next_value
    requires old(self).inv()
    ensures
        final(self).inv(),
        match next_seg(old(self).st()) {
            Some(x) => r is Ok && r->Ok_0@ == x.0 && final(self).st() == x.1,
            None => r is Err,
        },
    decreases old(self).entry_point.segments@.len() - old(self).index
%fn Deserializer@UrlPathDeserializer::deserialize_any, Deserializer@UrlPathDeserializer::deserialize_option, Deserializer@UrlPathDeserializer::deserialize_map, Deserializer@UrlPathDeserializer::deserialize_struct, Deserializer@UrlPathDeserializer::deserialize_enum
    ensures r is Err, *final(self) == *old(self)
%fn Deserializer@UrlPathDeserializer::deserialize_seq, Deserializer@UrlPathDeserializer::deserialize_tuple, Deserializer@UrlPathDeserializer::deserialize_tuple_struct
    ensures
        if old(self).in_seq { r is Err && *final(self) == *old(self) } else {
            exists|a: &'a mut UrlPathDeserializer<'de>| #[trigger] visitor.on_seq(a, r)
                && (*a).st() == (DSt { in_seq: true, ..old(self).st() }) && *final(a) == *final(self)
        }
%fn SeqAccess@UrlPathDeserializer::next_element_seed
    ensures
        *final(*final(self)) == *final(*old(self)),
        if (**old(self)).free_vars == 0 {
            match de_finish((**old(self)).st().ep, (**old(self)).st().index, (**old(self)).st().segs) {
                Some(segs) => r == Ok::<Option<T::Value>, Error>(None)
                    && (**final(self)).st() == (DSt { segs: segs, ..(**old(self)).st() }),
                None => r is Err,
            }
        } else {
            r != Ok::<Option<T::Value>, Error>(None) &&
            ((r is Err && path_de_rel(**old(self), **final(self), seed.ask(), None))
                || exists|dv: DVal| #[trigger] seed.makes(dv, elem(r))
                    && path_de_rel(**old(self), **final(self), seed.ask(), Some(dv)))
        },
%fn parse_escaped_str
    ensures
        r is Ok <==> denotes::<T>(s@) is Some,
        r matches Ok(v) ==> denotes::<T>(s@) == Some(v),
%fn percent_decode
    ensures
        r is Ok <==> unesc(s@) is Some,
        r matches Ok(t) ==> unesc(s@) == Some(t@),
%loop 0
        invariant
            unpct(encode_utf8(s@)) == prepend(decoded@, unpct(bytes_rem(bytes))),
        decreases bytes_rem(bytes).len()
%fn hex_digit
    ensures
        r is Some <==> hex_val(b) is Some,
        r matches Some(d) ==> hex_val(b) == Some(d as int) && d < 16,

%extra
impl<'de> UrlPathDeserializer<'de> {
    pub open spec fn st(self) -> DSt {
        DSt { in_seq: self.in_seq, segs: self.segments@, ep: epv(self.entry_point), index: self.index as int }
    }
    pub open spec fn inv(self) -> bool {
        self.index <= self.entry_point.segments@.len()
            && self.free_vars == nvars(epv(self.entry_point), self.index as int)
    }
}
pub open spec fn path_de_rel(o: UrlPathDeserializer, f: UrlPathDeserializer, ask: Ask, d: Option<DVal>) -> bool {
    f.inv() && match path_de(o.st(), ask) {
        Step::Done(v, s) => d == Some(v) && f.st() == s,
        Step::Fail => d is None,
        Step::Any => true,
    }
}
impl<'de, 'a> DeSpec<'de> for &'a mut UrlPathDeserializer<'de> {
    type Error = Error;
    open spec fn wf(self) -> bool { (*self).inv() }
    #[verifier::prophetic]
    open spec fn wf_after(self) -> bool { (*final(self)).inv() }
    #[verifier::prophetic]
    open spec fn de(self, ask: Ask, d: Option<DVal>) -> bool { path_de_rel(*self, *final(self), ask, d) }
}
impl<'de, 'a> SeqSpec<'de> for &'a mut UrlPathDeserializer<'de> {
    type Error = Error;
    open spec fn seq_wf(self) -> bool { (*self).inv() }
    #[verifier::prophetic]
    open spec fn seq_wf_after(self) -> bool { (*final(self)).inv() }
}
