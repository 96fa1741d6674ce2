%source src/deserializers/url_query.rs
%drop-types Deserializer@UrlQueryDeserializer Error
%drop-types MapAccess@UrlQueryDeserializer Error
%rewrite `use std::iter::Peekable` => `use stdx::Peekable`
%rewrite `use std::borrow::Cow` => `use stdx::Cow`

%prelude
use query_theory::*;
use scalar::*;
use text::*;
use stdx::*;
use vstd::utf8::*;
use serde::de::{DVal, Ask, DeSpec, MapSpec, Deserializer, MapAccess, DeserializeSeed, Step, elem};
broadcast use group_text;

%fn Phase::take
    ensures r == *old(self), *final(self) is Key
%fn UrlQueryDeserializer::new
    ensures r.st() == (QDSt { in_map: false, val: None, pairs: query@ })
%fn UrlQueryDeserializer::is_end_of_query
    ensures
        final(self).st() == old(self).st(),
        r == (old(self).st().pairs.len() == 0),
%fn UrlQueryDeserializer::next_str
    ensures
        match q_next(old(self).st()) {
            Some(x) => r is Ok && r->Ok_0@ == x.0 && final(self).st() == x.1,
            None => r is Err,
        },
%fn Deserializer@UrlQueryDeserializer::deserialize_any, Deserializer@UrlQueryDeserializer::deserialize_seq, Deserializer@UrlQueryDeserializer::deserialize_tuple, Deserializer@UrlQueryDeserializer::deserialize_tuple_struct, Deserializer@UrlQueryDeserializer::deserialize_enum
    ensures r is Err, *final(self) == *old(self)
%fn Deserializer@UrlQueryDeserializer::deserialize_map, Deserializer@UrlQueryDeserializer::deserialize_struct
    ensures
        if old(self).in_map { r is Err && *final(self) == *old(self) } else {
            exists|a: &'a mut UrlQueryDeserializer<'de>| #[trigger] visitor.on_map(a, r)
                && (*a).st() == (QDSt { in_map: true, ..old(self).st() }) && *final(a) == *final(self)
        }
%fn MapAccess@UrlQueryDeserializer::next_key_seed
    ensures
        *final(*final(self)) == *final(*old(self)),
        if (**old(self)).st().pairs.len() == 0 {
            r == Ok::<Option<K::Value>, Error>(None) && (**final(self)).st() == (**old(self)).st()
        } else {
            r != Ok::<Option<K::Value>, Error>(None) &&
            ((r is Err && q_de_rel(**old(self), **final(self), seed.ask(), None))
                || exists|dv: DVal| #[trigger] seed.makes(dv, elem(r))
                    && q_de_rel(**old(self), **final(self), seed.ask(), Some(dv)))
        },
%fn MapAccess@UrlQueryDeserializer::next_value_seed
    ensures
        *final(*final(self)) == *final(*old(self)),
        (r is Err && q_de_rel(**old(self), **final(self), seed.ask(), None))
            || exists|dv: DVal| #[trigger] seed.makes(dv, r)
                && q_de_rel(**old(self), **final(self), seed.ask(), Some(dv)),
%fn parse_cow_str
    ensures
        r is Ok <==> from_text::<T>(s@) is Some,
        r matches Ok(v) ==> from_text::<T>(s@) == Some(v),

%extra
impl<'de> UrlQueryDeserializer<'de> {
    pub open spec fn st(self) -> QDSt {
        QDSt {
            in_map: self.in_map,
            val: match self.phase { Phase::Key => None, Phase::Value(v) => Some(v@) },
            pairs: self.query.items(),
        }
    }
}
pub open spec fn q_de_rel(o: UrlQueryDeserializer, f: UrlQueryDeserializer, ask: Ask, d: Option<DVal>) -> bool {
    match q_de(o.st(), ask) {
        Step::Done(v, s) => d == Some(v) && f.st() == s,
        Step::Fail => d is None,
        Step::Any => true,
    }
}
impl<'de, 'a> DeSpec<'de> for &'a mut UrlQueryDeserializer<'de> {
    type Error = Error;
    open spec fn wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn wf_after(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn de(self, ask: Ask, d: Option<DVal>) -> bool { q_de_rel(*self, *final(self), ask, d) }
}
impl<'de, 'a> MapSpec<'de> for &'a mut UrlQueryDeserializer<'de> {
    type Error = Error;
    open spec fn map_wf(self) -> bool { true }
    open spec fn map_val_wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn map_wf_after(self) -> bool { true }
}
