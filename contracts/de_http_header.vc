%source src/deserializers/http_header.rs
%drop-types Deserializer@HttpHeaderDeserializer Error
%drop-types MapAccess@HttpHeaderDeserializer Error
%rewrite `use std::iter::Peekable` => `use stdx::Peekable`
%rewrite `use std::borrow::Cow` => `use stdx::Cow`

%rewrite `AsRef<[u8]>` => `AsRefBytes`
%rewrite `if let Some(&(k, v)) = self.headers.peek() {` => `if let Some(kv__) = self.headers.peek() { let (k, v) = *kv__;`
%derive Phase PartialEq, Eq, Structural

%prelude
use header_theory::*;
use miasht_header::ax_pair_cloned;
use scalar::*;
use text::*;
use stdx::*;
use vstd::utf8::*;
use serde::de::{DVal, Ask, DeSpec, MapSpec, Deserializer, MapAccess, DeserializeSeed, Step, elem};
broadcast use group_text;

%fn Phase::is_key
    ensures r == (*self is Key)
%fn Phase::next
    ensures *final(self) is Key <==> *old(self) is Value
%fn HttpHeaderDeserializer::new
    ensures r.st() == (HDSt { in_map: false, at_value: false, lines: headers@ })
%fn HttpHeaderDeserializer::is_end_of_header
    ensures
        final(self).st() == old(self).st(),
        r == (old(self).st().lines.len() == 0),
%fn HttpHeaderDeserializer::next_bytes
    ensures
        match h_next(old(self).st()) {
            Some(x) => r is Ok && r->Ok_0.bytes() == x.0 && final(self).st() == x.1,
            None => r is Err,
        },
%start
    broadcast use ax_pair_cloned;
%fn Deserializer@HttpHeaderDeserializer::deserialize_any, Deserializer@HttpHeaderDeserializer::deserialize_seq, Deserializer@HttpHeaderDeserializer::deserialize_tuple, Deserializer@HttpHeaderDeserializer::deserialize_tuple_struct, Deserializer@HttpHeaderDeserializer::deserialize_enum
    ensures r is Err, *final(self) == *old(self)
%fn Deserializer@HttpHeaderDeserializer::deserialize_map, Deserializer@HttpHeaderDeserializer::deserialize_struct
    ensures
        if old(self).in_map { r is Err && *final(self) == *old(self) } else {
            exists|a: &'a mut HttpHeaderDeserializer<'de>| #[trigger] visitor.on_map(a, r)
                && (*a).st() == (HDSt { in_map: true, ..old(self).st() }) && *final(a) == *final(self)
        }
%fn MapAccess@HttpHeaderDeserializer::next_key_seed
    ensures
        *final(*final(self)) == *final(*old(self)),
        if (**old(self)).st().lines.len() == 0 {
            r == Ok::<Option<K::Value>, Error>(None) && (**final(self)).st() == (**old(self)).st()
        } else {
            r != Ok::<Option<K::Value>, Error>(None) &&
            ((r is Err && h_de_rel(**old(self), **final(self), seed.ask(), None))
                || exists|dv: DVal| #[trigger] seed.makes(dv, elem(r))
                    && h_de_rel(**old(self), **final(self), seed.ask(), Some(dv)))
        },
%fn MapAccess@HttpHeaderDeserializer::next_value_seed
    ensures
        *final(*final(self)) == *final(*old(self)),
        (r is Err && h_de_rel(**old(self), **final(self), seed.ask(), None))
            || exists|dv: DVal| #[trigger] seed.makes(dv, r)
                && h_de_rel(**old(self), **final(self), seed.ask(), Some(dv)),
%fn parse_slice
    ensures
        r is Ok <==> valid_utf8(bytes.byte_seq()) && from_text::<T>(decode_utf8(bytes.byte_seq())) is Some,
        r matches Ok(v) ==> from_text::<T>(decode_utf8(bytes.byte_seq())) == Some(v),

%extra
impl<'de> HttpHeaderDeserializer<'de> {
    pub open spec fn st(self) -> HDSt {
        HDSt { in_map: self.in_map, at_value: self.phase is Value, lines: self.headers.items() }
    }
}
pub open spec fn h_de_rel(o: HttpHeaderDeserializer, f: HttpHeaderDeserializer, ask: Ask, d: Option<DVal>) -> bool {
    match h_de(o.st(), ask) {
        Step::Done(v, s) => d == Some(v) && f.st() == s,
        Step::Fail => d is None,
        Step::Any => true,
    }
}
impl<'de, 'a> DeSpec<'de> for &'a mut HttpHeaderDeserializer<'de> {
    type Error = Error;
    open spec fn wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn wf_after(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn de(self, ask: Ask, d: Option<DVal>) -> bool { h_de_rel(*self, *final(self), ask, d) }
}
impl<'de, 'a> MapSpec<'de> for &'a mut HttpHeaderDeserializer<'de> {
    type Error = Error;
    open spec fn map_wf(self) -> bool { true }
    open spec fn map_val_wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn map_wf_after(self) -> bool { true }
}
