%source src/deserializers/rpc_response.rs
%drop-types Deserializer@RpcResponseDeserializer Error
%drop-types MapAccess@RpcResponseDeserializer Error
%drop-types EnumAccess@Enum Error
%derive Phase Clone, Copy, PartialEq, Eq, Structural

%prelude
use header_theory::*;
use response_theory::*;
use status_theory::*;
use text::*;
use stdx::*;
use serde::de::{DVal, Ask, DeSpec, MapSpec, EnumSpec, Deserializer, MapAccess, DeserializeSeed, VariantAccess, Step, elem};
broadcast use group_text;

%fn RpcResponseDeserializer::new
    ensures r.phase is Init, r.response == response
%fn Deserializer@RpcResponseDeserializer::deserialize_any, Deserializer@RpcResponseDeserializer::deserialize_seq, Deserializer@RpcResponseDeserializer::deserialize_tuple, Deserializer@RpcResponseDeserializer::deserialize_tuple_struct
    ensures r is Err, *final(self) == *old(self)
%fn Deserializer@RpcResponseDeserializer::deserialize_map, Deserializer@RpcResponseDeserializer::deserialize_struct
    ensures exists|a: &'a mut RpcResponseDeserializer<'de>| #[trigger] visitor.on_map(a, r) && *a == *old(self) && *final(a) == *final(self)
%fn Deserializer@RpcResponseDeserializer::deserialize_enum
    ensures exists|a: Enum<'de, 'a>| #[trigger] visitor.on_enum(a, r) && *a.0 == *old(self) && *final(a.0) == *final(self)
%fn MapAccess@RpcResponseDeserializer::next_key_seed
    ensures
        *final(*final(self)) == *final(*old(self)),
        (**final(self)).response == (**old(self)).response,
        match (**old(self)).phase {
            Phase::Init => (**final(self)).phase is Status && gives_str(seed, "status"@, r),
            Phase::Status => (**final(self)).phase is Header && gives_str(seed, "header"@, r),
            Phase::Header => (**final(self)).phase is Header && r == Ok::<Option<K::Value>, Error>(None),
        },
%fn MapAccess@RpcResponseDeserializer::next_value_seed
    ensures
        *final(*final(self)) == *final(*old(self)),
        **final(self) == **old(self),
        match (**old(self)).phase {
            Phase::Status => seed.ask() is Other || seed.makes(DVal::U16((**old(self)).response.code()), r),
            _ => reads_header(seed, (**old(self)).response.lines(), r),
        },
%fn EnumAccess@Enum::variant_seed
    ensures
        match code_name(old(self.0).response.code()) {
            Some(n) => (seed.ask() is Other && r is Err) || match r {
                Ok(p) => (seed.ask() is Other || seed.makes(DVal::Str(n), Ok::<V::Value, Error>(p.0)))
                    && (*p.1.0).phase is Status && (*p.1.0).response == old(self.0).response && *final(p.1.0) == *final(self.0),
                Err(e) => seed.makes(DVal::Str(n), Err::<V::Value, Error>(e)),
            },
            None => r is Err,
        }
%fn VariantAccess@Enum::unit_variant
    ensures r is Ok, *final(self.0) == *old(self.0)
%fn VariantAccess@Enum::newtype_variant_seed
    ensures exists|a: &'a mut RpcResponseDeserializer<'de>| #[trigger] seed.ran(a, r) && *a == *old(self.0) && *final(a) == *final(self.0)
%fn VariantAccess@Enum::tuple_variant
    ensures r is Err
%fn VariantAccess@Enum::struct_variant
    ensures exists|a: &'a mut RpcResponseDeserializer<'de>| #[trigger] visitor.on_map(a, r) && *a == *old(self.0) && *final(a) == *final(self.0)
%fn status_code_to_str
    ensures
        match code_name(code) { Some(n) => r matches Ok(x) && x@ == n, None => r is Err }

%extra
pub open spec fn gives_str<'de, K: DeserializeSeed<'de>>(seed: K, t: Seq<char>, r: Result<Option<K::Value>>) -> bool {
    r != Ok::<Option<K::Value>, Error>(None) && (seed.ask() is Other || seed.makes(DVal::Str(t), elem(r)))
}
/// The seed was run once, on all the header lines of the message from the start.
#[verifier::prophetic]
pub open spec fn reads_header<'de, V: DeserializeSeed<'de>>(seed: V, lines: ::miasht_header::HLines, r: Result<V::Value>) -> bool {
    exists|d: &mut HttpHeaderDeserializer<'de>| #[trigger] seed.ran(d, r) && (*d).st() == (HDSt { in_map: false, at_value: false, lines: lines })
}
impl<'de, 'a> DeSpec<'de> for &'a mut RpcResponseDeserializer<'de> {
    type Error = Error;
    open spec fn wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn wf_after(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn de(self, ask: Ask, d: Option<DVal>) -> bool {
        match ask {
            Ask::Other(_) => true,
            Ask::Newtype(_) => true,
            Ask::Ignored => d == Some(DVal::Unit) && *final(self) == *self,
            _ => d is None && *final(self) == *self,
        }
    }
}
impl<'de, 'a> MapSpec<'de> for &'a mut RpcResponseDeserializer<'de> {
    type Error = Error;
    open spec fn map_wf(self) -> bool { true }
    open spec fn map_val_wf(self) -> bool { !((*self).phase is Init) }
    #[verifier::prophetic]
    open spec fn map_wf_after(self) -> bool { true }
}
impl<'de, 'a> EnumSpec<'de> for Enum<'de, 'a> {
    type Error = Error;
    open spec fn enum_wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn enum_wf_after(self) -> bool { true }
}
