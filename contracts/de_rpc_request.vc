%source src/deserializers/rpc_request.rs
%drop-types Deserializer@RpcRequestDeserializer Error
%drop-types MapAccess@RpcRequestDeserializer Error
%derive Phase Clone, Copy, PartialEq, Eq, Structural

%prelude
use header_theory::*;
use path_theory::*;
use query_theory::*;
use request_theory::*;
use procedure::epv;
use text::*;
use stdx::*;
use serde::de::{DVal, Ask, DeSpec, MapSpec, Deserializer, MapAccess, DeserializeSeed, Step, elem};
broadcast use group_text;

%fn RpcRequestDeserializer::new
    ensures r.phase is Init, r.entry_point == entry_point, r.url == url, r.request == request
%fn Deserializer@RpcRequestDeserializer::deserialize_any, Deserializer@RpcRequestDeserializer::deserialize_seq, Deserializer@RpcRequestDeserializer::deserialize_tuple, Deserializer@RpcRequestDeserializer::deserialize_tuple_struct, Deserializer@RpcRequestDeserializer::deserialize_enum
    ensures r is Err, *final(self) == *old(self)
%fn Deserializer@RpcRequestDeserializer::deserialize_map, Deserializer@RpcRequestDeserializer::deserialize_struct
    ensures exists|a: &'a mut RpcRequestDeserializer<'de>| #[trigger] visitor.on_map(a, r) && *a == *old(self) && *final(a) == *final(self)
%fn MapAccess@RpcRequestDeserializer::next_key_seed
    ensures
        *final(*final(self)) == *final(*old(self)),
        (**final(self)).same_source(**old(self)),
        match (**old(self)).phase {
            Phase::Init => (**final(self)).phase is Path && gives_str(seed, "path"@, r),
            Phase::Path => (**final(self)).phase is Query && gives_str(seed, "query"@, r),
            Phase::Query => (**final(self)).phase is Header && gives_str(seed, "header"@, r),
            Phase::Header => (**final(self)).phase is Header && r == Ok::<Option<K::Value>, Error>(None),
        },
%fn MapAccess@RpcRequestDeserializer::next_value_seed
    ensures
        *final(*final(self)) == *final(*old(self)),
        **final(self) == **old(self),
        match (**old(self)).phase {
            Phase::Path => reads_path(seed, (**old(self)).entry_point, (**old(self)).url@, r),
            Phase::Query => reads_query(seed, (**old(self)).url@, r),
            _ => reads_header(seed, (**old(self)).request.lines(), r),
        },

%extra
impl<'de> RpcRequestDeserializer<'de> {
    pub open spec fn same_source(self, o: Self) -> bool {
        self.entry_point == o.entry_point && self.url == o.url && self.request == o.request
    }
}
pub open spec fn gives_str<'de, K: DeserializeSeed<'de>>(seed: K, t: Seq<char>, r: Result<Option<K::Value>>) -> bool {
    r != Ok::<Option<K::Value>, Error>(None) && (seed.ask() is Other || seed.makes(DVal::Str(t), elem(r)))
}
/// The seed was run once, on all the path segments from the start.
#[verifier::prophetic]
pub open spec fn reads_path<'de, V: DeserializeSeed<'de>>(seed: V, ep: EntryPoint, u: ::url::UrlV, r: Result<V::Value>) -> bool {
    if u.is_base {
        exists|d: &mut UrlPathDeserializer<'de>| #[trigger] seed.ran(d, r) && (*d).st() == de_init(epv(ep), u.segs)
    } else { r is Err }
}
/// The seed was run once, on all the query parameters from the start.
#[verifier::prophetic]
pub open spec fn reads_query<'de, V: DeserializeSeed<'de>>(seed: V, u: ::url::UrlV, r: Result<V::Value>) -> bool {
    exists|d: &mut UrlQueryDeserializer<'de>| #[trigger] seed.ran(d, r)
        && (*d).st() == (QDSt { in_map: false, val: None, pairs: ::url::form_urlencoded::pairs_of(u) })
}
/// The seed was run once, on all the header lines of the message from the start.
#[verifier::prophetic]
pub open spec fn reads_header<'de, V: DeserializeSeed<'de>>(seed: V, lines: ::miasht_header::HLines, r: Result<V::Value>) -> bool {
    exists|d: &mut HttpHeaderDeserializer<'de>| #[trigger] seed.ran(d, r) && (*d).st() == (HDSt { in_map: false, at_value: false, lines: lines })
}
impl<'de, 'a> DeSpec<'de> for &'a mut RpcRequestDeserializer<'de> {
    type Error = Error;
    open spec fn wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn wf_after(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn de(self, ask: Ask, d: Option<DVal>) -> bool {
        match ask {
            Ask::Other(_) => true,
            Ask::Newtype(_) => true,
            Ask::Ignored => d == Some(DVal::Unit) && *final(self) == *self,
            _ => d is None && *final(self) == *self,
        }
    }
}
impl<'de, 'a> MapSpec<'de> for &'a mut RpcRequestDeserializer<'de> {
    type Error = Error;
    open spec fn map_wf(self) -> bool { true }
    open spec fn map_val_wf(self) -> bool { !((*self).phase is Init) }
    #[verifier::prophetic]
    open spec fn map_wf_after(self) -> bool { true }
}
