%source src/serializers/url_query.rs
%drop-types Serializer@UrlQuerySerializer Ok Error
%rewrite `use std::borrow::Cow` => `use stdx::Cow`

%prelude
use query_theory::*;
use url::UrlV;
use url::form_urlencoded::{Pairs, pairs_of};
use text::*;
use stdx::*;
use serde::ser::{Val, SerSpec, PartSpec};
broadcast use group_text;

%fn UrlQuerySerializer::new
    ensures
        r.st() == (QSt { first: true, key: None, url: (*old(query.url))@ }),
        *final(r.query.url) == *final(query.url),
%fn UrlQuerySerializer::append
    ensures
        final(self).st() == q_put(old(self).st(), key_or_val@),
        same_end(*old(self), *final(self)),
%fn Serializer@UrlQuerySerializer::serialize_map, Serializer@UrlQuerySerializer::serialize_struct, Serializer@UrlQuerySerializer::serialize_struct_variant
    ensures begin_rel(*old(self), q_begin(old(self).st()), *final(self), r)
%fn Serializer@UrlQuerySerializer::serialize_seq, Serializer@UrlQuerySerializer::serialize_tuple, Serializer@UrlQuerySerializer::serialize_tuple_struct, Serializer@UrlQuerySerializer::serialize_tuple_variant
    ensures r is Err
%fn SerializeMap@UrlQuerySerializer::serialize_key
    ensures
        q_rel(**old(self), **final(self), q_ser((**old(self)).st(), key.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeMap@UrlQuerySerializer::serialize_value
    ensures
        q_rel(**old(self), **final(self), q_ser((**old(self)).st(), value.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeStruct@UrlQuerySerializer::serialize_field, SerializeStructVariant@UrlQuerySerializer::serialize_field
    ensures
        q_rel(**old(self), **final(self), q_ser_field((**old(self)).st(), key@, value.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeMap@UrlQuerySerializer::end, SerializeStruct@UrlQuerySerializer::end, SerializeStructVariant@UrlQuerySerializer::end
    ensures q_rel(*old(self), *final(self), Some(old(self).st()), r is Ok)

%extra
impl<'a> UrlQuerySerializer<'a> {
    pub open spec fn st(self) -> QSt {
        QSt { first: self.is_first, key: match self.key { Some(k) => Some(k@), None => None }, url: (*self.query.url)@ }
    }
}
/// The URL being built is the same one, before and after.
#[verifier::prophetic]
pub open spec fn same_end(o: UrlQuerySerializer, f: UrlQuerySerializer) -> bool {
    *final(f.query.url) == *final(o.query.url)
}
/// An operation with the outcome `want` (`None`: an error) ran from `o` to `f`.
#[verifier::prophetic]
pub open spec fn q_rel(o: UrlQuerySerializer, f: UrlQuerySerializer, want: Option<QSt>, ok: bool) -> bool {
    same_end(o, f) && match want { Some(s) => ok && f.st() == s, None => !ok }
}
#[verifier::prophetic]
pub open spec fn begin_rel<'a, 'b>(o: UrlQuerySerializer<'b>, want: Option<QSt>, f: UrlQuerySerializer<'b>,
    r: Result<&'a mut UrlQuerySerializer<'b>>) -> bool
{
    match want {
        Some(s) => r matches Ok(t) && (*t).st() == s && *final(t) == f && same_end(o, *t),
        None => r is Err && same_end(o, f),
    }
}
impl<'a, 'b> SerSpec for &'a mut UrlQuerySerializer<'b> {
    type Ok = ();
    type Error = Error;
    open spec fn wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn ser(self, v: Val, r: Result<()>) -> bool {
        q_rel(*self, *final(self), q_ser((*self).st(), v), r is Ok)
    }
}
impl<'a, 'b> PartSpec for &'a mut UrlQuerySerializer<'b> {
    open spec fn part_wf(self) -> bool { true }
    open spec fn variant_wf(self) -> bool { true }
}
