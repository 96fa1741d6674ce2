%source src/serializers/http_header.rs
%drop-types Serializer@HttpHeaderSerializer Ok Error
%rewrite `use std::borrow::Cow` => `use stdx::Cow`

%prelude
use header_theory::*;
use miasht::header::HLines;
use text::*;
use stdx::*;
use vstd::utf8::*;
use serde::ser::{Val, SerSpec, PartSpec};
broadcast use group_text;

%fn HttpHeaderSerializer::new
    ensures
        r.st() == (HSt { first: true, key: None, lines: (*old(headers.head)).lines() }),
        *final(r.headers.head) == *final(headers.head),
%fn HttpHeaderSerializer::append
    ensures h_rel(*old(self), *final(self), h_put(old(self).st(), key_or_val@), r is Ok)
%fn Serializer@HttpHeaderSerializer::serialize_map, Serializer@HttpHeaderSerializer::serialize_struct, Serializer@HttpHeaderSerializer::serialize_struct_variant
    ensures begin_rel(*old(self), h_begin(old(self).st()), *final(self), r)
%fn Serializer@HttpHeaderSerializer::serialize_seq, Serializer@HttpHeaderSerializer::serialize_tuple, Serializer@HttpHeaderSerializer::serialize_tuple_struct, Serializer@HttpHeaderSerializer::serialize_tuple_variant
    ensures r is Err
%fn SerializeMap@HttpHeaderSerializer::serialize_key
    ensures
        h_rel(**old(self), **final(self), h_ser((**old(self)).st(), key.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeMap@HttpHeaderSerializer::serialize_value
    ensures
        h_rel(**old(self), **final(self), h_ser((**old(self)).st(), value.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeStruct@HttpHeaderSerializer::serialize_field, SerializeStructVariant@HttpHeaderSerializer::serialize_field
    ensures
        h_rel(**old(self), **final(self), h_ser_field((**old(self)).st(), key@, value.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeMap@HttpHeaderSerializer::end, SerializeStruct@HttpHeaderSerializer::end, SerializeStructVariant@HttpHeaderSerializer::end
    ensures h_rel(*old(self), *final(self), Out::Done(old(self).st()), r is Ok)
%fn is_field_name
    ensures r == token(name@)
%iter 0 it
%loop 0
        invariant forall|i: int| 0 <= i < it.index@ ==> name_byte(#[trigger] name@[i])
%fn is_field_value
    ensures r == field_value(value@)
%iter 0 it
%loop 0
        invariant forall|i: int| 0 <= i < it.index@ ==> value_byte(#[trigger] value@[i])

%extra
impl<'a> HttpHeaderSerializer<'a> {
    pub open spec fn st(self) -> HSt {
        HSt { first: self.is_first, key: match self.key { Some(k) => Some(k@), None => None }, lines: (*self.headers.head).lines() }
    }
}
/// The message head being built is the same one, before and after.
#[verifier::prophetic]
pub open spec fn same_end(o: HttpHeaderSerializer, f: HttpHeaderSerializer) -> bool {
    *final(f.headers.head) == *final(o.headers.head)
}
#[verifier::prophetic]
pub open spec fn h_rel(o: HttpHeaderSerializer, f: HttpHeaderSerializer, want: Out, ok: bool) -> bool {
    same_end(o, f) && match want { Out::Done(s) => ok && f.st() == s, Out::Fail => !ok, Out::Any => true }
}
#[verifier::prophetic]
pub open spec fn begin_rel<'a, 'b>(o: HttpHeaderSerializer<'b>, want: Out, f: HttpHeaderSerializer<'b>,
    r: Result<&'a mut HttpHeaderSerializer<'b>>) -> bool
{
    match want {
        Out::Done(s) => r matches Ok(t) && (*t).st() == s && *final(t) == f && same_end(o, *t),
        Out::Fail => r is Err && same_end(o, f),
        Out::Any => true,
    }
}
impl<'a, 'b> SerSpec for &'a mut HttpHeaderSerializer<'b> {
    type Ok = ();
    type Error = Error;
    open spec fn wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn ser(self, v: Val, r: Result<()>) -> bool {
        h_rel(*self, *final(self), h_ser((*self).st(), v), r is Ok)
    }
}
impl<'a, 'b> PartSpec for &'a mut HttpHeaderSerializer<'b> {
    open spec fn part_wf(self) -> bool { true }
    open spec fn variant_wf(self) -> bool { true }
}
