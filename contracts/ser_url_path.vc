%source src/serializers/url_path.rs
%drop-types Serializer@UrlPathSerializer Ok Error

%prelude
use path_theory::*;
use procedure::{epv, nvars};
use url::UrlV;
use text::*;
use serde::ser::{Val, SerSpec, PartSpec};
broadcast use group_text;

%fn UrlPathSerializer::new
    ensures
        r is Ok <==> old(url)@.is_base,
        r matches Ok(s) ==> s.st() == ser_init(*entry_point, old(url)@) && *final(s.segments.url) == *final(url),
%fn UrlPathSerializer::bind_next_var
    ensures path_rel(*old(self), *final(self), bind(old(self).st(), value@), r is Ok)
%fn UrlPathSerializer::is_representable
    ensures r == representable(self.st(), value@)
%start
    proof { if value@.len() == 0 { assert(value@ =~= Seq::<char>::empty()); } assert(""@ =~= Seq::<char>::empty()) by { reveal_strlit(""); } lemma_ws(value@); reveal_strlit(""); reveal_strlit("."); reveal_strlit(".."); }
%fn UrlPathSerializer::finish
    ensures path_rel(*old(self), *final(self), finish_path(old(self).st()), r is Ok)
%fn UrlPathSerializer::append_until_next_var
    ensures
        final(self).st() == skip_consts(old(self).st()),
        same_end(*old(self), *final(self)),
        r == (skip_consts(old(self).st()).index >= old(self).st().ep.len()),
        !r ==> final(self).index < usize::MAX,
%loop 0
        invariant
            skip_consts(self.st()) == skip_consts(old(self).st()),
            same_end(*old(self), *self),
            self.st().ep == old(self).st().ep,
        decreases self.entry_point.segments@.len() - self.index
%fn UrlPathSerializer::var_count
    ensures r == nvars(self.st().ep, 0)

%fn Serializer@UrlPathSerializer::serialize_tuple, Serializer@UrlPathSerializer::serialize_tuple_struct, Serializer@UrlPathSerializer::serialize_tuple_variant
    ensures begin_rel(*old(self), begin_tuple(old(self).st(), len as int), *final(self), r)
%fn Serializer@UrlPathSerializer::serialize_seq, Serializer@UrlPathSerializer::serialize_map, Serializer@UrlPathSerializer::serialize_struct, Serializer@UrlPathSerializer::serialize_struct_variant
    ensures r is Err
%fn SerializeTuple@UrlPathSerializer::serialize_element, SerializeTupleStruct@UrlPathSerializer::serialize_field, SerializeTupleVariant@UrlPathSerializer::serialize_field
    ensures
        path_rel(**old(self), **final(self), path_ser((**old(self)).st(), value.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeTuple@UrlPathSerializer::end, SerializeTupleStruct@UrlPathSerializer::end, SerializeTupleVariant@UrlPathSerializer::end
    ensures path_rel(*old(self), *final(self), finish_path(old(self).st()), r is Ok)
%fn has_whitespace_control
    ensures r == exists|i: int| 0 <= i < value@.len() && ws_byte(#[trigger] value@[i])
%iter 0 it
%loop 0
        invariant forall|i: int| 0 <= i < it.index@ ==> !ws_byte(#[trigger] value@[i])

%extra
impl<'a> UrlPathSerializer<'a> {
    pub open spec fn st(self) -> PSt {
        PSt { started: self.is_started, index: self.index as int, ep: epv(*self.entry_point), url: (*self.segments.url)@ }
    }
}
/// The URL being built is the same one, before and after.
#[verifier::prophetic]
pub open spec fn same_end(o: UrlPathSerializer, f: UrlPathSerializer) -> bool {
    *final(f.segments.url) == *final(o.segments.url)
}
/// An operation with the outcome `want` (`None`: an error) ran from `o` to `f`.
#[verifier::prophetic]
pub open spec fn path_rel(o: UrlPathSerializer, f: UrlPathSerializer, want: Option<PSt>, ok: bool) -> bool {
    same_end(o, f) && match want { Some(s) => ok && f.st() == s, None => !ok }
}
#[verifier::prophetic]
pub open spec fn begin_rel<'a, 'b>(o: UrlPathSerializer<'b>, want: Option<PSt>, f: UrlPathSerializer<'b>,
    r: Result<&'a mut UrlPathSerializer<'b>>) -> bool
{
    match want {
        Some(s) => r matches Ok(t) && (*t).st() == s && *final(t) == f && same_end(o, *t),
        None => r is Err && same_end(o, f),
    }
}
impl<'a, 'b> SerSpec for &'a mut UrlPathSerializer<'b> {
    type Ok = ();
    type Error = Error;
    open spec fn wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn ser(self, v: Val, r: Result<()>) -> bool {
        path_rel(*self, *final(self), path_ser((*self).st(), v), r is Ok)
    }
}
impl<'a, 'b> PartSpec for &'a mut UrlPathSerializer<'b> {
    open spec fn part_wf(self) -> bool { true }
    open spec fn variant_wf(self) -> bool { true }
}
