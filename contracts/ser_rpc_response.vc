%source src/serializers/rpc_response.rs
%drop-types Serializer@RpcResponseSerializer Ok Error
%rewrite `Box<dyn AsRef<[u8]> + Send + 'static>` => `Box<DynBytes>`

%prelude
use bytesx::*;
use header_theory::*;
use response_theory::*;
use status_theory::*;
use serializers::http_header::h_rel;
use miasht_headers::cl_line;
use miasht_server::RespV;
use text::*;
use stdx::*;
use vstd::utf8::*;
use serde::ser::{Val, SerSpec, PartSpec};
broadcast use group_text;

%fn RpcResponseSerializer::serialize
    ensures
        match r_ser(RSt { conn: Some(connection.id()), resp: None }, rpc_response.val()) {
            ROut::Done(s) => match s.resp {
                Some(p) => r matches Ok(x) && x.0@ == with_length(p, rpc_response.body_spec().len() as int)
                    && x.1.byte_seq() == rpc_response.body_spec(),
                None => r is Err,
            },
            ROut::Fail => r is Err,
            ROut::Any => true,
        },
        r matches Ok(x) ==> x.0@.conn == connection.id() && x.0@.lines.len() > 0 && x.0@.lines.last() == cl_line(x.1.byte_seq().len() as int),
%fn RpcResponseSerializer::new
    ensures r.st() == (RSt { conn: Some(connection.id()), resp: None })
%fn RpcResponseSerializer::finish
    ensures
        match self.st().resp {
            Some(p) => r matches Ok(x) && x.0@ == with_length(p, body.byte_seq().len() as int) && x.1 == body,
            None => r is Err,
        }
%fn Serializer@RpcResponseSerializer::serialize_struct
    ensures r matches Ok(t) && *t == *old(self) && *final(t) == *final(self)
%fn Serializer@RpcResponseSerializer::serialize_struct_variant
    ensures
        match r_begin(old(self).st(), name_code(variant@)) {
            ROut::Done(s) => r matches Ok(t) && (*t).st() == s && *final(t) == *final(self),
            _ => r is Err && final(self).inv() && r_keep(old(self).st(), final(self).st()),
        }
%fn Serializer@RpcResponseSerializer::serialize_seq, Serializer@RpcResponseSerializer::serialize_tuple, Serializer@RpcResponseSerializer::serialize_tuple_struct, Serializer@RpcResponseSerializer::serialize_tuple_variant, Serializer@RpcResponseSerializer::serialize_map
    ensures r is Err
%fn SerializeStruct@RpcResponseSerializer::serialize_field
    ensures
        r_rel(**old(self), **final(self), r_field((**old(self)).st(), key@, value.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeStructVariant@RpcResponseSerializer::serialize_field
    ensures
        r_rel(**old(self), **final(self), r_vfield((**old(self)).st(), key@, value.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeStruct@RpcResponseSerializer::end, SerializeStructVariant@RpcResponseSerializer::end
    ensures r is Ok, *final(self) == *old(self)
%fn status_from_str
    ensures
        match name_code(s@) { Some(c) => r matches Ok(x) && status_code(x) == c, None => r is Err }
%start
    proof { lemma_names(); lemma_other(s@); }

%extra
impl RpcResponseSerializer {
    pub open spec fn st(self) -> RSt {
        RSt {
            conn: match self.connection { Some(c) => Some(c.id()), None => None },
            resp: match self.response { Some(b) => Some(RespV { conn: b.conn(), code: b.code(), lines: b.head.lines() }), None => None },
        }
    }
    pub open spec fn inv(self) -> bool { r_inv(self.st()) }
}
pub open spec fn r_rel(o: RpcResponseSerializer, f: RpcResponseSerializer, want: ROut, ok: bool) -> bool {
    f.inv() && r_keep(o.st(), f.st()) && match want { ROut::Done(s) => ok && f.st() == s, ROut::Fail => !ok, ROut::Any => true }
}
impl<'a> SerSpec for &'a mut RpcResponseSerializer {
    type Ok = ();
    type Error = Error;
    open spec fn wf(self) -> bool { (*self).inv() }
    #[verifier::prophetic]
    open spec fn ser(self, v: Val, r: Result<()>) -> bool {
        r_rel(*self, *final(self), r_ser((*self).st(), v), r is Ok)
    }
}
impl<'a> PartSpec for &'a mut RpcResponseSerializer {
    open spec fn part_wf(self) -> bool { (*self).inv() }
    open spec fn variant_wf(self) -> bool { (*self).inv() && (*self).st().resp is Some }
}
