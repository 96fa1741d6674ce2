%source src/serializers/rpc_request.rs
%drop-types Serializer@RpcRequestSerializer Ok Error
%rewrite `&self.temp_url[url::Position::BeforePath..]` => `self.temp_url.slice_from(url::Position::BeforePath)`

%prelude
use header_theory::*;
use path_theory::*;
use query_theory::*;
use request_theory::*;
use miasht_headers::cl_line;
use miasht_client::ReqV;
use text::*;
use stdx::*;
use serde::ser::{Val, SerSpec, PartSpec};
broadcast use group_text;

%fn RpcRequestSerializer::new
    ensures r.st() == rq_start(connection.id(), method, entry_point)
%fn RpcRequestSerializer::finish
    ensures
        match rq_take(self.st()) {
            Some(x) => r matches Ok(q) && q@ == (ReqV { lines: x.0.lines.push(cl_line(body@.len() as int)), ..x.0 }),
            None => r is Err,
        }
%fn RpcRequestSerializer::take_request
    ensures
        match rq_take(old(self).st()) {
            Some(x) => r matches Ok(q) && q@ == x.0 && final(self).st() == x.1,
            None => r is Err,
        }
%fn Serializer@RpcRequestSerializer::serialize_struct, Serializer@RpcRequestSerializer::serialize_struct_variant
    ensures r matches Ok(t) && *t == *old(self) && *final(t) == *final(self)
%fn Serializer@RpcRequestSerializer::serialize_seq, Serializer@RpcRequestSerializer::serialize_tuple, Serializer@RpcRequestSerializer::serialize_tuple_struct, Serializer@RpcRequestSerializer::serialize_tuple_variant, Serializer@RpcRequestSerializer::serialize_map
    ensures r is Err
%fn SerializeStruct@RpcRequestSerializer::serialize_field
    ensures
        rq_rel(**old(self), **final(self), rq_field((**old(self)).st(), key@, value.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeStructVariant@RpcRequestSerializer::serialize_field
    ensures
        rq_rel(**old(self), **final(self), rq_vfield((**old(self)).st(), key@, value.val()), r is Ok),
        *final(*final(self)) == *final(*old(self)),
%fn SerializeStruct@RpcRequestSerializer::end, SerializeStructVariant@RpcRequestSerializer::end
    ensures r is Ok, *final(self) == *old(self)

%extra
impl RpcRequestSerializer {
    pub open spec fn st(self) -> RqSt {
        RqSt {
            build: match self.connection {
                Some(c) => Some(Bld { conn: c.id(), url: self.temp_url@, init: self.is_path_initialized, method: self.method, ep: self.entry_point }),
                None => None,
            },
            req: match self.request { Some(b) => Some(b@), None => None },
        }
    }
}
pub open spec fn rq_rel(o: RpcRequestSerializer, f: RpcRequestSerializer, want: RqOut, ok: bool) -> bool {
    match want { RqOut::Done(s) => ok && f.st() == s, RqOut::Fail => !ok, RqOut::Any => true }
}
impl<'a> SerSpec for &'a mut RpcRequestSerializer {
    type Ok = ();
    type Error = Error;
    open spec fn wf(self) -> bool { true }
    #[verifier::prophetic]
    open spec fn ser(self, v: Val, r: Result<()>) -> bool {
        rq_rel(*self, *final(self), rq_ser((*self).st(), v), r is Ok)
    }
}
impl<'a> PartSpec for &'a mut RpcRequestSerializer {
    open spec fn part_wf(self) -> bool { true }
    open spec fn variant_wf(self) -> bool { true }
}
