pub mod c06 {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use text::*;
    use stdx::*;
    use bytesx::*;
    use status_theory::*;
    use response_theory::*;
    use header_theory::*;
    use serdeconv::*;
    use miasht_server::{Connection, Response, RespV};
    use miasht_headers::cl_line;
    use fibers::net::TcpStream;
    use serializers::rpc_response::RpcResponseSerializer;
    use deserializers::rpc_response::*;
    use deserializers::HttpHeaderDeserializer;
    use serde::ser::*;
    use serde::de::*;
    use seeds::*;
    use {Error, Result};
    verus! {
    broadcast use group_text, ax_json_int;
    pub open spec fn start(c: int) -> RSt { RSt { conn: Some(c), resp: None } }
    // ---- C04 ----
    /// A status-named variant is sent with the code of its name, and the client maps that code back to the name.
    pub proof fn theorem_variant(c: int, n: Seq<char>, fs: Seq<(Seq<char>, Val)>)
        ensures
            r_ser(start(c), Val::UnitVariant(n)) matches ROut::Done(s) ==>
                s.resp matches Some(p) && p.conn == c && name_code(n) == Some(p.code) && code_name(p.code) == Some(n),
            r_ser(start(c), Val::StructVariant(n, fs)) matches ROut::Done(s) ==>
                s.resp matches Some(p) && p.conn == c && name_code(n) == Some(p.code) && code_name(p.code) == Some(n),
            name_code(n) is Some ==> r_ser(start(c), Val::UnitVariant(n)) is Done,
            name_code(n) is None ==> r_ser(start(c), Val::UnitVariant(n)) is Fail && r_ser(start(c), Val::StructVariant(n, fs)) is Fail,
    {
        theorem_one_to_one(0, n);
        match r_begin(start(c), name_code(n)) {
            ROut::Done(s1) => { lemma_vfields(s1, fs); }
            _ => {}
        }
    }
    pub proof fn lemma_vfields(s: RSt, fs: Seq<(Seq<char>, Val)>)
        requires s.resp is Some
        ensures r_fields(s, fs, true) matches ROut::Done(e) ==>
            e.conn == s.conn && e.resp is Some && e.resp->0.conn == s.resp->0.conn && e.resp->0.code == s.resp->0.code
        decreases fs.len()
    {
        if fs.len() > 0 { lemma_vfields(s, fs.drop_last()); }
    }
    /// A numeric `status` field is the status sent, or the response is refused.
    pub proof fn theorem_number(c: int, v: Val)
        requires int_val(v) is Some
        ensures ({
            let n = int_val(v)->0;
            r_field(start(c), "status"@, v) == (if 0 <= n <= 0xffff && known_code(n as u16) {
                ROut::Done(RSt { conn: None, resp: Some(RespV { conn: c, code: n as u16, lines: seq![] }) })
            } else { ROut::Fail })
        })
    {
        let n = int_val(v)->0;
        assert(json_text(v) == Some(int_text(n)));
        if n < 0 {
            lemma_nat_text(-n);
            let t = int_text(n);
            assert(t[0] == '-');
            assert(digits_val(t) is None) by { lemma_minus(nat_text(-n)); }
        } else {
            lemma_int_text(n, false, 0, n);
            let t = int_text(n);
            assert(t[0] != '+' && t[0] != '-') by { lemma_nat_text(n); }
        }
    }
    pub proof fn lemma_minus(s: Seq<char>)
        ensures digits_val(seq!['-'] + s) is None
        decreases s.len()
    {
        let t = seq!['-'] + s;
        if s.len() == 0 {
            assert(t.last() == '-');
        } else {
            assert(t.drop_last() =~= seq!['-'] + s.drop_last());
            lemma_minus(s.drop_last());
        }
    }
    // ---- C06 ----
    /// The status comes from the first field, which must be `status`; only headers may follow.
    pub proof fn theorem_struct(c: int, fs: Seq<(Seq<char>, Val)>)
        ensures
            r_fields(start(c), fs, false) matches ROut::Done(s) ==> if fs.len() == 0 { s.resp is None } else {
                &&& fs[0].0 == "status"@
                &&& forall|i: int| 0 < i < fs.len() ==> (#[trigger] fs[i]).0 == "header"@
                &&& s.conn is None && s.resp is Some && s.resp->0.conn == c && Some(s.resp->0.code) == status_of(fs[0].1)
            }
        decreases fs.len()
    {
        reveal_strlit("status"); reveal_strlit("header");
        if fs.len() > 0 {
            theorem_struct(c, fs.drop_last());
            assert(fs.drop_last().len() > 0 ==> fs.drop_last()[0] == fs[0]);
            assert forall|i: int| 0 < i < fs.len() && r_fields(start(c), fs, false) is Done implies (#[trigger] fs[i]).0 == "header"@ by {
                if i < fs.len() - 1 { assert(fs.drop_last()[i] == fs[i]); } else { assert(fs.last() == fs[i]); }
            }
        }
    }
    /// The head of a response that names its status and supplies headers: that status, then exactly those header lines.
    pub proof fn theorem_head(c: int, n: Seq<char>, sv: Val, h: Val)
        ensures ({
            let lines = h_ser(HSt { first: true, key: None, lines: seq![] }, h);
            &&& (r_ser(start(c), Val::StructVariant(n, seq![("header"@, h)])) matches ROut::Done(s) ==>
                lines is Any || (lines is Done && s.resp == Some(RespV { conn: c, code: name_code(n)->0, lines: lines->Done_0.lines })))
            &&& (r_ser(start(c), Val::Struct(seq![("status"@, sv), ("header"@, h)])) matches ROut::Done(s) ==>
                lines is Any || (lines is Done && s.resp == Some(RespV { conn: c, code: status_of(sv)->0, lines: lines->Done_0.lines })))
        })
    {
        reveal_with_fuel(r_fields, 3);
        reveal_strlit("status"); reveal_strlit("header");
        let f1 = seq![("header"@, h)];
        assert(f1.drop_last() =~= Seq::empty());
        let f2 = seq![("status"@, sv), ("header"@, h)];
        assert(f2.drop_last() =~= seq![("status"@, sv)]);
        assert(f2.drop_last().drop_last() =~= Seq::empty());
    }
    // ---- drivers: the calls a derived implementation makes, on the real code ----
    pub open spec fn served(c: int, o: ROut, body: Seq<u8>, r: Result<(Response<TcpStream>, Box<DynBytes>)>) -> bool {
        match o {
            ROut::Done(s) => match s.resp {
                Some(p) => r matches Ok(x) && x.0@ == with_length(p, body.len() as int) && x.1.byte_seq() == body,
                None => r is Err,
            },
            ROut::Fail => r is Err,
            ROut::Any => true,
        }
    }
    pub fn drive_struct<S: Serialize, H: Serialize>(c: Connection<TcpStream>, status: &S, header: &H, body: Box<DynBytes>)
        -> (r: Result<(Response<TcpStream>, Box<DynBytes>)>)
        ensures served(c.id(), r_ser(start(c.id()), Val::Struct(seq![("status"@, status.val()), ("header"@, header.val())])), body.byte_seq(), r)
    {
        proof {
            reveal_with_fuel(r_fields, 3);
            let f2 = seq![("status"@, status.val()), ("header"@, header.val())];
            assert(f2.drop_last() =~= seq![("status"@, status.val())]);
            assert(f2.drop_last().drop_last() =~= Seq::empty());
        }
        let mut s = RpcResponseSerializer::new(c);
        {
            let mut t = match Serializer::serialize_struct(&mut s, "", 2) { Ok(t) => t, Err(e) => { return Err(e); } };
            match SerializeStruct::serialize_field(&mut t, "status", status) { Ok(_) => {}, Err(e) => { return Err(e); } }
            match SerializeStruct::serialize_field(&mut t, "header", header) { Ok(_) => {}, Err(e) => { return Err(e); } }
            match SerializeStruct::end(t) { Ok(_) => {}, Err(e) => { return Err(e); } }
        }
        s.finish(body)
    }
    pub fn drive_variant<H: Serialize>(c: Connection<TcpStream>, name: &'static str, header: &H, body: Box<DynBytes>)
        -> (r: Result<(Response<TcpStream>, Box<DynBytes>)>)
        ensures served(c.id(), r_ser(start(c.id()), Val::StructVariant(name@, seq![("header"@, header.val())])), body.byte_seq(), r)
    {
        proof {
            reveal_with_fuel(r_fields, 3);
            let f1 = seq![("header"@, header.val())];
            assert(f1.drop_last() =~= Seq::empty());
        }
        let mut s = RpcResponseSerializer::new(c);
        {
            let mut t = match Serializer::serialize_struct_variant(&mut s, "", 0, name, 1) { Ok(t) => t, Err(e) => { return Err(e); } };
            match SerializeStructVariant::serialize_field(&mut t, "header", header) { Ok(_) => {}, Err(e) => { return Err(e); } }
            match SerializeStructVariant::end(t) { Ok(_) => {}, Err(e) => { return Err(e); } }
        }
        s.finish(body)
    }
    /// A receiver of a struct reads `status`, then `header`, then the end; never a panic.
    pub fn drive_read<'de>(resp: &'de ::miasht_client::Response<TcpStream>) -> (r: Result<Kept>)
        ensures r matches Ok(k) && k@ == DVal::U16(resp.code())
    {
        let mut d = RpcResponseDeserializer::new(resp);
        let mut t = &mut d;
        let k1 = match MapAccess::next_key_seed(&mut t, NameSeed) { Ok(Some(k)) => k, Ok(None) => { assert(false); loop invariant false decreases 0int {} }, Err(e) => { return Err(e); } };
        assert(k1@ == "status"@);
        let v1 = match MapAccess::next_value_seed(&mut t, seed_of(Ghost(Ask::U16))) { Ok(v) => v, Err(e) => { return Err(e); } };
        let k2 = match MapAccess::next_key_seed(&mut t, NameSeed) { Ok(Some(k)) => k, Ok(None) => { assert(false); loop invariant false decreases 0int {} }, Err(e) => { return Err(e); } };
        assert(k2@ == "header"@);
        match MapAccess::next_key_seed(&mut t, NameSeed) { Ok(Some(k)) => { assert(false); } Ok(None) => {} Err(e) => { assert(false); } }
        Ok(v1)
    }
    }
}
