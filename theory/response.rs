pub mod response_theory {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use text::*;
    use stdx::*;
    use status_theory::*;
    use header_theory::*;
    use miasht_header::HLines;
    use miasht_headers::cl_line;
    use miasht_server::RespV;
    use serdeconv::*;
    use serde::ser::Val;
    use serde::de::{DVal, Ask, Step};
    verus! {
    /// The state of response building: the connection until the status is known, then the head.
    pub struct RSt { pub conn: Option<int>, pub resp: Option<RespV> }
    pub enum ROut { Done(RSt), Fail, Any }
    pub open spec fn r_inv(s: RSt) -> bool { s.conn is None <==> s.resp is Some }
    pub open spec fn r_conn(s: RSt) -> int { match s.conn { Some(c) => c, None => s.resp->Some_0.conn } }
    /// The connection stays, and once there is a head it stays with its status.
    pub open spec fn r_keep(o: RSt, f: RSt) -> bool {
        r_conn(f) == r_conn(o) && (o.resp matches Some(p) ==> f.resp matches Some(q) && q.code == p.code)
    }
    pub open spec fn with_length(p: RespV, n: int) -> RespV { RespV { lines: p.lines.push(cl_line(n)), ..p } }
    pub open spec fn r_begin(s: RSt, code: Option<u16>) -> ROut {
        match (s.conn, code) {
            (Some(c), Some(k)) => ROut::Done(RSt { conn: None, resp: Some(RespV { conn: c, code: k, lines: seq![] }) }),
            _ => ROut::Fail,
        }
    }
    /// The status that a `status` field denotes.
    pub open spec fn status_of(v: Val) -> Option<u16> {
        match json_text(v) {
            Some(t) => match from_text::<u16>(t) { Some(c) => if known_code(c) { Some(c) } else { None }, None => None },
            None => None,
        }
    }
    pub open spec fn r_header(s: RSt, v: Val) -> ROut {
        match s.resp {
            Some(p) => match h_ser(HSt { first: true, key: None, lines: p.lines }, v) {
                Out::Done(h) => ROut::Done(RSt { resp: Some(RespV { lines: h.lines, ..p }), ..s }),
                Out::Fail => ROut::Fail,
                Out::Any => ROut::Any,
            },
            None => ROut::Fail,
        }
    }
    pub open spec fn r_field(s: RSt, k: Seq<char>, v: Val) -> ROut {
        if k == "status"@ { r_begin(s, status_of(v)) }
        else if k == "header"@ { if s.conn is Some { ROut::Fail } else { r_header(s, v) } }
        else { ROut::Fail }
    }
    pub open spec fn r_vfield(s: RSt, k: Seq<char>, v: Val) -> ROut {
        if k == "header"@ { r_header(s, v) } else { ROut::Fail }
    }
    pub open spec fn r_fields(s: RSt, fs: Seq<(Seq<char>, Val)>, variant: bool) -> ROut
        decreases fs.len()
    {
        if fs.len() == 0 { ROut::Done(s) } else {
            match r_fields(s, fs.drop_last(), variant) {
                ROut::Done(s1) => if variant { r_vfield(s1, fs.last().0, fs.last().1) } else { r_field(s1, fs.last().0, fs.last().1) },
                o => o,
            }
        }
    }
    pub open spec fn r_ser(s: RSt, v: Val) -> ROut
        decreases v
    {
        match v {
            Val::UnitVariant(n) => r_begin(s, name_code(n)),
            Val::NewtypeStruct(b) => r_ser(s, *b),
            Val::NewtypeVariant(_, b) => r_ser(s, *b),
            Val::Struct(fs) => r_fields(s, fs, false),
            Val::StructVariant(n, fs) => match r_begin(s, name_code(n)) { ROut::Done(s1) => r_fields(s1, fs, true), o => o },
            _ => ROut::Fail,
        }
    }
    }
}
