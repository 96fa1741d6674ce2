pub mod header_theory {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use text::*;
    use stdx::*;
    use scalar::*;
    use miasht::header::{HLines, lower};
    use serde::ser::Val;
    use serde::de::{DVal, Ask, Step};
    verus! {
    // ---- RFC 7230: what a header line may hold ----
    pub open spec fn name_byte(b: u8) -> bool {
        (0x30 <= b <= 0x39) || (0x61 <= b <= 0x7a) || (0x41 <= b <= 0x5a)
            || b == 0x21 || b == 0x23 || b == 0x24 || b == 0x25 || b == 0x26 || b == 0x27 || b == 0x2a || b == 0x2b
            || b == 0x2d || b == 0x2e || b == 0x5e || b == 0x5f || b == 0x60 || b == 0x7c || b == 0x7e
    }
    pub open spec fn value_byte(b: u8) -> bool { (b >= 0x20 || b == 0x09) && b != 0x7f }
    pub open spec fn token(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> name_byte(#[trigger] s[i]) }
    pub open spec fn field_value(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> value_byte(#[trigger] s[i]) }

    /// The state of header building: the name waiting for its value, and the lines so far.
    pub struct HSt { pub first: bool, pub key: Option<Seq<char>>, pub lines: HLines }
    pub enum Out { Done(HSt), Fail, Any }
    pub open spec fn h_put(s: HSt, t: Seq<char>) -> Out {
        match s.key {
            Some(k) => if token(encode_utf8(k)) && field_value(encode_utf8(t)) {
                Out::Done(HSt { key: None, lines: s.lines.push((k, encode_utf8(t))), ..s })
            } else { Out::Fail },
            None => Out::Done(HSt { key: Some(t), ..s }),
        }
    }
    pub open spec fn h_begin(s: HSt) -> Out { if s.first { Out::Done(HSt { first: false, ..s }) } else { Out::Fail } }
    pub open spec fn h_ser(s: HSt, v: Val) -> Out
        decreases v, 0int
    {
        match v {
            Val::Bool(b) => h_put(s, bool_text(b)),
            Val::I8(n) => h_put(s, int_text(n as int)),
            Val::I16(n) => h_put(s, int_text(n as int)),
            Val::I32(n) => h_put(s, int_text(n as int)),
            Val::I64(n) => h_put(s, int_text(n as int)),
            Val::U8(n) => h_put(s, int_text(n as int)),
            Val::U16(n) => h_put(s, int_text(n as int)),
            Val::U32(n) => h_put(s, int_text(n as int)),
            Val::U64(n) => h_put(s, int_text(n as int)),
            Val::F32(x) => h_put(s, f64_text(f32_wide(x))),
            Val::F64(x) => h_put(s, f64_text(x)),
            Val::Char(c) => h_put(s, seq![c]),
            Val::Str(t) => h_put(s, t),
            Val::UnitStruct(t) => h_put(s, t),
            Val::UnitVariant(t) => h_put(s, t),
            // bytes that are not UTF-8 are outside the model of `str`
            Val::Bytes(b) => if valid_utf8(b) { h_put(s, decode_utf8(b)) } else { Out::Any },
            Val::None => if s.key is Some { Out::Done(HSt { key: None, ..s }) } else { Out::Fail },
            Val::Some(b) => h_ser(s, *b),
            Val::NewtypeStruct(b) => h_ser(s, *b),
            Val::NewtypeVariant(_, b) => h_ser(s, *b),
            Val::Map(kvs) => match h_begin(s) { Out::Done(s1) => h_ser_map(s1, kvs), o => o },
            Val::Struct(fs) => match h_begin(s) { Out::Done(s1) => h_ser_fields(s1, fs), o => o },
            Val::StructVariant(_, fs) => match h_begin(s) { Out::Done(s1) => h_ser_fields(s1, fs), o => o },
            Val::Unit | Val::Seq(_) | Val::Tuple(_) | Val::TupleStruct(_) | Val::TupleVariant(_, _) => Out::Fail,
        }
    }
    pub open spec fn h_ser_field(s: HSt, k: Seq<char>, v: Val) -> Out
        decreases v, 1int
    { h_ser(HSt { key: Some(k), ..s }, v) }
    pub open spec fn h_ser_fields(s: HSt, fs: Seq<(Seq<char>, Val)>) -> Out
        decreases fs, 0int
    {
        if fs.len() == 0 { Out::Done(s) } else {
            match h_ser_fields(s, fs.drop_last()) {
                Out::Done(s1) => h_ser(HSt { key: Some(fs.last().0), ..s1 }, fs.last().1),
                o => o,
            }
        }
    }
    pub open spec fn h_ser_map(s: HSt, kvs: Seq<(Val, Val)>) -> Out
        decreases kvs, 0int
    {
        if kvs.len() == 0 { Out::Done(s) } else {
            match h_ser_map(s, kvs.drop_last()) {
                Out::Done(s1) => match h_ser(s1, kvs.last().0) { Out::Done(s2) => h_ser(s2, kvs.last().1), o => o },
                o => o,
            }
        }
    }
    // ---- receiving side ----
    /// The state of header decoding: whether the name of the first line was read, and the lines left.
    pub struct HDSt { pub in_map: bool, pub at_value: bool, pub lines: HLines }
    pub open spec fn h_next(s: HDSt) -> Option<(Seq<u8>, HDSt)> {
        if s.lines.len() == 0 { None }
        else if s.at_value { Some((s.lines[0].1, HDSt { at_value: false, lines: s.lines.skip(1), ..s })) }
        else { Some((encode_utf8(lower(s.lines[0].0)), HDSt { at_value: true, ..s })) }
    }
    /// The value that the bytes of a header denote for what is asked.
    pub open spec fn bytes_value(ask: Ask, b: Seq<u8>) -> Option<DVal> {
        match ask {
            Ask::Bytes | Ask::ByteBuf => Some(DVal::Bytes(b)),
            Ask::Ignored => Some(DVal::Unit),
            Ask::UnitStruct(n) => if valid_utf8(b) && decode_utf8(b) == n { Some(DVal::Unit) } else { None },
            Ask::Unit | Ask::Char => None,
            _ => if valid_utf8(b) { parse_dval(ask, decode_utf8(b)) } else { None },
        }
    }
    pub open spec fn h_de(s: HDSt, ask: Ask) -> Step<HDSt>
        decreases ask
    {
        match ask {
            Ask::Option(a) => match h_de(s, *a) {
                Step::Done(d, s1) => Step::Done(DVal::Some(Box::new(d)), s1),
                x => x,
            },
            Ask::Newtype(a) => match h_de(s, *a) {
                Step::Done(d, s1) => Step::Done(DVal::Newtype(Box::new(d)), s1),
                x => x,
            },
            Ask::Other(_) => Step::Any,
            // a whole part that is ignored needs no text
            Ask::Ignored => if !s.in_map { Step::Done(DVal::Unit, s) } else {
                match h_next(s) { Some(x) => Step::Done(DVal::Unit, x.1), None => Step::Fail }
            },
            _ => match h_next(s) {
                Some(x) => match bytes_value(ask, x.0) { Some(d) => Step::Done(d, x.1), None => Step::Fail },
                None => Step::Fail,
            },
        }
    }
    }
}
