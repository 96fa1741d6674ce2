pub mod query_theory {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use text::*;
    use stdx::*;
    use scalar::*;
    use url::UrlV;
    use url::form_urlencoded::{Pairs, pairs_of};
    use serde::ser::Val;
    use serde::de::{DVal, Ask, Step};
    verus! {
    /// The state of query building: the name waiting for its value, and the URL so far.
    pub struct QSt { pub first: bool, pub key: Option<Seq<char>>, pub url: UrlV }
    pub open spec fn q_put(s: QSt, t: Seq<char>) -> QSt {
        match s.key {
            Some(k) => QSt { key: None, url: UrlV { pairs: Some(pairs_of(s.url).push((k, t))), ..s.url }, ..s },
            None => QSt { key: Some(t), ..s },
        }
    }
    pub open spec fn q_begin(s: QSt) -> Option<QSt> { if s.first { Some(QSt { first: false, ..s }) } else { None } }
    pub open spec fn q_ser(s: QSt, v: Val) -> Option<QSt>
        decreases v, 0int
    {
        match v {
            Val::Bool(b) => Some(q_put(s, bool_text(b))),
            Val::I8(n) => Some(q_put(s, int_text(n as int))),
            Val::I16(n) => Some(q_put(s, int_text(n as int))),
            Val::I32(n) => Some(q_put(s, int_text(n as int))),
            Val::I64(n) => Some(q_put(s, int_text(n as int))),
            Val::U8(n) => Some(q_put(s, int_text(n as int))),
            Val::U16(n) => Some(q_put(s, int_text(n as int))),
            Val::U32(n) => Some(q_put(s, int_text(n as int))),
            Val::U64(n) => Some(q_put(s, int_text(n as int))),
            Val::F32(x) => Some(q_put(s, f64_text(f32_wide(x)))),
            Val::F64(x) => Some(q_put(s, f64_text(x))),
            Val::Char(c) => Some(q_put(s, seq![c])),
            Val::Str(t) => Some(q_put(s, t)),
            Val::UnitVariant(t) => Some(q_put(s, t)),
            Val::None => if s.key is Some { Some(QSt { key: None, ..s }) } else { None },
            Val::Some(b) => q_ser(s, *b),
            Val::NewtypeStruct(b) => q_ser(s, *b),
            Val::NewtypeVariant(_, b) => q_ser(s, *b),
            Val::Map(kvs) => match q_begin(s) { Some(s1) => q_ser_map(s1, kvs), None => None },
            Val::Struct(fs) => match q_begin(s) { Some(s1) => q_ser_fields(s1, fs), None => None },
            Val::StructVariant(_, fs) => match q_begin(s) { Some(s1) => q_ser_fields(s1, fs), None => None },
            Val::Bytes(_) | Val::Unit | Val::UnitStruct(_) | Val::Seq(_) | Val::Tuple(_) | Val::TupleStruct(_)
                | Val::TupleVariant(_, _) => None,
        }
    }
    pub open spec fn q_ser_field(s: QSt, k: Seq<char>, v: Val) -> Option<QSt>
        decreases v, 1int
    { q_ser(QSt { key: Some(k), ..s }, v) }
    pub open spec fn q_ser_fields(s: QSt, fs: Seq<(Seq<char>, Val)>) -> Option<QSt>
        decreases fs, 0int
    {
        if fs.len() == 0 { Some(s) } else {
            match q_ser_fields(s, fs.drop_last()) {
                Some(s1) => q_ser(QSt { key: Some(fs.last().0), ..s1 }, fs.last().1),
                None => None,
            }
        }
    }
    pub open spec fn q_ser_map(s: QSt, kvs: Seq<(Val, Val)>) -> Option<QSt>
        decreases kvs, 0int
    {
        if kvs.len() == 0 { Some(s) } else {
            match q_ser_map(s, kvs.drop_last()) {
                Some(s1) => match q_ser(s1, kvs.last().0) { Some(s2) => q_ser(s2, kvs.last().1), None => None },
                None => None,
            }
        }
    }
    // ---- server side ----
    /// The state of query decoding: the value of the name just read, and the pairs left.
    pub struct QDSt { pub in_map: bool, pub val: Option<Seq<char>>, pub pairs: Pairs }
    pub open spec fn q_next(s: QDSt) -> Option<(Seq<char>, QDSt)> {
        match s.val {
            Some(v) => Some((v, QDSt { val: None, ..s })),
            None => if s.pairs.len() == 0 { None } else {
                Some((s.pairs[0].0, QDSt { val: Some(s.pairs[0].1), pairs: s.pairs.skip(1), ..s }))
            },
        }
    }
    pub open spec fn q_de(s: QDSt, ask: Ask) -> Step<QDSt>
        decreases ask
    {
        match ask {
            Ask::Bytes | Ask::ByteBuf => match q_next(s) {
                Some(x) => Step::Done(DVal::Bytes(encode_utf8(x.0)), x.1),
                None => Step::Fail,
            },
            Ask::Char => Step::Fail,
            Ask::Unit | Ask::UnitStruct(_) => match q_next(s) {
                Some(x) => if x.0.len() == 0 { Step::Done(DVal::Unit, x.1) } else { Step::Fail },
                None => Step::Fail,
            },
            // a whole part that is ignored needs no text
            Ask::Ignored => if !s.in_map { Step::Done(DVal::Unit, s) } else {
                match q_next(s) { Some(x) => Step::Done(DVal::Unit, x.1), None => Step::Fail }
            },
            Ask::Option(a) => match q_de(s, *a) {
                Step::Done(d, s1) => Step::Done(DVal::Some(Box::new(d)), s1),
                x => x,
            },
            Ask::Newtype(a) => match q_de(s, *a) {
                Step::Done(d, s1) => Step::Done(DVal::Newtype(Box::new(d)), s1),
                x => x,
            },
            Ask::Other(_) => Step::Any,
            _ => match q_next(s) {
                Some(x) => match parse_dval(ask, x.0) { Some(d) => Step::Done(d, x.1), None => Step::Fail },
                None => Step::Fail,
            },
        }
    }
    }
}
