pub mod scalar {
    use vstd::prelude::*;
    use text::*;
    use stdx::*;
    use serde::ser::Val;
    use serde::de::{DVal, Ask};
    verus! {
    broadcast use group_text;
    /// The scalar values, with the text they travel as.
    pub open spec fn scalar_text(v: Val) -> Option<Seq<char>> {
        match v {
            Val::Bool(b) => Some(bool_text(b)),
            Val::I8(n) => Some(int_text(n as int)),
            Val::I16(n) => Some(int_text(n as int)),
            Val::I32(n) => Some(int_text(n as int)),
            Val::I64(n) => Some(int_text(n as int)),
            Val::U8(n) => Some(int_text(n as int)),
            Val::U16(n) => Some(int_text(n as int)),
            Val::U32(n) => Some(int_text(n as int)),
            Val::U64(n) => Some(int_text(n as int)),
            Val::F32(x) => if f32_nan(x) { None } else { Some(f64_text(f32_wide(x))) },
            Val::F64(x) => if f64_nan(x) { None } else { Some(f64_text(x)) },
            Val::Str(t) => Some(t),
            _ => None,
        }
    }
    pub open spec fn ask_of(v: Val) -> Ask {
        match v {
            Val::Bool(_) => Ask::Bool,
            Val::I8(_) => Ask::I8, Val::I16(_) => Ask::I16, Val::I32(_) => Ask::I32, Val::I64(_) => Ask::I64,
            Val::U8(_) => Ask::U8, Val::U16(_) => Ask::U16, Val::U32(_) => Ask::U32, Val::U64(_) => Ask::U64,
            Val::F32(_) => Ask::F32, Val::F64(_) => Ask::F64, _ => Ask::String,
        }
    }
    pub open spec fn dval_of(v: Val) -> DVal {
        match v {
            Val::Bool(b) => DVal::Bool(b),
            Val::I8(n) => DVal::I8(n), Val::I16(n) => DVal::I16(n), Val::I32(n) => DVal::I32(n), Val::I64(n) => DVal::I64(n),
            Val::U8(n) => DVal::U8(n), Val::U16(n) => DVal::U16(n), Val::U32(n) => DVal::U32(n), Val::U64(n) => DVal::U64(n),
            Val::F32(x) => DVal::F32(x), Val::F64(x) => DVal::F64(x), Val::Str(t) => DVal::Str(t),
            _ => DVal::Unit,
        }
    }
    /// The value that a text denotes for the type asked for.
    pub open spec fn parse_dval(ask: Ask, t: Seq<char>) -> Option<DVal> {
        match ask {
            Ask::Bool => match from_text::<bool>(t) { Some(v) => Some(DVal::Bool(v)), None => None },
            Ask::I8 => match from_text::<i8>(t) { Some(v) => Some(DVal::I8(v)), None => None },
            Ask::I16 => match from_text::<i16>(t) { Some(v) => Some(DVal::I16(v)), None => None },
            Ask::I32 => match from_text::<i32>(t) { Some(v) => Some(DVal::I32(v)), None => None },
            Ask::I64 => match from_text::<i64>(t) { Some(v) => Some(DVal::I64(v)), None => None },
            Ask::U8 => match from_text::<u8>(t) { Some(v) => Some(DVal::U8(v)), None => None },
            Ask::U16 => match from_text::<u16>(t) { Some(v) => Some(DVal::U16(v)), None => None },
            Ask::U32 => match from_text::<u32>(t) { Some(v) => Some(DVal::U32(v)), None => None },
            Ask::U64 => match from_text::<u64>(t) { Some(v) => Some(DVal::U64(v)), None => None },
            Ask::F32 => match from_text::<f32>(t) { Some(v) => Some(DVal::F32(v)), None => None },
            Ask::F64 => match from_text::<f64>(t) { Some(v) => Some(DVal::F64(v)), None => None },
            Ask::Str | Ask::String | Ask::Identifier => Some(DVal::Str(t)),
            _ => None,
        }
    }
    pub open spec fn is_num_or_text(ask: Ask) -> bool {
        match ask {
            Ask::Bool | Ask::I8 | Ask::I16 | Ask::I32 | Ask::I64 | Ask::U8 | Ask::U16 | Ask::U32 | Ask::U64 | Ask::F32 | Ask::F64
                | Ask::Str | Ask::String | Ask::Identifier => true,
            _ => false,
        }
    }
    /// The text of a value denotes that value again.
    pub proof fn lemma_scalar(v: Val)
        requires scalar_text(v) is Some
        ensures
            parse_dval(ask_of(v), scalar_text(v)->0) == Some(dval_of(v)),
            is_num_or_text(ask_of(v)),
            !(v is Str) ==> plain(scalar_text(v)->0) && scalar_text(v)->0.len() > 0,
    {
        match v {
            Val::I8(n) => lemma_int_text(n as int, true, i8::MIN as int, i8::MAX as int),
            Val::I16(n) => lemma_int_text(n as int, true, i16::MIN as int, i16::MAX as int),
            Val::I32(n) => lemma_int_text(n as int, true, i32::MIN as int, i32::MAX as int),
            Val::I64(n) => lemma_int_text(n as int, true, i64::MIN as int, i64::MAX as int),
            Val::U8(n) => lemma_int_text(n as int, false, 0, u8::MAX as int),
            Val::U16(n) => lemma_int_text(n as int, false, 0, u16::MAX as int),
            Val::U32(n) => lemma_int_text(n as int, false, 0, u32::MAX as int),
            Val::U64(n) => lemma_int_text(n as int, false, 0, u64::MAX as int),
            Val::Bool(b) => { reveal_strlit("true"); reveal_strlit("false"); }
            _ => {}
        }
    }
    }
}
