pub mod path_theory {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use url::*;
    use text::*;
    use procedure::{nvars, epv, EntryPoint};
    use serde::ser::Val;
    use serde::de::{DVal, Ask, Step};
    use stdx::*;
    use utf8_theory::*;
    verus! {
    /// The state of the client's path building.
    pub struct PSt { pub started: bool, pub index: int, pub ep: Seq<Option<Seq<char>>>, pub url: UrlV }
    pub open spec fn ser_init(ep: EntryPoint, url: UrlV) -> PSt {
        PSt { started: false, index: 0, ep: epv(ep), url: url }
    }
    pub open spec fn add_seg(s: PSt, t: Seq<char>) -> PSt {
        PSt { index: s.index + 1, url: UrlV { segs: seg_push(s.url.segs, t), ..s.url }, ..s }
    }
    /// Constant segments up to the next variable are appended.
    pub open spec fn skip_consts(s: PSt) -> PSt
        decreases s.ep.len() - s.index
    {
        if 0 <= s.index < s.ep.len() && s.ep[s.index] is Some { skip_consts(add_seg(s, s.ep[s.index]->0)) } else { s }
    }
    /// A path can carry the text: not dropped or merged by URL syntax.
    pub open spec fn representable(s: PSt, t: Seq<char>) -> bool {
        &&& t != "."@ && t != ".."@
        &&& !has_ws(t)
        &&& t != ""@ || s.index != 0 || s.ep.len() == 1
    }
    pub open spec fn bind(s: PSt, t: Seq<char>) -> Option<PSt> {
        let s1 = skip_consts(s);
        if s.started && s1.index < s.ep.len() && representable(s1, t) { Some(add_seg(s1, t)) } else { None }
    }
    pub open spec fn finish_path(s: PSt) -> Option<PSt> {
        let s1 = skip_consts(s);
        if s.started && s1.index >= s.ep.len() { Some(s1) } else { None }
    }
    pub open spec fn begin_tuple(s: PSt, len: int) -> Option<PSt> {
        if !s.started && nvars(s.ep, 0) == len { Some(PSt { started: true, ..s }) } else { None }
    }
    pub open spec fn path_ser(s: PSt, v: Val) -> Option<PSt>
        decreases v, 0int
    {
        match v {
            Val::Bool(b) => bind(s, bool_text(b)),
            Val::I8(n) => bind(s, int_text(n as int)),
            Val::I16(n) => bind(s, int_text(n as int)),
            Val::I32(n) => bind(s, int_text(n as int)),
            Val::I64(n) => bind(s, int_text(n as int)),
            Val::U8(n) => bind(s, int_text(n as int)),
            Val::U16(n) => bind(s, int_text(n as int)),
            Val::U32(n) => bind(s, int_text(n as int)),
            Val::U64(n) => bind(s, int_text(n as int)),
            Val::F32(x) => bind(s, f64_text(f32_wide(x))),
            Val::F64(x) => bind(s, f64_text(x)),
            Val::Char(c) => bind(s, seq![c]),
            Val::Str(t) => bind(s, t),
            Val::UnitVariant(t) => bind(s, t),
            Val::NewtypeStruct(b) => path_ser(s, *b),
            Val::NewtypeVariant(_, b) => path_ser(s, *b),
            Val::Unit => match begin_tuple(s, 0) { Some(s1) => finish_path(s1), None => None },
            Val::UnitStruct(_) => match begin_tuple(s, 0) { Some(s1) => finish_path(s1), None => None },
            Val::Tuple(vs) => path_ser_tuple(s, vs),
            Val::TupleStruct(vs) => path_ser_tuple(s, vs),
            Val::TupleVariant(_, vs) => path_ser_tuple(s, vs),
            Val::Bytes(_) | Val::None | Val::Some(_) | Val::Seq(_) | Val::Map(_) | Val::Struct(_)
                | Val::StructVariant(_, _) => None,
        }
    }
    pub open spec fn path_ser_tuple(s: PSt, vs: Seq<Val>) -> Option<PSt>
        decreases vs, 1int
    {
        match begin_tuple(s, vs.len() as int) {
            Some(s1) => match path_ser_elems(s1, vs) { Some(s2) => finish_path(s2), None => None },
            None => None,
        }
    }
    pub open spec fn path_ser_elems(s: PSt, vs: Seq<Val>) -> Option<PSt>
        decreases vs, 0int
    {
        if vs.len() == 0 { Some(s) } else {
            match path_ser_elems(s, vs.drop_last()) { Some(s1) => path_ser(s1, vs.last()), None => None }
        }
    }
    // ---- server side ----
    /// The state of path decoding: the segments not yet consumed.
    pub struct DSt { pub in_seq: bool, pub segs: Seq<Seq<char>>, pub ep: Seq<Option<Seq<char>>>, pub index: int }
    pub open spec fn de_init(ep: Seq<Option<Seq<char>>>, segs: Seq<Seq<char>>) -> DSt {
        DSt { in_seq: false, segs: segs, ep: ep, index: 0 }
    }
    /// The text bound to the next variable; constants on the way must agree.
    pub open spec fn next_seg(s: DSt) -> Option<(Seq<char>, DSt)>
        decreases s.ep.len() - s.index
    {
        if s.index < 0 || s.index >= s.ep.len() || s.segs.len() == 0 { None } else {
            let s1 = DSt { segs: s.segs.skip(1), index: s.index + 1, ..s };
            match s.ep[s.index] {
                Some(c) => if s.segs[0] == c { next_seg(s1) } else { None },
                None => Some((s.segs[0], s1)),
            }
        }
    }
    /// The remaining segments must be exactly the remaining constants (more may follow).
    pub open spec fn de_finish(ep: Seq<Option<Seq<char>>>, i: int, segs: Seq<Seq<char>>) -> Option<Seq<Seq<char>>>
        decreases ep.len() - i
    {
        if i < 0 || i >= ep.len() { Some(segs) } else {
            match ep[i] {
                Some(c) => if segs.len() > 0 && segs[0] == c { de_finish(ep, i + 1, segs.skip(1)) } else { None },
                None => None,
            }
        }
    }
    pub open spec fn hex_val(b: u8) -> Option<int> {
        if 48 <= b && b <= 57 { Some(b - 48) }
        else if 97 <= b && b <= 102 { Some(b - 87) }
        else if 65 <= b && b <= 70 { Some(b - 55) }
        else { None }
    }
    pub open spec fn prepend(a: Seq<u8>, r: Option<Seq<u8>>) -> Option<Seq<u8>> {
        match r { Some(b) => Some(a + b), None => None }
    }
    /// Strict percent-decoding.
    pub open spec fn unpct(s: Seq<u8>) -> Option<Seq<u8>>
        decreases s.len()
    {
        if s.len() == 0 { Some(seq![]) }
        else if s[0] == 0x25 {
            if s.len() < 3 { None } else {
                match (hex_val(s[1]), hex_val(s[2])) {
                    (Some(h), Some(l)) => prepend(seq![(h * 16 + l) as u8], unpct(s.skip(3))),
                    _ => None,
                }
            }
        } else { prepend(seq![s[0]], unpct(s.skip(1))) }
    }
    pub open spec fn unesc(t: Seq<char>) -> Option<Seq<char>> {
        match unpct(encode_utf8(t)) {
            Some(b) => if valid_utf8(b) { Some(decode_utf8(b)) } else { None },
            None => None,
        }
    }
    /// The value of type `T` that an escaped segment denotes.
    pub open spec fn denotes<T>(t: Seq<char>) -> Option<T> {
        match unesc(t) { Some(u) => from_text::<T>(u), None => None }
    }
    pub open spec fn path_scalar(s: DSt, f: spec_fn(Seq<char>) -> Option<DVal>) -> Step<DSt> {
        match next_seg(s) {
            Some(x) => match f(x.0) { Some(d) => Step::Done(d, x.1), None => Step::Fail },
            None => Step::Fail,
        }
    }
    pub open spec fn path_de(s: DSt, ask: Ask) -> Step<DSt>
        decreases ask
    {
        match ask {
            Ask::Bool => path_scalar(s, |t: Seq<char>| match denotes::<bool>(t) { Some(v) => Some(DVal::Bool(v)), None => None }),
            Ask::I8 => path_scalar(s, |t: Seq<char>| match denotes::<i8>(t) { Some(v) => Some(DVal::I8(v)), None => None }),
            Ask::I16 => path_scalar(s, |t: Seq<char>| match denotes::<i16>(t) { Some(v) => Some(DVal::I16(v)), None => None }),
            Ask::I32 => path_scalar(s, |t: Seq<char>| match denotes::<i32>(t) { Some(v) => Some(DVal::I32(v)), None => None }),
            Ask::I64 => path_scalar(s, |t: Seq<char>| match denotes::<i64>(t) { Some(v) => Some(DVal::I64(v)), None => None }),
            Ask::U8 => path_scalar(s, |t: Seq<char>| match denotes::<u8>(t) { Some(v) => Some(DVal::U8(v)), None => None }),
            Ask::U16 => path_scalar(s, |t: Seq<char>| match denotes::<u16>(t) { Some(v) => Some(DVal::U16(v)), None => None }),
            Ask::U32 => path_scalar(s, |t: Seq<char>| match denotes::<u32>(t) { Some(v) => Some(DVal::U32(v)), None => None }),
            Ask::U64 => path_scalar(s, |t: Seq<char>| match denotes::<u64>(t) { Some(v) => Some(DVal::U64(v)), None => None }),
            Ask::F32 => path_scalar(s, |t: Seq<char>| match denotes::<f32>(t) { Some(v) => Some(DVal::F32(v)), None => None }),
            Ask::F64 => path_scalar(s, |t: Seq<char>| match denotes::<f64>(t) { Some(v) => Some(DVal::F64(v)), None => None }),
            Ask::Str | Ask::String | Ask::Identifier =>
                path_scalar(s, |t: Seq<char>| match unesc(t) { Some(v) => Some(DVal::Str(v)), None => None }),
            Ask::Char | Ask::Bytes | Ask::ByteBuf | Ask::Option(_) => Step::Fail,
            Ask::Unit | Ask::UnitStruct(_) => if s.in_seq { Step::Fail } else {
                match de_finish(s.ep, s.index, s.segs) {
                    Some(segs) => Step::Done(DVal::Unit, DSt { segs: segs, ..s }),
                    None => Step::Fail,
                }
            },
            Ask::Ignored => Step::Done(DVal::Unit, s),
            Ask::Newtype(a) => match path_de(s, *a) {
                Step::Done(d, s1) => Step::Done(DVal::Newtype(Box::new(d)), s1),
                x => x,
            },
            Ask::Other(_) => Step::Any,
        }
    }
    pub broadcast proof fn lemma_prepend_push(a: Seq<u8>, x: u8, q: Option<Seq<u8>>)
        ensures #[trigger] prepend(a.push(x), q) == prepend(a, prepend(seq![x], q))
    {
        if let Some(b) = q { assert(a.push(x) + b =~= a + (seq![x] + b)); }
    }
    pub broadcast proof fn lemma_prepend_nil(a: Seq<u8>, e: Seq<u8>)
        requires e.len() == 0
        ensures #[trigger] prepend(a, Some(e)) == Some(a)
    { assert(a + e =~= a); }
    pub broadcast proof fn lemma_nil_prepend(e: Seq<u8>, q: Option<Seq<u8>>)
        requires e.len() == 0
        ensures #[trigger] prepend(e, q) == q
    { if let Some(b) = q { assert(e + b =~= b); } }
    pub broadcast proof fn lemma_skip_skip(s: Seq<u8>, m: int, n: int)
        requires 0 <= m, 0 <= n, m + n <= s.len()
        ensures #[trigger] s.skip(m).skip(n) == s.skip(m + n)
    { assert(s.skip(m).skip(n) =~= s.skip(m + n)); }
    pub broadcast group group_pct { lemma_prepend_push, lemma_prepend_nil, lemma_nil_prepend, lemma_skip_skip }
    pub broadcast proof fn lemma_nvars(ep: Seq<Option<Seq<char>>>, i: int)
        ensures
            #[trigger] nvars(ep, i) >= 0,
            0 <= i < ep.len() && ep[i] is None ==> nvars(ep, i) >= 1,
        decreases ep.len() - i
    { if 0 <= i < ep.len() { lemma_nvars(ep, i + 1); } }
    pub open spec fn ws_byte(b: u8) -> bool { b == 9 || b == 10 || b == 13 }
    pub proof fn lemma_ws(t: Seq<char>)
        ensures has_ws(t) <==> exists|i: int| 0 <= i < encode_utf8(t).len() && ws_byte(#[trigger] encode_utf8(t)[i])
    {
        lemma_byte(t, 9);
        lemma_byte(t, 10);
        lemma_byte(t, 13);
        let e = encode_utf8(t);
        if has_ws(t) {
            let i = choose|i: int| 0 <= i < t.len() && is_ws_control(#[trigger] t[i]);
            assert(t.contains(t[i]));
            let b = t[i] as u8;
            assert(b as char == t[i]);
            assert(e.contains(b));
            let j = choose|j: int| 0 <= j < e.len() && e[j] == b;
            assert(ws_byte(e[j]));
        }
        if exists|i: int| 0 <= i < e.len() && ws_byte(#[trigger] e[i]) {
            let i = choose|i: int| 0 <= i < e.len() && ws_byte(#[trigger] e[i]);
            assert(e.contains(e[i]));
            assert(t.contains(e[i] as char));
            let j = choose|j: int| 0 <= j < t.len() && t[j] == e[i] as char;
            assert(is_ws_control(t[j]));
        }
    }

    // ---- escaping and unescaping are inverse ----
    pub proof fn lemma_unpct_esc_byte(b: u8, rest: Seq<u8>)
        ensures
            is_ascii_chars(esc_byte(b)),
            unpct(encode_utf8(esc_byte(b)) + rest) == prepend(seq![b], unpct(rest)),
    {
        broadcast use ax_seg_escaped;
        let e = esc_byte(b);
        assert(is_ascii_chars(e));
        is_ascii_chars_encode_utf8(e);
        let x = encode_utf8(e);
        let s = x + rest;
        if seg_escaped(b) {
            assert(e.len() == 3);
            assert(x[0] == 0x25 && s[0] == 0x25);
            let h = b as int / 16;
            let l = b as int % 16;
            assert(s[1] == hex_char(h) as u8);
            assert(s[2] == hex_char(l) as u8);
            assert(hex_val(s[1]) == Some(h));
            assert(hex_val(s[2]) == Some(l));
            assert(s.skip(3) =~= rest);
            assert((h * 16 + l) as u8 == b);
        } else {
            assert(e.len() == 1);
            assert(s[0] == b);
            assert(b != 0x25);
            assert(s.skip(1) =~= rest);
        }
    }
    pub proof fn lemma_unpct_esc(s: Seq<u8>)
        ensures unpct(encode_utf8(esc_bytes(s))) == Some(s)
        decreases s.len()
    {
        if s.len() == 0 {
            assert(encode_utf8(esc_bytes(s)) =~= seq![]);
            assert(s =~= seq![]);
        } else {
            let rest = esc_bytes(s.skip(1));
            lemma_unpct_esc(s.skip(1));
            encode_utf8_concat(esc_byte(s[0]), rest);
            lemma_unpct_esc_byte(s[0], encode_utf8(rest));
            assert(seq![s[0]] + s.skip(1) =~= s);
        }
    }
    pub proof fn lemma_unesc_esc(t: Seq<char>)
        ensures unesc(esc(t)) == Some(t)
    {
        lemma_unpct_esc(encode_utf8(t));
        lemma_utf8_back(t);
    }
    pub proof fn lemma_esc_nonempty(t: Seq<char>)
        ensures esc(t).len() == 0 <==> t.len() == 0
    {
        if t.len() > 0 {
            lemma_utf8_nonempty(t);
            assert(esc_byte(encode_utf8(t)[0]).len() > 0);
        } else {
            assert(encode_utf8(t) =~= seq![]);
        }
    }
    }
}
