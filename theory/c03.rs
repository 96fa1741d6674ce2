pub mod c03 {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use text::*;
    use stdx::*;
    use scalar::*;
    use seeds::*;
    use header_theory::*;
    use miasht::header::{HLines, lower};
    use serde::ser::{self, Val, Serialize, Serializer, SerializeMap, SerializeStruct};
    use serde::de::{DVal, Ask, Step, DeserializeSeed, MapAccess, elem};
    use serializers::http_header::*;
    use deserializers::http_header::*;
    use {Error, Result};
    verus! {
    broadcast use group_text;

    // ---- nothing can leave the form of a header line ----
    pub open spec fn line_ok(l: (Seq<char>, Seq<u8>)) -> bool { token(encode_utf8(l.0)) && field_value(l.1) }
    pub open spec fn lines_ok(ls: HLines) -> bool { forall|i: int| 0 <= i < ls.len() ==> line_ok(#[trigger] ls[i]) }
    pub open spec fn kept(a: HLines, b: HLines) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
    pub open spec fn safe(s: HSt, o: Out) -> bool { o matches Out::Done(e) ==> lines_ok(e.lines) && kept(s.lines, e.lines) }
    pub proof fn lemma_kept(a: HLines, b: HLines, c: HLines)
        requires kept(a, b), kept(b, c)
        ensures kept(a, c)
    {
        assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    }
    pub proof fn lemma_put_safe(s: HSt, t: Seq<char>)
        requires lines_ok(s.lines)
        ensures safe(s, h_put(s, t))
    {
        match h_put(s, t) {
            Out::Done(e) => {
                assert(e.lines.take(s.lines.len() as int) =~= s.lines);
                assert forall|i: int| 0 <= i < e.lines.len() implies line_ok(#[trigger] e.lines[i]) by {
                    if i < s.lines.len() { assert(e.lines[i] == s.lines[i]); }
                }
            }
            _ => {}
        }
    }
    /// C03: whatever is serialised, every line written is a token and a value without control characters,
    /// and the lines written before stay as they were.
    pub proof fn theorem_safe(s: HSt, v: Val)
        requires lines_ok(s.lines)
        ensures safe(s, h_ser(s, v))
        decreases v, 0int
    {
        match v {
            Val::Bool(b) => lemma_put_safe(s, bool_text(b)),
            Val::I8(n) => lemma_put_safe(s, int_text(n as int)),
            Val::I16(n) => lemma_put_safe(s, int_text(n as int)),
            Val::I32(n) => lemma_put_safe(s, int_text(n as int)),
            Val::I64(n) => lemma_put_safe(s, int_text(n as int)),
            Val::U8(n) => lemma_put_safe(s, int_text(n as int)),
            Val::U16(n) => lemma_put_safe(s, int_text(n as int)),
            Val::U32(n) => lemma_put_safe(s, int_text(n as int)),
            Val::U64(n) => lemma_put_safe(s, int_text(n as int)),
            Val::F32(x) => lemma_put_safe(s, f64_text(f32_wide(x))),
            Val::F64(x) => lemma_put_safe(s, f64_text(x)),
            Val::Char(c) => lemma_put_safe(s, seq![c]),
            Val::Str(t) => lemma_put_safe(s, t),
            Val::UnitStruct(t) => lemma_put_safe(s, t),
            Val::UnitVariant(t) => lemma_put_safe(s, t),
            Val::Bytes(b) => lemma_put_safe(s, decode_utf8(b)),
            Val::Some(b) => theorem_safe(s, *b),
            Val::NewtypeStruct(b) => theorem_safe(s, *b),
            Val::NewtypeVariant(_, b) => theorem_safe(s, *b),
            Val::Map(kvs) => if s.first { theorem_safe_map(HSt { first: false, ..s }, kvs) },
            Val::Struct(fs) => if s.first { theorem_safe_fields(HSt { first: false, ..s }, fs) },
            Val::StructVariant(_, fs) => if s.first { theorem_safe_fields(HSt { first: false, ..s }, fs) },
            _ => {}
        }
        assert(s.lines.take(s.lines.len() as int) =~= s.lines);
    }
    pub proof fn theorem_safe_fields(s: HSt, fs: Seq<(Seq<char>, Val)>)
        requires lines_ok(s.lines)
        ensures safe(s, h_ser_fields(s, fs))
        decreases fs, 0int
    {
        assert(s.lines.take(s.lines.len() as int) =~= s.lines);
        if fs.len() > 0 {
            theorem_safe_fields(s, fs.drop_last());
            match h_ser_fields(s, fs.drop_last()) {
                Out::Done(s1) => {
                    let s2 = HSt { key: Some(fs.last().0), ..s1 };
                    theorem_safe(s2, fs.last().1);
                    match h_ser(s2, fs.last().1) { Out::Done(e) => lemma_kept(s.lines, s2.lines, e.lines), _ => {} }
                }
                _ => {}
            }
        }
    }
    pub proof fn theorem_safe_map(s: HSt, kvs: Seq<(Val, Val)>)
        requires lines_ok(s.lines)
        ensures safe(s, h_ser_map(s, kvs))
        decreases kvs, 0int
    {
        assert(s.lines.take(s.lines.len() as int) =~= s.lines);
        if kvs.len() > 0 {
            theorem_safe_map(s, kvs.drop_last());
            match h_ser_map(s, kvs.drop_last()) {
                Out::Done(s1) => {
                    theorem_safe(s1, kvs.last().0);
                    match h_ser(s1, kvs.last().0) {
                        Out::Done(s2) => {
                            theorem_safe(s2, kvs.last().1);
                            lemma_kept(s.lines, s1.lines, s2.lines);
                            match h_ser(s2, kvs.last().1) { Out::Done(e) => lemma_kept(s.lines, s2.lines, e.lines), _ => {} }
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
    }

    // ---- sender: one line per present value, in order ----
    /// The bytes of a field: `None` when the field is absent.
    pub open spec fn plain_bytes(v: Val) -> Option<Seq<u8>> {
        match v {
            Val::Bytes(b) => if valid_utf8(b) { Some(b) } else { None },
            Val::UnitStruct(t) => Some(encode_utf8(t)),
            _ => match scalar_text(v) { Some(t) => Some(encode_utf8(t)), None => None },
        }
    }
    pub open spec fn field_bytes(v: Val) -> Option<Seq<u8>> {
        match v { Val::None => None, Val::Some(b) => plain_bytes(*b), _ => plain_bytes(v) }
    }
    pub open spec fn is_field(v: Val) -> bool {
        v is None || match v { Val::Some(b) => plain_bytes(*b) is Some, _ => plain_bytes(v) is Some }
    }
    /// Names and values that a header line can hold.
    pub open spec fn carried(f: (Seq<char>, Val)) -> bool {
        is_field(f.1) && (f.1 is None || (token(encode_utf8(f.0)) && field_value(field_bytes(f.1)->0)))
    }
    pub open spec fn fields_ok(fs: Seq<(Seq<char>, Val)>) -> bool { forall|i: int| 0 <= i < fs.len() ==> is_field((#[trigger] fs[i]).1) }
    pub open spec fn all_carried(fs: Seq<(Seq<char>, Val)>) -> bool { forall|i: int| 0 <= i < fs.len() ==> carried(#[trigger] fs[i]) }
    pub open spec fn field_lines(fs: Seq<(Seq<char>, Val)>) -> HLines
        decreases fs.len()
    {
        if fs.len() == 0 { seq![] } else {
            let p = field_lines(fs.drop_last());
            match field_bytes(fs.last().1) { Some(t) => p.push((fs.last().0, t)), None => p }
        }
    }
    pub proof fn lemma_plain(s: HSt, v: Val)
        requires plain_bytes(v) is Some, s.key is Some
        ensures
            h_ser(s, v) == (if token(encode_utf8(s.key->0)) && field_value(plain_bytes(v)->0) {
                Out::Done(HSt { key: None, lines: s.lines.push((s.key->0, plain_bytes(v)->0)), ..s }) } else { Out::Fail }),
    {
        match v {
            Val::Bytes(b) => { lemma_utf8(b); }
            _ => {}
        }
    }
    pub proof fn lemma_utf8(b: Seq<u8>)
        requires valid_utf8(b)
        ensures encode_utf8(decode_utf8(b)) == b
    { decode_utf8_encode_utf8(b); }
    pub proof fn lemma_field(s: HSt, f: (Seq<char>, Val))
        requires is_field(f.1)
        ensures
            h_ser_field(s, f.0, f.1) == (if !carried(f) { Out::Fail } else {
                Out::Done(HSt { key: None, lines: match field_bytes(f.1) { Some(t) => s.lines.push((f.0, t)), None => s.lines }, ..s }) }),
    {
        let s1 = HSt { key: Some(f.0), ..s };
        match f.1 {
            Val::Some(b) => { lemma_plain(s1, *b); assert(h_ser(s1, f.1) == h_ser(s1, *b)); }
            Val::None => {}
            _ => { lemma_plain(s1, f.1); }
        }
    }
    pub proof fn lemma_fields(s: HSt, fs: Seq<(Seq<char>, Val)>)
        requires fields_ok(fs), s.key is None
        ensures
            h_ser_fields(s, fs) == (if all_carried(fs) { Out::Done(HSt { lines: s.lines + field_lines(fs), ..s }) } else { Out::Fail }),
        decreases fs.len()
    {
        if fs.len() == 0 {
            assert(s.lines + field_lines(fs) =~= s.lines);
        } else {
            let init = fs.drop_last();
            let l = fs[fs.len() - 1];
            assert forall|i: int| 0 <= i < init.len() implies is_field((#[trigger] init[i]).1) by { assert(init[i] == fs[i]); }
            lemma_fields(s, init);
            assert(is_field(l.1));
            assert(all_carried(fs) <==> all_carried(init) && carried(l)) by {
                if all_carried(fs) { assert forall|i: int| 0 <= i < init.len() implies carried(#[trigger] init[i]) by { assert(init[i] == fs[i]); } }
                if all_carried(init) && carried(l) {
                    assert forall|i: int| 0 <= i < fs.len() implies carried(#[trigger] fs[i]) by { if i < init.len() { assert(init[i] == fs[i]); } }
                }
            }
            match h_ser_fields(s, init) {
                Out::Done(s1) => {
                    lemma_field(s1, l);
                    match field_bytes(l.1) {
                        Some(t) => assert((s.lines + field_lines(init)).push((l.0, t)) =~= s.lines + field_lines(fs)),
                        None => assert(field_lines(fs) == field_lines(init)),
                    }
                }
                _ => {}
            }
        }
    }
    pub open spec fn h_init(lines: HLines) -> HSt { HSt { first: true, key: None, lines: lines } }
    /// C03, sender: a struct is accepted exactly when every present field can be carried, and then
    /// its present fields are the lines added, in order.
    pub proof fn theorem_sender(lines: HLines, fs: Seq<(Seq<char>, Val)>, v: Val)
        requires
            fields_ok(fs),
            v == Val::Struct(fs) || (v is StructVariant && v->StructVariant_1 == fs),
        ensures
            h_ser(h_init(lines), v) is Done <==> all_carried(fs),
            h_ser(h_init(lines), v) matches Out::Done(e) ==> e.lines == lines + field_lines(fs),
            !all_carried(fs) ==> h_ser(h_init(lines), v) is Fail,
    {
        let s1 = HSt { first: false, ..h_init(lines) };
        lemma_fields(s1, fs);
        match v {
            Val::Struct(f) => { assert(h_ser(h_init(lines), v) == h_ser_fields(s1, f)); }
            Val::StructVariant(_, f) => { assert(h_ser(h_init(lines), v) == h_ser_fields(s1, f)); }
            _ => {}
        }
    }
    pub open spec fn entries_ok(kvs: Seq<(Val, Val)>) -> bool {
        forall|i: int| 0 <= i < kvs.len() ==> scalar_text((#[trigger] kvs[i]).0) is Some && is_field(kvs[i].1)
    }
    pub open spec fn entry_fields(kvs: Seq<(Val, Val)>) -> Seq<(Seq<char>, Val)> {
        Seq::new(kvs.len(), |i: int| (scalar_text(kvs[i].0)->0, kvs[i].1))
    }
    pub proof fn lemma_entries(s: HSt, kvs: Seq<(Val, Val)>)
        requires entries_ok(kvs), s.key is None
        ensures h_ser_map(s, kvs) == h_ser_fields(s, entry_fields(kvs)),
            h_ser_map(s, kvs) matches Out::Done(e) ==> e.key is None,
        decreases kvs.len()
    {
        if kvs.len() > 0 {
            let init = kvs.drop_last();
            assert forall|i: int| 0 <= i < init.len() implies scalar_text((#[trigger] init[i]).0) is Some && is_field(init[i].1) by {
                assert(init[i] == kvs[i]);
            }
            lemma_entries(s, init);
            assert(entry_fields(kvs).drop_last() =~= entry_fields(init));
            let e = kvs[kvs.len() - 1];
            assert(e == kvs.last());
            assert(entry_fields(kvs).last() == (scalar_text(e.0)->0, e.1));
            match h_ser_map(s, init) {
                Out::Done(s1) => {
                    let s2 = HSt { key: Some(scalar_text(e.0)->0), ..s1 };
                    assert(h_ser(s1, e.0) == Out::Done(s2));
                    lemma_field(s1, (scalar_text(e.0)->0, e.1));
                }
                _ => {}
            }
        }
    }
    pub proof fn theorem_sender_map(lines: HLines, kvs: Seq<(Val, Val)>)
        requires entries_ok(kvs)
        ensures
            h_ser(h_init(lines), Val::Map(kvs)) is Done <==> all_carried(entry_fields(kvs)),
            h_ser(h_init(lines), Val::Map(kvs)) matches Out::Done(e) ==> e.lines == lines + field_lines(entry_fields(kvs)),
    {
        let s1 = HSt { first: false, ..h_init(lines) };
        assert(fields_ok(entry_fields(kvs))) by {
            assert forall|i: int| 0 <= i < kvs.len() implies is_field((#[trigger] entry_fields(kvs)[i]).1) by { assert(is_field(kvs[i].1)); }
        }
        lemma_entries(s1, kvs);
        lemma_fields(s1, entry_fields(kvs));
        assert(h_ser(h_init(lines), Val::Map(kvs)) == h_ser_map(s1, kvs));
    }

    // ---- receiver: reading lines, skipping unknown names whole ----
    pub open spec fn wrapped_value(ask: Ask, b: Seq<u8>) -> Option<DVal>
        decreases ask
    {
        match ask {
            Ask::Option(a) => match wrapped_value(*a, b) { Some(d) => Some(DVal::Some(Box::new(d))), None => None },
            Ask::Newtype(a) => match wrapped_value(*a, b) { Some(d) => Some(DVal::Newtype(Box::new(d))), None => None },
            _ => bytes_value(ask, b),
        }
    }
    pub open spec fn simple(ask: Ask) -> bool
        decreases ask
    {
        match ask { Ask::Other(_) => false, Ask::Option(a) => simple(*a), Ask::Newtype(a) => simple(*a), _ => true }
    }
    /// C15: exactly the value the next text denotes, or an error; one text per value.
    pub proof fn lemma_one_text(s: HDSt, ask: Ask)
        requires simple(ask), s.in_map
        ensures
            h_de(s, ask) == (match h_next(s) {
                Some(x) => match wrapped_value(ask, x.0) { Some(d) => Step::Done(d, x.1), None => Step::Fail },
                None => Step::Fail,
            }),
        decreases ask
    {
        match ask {
            Ask::Option(a) => { lemma_one_text(s, *a); }
            Ask::Newtype(a) => { lemma_one_text(s, *a); }
            _ => {}
        }
    }
    /// What a receiver of named fields asks for: unknown names are ignored.
    pub open spec fn ask_for(asks: Map<Seq<char>, Ask>, k: Seq<char>) -> Ask {
        if asks.contains_key(k) { asks[k] } else { Ask::Ignored }
    }
    pub open spec fn keep(asks: Map<Seq<char>, Ask>, k: Seq<char>, v: DVal, out: Seq<(Seq<char>, DVal)>) -> Seq<(Seq<char>, DVal)> {
        if asks.contains_key(k) { out.push((k, v)) } else { out }
    }
    /// The steps of reading a map of named fields to its end (`None`: an error).
    pub open spec fn h_read(d: HDSt, asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>) -> Option<Seq<(Seq<char>, DVal)>>
        decreases d.lines.len()
    {
        if d.lines.len() == 0 { Some(out) } else {
            match h_de(d, Ask::Identifier) {
                Step::Done(DVal::Str(k), d1) => match h_de(d1, ask_for(asks, k)) {
                    Step::Done(v, d2) => if d2.lines.len() < d.lines.len() { h_read(d2, asks, keep(asks, k, v, out)) } else { None },
                    _ => None,
                },
                _ => None,
            }
        }
    }
    /// What the lines denote for that receiver: names in any case.
    pub open spec fn denoted(p: HLines, asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>) -> Option<Seq<(Seq<char>, DVal)>>
        decreases p.len()
    {
        if p.len() == 0 { Some(out) } else {
            match wrapped_value(ask_for(asks, lower(p[0].0)), p[0].1) {
                Some(v) => denoted(p.skip(1), asks, keep(asks, lower(p[0].0), v, out)),
                None => None,
            }
        }
    }
    pub open spec fn asks_ok(asks: Map<Seq<char>, Ask>) -> bool { forall|k: Seq<char>| asks.contains_key(k) ==> simple(#[trigger] asks[k]) }
    pub proof fn theorem_read(d: HDSt, asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>)
        requires asks_ok(asks), d.in_map, !d.at_value
        ensures h_read(d, asks, out) == denoted(d.lines, asks, out)
        decreases d.lines.len()
    {
        if d.lines.len() > 0 {
            let k = lower(d.lines[0].0);
            let d1 = HDSt { at_value: true, ..d };
            encode_utf8_decode_utf8(k);
            encode_utf8_valid_utf8(k);
            assert(h_de(d, Ask::Identifier) == Step::Done(DVal::Str(k), d1));
            lemma_one_text(d1, ask_for(asks, k));
            let d2 = HDSt { at_value: false, lines: d.lines.skip(1), ..d };
            match wrapped_value(ask_for(asks, k), d.lines[0].1) {
                Some(v) => { theorem_read(d2, asks, keep(asks, k, v, out)); }
                None => {}
            }
        }
    }
    pub open spec fn known(asks: Map<Seq<char>, Ask>, p: HLines) -> HLines
        decreases p.len()
    {
        if p.len() == 0 { seq![] } else if asks.contains_key(lower(p[0].0)) { seq![p[0]] + known(asks, p.skip(1)) } else { known(asks, p.skip(1)) }
    }
    /// C03: unknown header fields change nothing, wherever they stand and whatever they hold.
    pub proof fn theorem_unknown(p: HLines, asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>)
        ensures denoted(p, asks, out) == denoted(known(asks, p), asks, out)
        decreases p.len()
    {
        if p.len() > 0 {
            let n = known(asks, p);
            let k = lower(p[0].0);
            if asks.contains_key(k) {
                assert(n.skip(1) =~= known(asks, p.skip(1)));
                assert(n[0] == p[0]);
                match wrapped_value(ask_for(asks, k), p[0].1) {
                    Some(v) => { theorem_unknown(p.skip(1), asks, keep(asks, k, v, out)); }
                    None => {}
                }
            } else {
                assert(wrapped_value(Ask::Ignored, p[0].1) == Some(DVal::Unit));
                theorem_unknown(p.skip(1), asks, out);
            }
        }
    }
    // ---- round trip: the wire keeps the order, may change the case of names and trims values ----
    pub open spec fn plain_ask(v: Val) -> Ask {
        match v { Val::Bytes(_) => Ask::ByteBuf, Val::UnitStruct(n) => Ask::UnitStruct(n), _ => ask_of(v) }
    }
    pub open spec fn plain_val(v: Val) -> DVal { match v { Val::Bytes(b) => DVal::Bytes(b), Val::UnitStruct(_) => DVal::Unit, _ => dval_of(v) } }
    pub open spec fn field_ask(v: Val, a: Ask) -> bool {
        match v {
            Val::None => a is Option,
            Val::Some(b) => a == Ask::Option(Box::new(plain_ask(*b))),
            _ => a == plain_ask(v),
        }
    }
    pub open spec fn field_val(v: Val) -> DVal {
        match v { Val::Some(b) => DVal::Some(Box::new(plain_val(*b))), _ => plain_val(v) }
    }
    pub open spec fn present(fs: Seq<(Seq<char>, Val)>) -> Seq<(Seq<char>, DVal)>
        decreases fs.len()
    {
        if fs.len() == 0 { seq![] } else {
            let p = present(fs.drop_last());
            if fs.last().1 is None { p } else { p.push((fs.last().0, field_val(fs.last().1))) }
        }
    }
    pub open spec fn same_line(sent: (Seq<char>, Seq<u8>), got: (Seq<char>, Seq<u8>)) -> bool {
        lower(got.0) == lower(sent.0) && got.1 == sent.1
    }
    pub open spec fn same_lines(sent: HLines, got: HLines) -> bool {
        sent.len() == got.len() && forall|i: int| 0 <= i < sent.len() ==> same_line(#[trigger] sent[i], got[i])
    }
    pub proof fn lemma_same(a: HLines, b: HLines, asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>)
        requires same_lines(a, b)
        ensures denoted(a, asks, out) == denoted(b, asks, out)
        decreases a.len()
    {
        if a.len() > 0 {
            assert(same_line(a[0], b[0]));
            assert(same_lines(a.skip(1), b.skip(1))) by {
                assert forall|i: int| 0 <= i < a.skip(1).len() implies same_line(#[trigger] a.skip(1)[i], b.skip(1)[i]) by { assert(same_line(a[i + 1], b[i + 1])); }
            }
            match wrapped_value(ask_for(asks, lower(a[0].0)), a[0].1) {
                Some(v) => { lemma_same(a.skip(1), b.skip(1), asks, keep(asks, lower(a[0].0), v, out)); }
                None => {}
            }
        }
    }
    pub proof fn lemma_denoted_push(p: HLines, x: (Seq<char>, Seq<u8>), asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>)
        ensures
            denoted(p.push(x), asks, out) == (match denoted(p, asks, out) {
                Some(o) => match wrapped_value(ask_for(asks, lower(x.0)), x.1) { Some(v) => Some(keep(asks, lower(x.0), v, o)), None => None },
                None => None,
            }),
        decreases p.len()
    {
        if p.len() == 0 {
            reveal_with_fuel(denoted, 2);
            assert(p.push(x).skip(1) =~= Seq::empty());
            assert(p.push(x)[0] == x);
        } else {
            assert(p.push(x).skip(1) =~= p.skip(1).push(x));
            assert(p.push(x)[0] == p[0]);
            match wrapped_value(ask_for(asks, lower(p[0].0)), p[0].1) {
                Some(v) => { lemma_denoted_push(p.skip(1), x, asks, keep(asks, lower(p[0].0), v, out)); }
                None => {}
            }
        }
    }
    /// The receiver's field names are written in lower case.
    pub open spec fn asks_match(fs: Seq<(Seq<char>, Val)>, asks: Map<Seq<char>, Ask>) -> bool {
        forall|i: int| 0 <= i < fs.len() ==> asks.contains_key((#[trigger] fs[i]).0) && field_ask(fs[i].1, asks[fs[i].0]) && lower(fs[i].0) == fs[i].0
    }
    pub proof fn lemma_plain_value(v: Val)
        requires plain_bytes(v) is Some
        ensures wrapped_value(plain_ask(v), plain_bytes(v)->0) == Some(plain_val(v))
    {
        match v {
            Val::Bytes(_) => {}
            Val::UnitStruct(t) => { encode_utf8_decode_utf8(t); encode_utf8_valid_utf8(t); }
            _ => {
                lemma_scalar(v);
                let t = scalar_text(v)->0;
                encode_utf8_decode_utf8(t);
                encode_utf8_valid_utf8(t);
            }
        }
    }
    pub proof fn lemma_value(v: Val, a: Ask)
        requires is_field(v), field_ask(v, a), !(v is None)
        ensures wrapped_value(a, field_bytes(v)->0) == Some(field_val(v))
    {
        match v {
            Val::Some(b) => {
                lemma_plain_value(*b);
                assert(wrapped_value(a, field_bytes(v)->0) == Some(field_val(v)));
            }
            _ => { lemma_plain_value(v); }
        }
    }
    pub proof fn lemma_back(fs: Seq<(Seq<char>, Val)>, asks: Map<Seq<char>, Ask>)
        requires fields_ok(fs), asks_match(fs, asks)
        ensures denoted(field_lines(fs), asks, seq![]) == Some(present(fs))
        decreases fs.len()
    {
        if fs.len() > 0 {
            let init = fs.drop_last();
            assert forall|i: int| 0 <= i < init.len() implies is_field((#[trigger] init[i]).1) by { assert(init[i] == fs[i]); }
            assert forall|i: int| 0 <= i < init.len() implies
                asks.contains_key((#[trigger] init[i]).0) && field_ask(init[i].1, asks[init[i].0]) && lower(init[i].0) == init[i].0
                by { assert(init[i] == fs[i]); }
            lemma_back(init, asks);
            let l = fs[fs.len() - 1];
            assert(is_field(l.1) && asks.contains_key(l.0));
            if !(l.1 is None) {
                lemma_value(l.1, asks[l.0]);
                lemma_denoted_push(field_lines(init), (l.0, field_bytes(l.1)->0), asks, seq![]);
            }
        }
    }
    /// C03: decoding what was sent, with names in whatever case, yields the values sent; absent stays absent.
    pub proof fn theorem_c03(fs: Seq<(Seq<char>, Val)>, got: HLines, asks: Map<Seq<char>, Ask>)
        requires fields_ok(fs), asks_match(fs, asks), same_lines(field_lines(fs), got)
        ensures denoted(got, asks, seq![]) == Some(present(fs))
    {
        lemma_back(fs, asks);
        lemma_same(field_lines(fs), got, asks, seq![]);
    }
    // ---- drivers: the calls a derived implementation makes, on the real code ----
    pub open spec fn fields_of<T: Serialize>(fs: Seq<(&'static str, T)>) -> Seq<(Seq<char>, Val)> {
        Seq::new(fs.len(), |i: int| (fs[i].0@, fs[i].1.val()))
    }
    pub proof fn lemma_fields_stop(s: HSt, fs: Seq<(Seq<char>, Val)>, i: int)
        requires 0 <= i < fs.len()
        ensures !(h_ser_fields(s, fs.take(i + 1)) is Done) ==> h_ser_fields(s, fs) == h_ser_fields(s, fs.take(i + 1))
        decreases fs.len()
    {
        if i + 1 < fs.len() {
            lemma_fields_stop(s, fs.drop_last(), i);
            assert(fs.drop_last().take(i + 1) =~= fs.take(i + 1));
        } else {
            assert(fs.take(i + 1) =~= fs);
        }
    }
    pub fn drive_struct<'b, T: Serialize>(s: &mut HttpHeaderSerializer<'b>, fs: &Vec<(&'static str, T)>) -> (r: Result<()>)
        ensures
            match h_ser(old(s).st(), Val::Struct(fields_of(fs@))) {
                Out::Done(e) => r is Ok && final(s).st() == e && same_end(*old(s), *final(s)),
                Out::Fail => r is Err,
                Out::Any => true,
            }
    {
        broadcast use vstd::seq::group_seq_axioms;
        let ghost s0 = *s;
        let ghost all = fields_of(fs@);
        let mut t = match Serializer::serialize_struct(s, "", fs.len()) {
            Ok(t) => t,
            Err(e) => { return Err(e); }
        };
        let ghost b = (*t).st();
        let mut i: usize = 0;
        while i < fs.len()
            invariant
                0 <= i <= fs@.len(), all == fields_of(fs@), s0 == *old(s),
                *final(t) == *final(s),
                same_end(s0, *t),
                match h_ser_fields(b, fields_of(fs@.take(i as int))) { Out::Done(e) => e == (*t).st(), Out::Fail => false, Out::Any => true },
                h_begin(s0.st()) == Out::Done(b),
            decreases fs@.len() - i
        {
            let ghost done = fields_of(fs@.take(i as int));
            let ghost next = fields_of(fs@.take(i + 1));
            proof {
                assert(next.drop_last() =~= done);
                assert(next.last() == (fs@[i as int].0@, fs@[i as int].1.val()));
            }
            match SerializeStruct::serialize_field(&mut t, fs[i].0, &fs[i].1) {
                Ok(_) => {}
                Err(e) => {
                    proof {
                        assert(!(h_ser_fields(b, next) is Done));
                        lemma_fields_stop(b, all, i as int);
                        assert(all.take(i + 1) =~= next);
                    }
                    return Err(e);
                }
            }
            i += 1;
        }
        proof { assert(fields_of(fs@.take(i as int)) =~= fields_of(fs@)); }
        SerializeStruct::end(t)
    }
    /// A receiver's reading loop.
    pub fn drive_read<'de, 'a>(a: &'a mut HttpHeaderDeserializer<'de>, asks: Ghost<Map<Seq<char>, Ask>>) -> (r: Result<Ghost<Seq<(Seq<char>, DVal)>>>)
        requires old(a).st().in_map, old(a).st().at_value == false, asks_ok(asks@)
        ensures match h_read(old(a).st(), asks@, seq![]) { Some(o) => r matches Ok(x) && x@ == o, None => r is Err }
    {
        let mut t = a;
        let ghost mut out = Seq::<(Seq<char>, DVal)>::empty();
        let ghost d0 = t.st();
        loop
            invariant
                asks_ok(asks@),
                d0 == old(a).st(),
                h_read(d0, asks@, seq![]) == h_read((*t).st(), asks@, out),
                (*t).st().in_map,
                (*t).st().at_value == false,
            decreases (*t).st().lines.len()
        {
            let ghost d = (*t).st();
            let k = match MapAccess::next_key_seed(&mut t, NameSeed) {
                Ok(Some(k)) => k,
                Ok(None) => { return Ok(Ghost(out)); }
                Err(e) => {
                    proof { lemma_one_text(d, Ask::Identifier); }
                    return Err(e);
                }
            };
            let ghost d1 = (*t).st();
            proof { lemma_one_text(d, Ask::Identifier); lemma_one_text(d1, ask_for(asks@, k@)); }
            let v = match MapAccess::next_value_seed(&mut t, seed_of(Ghost(ask_for(asks@, k@)))) {
                Ok(v) => v,
                Err(e) => { return Err(e); }
            };
            proof { out = keep(asks@, k@, v@, out); }
        }
    }
    }
}
