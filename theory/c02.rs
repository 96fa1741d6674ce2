pub mod c02 {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use url::*;
    use url::form_urlencoded::{Pairs, pairs_of};
    use text::*;
    use stdx::*;
    use scalar::*;
    use seeds::*;
    use query_theory::*;
    use serde::ser::{self, Val, Serialize, Serializer, SerializeMap, SerializeStruct};
    use serde::de::{DVal, Ask, Step, DeserializeSeed, MapAccess, elem};
    use serializers::url_query::*;
    use deserializers::url_query::*;
    use {Error, Result};
    verus! {
    broadcast use group_text;

    // ---- client: one pair per present value, in order ----
    /// The text of a field: `None` when the field is absent.
    pub open spec fn field_text(v: Val) -> Option<Seq<char>> {
        match v { Val::None => None, Val::Some(b) => scalar_text(*b), _ => scalar_text(v) }
    }
    pub open spec fn is_field(v: Val) -> bool {
        v is None || match v { Val::Some(b) => scalar_text(*b) is Some, _ => scalar_text(v) is Some }
    }
    pub open spec fn fields_ok(fs: Seq<(Seq<char>, Val)>) -> bool { forall|i: int| 0 <= i < fs.len() ==> is_field(#[trigger] fs[i].1) }
    pub open spec fn field_pairs(fs: Seq<(Seq<char>, Val)>) -> Pairs
        decreases fs.len()
    {
        if fs.len() == 0 { seq![] } else {
            let p = field_pairs(fs.drop_last());
            match field_text(fs.last().1) { Some(t) => p.push((fs.last().0, t)), None => p }
        }
    }
    pub open spec fn with_pairs(u: UrlV, p: Pairs) -> UrlV { UrlV { pairs: Some(p), ..u } }
    pub proof fn lemma_field(s: QSt, k: Seq<char>, v: Val)
        requires is_field(v), s.url.pairs is Some
        ensures
            q_ser_field(s, k, v) == Some(QSt { key: None, url: match field_text(v) {
                Some(t) => with_pairs(s.url, s.url.pairs->0.push((k, t))), None => s.url }, ..s }),
    {
        let s1 = QSt { key: Some(k), ..s };
        match v {
            Val::Some(b) => { assert(q_ser(s1, v) == q_ser(s1, *b)); }
            _ => {}
        }
    }
    pub proof fn lemma_fields(s: QSt, fs: Seq<(Seq<char>, Val)>)
        requires fields_ok(fs), s.key is None, s.url.pairs is Some
        ensures
            q_ser_fields(s, fs) == Some(QSt { url: with_pairs(s.url, s.url.pairs->0 + field_pairs(fs)), ..s }),
        decreases fs.len()
    {
        if fs.len() == 0 {
            assert(s.url.pairs->0 + field_pairs(fs) =~= s.url.pairs->0);
        } else {
            let init = fs.drop_last();
            assert forall|i: int| 0 <= i < init.len() implies is_field(#[trigger] init[i].1) by { assert(init[i] == fs[i]); }
            lemma_fields(s, init);
            let s1 = q_ser_fields(s, init)->0;
            assert(is_field(fs[fs.len() - 1].1));
            lemma_field(s1, fs.last().0, fs.last().1);
            assert(q_ser_field(s1, fs.last().0, fs.last().1) == q_ser(QSt { key: Some(fs.last().0), ..s1 }, fs.last().1));
            match field_text(fs.last().1) {
                Some(t) => assert((s.url.pairs->0 + field_pairs(init)).push((fs.last().0, t)) =~= s.url.pairs->0 + field_pairs(fs)),
                None => assert(field_pairs(fs) == field_pairs(init)),
            }
        }
    }
    pub open spec fn q_init(url: UrlV) -> QSt { QSt { first: true, key: None, url: url } }
    /// C02, client: every struct of optional scalars is accepted and becomes exactly its present fields.
    pub proof fn theorem_client(url: UrlV, fs: Seq<(Seq<char>, Val)>, v: Val)
        requires
            url.pairs is Some, fields_ok(fs),
            v == Val::Struct(fs) || (v is StructVariant && v->StructVariant_1 == fs),
        ensures
            q_ser(q_init(url), v) is Some,
            q_ser(q_init(url), v)->0.url == with_pairs(url, url.pairs->0 + field_pairs(fs)),
    {
        let s1 = QSt { first: false, ..q_init(url) };
        lemma_fields(s1, fs);
        match v {
            Val::Struct(f) => { assert(q_ser(q_init(url), v) == q_ser_fields(s1, f)); }
            Val::StructVariant(_, f) => { assert(q_ser(q_init(url), v) == q_ser_fields(s1, f)); }
            _ => {}
        }
    }
    pub open spec fn entries_ok(kvs: Seq<(Val, Val)>) -> bool {
        forall|i: int| 0 <= i < kvs.len() ==> scalar_text((#[trigger] kvs[i]).0) is Some && is_field(kvs[i].1)
    }
    /// A map's entries as named fields.
    pub open spec fn entry_fields(kvs: Seq<(Val, Val)>) -> Seq<(Seq<char>, Val)> {
        Seq::new(kvs.len(), |i: int| (scalar_text(kvs[i].0)->0, kvs[i].1))
    }
    pub proof fn lemma_entries(s: QSt, kvs: Seq<(Val, Val)>)
        requires entries_ok(kvs), s.key is None
        ensures q_ser_map(s, kvs) == q_ser_fields(s, entry_fields(kvs)),
            q_ser_map(s, kvs) matches Some(e) ==> e.key is None,
        decreases kvs.len()
    {
        if kvs.len() > 0 {
            let init = kvs.drop_last();
            assert forall|i: int| 0 <= i < init.len() implies scalar_text((#[trigger] init[i]).0) is Some && is_field(init[i].1) by {
                assert(init[i] == kvs[i]);
            }
            lemma_entries(s, init);
            assert(entry_fields(kvs).drop_last() =~= entry_fields(init));
            let e = kvs[kvs.len() - 1];
            assert(e == kvs.last());
            assert(entry_fields(kvs).last() == (scalar_text(e.0)->0, e.1));
            if q_ser_map(s, init) is Some {
                let s1 = q_ser_map(s, init)->0;
                let s2 = QSt { key: Some(scalar_text(e.0)->0), ..s1 };
                assert(q_ser(s1, e.0) == Some(s2));
                match e.1 { Val::Some(b) => { assert(q_ser(s2, e.1) == q_ser(s2, *b)); } _ => {} }
            }
        }
    }
    pub proof fn theorem_client_map(url: UrlV, kvs: Seq<(Val, Val)>)
        requires url.pairs is Some, entries_ok(kvs)
        ensures
            q_ser(q_init(url), Val::Map(kvs)) is Some,
            q_ser(q_init(url), Val::Map(kvs))->0.url == with_pairs(url, url.pairs->0 + field_pairs(entry_fields(kvs))),
    {
        let s1 = QSt { first: false, ..q_init(url) };
        assert(fields_ok(entry_fields(kvs))) by {
            assert forall|i: int| 0 <= i < kvs.len() implies is_field(#[trigger] entry_fields(kvs)[i].1) by { assert(is_field(kvs[i].1)); }
        }
        lemma_entries(s1, kvs);
        lemma_fields(s1, entry_fields(kvs));
        assert(q_ser(q_init(url), Val::Map(kvs)) == q_ser_map(s1, kvs));
    }

    // ---- server: reading pairs, skipping unknown names whole ----
    /// The value that a text denotes for what is asked (with the wrapping of options and newtypes).
    pub open spec fn text_value(ask: Ask, t: Seq<char>) -> Option<DVal>
        decreases ask
    {
        match ask {
            Ask::Bytes | Ask::ByteBuf => Some(DVal::Bytes(encode_utf8(t))),
            Ask::Unit | Ask::UnitStruct(_) => if t.len() == 0 { Some(DVal::Unit) } else { None },
            Ask::Ignored => Some(DVal::Unit),
            Ask::Option(a) => match text_value(*a, t) { Some(d) => Some(DVal::Some(Box::new(d))), None => None },
            Ask::Newtype(a) => match text_value(*a, t) { Some(d) => Some(DVal::Newtype(Box::new(d))), None => None },
            _ => parse_dval(ask, t),
        }
    }
    pub open spec fn simple(ask: Ask) -> bool
        decreases ask
    {
        match ask { Ask::Other(_) => false, Ask::Option(a) => simple(*a), Ask::Newtype(a) => simple(*a), _ => true }
    }
    /// C15: exactly the value the next text denotes, or an error; one text per value.
    pub proof fn lemma_one_text(s: QDSt, ask: Ask)
        requires simple(ask), s.in_map
        ensures
            q_de(s, ask) == (match q_next(s) {
                Some(x) => match text_value(ask, x.0) { Some(d) => Step::Done(d, x.1), None => Step::Fail },
                None => Step::Fail,
            }),
        decreases ask
    {
        match ask {
            Ask::Option(a) => { lemma_one_text(s, *a); }
            Ask::Newtype(a) => { lemma_one_text(s, *a); }
            _ => {}
        }
    }
    /// What a receiver of named fields asks for: unknown names are ignored.
    pub open spec fn ask_for(asks: Map<Seq<char>, Ask>, k: Seq<char>) -> Ask {
        if asks.contains_key(k) { asks[k] } else { Ask::Ignored }
    }
    pub open spec fn keep(asks: Map<Seq<char>, Ask>, k: Seq<char>, v: DVal, out: Seq<(Seq<char>, DVal)>) -> Seq<(Seq<char>, DVal)> {
        if asks.contains_key(k) { out.push((k, v)) } else { out }
    }
    /// The steps of reading a map of named fields to its end (`None`: an error).
    pub open spec fn q_read(d: QDSt, asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>) -> Option<Seq<(Seq<char>, DVal)>>
        decreases d.pairs.len()
    {
        if d.pairs.len() == 0 { Some(out) } else {
            match q_de(d, Ask::Identifier) {
                Step::Done(DVal::Str(k), d1) => match q_de(d1, ask_for(asks, k)) {
                    Step::Done(v, d2) => if d2.pairs.len() < d.pairs.len() { q_read(d2, asks, keep(asks, k, v, out)) } else { None },
                    _ => None,
                },
                _ => None,
            }
        }
    }
    /// What the pairs denote for that receiver.
    pub open spec fn denoted(p: Pairs, asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>) -> Option<Seq<(Seq<char>, DVal)>>
        decreases p.len()
    {
        if p.len() == 0 { Some(out) } else {
            match text_value(ask_for(asks, p[0].0), p[0].1) {
                Some(v) => denoted(p.skip(1), asks, keep(asks, p[0].0, v, out)),
                None => None,
            }
        }
    }
    pub open spec fn asks_ok(asks: Map<Seq<char>, Ask>) -> bool { forall|k: Seq<char>| asks.contains_key(k) ==> simple(#[trigger] asks[k]) }
    pub proof fn theorem_read(d: QDSt, asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>)
        requires asks_ok(asks), d.in_map, d.val is None
        ensures q_read(d, asks, out) == denoted(d.pairs, asks, out)
        decreases d.pairs.len()
    {
        if d.pairs.len() > 0 {
            let k = d.pairs[0].0;
            let d1 = QDSt { val: Some(d.pairs[0].1), pairs: d.pairs.skip(1), ..d };
            assert(q_de(d, Ask::Identifier) == Step::Done(DVal::Str(k), d1));
            lemma_one_text(d1, ask_for(asks, k));
            let d2 = QDSt { val: None, ..d1 };
            match text_value(ask_for(asks, k), d.pairs[0].1) {
                Some(v) => { theorem_read(d2, asks, keep(asks, k, v, out)); }
                None => {}
            }
        }
    }
    pub open spec fn known(asks: Map<Seq<char>, Ask>, p: Pairs) -> Pairs
        decreases p.len()
    {
        if p.len() == 0 { seq![] } else if asks.contains_key(p[0].0) { seq![p[0]] + known(asks, p.skip(1)) } else { known(asks, p.skip(1)) }
    }
    /// C02: unknown parameters change nothing, wherever they stand and whatever they hold.
    pub proof fn theorem_unknown(p: Pairs, asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>)
        ensures denoted(p, asks, out) == denoted(known(asks, p), asks, out)
        decreases p.len()
    {
        if p.len() > 0 {
            let n = known(asks, p);
            if asks.contains_key(p[0].0) {
                assert(n.skip(1) =~= known(asks, p.skip(1)));
                assert(n[0] == p[0]);
                match text_value(ask_for(asks, p[0].0), p[0].1) {
                    Some(v) => { theorem_unknown(p.skip(1), asks, keep(asks, p[0].0, v, out)); }
                    None => {}
                }
            } else {
                assert(text_value(Ask::Ignored, p[0].1) == Some(DVal::Unit));
                theorem_unknown(p.skip(1), asks, out);
            }
        }
    }
    // ---- round trip ----
    pub open spec fn field_ask(v: Val, a: Ask) -> bool {
        match v {
            Val::None => a is Option,
            Val::Some(b) => a == Ask::Option(Box::new(ask_of(*b))),
            _ => a == ask_of(v),
        }
    }
    pub open spec fn field_val(v: Val) -> DVal {
        match v { Val::Some(b) => DVal::Some(Box::new(dval_of(*b))), _ => dval_of(v) }
    }
    /// The present fields with their values.
    pub open spec fn present(fs: Seq<(Seq<char>, Val)>) -> Seq<(Seq<char>, DVal)>
        decreases fs.len()
    {
        if fs.len() == 0 { seq![] } else {
            let p = present(fs.drop_last());
            if fs.last().1 is None { p } else { p.push((fs.last().0, field_val(fs.last().1))) }
        }
    }
    pub proof fn lemma_denoted_push(p: Pairs, x: (Seq<char>, Seq<char>), asks: Map<Seq<char>, Ask>, out: Seq<(Seq<char>, DVal)>)
        ensures
            denoted(p.push(x), asks, out) == (match denoted(p, asks, out) {
                Some(o) => match text_value(ask_for(asks, x.0), x.1) { Some(v) => Some(keep(asks, x.0, v, o)), None => None },
                None => None,
            }),
        decreases p.len()
    {
        if p.len() == 0 {
            reveal_with_fuel(denoted, 2);
            assert(p.push(x).skip(1) =~= Seq::empty());
            assert(p.push(x)[0] == x);
        } else {
            assert(p.push(x).skip(1) =~= p.skip(1).push(x));
            assert(p.push(x)[0] == p[0]);
            match text_value(ask_for(asks, p[0].0), p[0].1) {
                Some(v) => { lemma_denoted_push(p.skip(1), x, asks, keep(asks, p[0].0, v, out)); }
                None => {}
            }
        }
    }
    pub open spec fn asks_match(fs: Seq<(Seq<char>, Val)>, asks: Map<Seq<char>, Ask>) -> bool {
        forall|i: int| 0 <= i < fs.len() ==> asks.contains_key((#[trigger] fs[i]).0) && field_ask(fs[i].1, asks[fs[i].0])
    }
    pub proof fn lemma_text_value(v: Val, a: Ask)
        requires is_field(v), field_ask(v, a), !(v is None)
        ensures text_value(a, field_text(v)->0) == Some(field_val(v))
    {
        match v {
            Val::Some(b) => {
                lemma_scalar(*b);
                assert(text_value(ask_of(*b), scalar_text(*b)->0) == Some(dval_of(*b)));
                assert(text_value(a, field_text(v)->0) == Some(field_val(v)));
            }
            _ => { lemma_scalar(v); }
        }
    }
    /// C02: decoding what the client produced yields the values that were sent; absent stays absent.
    pub proof fn theorem_c02(fs: Seq<(Seq<char>, Val)>, asks: Map<Seq<char>, Ask>)
        requires fields_ok(fs), asks_match(fs, asks)
        ensures denoted(field_pairs(fs), asks, seq![]) == Some(present(fs))
        decreases fs.len()
    {
        if fs.len() > 0 {
            let init = fs.drop_last();
            assert forall|i: int| 0 <= i < init.len() implies is_field(#[trigger] init[i].1) by { assert(init[i] == fs[i]); }
            assert forall|i: int| 0 <= i < init.len() implies
                asks.contains_key((#[trigger] init[i]).0) && field_ask(init[i].1, asks[init[i].0]) by { assert(init[i] == fs[i]); }
            theorem_c02(init, asks);
            let l = fs[fs.len() - 1];
            assert(is_field(l.1) && asks.contains_key(l.0));
            if !(l.1 is None) {
                lemma_text_value(l.1, asks[l.0]);
                lemma_denoted_push(field_pairs(init), (l.0, field_text(l.1)->0), asks, seq![]);
            }
        }
    }
    // ---- drivers: the calls a derived implementation makes, on the real code ----
    pub open spec fn fields_of<T: Serialize>(fs: Seq<(&'static str, T)>) -> Seq<(Seq<char>, Val)> {
        Seq::new(fs.len(), |i: int| (fs[i].0@, fs[i].1.val()))
    }
    pub proof fn lemma_fields_none(s: QSt, fs: Seq<(Seq<char>, Val)>, i: int)
        requires 0 <= i < fs.len()
        ensures q_ser_fields(s, fs.take(i + 1)) is None ==> q_ser_fields(s, fs) is None
        decreases fs.len()
    {
        if i + 1 < fs.len() {
            lemma_fields_none(s, fs.drop_last(), i);
            assert(fs.drop_last().take(i + 1) =~= fs.take(i + 1));
        } else {
            assert(fs.take(i + 1) =~= fs);
        }
    }
    pub fn drive_struct<'b, T: Serialize>(s: &mut UrlQuerySerializer<'b>, fs: &Vec<(&'static str, T)>) -> (r: Result<()>)
        ensures
            match q_ser(old(s).st(), Val::Struct(fields_of(fs@))) {
                Some(e) => r is Ok && final(s).st() == e && same_end(*old(s), *final(s)),
                None => r is Err,
            }
    {
        broadcast use vstd::seq::group_seq_axioms;
        let ghost s0 = *s;
        let ghost all = fields_of(fs@);
        let mut t = match Serializer::serialize_struct(s, "", fs.len()) {
            Ok(t) => t,
            Err(e) => { return Err(e); }
        };
        let ghost b = (*t).st();
        let mut i: usize = 0;
        while i < fs.len()
            invariant
                0 <= i <= fs@.len(), all == fields_of(fs@), s0 == *old(s),
                *final(t) == *final(s),
                same_end(s0, *t),
                q_ser_fields(b, fields_of(fs@.take(i as int))) == Some((*t).st()),
                q_begin(s0.st()) == Some(b),
            decreases fs@.len() - i
        {
            let ghost done = fields_of(fs@.take(i as int));
            let ghost next = fields_of(fs@.take(i + 1));
            proof {
                assert(next.drop_last() =~= done);
                assert(next.last() == (fs@[i as int].0@, fs@[i as int].1.val()));
            }
            match SerializeStruct::serialize_field(&mut t, fs[i].0, &fs[i].1) {
                Ok(_) => {}
                Err(e) => {
                    proof {
                        assert(q_ser_fields(b, next) is None);
                        lemma_fields_none(b, all, i as int);
                        assert(all.take(i + 1) =~= next);
                    }
                    return Err(e);
                }
            }
            i += 1;
        }
        proof { assert(fields_of(fs@.take(i as int)) =~= fields_of(fs@)); }
        SerializeStruct::end(t)
    }
    /// A receiver's reading loop.
    pub fn drive_read<'de, 'a>(a: &'a mut UrlQueryDeserializer<'de>, asks: Ghost<Map<Seq<char>, Ask>>) -> (r: Result<Ghost<Seq<(Seq<char>, DVal)>>>)
        requires old(a).st().in_map, old(a).st().val is None, asks_ok(asks@)
        ensures match q_read(old(a).st(), asks@, seq![]) { Some(o) => r matches Ok(x) && x@ == o, None => r is Err }
    {
        let mut t = a;
        let ghost mut out = Seq::<(Seq<char>, DVal)>::empty();
        let ghost d0 = t.st();
        loop
            invariant
                asks_ok(asks@),
                d0 == old(a).st(),
                q_read(d0, asks@, seq![]) == q_read((*t).st(), asks@, out),
                (*t).st().in_map,
                (*t).st().val is None,
            decreases (*t).st().pairs.len()
        {
            let ghost d = (*t).st();
            let k = match MapAccess::next_key_seed(&mut t, NameSeed) {
                Ok(Some(k)) => k,
                Ok(None) => { return Ok(Ghost(out)); }
                Err(e) => {
                    proof { lemma_one_text(d, Ask::Identifier); }
                    return Err(e);
                }
            };
            let ghost d1 = (*t).st();
            proof { lemma_one_text(d, Ask::Identifier); lemma_one_text(d1, ask_for(asks@, k@)); }
            let v = match MapAccess::next_value_seed(&mut t, seed_of(Ghost(ask_for(asks@, k@)))) {
                Ok(v) => v,
                Err(e) => { return Err(e); }
            };
            proof { out = keep(asks@, k@, v@, out); }
        }
    }
    }
}
