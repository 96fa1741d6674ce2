pub mod c01 {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use url::*;
    use text::*;
    use stdx::*;
    use path_theory::*;
    use scalar::*;
    use procedure::{nvars, epv, EntryPoint};
    use serde::ser::{self, Val, Serialize, Serializer, SerializeTuple, SerializeTupleStruct};
    use serde::de::{DVal, Ask, Step, DeserializeSeed, SeqAccess, elem};
    use serializers::url_path::*;
    use deserializers::url_path::*;
    use {Error, Result};
    verus! {
    broadcast use {group_text, lemma_nvars};

    pub type Ep = Seq<Option<Seq<char>>>;

    /// Entry points whose constants are plain path text (a URL path holds them as they are).
    pub open spec fn plain_const(ep: Ep, i: int, c: Seq<char>) -> bool {
        esc(c) == c && c != "."@ && c != ".."@ && !has_ws(c) && (c.len() > 0 || i != 0 || ep.len() == 1)
    }
    pub open spec fn plain_ep(ep: Ep) -> bool {
        forall|i: int| 0 <= i < ep.len() && #[trigger] ep[i] is Some ==> plain_const(ep, i, ep[i]->0)
    }
    pub open spec fn vars_before(ep: Ep, i: int) -> int { nvars(ep, 0) - nvars(ep, i) }
    /// The first `i` segments of the path that the entry point and the texts describe.
    pub open spec fn inst(ep: Ep, ts: Seq<Seq<char>>, i: int) -> Seq<Seq<char>>
        decreases i
    {
        if i <= 0 { seq![] } else {
            inst(ep, ts, i - 1).push(match ep[i - 1] { Some(c) => esc(c), None => esc(ts[vars_before(ep, i - 1)]) })
        }
    }
    pub proof fn lemma_inst_len(ep: Ep, ts: Seq<Seq<char>>, i: int)
        requires 0 <= i
        ensures inst(ep, ts, i).len() == i,
            forall|j: int| 0 <= j < i ==> #[trigger] inst(ep, ts, i)[j] == inst(ep, ts, j + 1).last(),
        decreases i
    {
        if i > 0 {
            lemma_inst_len(ep, ts, i - 1);
            assert forall|j: int| 0 <= j < i implies #[trigger] inst(ep, ts, i)[j] == inst(ep, ts, j + 1).last() by {
                if j < i - 1 { assert(inst(ep, ts, i)[j] == inst(ep, ts, i - 1)[j]); }
            }
        }
    }
    pub open spec fn base() -> Seq<Seq<char>> { seq![Seq::<char>::empty()] }

    // ---- client ----
    pub open spec fn cinv(s: PSt, ep: Ep, ts: Seq<Seq<char>>, k: int) -> bool {
        &&& s.started && s.ep == ep && 0 <= s.index <= ep.len() && vars_before(ep, s.index) == k
        &&& s.url.segs == (if s.index == 0 { base() } else { inst(ep, ts, s.index) })
        &&& s.index > 0 && ep.len() > 1 ==> inst(ep, ts, 1)[0].len() > 0
    }
    pub proof fn lemma_add(s: PSt, ep: Ep, ts: Seq<Seq<char>>, k: int, t: Seq<char>)
        requires
            cinv(s, ep, ts, k), plain_ep(ep), s.index < ep.len(),
            t != "."@, t != ".."@, !has_ws(t), t.len() > 0 || s.index != 0 || ep.len() == 1,
            match ep[s.index] { Some(c) => t == c, None => t == ts[k] },
        ensures
            cinv(add_seg(s, t), ep, ts, k + (if ep[s.index] is None { 1int } else { 0int })),
    {
        let s2 = add_seg(s, t);
        lemma_esc_nonempty(t);
        lemma_inst_len(ep, ts, s.index);
        lemma_inst_len(ep, ts, s.index + 1);
        assert(nvars(ep, s.index) == (if ep[s.index] is None { 1int } else { 0int }) + nvars(ep, s.index + 1));
        assert(inst(ep, ts, s.index + 1).last() == esc(t));
        if s.index == 0 {
            assert(inst(ep, ts, 0) =~= seq![]);
            assert(inst(ep, ts, 1) =~= seq![esc(t)]);
            assert(s2.url.segs =~= inst(ep, ts, 1));
        } else {
            assert(s.url.segs != base()) by {
                if s.index == 1 {
                    assert(inst(ep, ts, 1)[0].len() > 0);
                    assert(base()[0].len() == 0);
                } else {
                    assert(s.url.segs.len() == s.index);
                    assert(base().len() == 1);
                }
            }
            assert(s2.url.segs =~= inst(ep, ts, s.index + 1));
        }
    }
    pub proof fn lemma_skip(s: PSt, ep: Ep, ts: Seq<Seq<char>>, k: int)
        requires cinv(s, ep, ts, k), plain_ep(ep)
        ensures
            cinv(skip_consts(s), ep, ts, k),
            skip_consts(s).index < ep.len() ==> ep[skip_consts(s).index] is None,
        decreases ep.len() - s.index
    {
        if s.index < ep.len() && s.ep[s.index] is Some {
            let c = s.ep[s.index]->0;
            assert(plain_const(ep, s.index, c));
            lemma_add(s, ep, ts, k, c);
            lemma_skip(add_seg(s, c), ep, ts, k);
        }
    }
    pub proof fn lemma_bind(s: PSt, ep: Ep, ts: Seq<Seq<char>>, k: int)
        requires cinv(s, ep, ts, k), plain_ep(ep), bind(s, ts[k]) is Some
        ensures cinv(bind(s, ts[k])->0, ep, ts, k + 1)
    {
        lemma_skip(s, ep, ts, k);
        let s1 = skip_consts(s);
        if ts[k].len() == 0 { reveal_strlit(""); assert(ts[k] =~= ""@); }
        lemma_add(s1, ep, ts, k, ts[k]);
    }
    pub open spec fn texts(vals: Seq<Val>) -> Seq<Seq<char>> {
        Seq::new(vals.len(), |i: int| scalar_text(vals[i])->0)
    }
    pub open spec fn all_scalar(vals: Seq<Val>) -> bool {
        forall|i: int| 0 <= i < vals.len() ==> (#[trigger] scalar_text(vals[i])) is Some
    }
    pub proof fn lemma_elems(s: PSt, ep: Ep, ts: Seq<Seq<char>>, vals: Seq<Val>)
        requires
            cinv(s, ep, ts, 0), plain_ep(ep), all_scalar(vals), path_ser_elems(s, vals) is Some,
            vals.len() <= ts.len(),
            forall|i: int| 0 <= i < vals.len() ==> ts[i] == #[trigger] scalar_text(vals[i])->0,
        ensures cinv(path_ser_elems(s, vals)->0, ep, ts, vals.len() as int)
        decreases vals.len()
    {
        if vals.len() > 0 {
            let init = vals.drop_last();
            assert(all_scalar(init)) by {
                assert forall|i: int| 0 <= i < init.len() implies (#[trigger] scalar_text(init[i])) is Some by {
                    assert(init[i] == vals[i]);
                }
            }
            assert forall|i: int| 0 <= i < init.len() implies ts[i] == #[trigger] scalar_text(init[i])->0 by {
                assert(init[i] == vals[i]);
            }
            lemma_elems(s, ep, ts, init);
            let s1 = path_ser_elems(s, init)->0;
            assert(scalar_text(vals[vals.len() - 1]) is Some);
            assert(path_ser(s1, vals.last()) == bind(s1, ts[vals.len() - 1]));
            lemma_bind(s1, ep, ts, vals.len() - 1);
        }
    }
    pub open spec fn is_tuple(v: Val, vals: Seq<Val>) -> bool {
        v == Val::Tuple(vals) || v == Val::TupleStruct(vals) || (v is TupleVariant && v->TupleVariant_1 == vals)
    }
    /// What the client sends: exactly the entry point with the values bound in order.
    pub proof fn theorem_client(ep: Ep, url: UrlV, vals: Seq<Val>, v: Val)
        requires
            plain_ep(ep), all_scalar(vals), url.segs == base(),
            is_tuple(v, vals),
            path_ser(PSt { started: false, index: 0, ep: ep, url: url }, v) is Some,
        ensures
            (path_ser(PSt { started: false, index: 0, ep: ep, url: url }, v)->0).url.segs
                == (if ep.len() == 0 { base() } else { inst(ep, texts(vals), ep.len() as int) }),
            nvars(ep, 0) == vals.len(),
    {
        let s0 = PSt { started: false, index: 0, ep: ep, url: url };
        assert(path_ser(s0, v) == path_ser_tuple(s0, vals));
        let s1 = begin_tuple(s0, vals.len() as int)->0;
        assert(cinv(s1, ep, texts(vals), 0));
        lemma_elems(s1, ep, texts(vals), vals);
        let s2 = path_ser_elems(s1, vals)->0;
        lemma_skip(s2, ep, texts(vals), vals.len() as int);
    }

    // ---- server ----
    pub open spec fn dinv(d: DSt, ep: Ep, ts: Seq<Seq<char>>, k: int) -> bool {
        &&& d.ep == ep && 0 <= d.index <= ep.len() && vars_before(ep, d.index) == k
        &&& d.segs == inst(ep, ts, ep.len() as int).skip(d.index)
    }
    pub proof fn lemma_next(d: DSt, ep: Ep, ts: Seq<Seq<char>>, k: int)
        requires dinv(d, ep, ts, k), plain_ep(ep), k < nvars(ep, 0)
        ensures
            next_seg(d) is Some,
            (next_seg(d)->0).0 == esc(ts[k]),
            (next_seg(d)->0).1.in_seq == d.in_seq,
            dinv((next_seg(d)->0).1, ep, ts, k + 1),
        decreases ep.len() - d.index
    {
        let n = ep.len() as int;
        lemma_inst_len(ep, ts, n);
        if d.index >= n { assert(nvars(ep, d.index) == 0); assert(false); }
        let x = inst(ep, ts, n);
        assert(d.segs[0] == x[d.index]);
        assert(x[d.index] == inst(ep, ts, d.index + 1).last());
        let s1 = DSt { segs: d.segs.skip(1), index: d.index + 1, ..d };
        assert(s1.segs =~= x.skip(d.index + 1));
        assert(nvars(ep, d.index) == (if ep[d.index] is None { 1int } else { 0int }) + nvars(ep, d.index + 1));
        if ep[d.index] is Some {
            assert(plain_const(ep, d.index, ep[d.index]->0));
            lemma_next(s1, ep, ts, k);
        }
    }
    pub proof fn lemma_scalar_back(v: Val, d: DSt, ep: Ep, ts: Seq<Seq<char>>, k: int)
        requires
            dinv(d, ep, ts, k), plain_ep(ep), k < nvars(ep, 0),
            scalar_text(v) == Some(ts[k]),
        ensures
            path_de(d, ask_of(v)) is Done,
            path_de(d, ask_of(v))->Done_0 == dval_of(v),
            dinv(path_de(d, ask_of(v))->Done_1, ep, ts, k + 1),
    {
        lemma_next(d, ep, ts, k);
        lemma_unesc_esc(ts[k]);
        lemma_scalar(v);
    }
    /// Reading the values of the tuple one after the other.
    pub open spec fn path_de_elems(d: DSt, asks: Seq<Ask>) -> Option<(Seq<DVal>, DSt)>
        decreases asks.len()
    {
        if asks.len() == 0 { Some((seq![], d)) } else {
            match path_de_elems(d, asks.drop_last()) {
                Some(x) => match path_de(x.1, asks.last()) {
                    Step::Done(v, d2) => Some((x.0.push(v), d2)),
                    _ => None,
                },
                None => None,
            }
        }
    }
    pub open spec fn asks_of(vals: Seq<Val>) -> Seq<Ask> { Seq::new(vals.len(), |i: int| ask_of(vals[i])) }
    pub open spec fn dvals_of(vals: Seq<Val>) -> Seq<DVal> { Seq::new(vals.len(), |i: int| dval_of(vals[i])) }
    pub proof fn lemma_de_elems(d: DSt, ep: Ep, ts: Seq<Seq<char>>, vals: Seq<Val>)
        requires
            dinv(d, ep, ts, 0), plain_ep(ep), all_scalar(vals), vals.len() <= nvars(ep, 0),
            forall|i: int| 0 <= i < vals.len() ==> ts[i] == #[trigger] scalar_text(vals[i])->0,
        ensures
            path_de_elems(d, asks_of(vals)) is Some,
            (path_de_elems(d, asks_of(vals))->0).0 == dvals_of(vals),
            dinv((path_de_elems(d, asks_of(vals))->0).1, ep, ts, vals.len() as int),
        decreases vals.len()
    {
        if vals.len() > 0 {
            let init = vals.drop_last();
            assert forall|i: int| 0 <= i < init.len() implies
                (#[trigger] scalar_text(init[i])) is Some && ts[i] == scalar_text(init[i])->0 by {
                assert(init[i] == vals[i]);
            }
            lemma_de_elems(d, ep, ts, init);
            assert(asks_of(vals).drop_last() =~= asks_of(init));
            assert(asks_of(vals).last() == ask_of(vals.last()));
            let x = path_de_elems(d, asks_of(init))->0;
            assert(scalar_text(vals[vals.len() - 1]) is Some);
            lemma_scalar_back(vals.last(), x.1, ep, ts, vals.len() - 1);
            assert(dvals_of(init).push(dval_of(vals.last())) =~= dvals_of(vals));
        } else {
            assert(dvals_of(vals) =~= seq![]);
        }
    }
    /// C01: whatever the client accepts, the server decodes to the same values.
    pub proof fn theorem_c01(ep: Ep, url: UrlV, vals: Seq<Val>, v: Val)
        requires
            plain_ep(ep), all_scalar(vals), url.segs == base(),
            is_tuple(v, vals),
            path_ser(PSt { started: false, index: 0, ep: ep, url: url }, v) is Some,
        ensures
            path_de_elems(
                DSt { in_seq: true, ..de_init(ep, (path_ser(PSt { started: false, index: 0, ep: ep, url: url }, v)->0).url.segs) },
                asks_of(vals)) matches Some(x) && x.0 == dvals_of(vals),
    {
        theorem_client(ep, url, vals, v);
        let segs = (path_ser(PSt { started: false, index: 0, ep: ep, url: url }, v)->0).url.segs;
        let d = DSt { in_seq: true, ..de_init(ep, segs) };
        let ts = texts(vals);
        if ep.len() == 0 {
            assert(nvars(ep, 0) == 0);
            assert(vals =~= seq![]);
            assert(asks_of(vals) =~= seq![]);
            assert(dvals_of(vals) =~= seq![]);
        } else {
            lemma_inst_len(ep, ts, ep.len() as int);
            assert(segs =~= inst(ep, ts, ep.len() as int).skip(0));
            assert(dinv(d, ep, ts, 0));
            lemma_de_elems(d, ep, ts, vals);
        }
    }
    /// Texts a path cannot carry, and wrong numbers of values, are refused.
    pub proof fn theorem_c01_refused(s: PSt, t: Seq<char>, vals: Seq<Val>)
        ensures
            t == "."@ || t == ".."@ || has_ws(t) ==> path_ser(s, Val::Str(t)) is None,
            nvars(s.ep, 0) != vals.len() ==> path_ser(s, Val::Tuple(vals)) is None,
            !s.started ==> path_ser(s, Val::Str(t)) is None,
            s.started ==> path_ser(s, Val::Tuple(vals)) is None,
    { assert(path_ser(s, Val::Tuple(vals)) == path_ser_tuple(s, vals)); }
    /// The unit path: no variables, only constants.
    pub proof fn lemma_finish(ep: Ep, ts: Seq<Seq<char>>, i: int, segs: Seq<Seq<char>>)
        requires plain_ep(ep), 0 <= i <= ep.len(), nvars(ep, i) == 0, segs == inst(ep, ts, ep.len() as int).skip(i)
        ensures de_finish(ep, i, segs) is Some
        decreases ep.len() - i
    {
        let n = ep.len() as int;
        if i < n {
            lemma_inst_len(ep, ts, n);
            assert(segs[0] == inst(ep, ts, n)[i]);
            assert(inst(ep, ts, n)[i] == inst(ep, ts, i + 1).last());
            assert(nvars(ep, i) == (if ep[i] is None { 1int } else { 0int }) + nvars(ep, i + 1));
            assert(nvars(ep, i + 1) >= 0);
            assert(plain_const(ep, i, ep[i]->0));
            assert(segs.skip(1) =~= inst(ep, ts, n).skip(i + 1));
            lemma_finish(ep, ts, i + 1, segs.skip(1));
        }
    }
    pub proof fn theorem_c01_unit(ep: Ep, url: UrlV)
        requires
            plain_ep(ep), url.segs == base(), ep.len() > 0,
            path_ser(PSt { started: false, index: 0, ep: ep, url: url }, Val::Unit) is Some,
        ensures
            path_de(de_init(ep, (path_ser(PSt { started: false, index: 0, ep: ep, url: url }, Val::Unit)->0).url.segs), Ask::Unit) is Done,
    {
        let s1 = PSt { started: true, index: 0, ep: ep, url: url };
        let ts = Seq::<Seq<char>>::empty();
        assert(cinv(s1, ep, ts, 0));
        lemma_skip(s1, ep, ts, 0);
        let segs = skip_consts(s1).url.segs;
        lemma_inst_len(ep, ts, ep.len() as int);
        assert(segs =~= inst(ep, ts, ep.len() as int).skip(0));
        lemma_finish(ep, ts, 0, segs);
    }

    // ---- drivers: the calls a derived implementation makes, on the real code ----
    pub open spec fn vals_of<T: Serialize>(vs: Seq<T>) -> Seq<Val> { Seq::new(vs.len(), |i: int| vs[i].val()) }
    pub fn drive_tuple<'b, T: Serialize>(s: &mut UrlPathSerializer<'b>, vs: &Vec<T>) -> (r: Result<()>)
        ensures 
            match path_ser(old(s).st(), Val::Tuple(vals_of(vs@))) {
                Some(e) => r is Ok && final(s).st() == e && same_end(*old(s), *final(s)),
                None => r is Err,
            }
    {
        broadcast use vstd::seq::group_seq_axioms;
        let ghost s0 = *s;
        let ghost all = vals_of(vs@);
        proof { assert(path_ser(s0.st(), Val::Tuple(all)) == path_ser_tuple(s0.st(), all)); }
        let mut t = match Serializer::serialize_tuple(s, vs.len()) {
            Ok(t) => t,
            Err(e) => { return Err(e); }
        };
        let ghost b = (*t).st();
        let mut i: usize = 0;
        while i < vs.len()
            invariant
                0 <= i <= vs@.len(), all == vals_of(vs@), s0 == *old(s),
                *final(t) == *final(s),
                same_end(s0, *t),
                path_ser_elems(b, vals_of(vs@.take(i as int))) == Some((*t).st()),
                begin_tuple(s0.st(), vs@.len() as int) == Some(b),
            decreases vs@.len() - i
        {
            let ghost done = vals_of(vs@.take(i as int));
            let ghost next = vals_of(vs@.take(i + 1));
            proof {
                assert(next.drop_last() =~= done);
                assert(next.last() == vs@[i as int].val());
            }
            match SerializeTuple::serialize_element(&mut t, &vs[i]) {
                Ok(_) => {}
                Err(e) => {
                    proof {
                        assert(path_ser_elems(b, next) is None);
                        assert(path_ser(s0.st(), Val::Tuple(all)) == path_ser_tuple(s0.st(), all));
                        lemma_elems_none(b, vals_of(vs@), i as int);
                        assert(vals_of(vs@).take(i + 1) =~= next);
                    }
                    return Err(e);
                }
            }
            i += 1;
        }
        proof { assert(vals_of(vs@.take(i as int)) =~= vals_of(vs@)); }
        SerializeTuple::end(t)
    }
    pub proof fn lemma_elems_none(s: PSt, vals: Seq<Val>, i: int)
        requires 0 <= i < vals.len()
        ensures path_ser_elems(s, vals.take(i + 1)) is None ==> path_ser_elems(s, vals) is None
        decreases vals.len()
    {
        if i + 1 < vals.len() {
            lemma_elems_none(s, vals.drop_last(), i);
            assert(vals.drop_last().take(i + 1) =~= vals.take(i + 1));
        } else {
            assert(vals.take(i + 1) =~= vals);
        }
    }
    }
}
