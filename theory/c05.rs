pub mod c05 {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use text::*;
    use stdx::*;
    use url::*;
    use url::form_urlencoded::pairs_of;
    use header_theory::*;
    use path_theory::*;
    use query_theory::*;
    use request_theory::*;
    use miasht_header::HLines;
    use miasht_client::{Connection, Request, ReqV};
    use miasht_headers::cl_line;
    use miasht_method::Method;
    use fibers::net::TcpStream;
    use procedure::{EntryPoint, epv, nvars};
    use serializers::rpc_request::RpcRequestSerializer;
    use deserializers::rpc_request::*;
    use serde::ser::*;
    use serde::de::*;
    use seeds::*;
    use {Error, Result};
    verus! {
    broadcast use group_text;
    pub type Fields = Seq<(Seq<char>, Val)>;

    // ---- building the URL leaves everything but path and query alone ----
    pub proof fn lemma_skip_rest(s: PSt)
        ensures skip_consts(s).url.rest == s.url.rest, skip_consts(s).url.is_base == s.url.is_base, skip_consts(s).url.pairs == s.url.pairs
        decreases s.ep.len() - s.index
    {
        if 0 <= s.index < s.ep.len() && s.ep[s.index] is Some { lemma_skip_rest(add_seg(s, s.ep[s.index]->0)); }
    }
    pub open spec fn same_rest(a: UrlV, b: UrlV) -> bool { a.rest == b.rest && a.is_base == b.is_base && a.pairs == b.pairs }
    pub proof fn lemma_path_rest(s: PSt, v: Val)
        ensures path_ser(s, v) matches Some(e) ==> same_rest(e.url, s.url)
        decreases v, 0int
    {
        lemma_skip_rest(s);
        lemma_skip_rest(PSt { started: true, ..s });
        match v {
            Val::NewtypeStruct(b) => lemma_path_rest(s, *b),
            Val::NewtypeVariant(_, b) => lemma_path_rest(s, *b),
            Val::Tuple(vs) => lemma_path_rest_tuple(s, vs),
            Val::TupleStruct(vs) => lemma_path_rest_tuple(s, vs),
            Val::TupleVariant(_, vs) => lemma_path_rest_tuple(s, vs),
            _ => {}
        }
    }
    pub proof fn lemma_path_rest_tuple(s: PSt, vs: Seq<Val>)
        ensures path_ser_tuple(s, vs) matches Some(e) ==> same_rest(e.url, s.url)
        decreases vs, 1int
    {
        if let Some(s1) = begin_tuple(s, vs.len() as int) {
            lemma_path_rest_elems(s1, vs);
            if let Some(s2) = path_ser_elems(s1, vs) { lemma_skip_rest(s2); }
        }
    }
    pub proof fn lemma_path_rest_elems(s: PSt, vs: Seq<Val>)
        ensures path_ser_elems(s, vs) matches Some(e) ==> same_rest(e.url, s.url)
        decreases vs, 0int
    {
        if vs.len() > 0 {
            lemma_path_rest_elems(s, vs.drop_last());
            if let Some(s1) = path_ser_elems(s, vs.drop_last()) { lemma_path_rest(s1, vs.last()); }
        }
    }
    pub open spec fn same_path(a: UrlV, b: UrlV) -> bool {
        a.rest == b.rest && a.is_base == b.is_base && a.segs == b.segs && a.pairs is Some == b.pairs is Some
    }
    pub proof fn lemma_query_path(s: QSt, v: Val)
        requires s.url.pairs is Some
        ensures q_ser(s, v) matches Some(e) ==> same_path(e.url, s.url)
        decreases v, 0int
    {
        match v {
            Val::Some(b) => lemma_query_path(s, *b),
            Val::NewtypeStruct(b) => lemma_query_path(s, *b),
            Val::NewtypeVariant(_, b) => lemma_query_path(s, *b),
            Val::Map(kvs) => if s.first { lemma_query_path_map(QSt { first: false, ..s }, kvs); },
            Val::Struct(fs) => if s.first { lemma_query_path_fields(QSt { first: false, ..s }, fs); },
            Val::StructVariant(_, fs) => if s.first { lemma_query_path_fields(QSt { first: false, ..s }, fs); },
            _ => {}
        }
    }
    pub proof fn lemma_query_path_fields(s: QSt, fs: Fields)
        requires s.url.pairs is Some
        ensures q_ser_fields(s, fs) matches Some(e) ==> same_path(e.url, s.url)
        decreases fs, 0int
    {
        if fs.len() > 0 {
            lemma_query_path_fields(s, fs.drop_last());
            if let Some(s1) = q_ser_fields(s, fs.drop_last()) { lemma_query_path(QSt { key: Some(fs.last().0), ..s1 }, fs.last().1); }
        }
    }
    pub proof fn lemma_query_path_map(s: QSt, kvs: Seq<(Val, Val)>)
        requires s.url.pairs is Some
        ensures q_ser_map(s, kvs) matches Some(e) ==> same_path(e.url, s.url)
        decreases kvs, 0int
    {
        if kvs.len() > 0 {
            lemma_query_path_map(s, kvs.drop_last());
            if let Some(s1) = q_ser_map(s, kvs.drop_last()) {
                lemma_query_path(s1, kvs.last().0);
                if let Some(s2) = q_ser(s1, kvs.last().0) { lemma_query_path(s2, kvs.last().1); }
            }
        }
    }

    // ---- what a request of the three optional parts looks like ----
    pub open spec fn url_for(ep: EntryPoint, path: Option<Val>, query: Option<Val>) -> Option<UrlV> {
        match with_path(ep, start_url(), match path { Some(v) => v, None => Val::Unit }) {
            Some(u) => match query { Some(q) => with_query(u, q), None => Some(u) },
            None => None,
        }
    }
    pub open spec fn lines_for(header: Option<Val>) -> Out {
        match header { Some(h) => h_ser(HSt { first: true, key: None, lines: seq![] }, h), None => Out::Done(HSt { first: true, key: None, lines: seq![] }) }
    }
    pub open spec fn part(name: Seq<char>, v: Option<Val>) -> Fields { match v { Some(x) => seq![(name, x)], None => seq![] } }
    pub open spec fn parts(path: Option<Val>, query: Option<Val>, header: Option<Val>) -> Fields {
        part("path"@, path) + part("query"@, query) + part("header"@, header)
    }
    /// The head that the state stands for once the serialiser is finished with a body of `n` bytes.
    pub open spec fn finished(o: RqOut, n: int) -> Option<ReqV> {
        match o {
            RqOut::Done(s) => match rq_take(s) { Some(x) => Some(ReqV { lines: x.0.lines.push(cl_line(n)), ..x.0 }), None => None },
            _ => None,
        }
    }
    pub proof fn lemma_one(s: RqSt, k: Seq<char>, v: Val)
        ensures rq_fields(s, seq![(k, v)], false) == rq_field(s, k, v), rq_fields(s, seq![(k, v)], true) == rq_vfield(s, k, v),
            rq_fields(s, seq![], false) == RqOut::Done(s), rq_fields(s, seq![], true) == RqOut::Done(s)
    {
        let f = seq![(k, v)];
        assert(f.drop_last() =~= seq![]);
        reveal_with_fuel(rq_fields, 2);
    }
    pub proof fn lemma_append(s: RqSt, a: Fields, b: Fields, variant: bool)
        ensures rq_fields(s, a + b, variant) == (match rq_fields(s, a, variant) { RqOut::Done(s1) => rq_fields(s1, b, variant), o => o })
        decreases b.len()
    {
        if b.len() == 0 {
            assert(a + b =~= a);
        } else {
            lemma_append(s, a, b.drop_last(), variant);
            assert((a + b).drop_last() =~= a + b.drop_last());
            assert((a + b).last() == b.last());
        }
    }
    /// The method, the target, the header lines and the length of the body; an error exactly when a part cannot be carried.
    pub proof fn theorem_request(conn: int, method: Method, ep: EntryPoint, path: Option<Val>, query: Option<Val>, header: Option<Val>, n: int)
        requires !(lines_for(header) is Any)
        ensures
            finished(rq_ser(rq_start(conn, method, ep), Val::Struct(parts(path, query, header))), n) == (match (url_for(ep, path, query), lines_for(header)) {
                (Some(u), Out::Done(h)) => Some(ReqV { conn: conn, method: method, target: line_text(u), lines: h.lines.push(cl_line(n)) }),
                _ => None,
            }),
            !(rq_ser(rq_start(conn, method, ep), Val::Struct(parts(path, query, header))) is Any),
    {
        reveal_strlit("path"); reveal_strlit("query"); reveal_strlit("header");
        let s0 = rq_start(conn, method, ep);
        let (fp, fq, fh) = (part("path"@, path), part("query"@, query), part("header"@, header));
        lemma_append(s0, fp + fq, fh, false);
        lemma_append(s0, fp, fq, false);
        if let Some(v) = path { lemma_one(s0, "path"@, v); }
        lemma_one(s0, "path"@, Val::Unit);
        let v = match path { Some(v) => v, None => Val::Unit };
        lemma_path_rest(ser_init(ep, start_url()), v);
        match rq_fields(s0, fp, false) {
            RqOut::Done(s1) => {
                if let Some(q) = query { lemma_one(s1, "query"@, q); }
                lemma_one(s1, "query"@, Val::Unit);
                if let Some(u) = with_path(ep, start_url(), v) {
                    assert(u.rest == 0);
                    if let Some(q) = query {
                        lemma_query_path(QSt { first: true, key: None, url: UrlV { pairs: Some(pairs_of(u)), ..u } }, q);
                    }
                    if let Some(w) = url_for(ep, path, query) {
                        assert(w.rest == 0);
                        ax_no_fragment();
                        assert(target(w) =~= line_text(w));
                    }
                }
                match rq_fields(s1, fq, false) {
                    RqOut::Done(s2) => {
                        if let Some(h) = header { lemma_one(s2, "header"@, h); }
                        lemma_one(s2, "header"@, Val::Unit);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    /// Whatever the parts, a request that is accepted has only known parts, none out of order: once the query or the
    /// headers were given, only headers may follow.
    pub open spec fn well_ordered(fs: Fields) -> bool {
        &&& forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).0 == "path"@ || fs[i].0 == "query"@ || fs[i].0 == "header"@
        &&& forall|i: int, j: int| 0 <= i < j < fs.len() && (#[trigger] fs[i]).0 != "path"@ ==> (#[trigger] fs[j]).0 == "header"@
    }
    pub open spec fn some_header(fs: Fields) -> bool { exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).0 == "header"@ && h_any(fs[i].1) }
    pub open spec fn h_any(v: Val) -> bool { exists|s: HSt| #[trigger] h_ser(s, v) is Any }
    pub proof fn theorem_order(conn: int, method: Method, ep: EntryPoint, fs: Fields)
        ensures
            rq_fields(rq_start(conn, method, ep), fs, false) matches RqOut::Done(s) ==> {
                &&& well_ordered(fs)
                &&& (s.build is Some) != (s.req is Some)
                &&& s.build is Some <==> (forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).0 == "path"@)
                &&& s.build matches Some(b) ==> b.conn == conn && b.method == method && b.ep == ep
                &&& s.req matches Some(q) ==> q.conn == conn && q.method == method
            },
            rq_fields(rq_start(conn, method, ep), fs, false) is Any ==> some_header(fs),
        decreases fs.len()
    {
        reveal_strlit("path"); reveal_strlit("query"); reveal_strlit("header");
        if fs.len() > 0 {
            let p = fs.drop_last();
            theorem_order(conn, method, ep, p);
            assert forall|i: int| 0 <= i < p.len() implies #[trigger] fs[i] == p[i] by {}
            assert(fs[fs.len() - 1] == fs.last());
            if rq_fields(rq_start(conn, method, ep), p, false) is Any {
                let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == "header"@ && h_any(p[i].1);
                assert(fs[i] == p[i]);
            }
            match rq_fields(rq_start(conn, method, ep), p, false) {
                RqOut::Done(s) => {
                    assert forall|i: int| 0 <= i < fs.len() && rq_field(s, fs.last().0, fs.last().1) is Done implies
                        (#[trigger] fs[i]).0 == "path"@ || fs[i].0 == "query"@ || fs[i].0 == "header"@ by { if i < p.len() { assert(fs[i] == p[i]); } }
                    assert forall|i: int, j: int| 0 <= i < j < fs.len() && (#[trigger] fs[i]).0 != "path"@ && rq_field(s, fs.last().0, fs.last().1) is Done
                        implies (#[trigger] fs[j]).0 == "header"@ by {
                        assert(fs[i] == p[i]);
                        if j < p.len() { assert(fs[j] == p[j]); } else { assert(s.build is None); }
                    }
                    if s.build is Some {
                        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] fs[i]).0 == "path"@ by { assert(fs[i] == p[i]); }
                    } else {
                        let i = choose|i: int| 0 <= i < p.len() && !((#[trigger] p[i]).0 == "path"@);
                        assert(fs[i] == p[i]);
                    }
                }
                _ => {}
            }
        }
    }
    /// A part no request has is refused wherever it stands.
    pub proof fn theorem_unknown(s: RqSt, k: Seq<char>, v: Val)
        requires k != "path"@, k != "query"@, k != "header"@
        ensures rq_field(s, k, v) is Fail, rq_vfield(s, k, v) is Fail
    {}

    // ---- the target is one word: no space, no control character, nothing outside ASCII ----
    pub open spec fn visible(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> 0x20 < (#[trigger] t[i]) as u32 && (t[i] as u32) < 0x7f }
    /// assumed of the url crate: form encoding yields visible ASCII without `?` or `#`
    #[verifier::external_body]
    pub proof fn ax_form_visible(p: Seq<(Seq<char>, Seq<char>)>)
        ensures visible(form_text(p)), !form_text(p).contains('?'), !form_text(p).contains('#')
    {}
    /// assumed of the url crate: a segment has its spaces, `?` and `#` escaped
    #[verifier::external_body]
    pub proof fn ax_segment_marks()
        ensures seg_escaped(0x20), seg_escaped(0x23), seg_escaped(0x3f)
    {}
    pub open spec fn seg_text(t: Seq<char>) -> bool {
        forall|i: int| 0 <= i < t.len() ==> 0x20 < (#[trigger] t[i]) as u32 && (t[i] as u32) < 0x7f && t[i] != '?' && t[i] != '#' && t[i] != '/'
    }
    pub open spec fn segs_ok(segs: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < segs.len() ==> seg_text(#[trigger] segs[i]) }
    pub proof fn lemma_esc_text(s: Seq<u8>)
        ensures seg_text(esc_bytes(s))
        decreases s.len()
    {
        if s.len() > 0 {
            lemma_esc_text(s.skip(1));
            ax_segment_marks();
            broadcast use ax_seg_escaped;
            let b = s[0];
            let e = esc_byte(b);
            assert(seg_text(e)) by {
                if seg_escaped(b) {
                    let h = b as int / 16; let l = b as int % 16;
                    assert(0 <= h < 16 && 0 <= l < 16);
                    assert(seg_text(seq![hex_char(h)]));
                } else {
                    assert(b != 0x20 && b != 0x23 && b != 0x3f && b != 0x2f);
                }
            }
            let t = esc_bytes(s);
            assert(t == e + esc_bytes(s.skip(1)));
            assert forall|i: int| 0 <= i < t.len() implies 0x20 < (#[trigger] t[i]) as u32 && (t[i] as u32) < 0x7f && t[i] != '?' && t[i] != '#' && t[i] != '/' by {
                if i < e.len() { assert(t[i] == e[i]); } else { assert(t[i] == esc_bytes(s.skip(1))[i - e.len()]); }
            }
        }
    }
    /// The constants of the entry point have no tab, newline or carriage return (those the url crate drops silently).
    pub open spec fn clean_ep(ep: Seq<Option<Seq<char>>>) -> bool { forall|i: int| 0 <= i < ep.len() && (#[trigger] ep[i]) is Some ==> !has_ws(ep[i]->0) }
    pub proof fn lemma_push_ok(segs: Seq<Seq<char>>, t: Seq<char>)
        requires segs_ok(segs), !has_ws(t)
        ensures segs_ok(seg_push(segs, t))
    { lemma_esc_text(encode_utf8(t)); }
    pub proof fn lemma_skip_ok(s: PSt)
        requires segs_ok(s.url.segs), clean_ep(s.ep)
        ensures segs_ok(skip_consts(s).url.segs), skip_consts(s).ep == s.ep
        decreases s.ep.len() - s.index
    {
        if 0 <= s.index < s.ep.len() && s.ep[s.index] is Some {
            lemma_push_ok(s.url.segs, s.ep[s.index]->0);
            lemma_skip_ok(add_seg(s, s.ep[s.index]->0));
        }
    }
    pub proof fn lemma_bind_ok(s: PSt, t: Seq<char>)
        requires segs_ok(s.url.segs), clean_ep(s.ep)
        ensures bind(s, t) matches Some(e) ==> segs_ok(e.url.segs) && e.ep == s.ep
    {
        lemma_skip_ok(s);
        if !has_ws(t) { lemma_push_ok(skip_consts(s).url.segs, t); }
    }
    pub proof fn lemma_path_ok(s: PSt, v: Val)
        requires segs_ok(s.url.segs), clean_ep(s.ep)
        ensures path_ser(s, v) matches Some(e) ==> segs_ok(e.url.segs) && e.ep == s.ep
        decreases v, 0int
    {
        lemma_skip_ok(s);
        lemma_skip_ok(PSt { started: true, ..s });
        match v {
            Val::Bool(b) => lemma_bind_ok(s, bool_text(b)),
            Val::I8(n) => lemma_bind_ok(s, int_text(n as int)),
            Val::I16(n) => lemma_bind_ok(s, int_text(n as int)),
            Val::I32(n) => lemma_bind_ok(s, int_text(n as int)),
            Val::I64(n) => lemma_bind_ok(s, int_text(n as int)),
            Val::U8(n) => lemma_bind_ok(s, int_text(n as int)),
            Val::U16(n) => lemma_bind_ok(s, int_text(n as int)),
            Val::U32(n) => lemma_bind_ok(s, int_text(n as int)),
            Val::U64(n) => lemma_bind_ok(s, int_text(n as int)),
            Val::F32(x) => lemma_bind_ok(s, f64_text(f32_wide(x))),
            Val::F64(x) => lemma_bind_ok(s, f64_text(x)),
            Val::Char(c) => lemma_bind_ok(s, seq![c]),
            Val::Str(t) => lemma_bind_ok(s, t),
            Val::UnitVariant(t) => lemma_bind_ok(s, t),
            Val::NewtypeStruct(b) => lemma_path_ok(s, *b),
            Val::NewtypeVariant(_, b) => lemma_path_ok(s, *b),
            Val::Tuple(vs) => lemma_path_ok_tuple(s, vs),
            Val::TupleStruct(vs) => lemma_path_ok_tuple(s, vs),
            Val::TupleVariant(_, vs) => lemma_path_ok_tuple(s, vs),
            _ => {}
        }
    }
    pub proof fn lemma_path_ok_tuple(s: PSt, vs: Seq<Val>)
        requires segs_ok(s.url.segs), clean_ep(s.ep)
        ensures path_ser_tuple(s, vs) matches Some(e) ==> segs_ok(e.url.segs) && e.ep == s.ep
        decreases vs, 1int
    {
        if let Some(s1) = begin_tuple(s, vs.len() as int) {
            lemma_path_ok_elems(s1, vs);
            if let Some(s2) = path_ser_elems(s1, vs) { lemma_skip_ok(s2); }
        }
    }
    pub proof fn lemma_path_ok_elems(s: PSt, vs: Seq<Val>)
        requires segs_ok(s.url.segs), clean_ep(s.ep)
        ensures path_ser_elems(s, vs) matches Some(e) ==> segs_ok(e.url.segs) && e.ep == s.ep
        decreases vs, 0int
    {
        if vs.len() > 0 {
            lemma_path_ok_elems(s, vs.drop_last());
            if let Some(s1) = path_ser_elems(s, vs.drop_last()) { lemma_path_ok(s1, vs.last()); }
        }
    }
    pub proof fn lemma_path_text(segs: Seq<Seq<char>>)
        requires segs_ok(segs)
        ensures visible(path_text(segs)), !path_text(segs).contains('?'), !path_text(segs).contains('#')
        decreases segs.len()
    {
        if segs.len() > 0 {
            let p = segs.drop_last();
            assert forall|i: int| 0 <= i < p.len() implies seg_text(#[trigger] p[i]) by { assert(p[i] == segs[i]); }
            lemma_path_text(p);
            let (a, b, c) = (path_text(p), seq!['/'], segs.last());
            assert(seg_text(segs[segs.len() - 1]));
            let t = a + b + c;
            assert forall|i: int| 0 <= i < t.len() implies 0x20 < (#[trigger] t[i]) as u32 && (t[i] as u32) < 0x7f && t[i] != '?' && t[i] != '#' by {
                if i < a.len() { assert(t[i] == a[i]); assert(a.contains(a[i])); } else if i > a.len() { assert(t[i] == c[i - a.len() - 1]); }
            }
        }
    }
    /// The target on the request line cannot be split or extended by any path or query value, and its first `?` is the
    /// one that separates the path from the query.
    pub proof fn theorem_target(ep: EntryPoint, path: Option<Val>, query: Option<Val>)
        requires clean_ep(epv(ep))
        ensures
            url_for(ep, path, query) matches Some(u) ==> {
                &&& visible(line_text(u))
                &&& !line_text(u).contains('#')
                &&& !path_text(u.segs).contains('?')
                &&& (query is None ==> u.pairs is None)
                &&& (query is Some ==> u.pairs is Some)
            },
    {
        let v = match path { Some(v) => v, None => Val::Unit };
        let s = ser_init(ep, start_url());
        assert(segs_ok(start_url().segs));
        lemma_path_ok(s, v);
        lemma_path_rest(s, v);
        if let Some(u) = with_path(ep, start_url(), v) {
            lemma_path_text(u.segs);
            if let Some(q) = query {
                lemma_query_path(QSt { first: true, key: None, url: UrlV { pairs: Some(pairs_of(u)), ..u } }, q);
                if let Some(w) = with_query(u, q) {
                    let p = w.pairs->0;
                    ax_form_visible(p);
                    let (a, b, c) = (path_text(u.segs), seq!['?'], form_text(p));
                    let t = a + b + c;
                    assert(line_text(w) == t);
                    assert forall|i: int| 0 <= i < t.len() implies 0x20 < (#[trigger] t[i]) as u32 && (t[i] as u32) < 0x7f && t[i] != '#' by {
                        if i < a.len() { assert(t[i] == a[i]); assert(a.contains(a[i])); } else if i > a.len() { assert(t[i] == c[i - a.len() - 1]); assert(c.contains(c[i - a.len() - 1])); }
                    }
                }
            }
        }
    }

    // ---- drivers: the calls a derived implementation makes, on the real code ----
    pub open spec fn sent(o: RqOut, n: int, r: Result<Request<TcpStream>>) -> bool {
        o is Any || match finished(o, n) { Some(q) => r matches Ok(x) && x@ == q, None => r is Err }
    }
    pub fn drive_struct<P: Serialize, Q: Serialize, H: Serialize>(c: Connection<TcpStream>, method: Method, ep: EntryPoint, path: &P, query: &Q, header: &H, body: &[u8])
        -> (r: Result<Request<TcpStream>>)
        ensures
            sent(rq_ser(rq_start(c.id(), method, ep), Val::Struct(parts(Some(path.val()), Some(query.val()), Some(header.val())))), body@.len() as int, r)
    {
        let ghost s0 = rq_start(c.id(), method, ep);
        let ghost (fp, fq, fh) = (part("path"@, Some(path.val())), part("query"@, Some(query.val())), part("header"@, Some(header.val())));
        proof {
            lemma_append(s0, fp + fq, fh, false);
            lemma_append(s0, fp, fq, false);
            lemma_one(s0, "path"@, path.val());
            if let RqOut::Done(s1) = rq_fields(s0, fp, false) {
                lemma_one(s1, "query"@, query.val());
                if let RqOut::Done(s2) = rq_fields(s1, fq, false) { lemma_one(s2, "header"@, header.val()); }
            }
        }
        let mut s = RpcRequestSerializer::new(c, method, ep);
        {
            let mut t = match Serializer::serialize_struct(&mut s, "", 3) { Ok(t) => t, Err(e) => { return Err(e); } };
            match SerializeStruct::serialize_field(&mut t, "path", path) { Ok(_) => {}, Err(e) => { return Err(e); } }
            match SerializeStruct::serialize_field(&mut t, "query", query) { Ok(_) => {}, Err(e) => { return Err(e); } }
            match SerializeStruct::serialize_field(&mut t, "header", header) { Ok(_) => {}, Err(e) => { return Err(e); } }
            match SerializeStruct::end(t) { Ok(_) => {}, Err(e) => { return Err(e); } }
        }
        s.finish(body)
    }
    /// A receiver is offered `path`, `query` and `header`, in that order and once each, and then the end.
    pub fn drive_read<'de>(ep: EntryPoint, url: &'de Url, req: &'de ::miasht_server::Request<TcpStream>) -> (r: Result<()>)
    {
        let mut d = RpcRequestDeserializer::new(ep, url, req);
        let mut t = &mut d;
        match MapAccess::next_key_seed(&mut t, NameSeed) { Ok(Some(k)) => { assert(k@ == "path"@); } Ok(None) => { assert(false); } Err(e) => { return Err(e); } }
        match MapAccess::next_value_seed(&mut t, seed_of(Ghost(Ask::Ignored))) { Ok(v) => {} Err(e) => { return Err(e); } }
        match MapAccess::next_key_seed(&mut t, NameSeed) { Ok(Some(k)) => { assert(k@ == "query"@); } Ok(None) => { assert(false); } Err(e) => { return Err(e); } }
        match MapAccess::next_value_seed(&mut t, seed_of(Ghost(Ask::Ignored))) { Ok(v) => {} Err(e) => { return Err(e); } }
        match MapAccess::next_key_seed(&mut t, NameSeed) { Ok(Some(k)) => { assert(k@ == "header"@); } Ok(None) => { assert(false); } Err(e) => { return Err(e); } }
        match MapAccess::next_value_seed(&mut t, seed_of(Ghost(Ask::Ignored))) { Ok(v) => {} Err(e) => { return Err(e); } }
        match MapAccess::next_key_seed(&mut t, NameSeed) { Ok(Some(k)) => { assert(false); } Ok(None) => {} Err(e) => { assert(false); } }
        Ok(())
    }
    }
}
