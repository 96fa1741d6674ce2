pub mod request_theory {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use text::*;
    use stdx::*;
    use header_theory::*;
    use path_theory::*;
    use query_theory::*;
    use miasht_header::HLines;
    use miasht_client::ReqV;
    use miasht_method::Method;
    use procedure::EntryPoint;
    use url::UrlV;
    use url::form_urlencoded::pairs_of;
    use serde::ser::Val;
    verus! {
    /// The state of request building: the URL until the path and query are known, then the head.
    pub struct Bld { pub conn: int, pub url: UrlV, pub init: bool, pub method: Method, pub ep: EntryPoint }
    pub struct RqSt { pub build: Option<Bld>, pub req: Option<ReqV> }
    pub enum RqOut { Done(RqSt), Fail, Any }
    /// The target of a request: path and query as written on the request line.
    pub open spec fn path_text(segs: Seq<Seq<char>>) -> Seq<char>
        decreases segs.len()
    {
        if segs.len() == 0 { seq![] } else { path_text(segs.drop_last()) + seq!['/'] + segs.last() }
    }
    pub uninterp spec fn form_text(p: Seq<(Seq<char>, Seq<char>)>) -> Seq<char>;
    /// the fragment, a function of what is neither path nor query
    pub uninterp spec fn frag_text(rest: int) -> Seq<char>;
    #[verifier::external_body]
    pub proof fn ax_no_fragment() ensures frag_text(0) == Seq::<char>::empty() {}
    pub open spec fn target(u: UrlV) -> Seq<char> { line_text(u) + frag_text(u.rest) }
    pub open spec fn line_text(u: UrlV) -> Seq<char> {
        match u.pairs { None => path_text(u.segs), Some(p) => path_text(u.segs) + seq!['?'] + form_text(p) }
    }
    pub open spec fn start_url() -> UrlV { UrlV { is_base: true, segs: seq![Seq::<char>::empty()], pairs: None, rest: 0 } }
    pub open spec fn rq_start(conn: int, method: Method, ep: EntryPoint) -> RqSt {
        RqSt { build: Some(Bld { conn: conn, url: start_url(), init: false, method: method, ep: ep }), req: None }
    }
    pub open spec fn with_path(ep: EntryPoint, u: UrlV, v: Val) -> Option<UrlV> {
        if !u.is_base { None } else { match path_ser(ser_init(ep, u), v) { Some(p) => Some(p.url), None => None } }
    }
    /// The URL with its path, which is that of no values where none was given.
    pub open spec fn path_done(b: Bld) -> Option<UrlV> { if b.init { Some(b.url) } else { with_path(b.ep, b.url, Val::Unit) } }
    pub open spec fn head_of(b: Bld, u: UrlV) -> ReqV { ReqV { conn: b.conn, method: b.method, target: target(u), lines: seq![] } }
    pub open spec fn rq_take(s: RqSt) -> Option<(ReqV, RqSt)> {
        match (s.req, s.build) {
            (Some(q), _) => Some((q, RqSt { req: None, ..s })),
            (None, Some(b)) => match path_done(b) { Some(u) => Some((head_of(b, u), RqSt { req: None, build: None })), None => None },
            (None, None) => None,
        }
    }
    pub open spec fn with_query(u: UrlV, v: Val) -> Option<UrlV> {
        match q_ser(QSt { first: true, key: None, url: UrlV { pairs: Some(pairs_of(u)), ..u } }, v) { Some(q) => Some(q.url), None => None }
    }
    pub open spec fn rq_field(s: RqSt, k: Seq<char>, v: Val) -> RqOut {
        if k == "path"@ {
            match s.build {
                Some(b) => match with_path(b.ep, b.url, v) {
                    Some(u) => RqOut::Done(RqSt { build: Some(Bld { url: u, init: true, ..b }), ..s }),
                    None => RqOut::Fail,
                },
                None => RqOut::Fail,
            }
        } else if k == "query"@ {
            match s.build {
                Some(b) => match path_done(b) {
                    Some(u) => match with_query(u, v) {
                        Some(w) => RqOut::Done(RqSt { build: None, req: Some(head_of(b, w)) }),
                        None => RqOut::Fail,
                    },
                    None => RqOut::Fail,
                },
                None => RqOut::Fail,
            }
        } else if k == "header"@ {
            match rq_take(s) {
                Some(x) => match h_ser(HSt { first: true, key: None, lines: x.0.lines }, v) {
                    Out::Done(h) => RqOut::Done(RqSt { req: Some(ReqV { lines: h.lines, ..x.0 }), ..x.1 }),
                    Out::Fail => RqOut::Fail,
                    Out::Any => RqOut::Any,
                },
                None => RqOut::Fail,
            }
        } else { RqOut::Fail }
    }
    pub open spec fn rq_vfield(s: RqSt, k: Seq<char>, v: Val) -> RqOut {
        if k == "header"@ && s.req is Some { rq_field(s, k, v) } else { RqOut::Fail }
    }
    pub open spec fn rq_fields(s: RqSt, fs: Seq<(Seq<char>, Val)>, variant: bool) -> RqOut
        decreases fs.len()
    {
        if fs.len() == 0 { RqOut::Done(s) } else {
            match rq_fields(s, fs.drop_last(), variant) {
                RqOut::Done(s1) => if variant { rq_vfield(s1, fs.last().0, fs.last().1) } else { rq_field(s1, fs.last().0, fs.last().1) },
                o => o,
            }
        }
    }
    pub open spec fn rq_ser(s: RqSt, v: Val) -> RqOut
        decreases v
    {
        match v {
            Val::NewtypeStruct(b) => rq_ser(s, *b),
            Val::NewtypeVariant(_, b) => rq_ser(s, *b),
            Val::Struct(fs) => rq_fields(s, fs, false),
            Val::StructVariant(_, fs) => rq_fields(s, fs, true),
            _ => RqOut::Fail,
        }
    }
    }
}
