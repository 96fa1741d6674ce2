pub mod router_theory {
    use vstd::prelude::*;
    use router::*;
    use routex::*;
    use types::{HttpMethod, HttpStatus};
    use procedure::{EntryPoint, PathSegment};
    use text::*;
    verus! {
    broadcast use ax_str;
    /// an entry point's pattern: constants, `None` for a variable
    pub type Pat = Seq<Option<&'static str>>;
    pub open spec fn ep_key(p: PathSegment) -> Option<&'static str> { match p { PathSegment::Val(s) => Some(s), PathSegment::Var => None } }
    pub open spec fn ep_pat(ep: EntryPoint) -> Pat { Seq::new(ep.segments@.len(), |i: int| ep_key(ep.segments@[i])) }
    impl TrieNode {
        pub open spec fn empty(self) -> bool {
            self.children@ == Map::<Option<&'static str>, TrieNode>::empty() && self.leafs@ == Map::<HttpMethod, HandleHttpRequest>::empty()
        }
    }
    /// what is registered under a pattern and a method
    pub open spec fn entry(n: TrieNode, p: Pat, m: HttpMethod) -> Option<HandleHttpRequest>
        decreases p.len()
    {
        if p.len() == 0 {
            if n.leafs@.dom().contains(m) { Some(n.leafs@[m]) } else { None }
        } else if n.children@.dom().contains(p[0]) {
            entry(n.children@[p[0]], p.skip(1), m)
        } else {
            None
        }
    }
    /// Registering: refused exactly when the place is taken; otherwise that place, and no other, changes.
    #[verifier::opaque]
    pub open spec fn inserted(before: TrieNode, m: HttpMethod, p: Pat, h: HandleHttpRequest, after: TrieNode, ok: bool) -> bool {
        &&& ok <==> entry(before, p, m) is None
        &&& forall|q: Pat, o: HttpMethod| #[trigger] entry(after, q, o) == (if ok && q == p && o == m { Some(h) } else { entry(before, q, o) })
    }
    pub open spec fn registered<H>(before: TrieNode, m: HttpMethod, p: Pat, h: H, after: TrieNode, ok: bool) -> bool {
        exists|b: HandleHttpRequest| boxed::<H>(b) == h && #[trigger] inserted(before, m, p, b, after, ok)
    }
    pub type Answer = Result<HandleHttpRequest, HttpStatus>;
    pub open spec fn const_child(n: TrieNode, t: Seq<char>) -> Option<TrieNode> {
        if str_with(t)@ == t && n.children@.dom().contains(Some(str_with(t))) { Some(n.children@[Some(str_with(t))]) } else { None }
    }
    pub open spec fn var_child(n: TrieNode) -> Option<TrieNode> {
        if n.children@.dom().contains(None) { Some(n.children@[None]) } else { None }
    }
    pub open spec fn no_leafs(n: TrieNode) -> bool { n.leafs@.dom() =~= Set::<HttpMethod>::empty() }
    /// what `find` computes
    pub open spec fn lookup(n: TrieNode, segs: Seq<Seq<char>>, m: HttpMethod) -> Answer
        decreases segs.len()
    {
        if segs.len() == 0 {
            if no_leafs(n) { Err(HttpStatus::NotFound) }
            else if n.leafs@.dom().contains(m) { Ok(n.leafs@[m]) }
            else { Err(HttpStatus::MethodNotAllowed) }
        } else {
            let a: Answer = match const_child(n, segs[0]) { Some(c) => lookup(c, segs.skip(1), m), None => Err(HttpStatus::NotFound) };
            let b: Answer = match var_child(n) { Some(c) => lookup(c, segs.skip(1), m), None => Err(HttpStatus::NotFound) };
            if a is Ok { a } else if b is Ok { b } else if b->Err_0 is NotFound { a } else { b }
        }
    }
    pub open spec fn same_answer(r: Result<&HandleHttpRequest, HttpStatus>, s: Answer) -> bool {
        match r { Ok(h) => s == Ok::<HandleHttpRequest, HttpStatus>(*h), Err(e) => s == Err::<HandleHttpRequest, HttpStatus>(e) }
    }

    // ---- what the property says ----
    /// the path fits the pattern: same length, constants equal to the text
    pub open spec fn fits(p: Pat, segs: Seq<Seq<char>>) -> bool {
        p.len() == segs.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] matches Some(s) ==> s@ == segs[i])
    }
    /// at the first place where the two differ, `p` has the constant
    pub open spec fn before_or_same(p: Pat, q: Pat) -> bool
        decreases p.len()
    {
        p.len() == 0 || q.len() == 0 || (if p[0] == q[0] { before_or_same(p.skip(1), q.skip(1)) } else { p[0] is Some })
    }
    pub open spec fn right_answer(n: TrieNode, segs: Seq<Seq<char>>, m: HttpMethod, a: Answer) -> bool {
        match a {
            Ok(h) => exists|p: Pat| {
                &&& fits(p, segs)
                &&& #[trigger] entry(n, p, m) == Some(h)
                &&& forall|q: Pat| fits(q, segs) && #[trigger] entry(n, q, m) is Some ==> before_or_same(p, q)
            },
            Err(HttpStatus::NotFound) => forall|q: Pat, o: HttpMethod| fits(q, segs) ==> #[trigger] entry(n, q, o) is None,
            Err(HttpStatus::MethodNotAllowed) => {
                &&& exists|q: Pat, o: HttpMethod| fits(q, segs) && #[trigger] entry(n, q, o) is Some
                &&& forall|q: Pat| fits(q, segs) ==> #[trigger] entry(n, q, m) is None
            },
            Err(_) => false,
        }
    }
    pub proof fn lemma_fits_skip(p: Pat, segs: Seq<Seq<char>>)
        requires fits(p, segs), p.len() > 0
        ensures fits(p.skip(1), segs.skip(1)), p[0] matches Some(s) ==> s@ == segs[0] && s == str_with(segs[0])
    {
        assert forall|i: int| 0 <= i < p.skip(1).len() implies (#[trigger] p.skip(1)[i] matches Some(s) ==> s@ == segs.skip(1)[i]) by {
            assert(p.skip(1)[i] == p[i + 1]);
        }
    }
    pub proof fn lemma_fits_cons(k: Option<&'static str>, p: Pat, segs: Seq<Seq<char>>)
        requires fits(p, segs.skip(1)), segs.len() > 0, k matches Some(s) ==> s@ == segs[0]
        ensures fits(seq![k] + p, segs), (seq![k] + p).skip(1) == p, (seq![k] + p)[0] == k
    {
        let q = seq![k] + p;
        assert(q.skip(1) =~= p);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i] matches Some(s) ==> s@ == segs[i]) by {
            if i > 0 { assert(q[i] == p[i - 1]); }
        }
    }
    /// C07, the answer: whatever the table, path and method
    pub proof fn theorem_c07(n: TrieNode, segs: Seq<Seq<char>>, m: HttpMethod)
        ensures right_answer(n, segs, m, lookup(n, segs, m))
        decreases segs.len()
    {
        let r = lookup(n, segs, m);
        if segs.len() == 0 {
            let e: Pat = seq![];
            assert(fits(e, segs));
            assert forall|q: Pat| fits(q, segs) implies q == e by { assert(q =~= e); }
            if no_leafs(n) {
            } else if n.leafs@.dom().contains(m) {
                assert(entry(n, e, m) == Some(n.leafs@[m]));
                assert forall|q: Pat| fits(q, segs) && entry(n, q, m) is Some implies before_or_same(e, q) by {}
            } else {
                let o = choose|o: HttpMethod| n.leafs@.dom().contains(o);
                assert(n.leafs@.dom().contains(o)) by {
                    if forall|o: HttpMethod| !n.leafs@.dom().contains(o) { assert(n.leafs@.dom() =~= Set::<HttpMethod>::empty()); }
                }
                assert(entry(n, e, o) is Some);
            }
            return;
        }
        let rest = segs.skip(1);
        let cc = const_child(n, segs[0]);
        let vc = var_child(n);
        let k = Some(str_with(segs[0]));
        let a: Answer = match cc { Some(c) => lookup(c, rest, m), None => Err(HttpStatus::NotFound) };
        let b: Answer = match vc { Some(c) => lookup(c, rest, m), None => Err(HttpStatus::NotFound) };
        if cc is Some { theorem_c07(cc->0, rest, m); }
        if vc is Some { theorem_c07(vc->0, rest, m); }
        // a pattern that fits goes through one of the two children
        assert forall|q: Pat, o: HttpMethod| fits(q, segs) && #[trigger] entry(n, q, o) is Some implies
            (q[0] is Some && q[0] == k && cc is Some && fits(q.skip(1), rest) && entry(cc->0, q.skip(1), o) == entry(n, q, o))
            || (q[0] is None && vc is Some && fits(q.skip(1), rest) && entry(vc->0, q.skip(1), o) == entry(n, q, o)) by {
            lemma_fits_skip(q, segs);
        }
        if a is Ok {
            let p0 = choose|p: Pat| fits(p, rest) && #[trigger] entry(cc->0, p, m) == Some(a->Ok_0)
                && (forall|q: Pat| fits(q, rest) && #[trigger] entry(cc->0, q, m) is Some ==> before_or_same(p, q));
            let p = seq![k] + p0;
            lemma_fits_cons(k, p0, segs);
            assert(entry(n, p, m) == Some(a->Ok_0));
            assert forall|q: Pat| fits(q, segs) && #[trigger] entry(n, q, m) is Some implies before_or_same(p, q) by {
                if q[0] is Some { assert(before_or_same(p0, q.skip(1))); }
            }
        } else if b is Ok {
            let p0 = choose|p: Pat| fits(p, rest) && #[trigger] entry(vc->0, p, m) == Some(b->Ok_0)
                && (forall|q: Pat| fits(q, rest) && #[trigger] entry(vc->0, q, m) is Some ==> before_or_same(p, q));
            let p = seq![None::<&'static str>] + p0;
            lemma_fits_cons(None, p0, segs);
            assert(entry(n, p, m) == Some(b->Ok_0));
            assert forall|q: Pat| fits(q, segs) && #[trigger] entry(n, q, m) is Some implies before_or_same(p, q) by {
                if q[0] is Some { assert(entry(cc->0, q.skip(1), m) is Some); assert(false); }
                assert(before_or_same(p0, q.skip(1)));
            }
        } else {
            assert forall|q: Pat| fits(q, segs) implies #[trigger] entry(n, q, m) is None by {
                if entry(n, q, m) is Some {
                    if q[0] is Some { assert(entry(cc->0, q.skip(1), m) is None); } else { assert(entry(vc->0, q.skip(1), m) is None); }
                }
            }
            if r->Err_0 is NotFound {
                assert forall|q: Pat, o: HttpMethod| fits(q, segs) implies #[trigger] entry(n, q, o) is None by {
                    if entry(n, q, o) is Some {
                        if q[0] is Some { assert(entry(cc->0, q.skip(1), o) is None); } else { assert(entry(vc->0, q.skip(1), o) is None); }
                    }
                }
            } else if b->Err_0 is NotFound {
                let (q, o) = choose|q: Pat, o: HttpMethod| fits(q, rest) && #[trigger] entry(cc->0, q, o) is Some;
                lemma_fits_cons(k, q, segs);
                assert(entry(n, seq![k] + q, o) is Some);
            } else {
                let (q, o) = choose|q: Pat, o: HttpMethod| fits(q, rest) && #[trigger] entry(vc->0, q, o) is Some;
                lemma_fits_cons(None, q, segs);
                assert(entry(n, seq![None::<&'static str>] + q, o) is Some);
            }
        }
    }

    // ---- registering ----
    /// `after` is `before` with the subtree under `path` replaced by `sub`
    #[verifier::opaque]
    pub open spec fn grafted(before: TrieNode, path: Pat, sub: TrieNode, after: TrieNode) -> bool {
        forall|q: Pat, o: HttpMethod| #[trigger] entry(after, q, o) ==
            (if path.is_prefix_of(q) { entry(sub, q.skip(path.len() as int), o) } else { entry(before, q, o) })
    }
    /// `sub` holds what `before` has under `path`
    #[verifier::opaque]
    pub open spec fn under(before: TrieNode, path: Pat, sub: TrieNode) -> bool {
        forall|q: Pat, o: HttpMethod| #[trigger] entry(sub, q, o) == entry(before, path + q, o)
    }
    pub proof fn lemma_graft_root(n: TrieNode)
        ensures forall|sub: TrieNode| #[trigger] grafted(n, seq![], sub, sub), under(n, seq![], n)
    {
        reveal(grafted); reveal(under);
        let e: Pat = seq![];
        assert forall|sub: TrieNode, q: Pat, o: HttpMethod| #[trigger] entry(sub, q, o) == entry(sub, q.skip(0), o) by { assert(q.skip(0) =~= q); }
        assert forall|q: Pat, o: HttpMethod| #[trigger] entry(n, q, o) == entry(n, e + q, o) by { assert(e + q =~= q); }
    }
    /// one step down: the subtree's child under `k` is replaced
    pub proof fn lemma_graft_step(before: TrieNode, path: Pat, k: Option<&'static str>, sub: TrieNode, sub2: TrieNode, child: TrieNode, child2: TrieNode, after: TrieNode)
        requires
            grafted(before, path, sub2, after), under(before, path, sub),
            sub2.leafs == sub.leafs, sub2.children@ == sub.children@.insert(k, child2),
            sub.children@.dom().contains(k) ==> child == sub.children@[k],
            !sub.children@.dom().contains(k) ==> child.empty(),
        ensures grafted(before, path.push(k), child2, after), under(before, path.push(k), child)
    {
        reveal(grafted); reveal(under);
        let p2 = path.push(k);
        let n = path.len() as int;
        assert forall|q: Pat, o: HttpMethod| #[trigger] entry(after, q, o) ==
            (if p2.is_prefix_of(q) { entry(child2, q.skip(p2.len() as int), o) } else { entry(before, q, o) }) by {
            if path.is_prefix_of(q) {
                let t = q.skip(n);
                assert(entry(after, q, o) == entry(sub2, t, o));
                assert(path + t =~= q);
                assert(entry(sub, t, o) == entry(before, q, o));
                if t.len() == 0 {
                    assert(!p2.is_prefix_of(q));
                } else {
                    assert(t.skip(1) =~= q.skip(n + 1));
                    assert(t[0] == q[n]);
                    if t[0] == k {
                        assert(p2 =~= q.take(n + 1)) by { assert(path =~= q.take(n)); }
                        assert(p2.is_prefix_of(q));
                    } else {
                        if p2.is_prefix_of(q) { assert(q.take(n + 1)[n] == p2[n]); }
                    }
                }
            } else {
                if p2.is_prefix_of(q) {
                    assert(p2.take(n) =~= path);
                    assert(q.take(n) =~= q.take(n + 1).take(n));
                    assert(path.is_prefix_of(q));
                }
            }
        }
        assert forall|q: Pat, o: HttpMethod| #[trigger] entry(child, q, o) == entry(before, p2 + q, o) by {
            let t = seq![k] + q;
            assert(path + t =~= p2 + q);
            assert(entry(sub, t, o) == entry(before, path + t, o));
            assert(t.skip(1) =~= q);
            if child.empty() { lemma_empty(child, q, o); }
        }
    }
    pub proof fn lemma_empty(n: TrieNode, q: Pat, o: HttpMethod)
        requires n.empty()
        ensures entry(n, q, o) is None
    {}
    /// the last step: a leaf is added (or nothing is)
    pub broadcast proof fn lemma_graft_leaf(before: TrieNode, path: Pat, sub: TrieNode, sub2: TrieNode, after: TrieNode, m: HttpMethod, h: HandleHttpRequest, ok: bool)
        requires
            #[trigger] grafted(before, path, sub2, after), #[trigger] under(before, path, sub), sub2.children == sub.children,
            sub2.leafs@ == (if sub.leafs@.dom().contains(m) { sub.leafs@ } else { sub.leafs@.insert(m, h) }),
            ok == !sub.leafs@.dom().contains(m),
        ensures #[trigger] inserted(before, m, path, h, after, ok)
    {
        reveal(grafted); reveal(under); reveal(inserted);
        let e: Pat = seq![];
        let n = path.len() as int;
        assert(entry(sub, e, m) == entry(before, path + e, m));
        assert(path + e =~= path);
        assert forall|q: Pat, o: HttpMethod| #[trigger] entry(after, q, o) == (if ok && q == path && o == m { Some(h) } else { entry(before, q, o) }) by {
            if path.is_prefix_of(q) {
                let t = q.skip(n);
                assert(path + t =~= q);
                assert(entry(sub, t, o) == entry(before, path + t, o));
                if t.len() == 0 { assert(q =~= path); assert(entry(sub2, t, o) == (if sub2.leafs@.dom().contains(o) { Some(sub2.leafs@[o]) } else { None })); }
                else { assert(q != path); }
            } else {
                if q == path { assert(path.take(n) =~= path); }
            }
        }
    }
    // ---- histories of registrations ----
    pub struct Reg { pub method: HttpMethod, pub pat: Pat, pub handler: HandleHttpRequest, pub ok: bool }
    pub open spec fn same_place(a: Reg, b: Reg) -> bool { a.method == b.method && a.pat == b.pat }
    /// `nodes` are the tables before, between and after the registrations
    pub open spec fn history(nodes: Seq<TrieNode>, regs: Seq<Reg>) -> bool {
        &&& nodes.len() == regs.len() + 1
        &&& forall|p: Pat, m: HttpMethod| #[trigger] entry(nodes[0], p, m) is None
        &&& forall|i: int| 0 <= i < regs.len() ==> {
            let g = #[trigger] regs[i];
            inserted(nodes[i], g.method, g.pat, g.handler, nodes[i + 1], g.ok)
        }
    }
    /// the first registration of a place is the one that counts
    pub open spec fn owner(regs: Seq<Reg>, n: int, p: Pat, m: HttpMethod) -> Option<HandleHttpRequest>
        decreases n
    {
        if n <= 0 { None }
        else if owner(regs, n - 1, p, m) is Some { owner(regs, n - 1, p, m) }
        else if regs[n - 1].pat == p && regs[n - 1].method == m { Some(regs[n - 1].handler) }
        else { None }
    }
    /// C07, the table: after any registrations it holds the first handler of each place; a registration is refused
    /// exactly when an earlier one has its place
    pub proof fn theorem_c07_table(nodes: Seq<TrieNode>, regs: Seq<Reg>, n: int)
        requires history(nodes, regs), 0 <= n <= regs.len()
        ensures
            forall|p: Pat, m: HttpMethod| #[trigger] entry(nodes[n], p, m) == owner(regs, n, p, m),
            n < regs.len() ==> (regs[n].ok <==> owner(regs, n, regs[n].pat, regs[n].method) is None),
        decreases n
    {
        reveal(inserted);
        if n > 0 {
            theorem_c07_table(nodes, regs, n - 1);
            let g = regs[n - 1];
            assert(inserted(nodes[n - 1], g.method, g.pat, g.handler, nodes[n], g.ok));
        }
        if n < regs.len() {
            let g = regs[n];
            assert(inserted(nodes[n], g.method, g.pat, g.handler, nodes[n + 1], g.ok));
            assert(entry(nodes[n], g.pat, g.method) == owner(regs, n, g.pat, g.method));
        }
    }
    /// a route through the real functions: build, register twice, finish, look up
    pub fn drive_router<H: Send + 'static + Fn(::url::Url, ::miasht_server::Request<::fibers::net::TcpStream>) -> HandleHttpRequestResult>(
        m: HttpMethod, ep: EntryPoint, h: H, url: &::url::Url, request: &::miasht_server::Request<::fibers::net::TcpStream>)
    {
        let mut b = RouterBuilder::new();
        let r = b.register_handler(m, ep, h);
        proof { reveal(inserted); }
        assert(r is Ok);
        assert(entry(b.trie.root, ep_pat(ep), m) matches Some(x) && boxed::<H>(x) == h);
        let router = b.finish();
        let a = router.route(url, request);
        proof {
            theorem_c07(router.trie.inner().root, url@.segs, request.method_spec());
            if url@.is_base && fits(ep_pat(ep), url@.segs) && request.method_spec() == m {
                assert(a matches Ok(x) && boxed::<H>(*x) == h);
            } else if url@.is_base && fits(ep_pat(ep), url@.segs) {
                assert(a == Err::<&HandleHttpRequest, HttpStatus>(HttpStatus::MethodNotAllowed));
            } else {
                assert(a == Err::<&HandleHttpRequest, HttpStatus>(HttpStatus::NotFound));
            }
        }
    }
    }
}
