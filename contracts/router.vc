%source src/router.rs
%skip use -- names come from the prelude of the contract file
%skip type HandleHttpRequestResult -- opaque in the shims
%skip type HandleHttpRequest -- opaque in the shims
%skip impl Send@Router -- marker trait
%rewrite `unsafe { & * (segment as * const _) as _ }` => `::routex::same_text(segment)`

%prelude
use fibers::net::TcpStream;
use miasht::server::{Request, Response};
use routex::{Arc, Box, HashMap, HandleHttpRequest, HandleHttpRequestResult, boxed};
use stdx::Split;
use url::Url;
use procedure::{EntryPoint, PathSegment};
use types::{HttpMethod, HttpStatus};
use {Error, ErrorKind, Result};
use router_theory::*;

%fn Router::route
    ensures
        !url@.is_base ==> r == Err::<&HandleHttpRequest, HttpStatus>(HttpStatus::NotFound),
        url@.is_base ==> same_answer(r, lookup(self.trie.inner().root, url@.segs, request.method_spec())),
%fn RouterBuilder::new
    ensures forall|p: Pat, m: HttpMethod| entry(r.trie.root, p, m) is None
%fn RouterBuilder::finish
    ensures r.trie.inner() == self.trie
%fn RouterBuilder::register_handler
    ensures registered(old(self).trie.root, method, ep_pat(entry_point), handler, final(self).trie.root, r is Ok)
%fn Trie::new
    ensures forall|p: Pat, m: HttpMethod| entry(r.root, p, m) is None
%fn Trie::insert
    ensures inserted(old(self).root, method, ep_pat(*entry_point), handler, final(self).root, r is Ok)
%iter 0 it
%loop 0
    invariant
        it.seq().len() == entry_point.segments@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == entry_point.segments@[i],
        grafted(old(self).root, ep_pat(*entry_point).take(it.index@), *final(node), after_borrow(self).root),
        under(old(self).root, ep_pat(*entry_point).take(it.index@), *node),
%start
broadcast use lemma_graft_leaf;
proof {
    lemma_graft_root(old(self).root);
    assert(ep_pat(*entry_point).take(0) =~= seq![]);
    assert(ep_pat(*entry_point).take(entry_point.segments@.len() as int) =~= ep_pat(*entry_point));
}
%loopstart 0
    let ghost sub = *node;
    let ghost sub2 = *final(node);
%loopend 0
    proof {
        let k = ep_key(entry_point.segments@[it.index@]);
        lemma_graft_step(old(self).root, ep_pat(*entry_point).take(it.index@), k, sub, sub2, *node, *final(node), after_borrow(self).root);
        assert(ep_pat(*entry_point).take(it.index@ + 1) =~= ep_pat(*entry_point).take(it.index@).push(k));
    }
%closure 0 || -> (q: TrieNode) ensures q.empty()
%fn Trie::root
    ensures *r == self.root
%fn TrieNode::new
    ensures r.empty()
%fn TrieNode::find
    ensures same_answer(r, lookup(*self, segments@, method))
    decreases segments@.len()
%start
broadcast use ::text::ax_str;
%fn TrieNode::get_child
    ensures r == (if self.children@.dom().contains(Some(segment)) { Some(&self.children@[Some(segment)]) } else { None::<&TrieNode> })
%fn TrieNode::get_value
    ensures r == (if self.leafs@.dom().contains(method) { Some(&self.leafs@[method]) } else { None::<&HandleHttpRequest> })
