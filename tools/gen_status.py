"""Writes theory/status.rs: the standard's status names and codes, and their correspondence."""
import os
T = """Continue 100 SwitchingProtocols 101 Processing 102 Ok 200 Created 201 Accepted 202 NonAuthoritativeInformation 203
NoContent 204 ResetContent 205 PartialContent 206 MultiStatus 207 AlreadyReported 208 ImUsed 226 MultipleChoices 300
MovedPermanently 301 Found 302 SeeOther 303 NotModified 304 UseProxy 305 TemporaryRedirect 307 PermanentRedirect 308
BadRequest 400 Unauthorized 401 PaymentRequired 402 Forbidden 403 NotFound 404 MethodNotAllowed 405 NotAcceptable 406
ProxyAuthenticationRequired 407 RequestTimeout 408 Conflict 409 Gone 410 LengthRequired 411 PreconditionFailed 412
PayloadTooLarge 413 UriTooLong 414 UnsupportedMediaType 415 RangeNotSatisfiable 416 ExceptionFailed 417 ImATeapot 418
MisdirectedRequest 421 UnprocessableEntity 422 Locked 423 FailedDependency 424 UpgradeRequired 426
UnavailableForLegalReasons 451 InternalServerError 500 NotImplemented 501 BadGateway 502 ServiceUnavailable 503
GatewayTimeout 504 HttpVersionNotSupported 505 VariantAlsoNegotiates 506 InsufficientStorage 507 LoopDetected 508
BandwidthLimitExceeded 509 NotExtended 510""".split()
L = [(T[i], int(T[i + 1])) for i in range(0, len(T), 2)]
assert len(L) == 57
o = []
w = o.append
w('''pub mod status_theory {
    use vstd::prelude::*;
    use miasht_status::Status;
    verus! {
    // The supported statuses: the names of the response variants and the codes the standard assigns to them.''')
w("    #[verifier::opaque]")
w("    pub open spec fn name_code(s: Seq<char>) -> Option<u16> {")
for i, (n, c) in enumerate(L):
    w('        %sif s == "%s"@ { Some(%du16) }' % ("else " if i else "", n, c))
w("        else { None }\n    }")
w("    pub open spec fn code_name(c: u16) -> Option<Seq<char>> {")
for i, (n, c) in enumerate(L):
    w('        %sif c == %d { Some("%s"@) }' % ("else " if i else "", c, n))
w("        else { None }\n    }")
w("    pub open spec fn status_code(s: Status) -> u16 {\n        match s {")
for n, c in L:
    w("            Status::%s => %d," % (n, c))
w("        }\n    }")
w("    pub open spec fn known_code(c: u16) -> bool { code_name(c) is Some }")
# discriminating positions
same = {}
for n, _ in L:
    same.setdefault(len(n), []).append(n)
w("    pub proof fn lemma_names()\n        ensures")
for n, c in L:
    w('            name_code("%s"@) == Some(%du16),' % (n, c))
w("    {")
w("        reveal(name_code);")
for n, c in L:
    w('        reveal_strlit("%s");' % n)
for n, c in L:
    peers = same[len(n)]
    idx, left = [], set(peers)
    # positions that tell all names of this length apart
    pos = []
    def groups(ps):
        g = {}
        for p in peers:
            g.setdefault(tuple(p[i] for i in ps), []).append(p)
        return max(len(v) for v in g.values())
    while groups(pos) > 1:
        pos.append(min(range(len(n)), key=lambda i: groups(pos + [i])))
    w('        assert("%s"@.len() == %d%s);' % (n, len(n), "".join(" && \"%s\"@[%d] == '%s'" % (n, i, n[i]) for i in pos)))
w("    }")
w("    pub proof fn lemma_other(s: Seq<char>)\n        ensures")
w("            name_code(s) is Some ==> code_name(name_code(s)->Some_0) == Some(s),")
w("            (%s) ==> name_code(s) is None," % " && ".join('s != "%s"@' % n for n, _ in L))
w("    { reveal(name_code); }")
w('''    /// C04: names and codes correspond one to one.
    pub proof fn theorem_one_to_one(c: u16, s: Seq<char>)
        ensures
            code_name(c) matches Some(n) ==> name_code(n) == Some(c),
            name_code(s) matches Some(k) ==> code_name(k) == Some(s),
    {
        lemma_names();
        lemma_other(s);
    }
    pub proof fn theorem_distinct(s: Seq<char>, t: Seq<char>)
        requires name_code(s) is Some, name_code(s) == name_code(t)
        ensures s == t
    {
        theorem_one_to_one(0, s);
        theorem_one_to_one(0, t);
    }
    }
}''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "theory", "status.rs"), "w").write("\n".join(o) + "\n")
