"""Splices the contracts of /verif/contracts into the source text of /repo.

The executable text is copied from /repo byte for byte, except for what each
contract file lists (rewrites, skipped items) and the fixed edits below:
  * `#[cfg(test)]` items, attributes, `macro_rules!` and doc comments are dropped;
  * items and fields become `pub`;
  * a function's result gets the name `r`, and the contract goes before the body;
  * loop invariants go before loop bodies;
  * a `mut self` parameter becomes `self` with `let mut self_ = self;` at the start of the body.
"""
import glob
import os
import re
from rustlex import lex, scan_items, find_loops, match_close, Tok

class Contract(object):
    def __init__(self):
        self.text, self.loops, self.loopstart, self.loopend = "", {}, {}, {}
        self.iters, self.start, self.trusted, self.used, self.attr = {}, "", None, False, ""
        self.closures, self.closure_specs, self.optional = 0, {}, False

class Spec(object):
    pass

def parse_vc(path):
    sp = Spec()
    sp.path = path
    sp.source = None
    sp.fns, sp.rewrites, sp.skip, sp.droptypes, sp.derive, sp.only = {}, [], {}, {}, {}, None
    sp.prelude = sp.extra = ""
    cur, sink = [], None
    for ln, line in enumerate(open(path), 1):
        if line.startswith("%%"):
            continue
        if line.startswith("%"):
            word, _, rest = line[1:].rstrip("\n").partition(" ")
            rest = rest.strip()
            if word == "source":
                sp.source = rest
            elif word == "rewrite":
                m = re.match(r"`(.*)` => `(.*)`(?:\s+#.*)?$", rest)
                sp.rewrites.append((lex(m.group(1)), m.group(2), m.group(1)))
            elif word == "skip":
                k, _, why = rest.partition(" -- ")
                sp.skip[k.strip()] = why.strip()
            elif word == "only":
                sp.only = (sp.only or set()) | {rest.strip()}
            elif word == "drop-types":
                k, *names = rest.split()
                sp.droptypes[k] = names
            elif word == "derive":
                k, _, d = rest.partition(" ")
                sp.derive[k] = d
            elif word in ("fn", "fn?"):
                cur = []
                for k in rest.split(","):
                    k = k.strip()
                    if k in sp.fns:
                        c = sp.fns[k]
                    else:
                        c = sp.fns[k] = Contract()
                    cur.append(c)
                    c.optional = word == "fn?"
                sink = ("text",)
            elif word in ("loop", "loopstart", "loopend"):
                sink = (word, int(rest))
                if word == "loop":
                    for c in cur:
                        c.loops.setdefault(int(rest), "")
            elif word == "iter":
                i, name = rest.split()
                for c in cur:
                    c.iters[int(i)] = name
            elif word == "start":
                sink = ("start",)
            elif word == "trusted":
                for c in cur:
                    c.trusted = rest
            elif word == "closures":
                for c in cur:
                    c.closures = int(rest)
            elif word == "closure":
                i, _, txt = rest.partition(" ")
                for c in cur:
                    c.closure_specs[int(i)] = txt
                    c.closures = max(c.closures, int(i) + 1)
            elif word == "attr":
                for c in cur:
                    c.attr += rest + "\n"
            elif word in ("prelude", "extra"):
                sink = (word,)
            else:
                raise Exception("%s:%d: unknown directive %s" % (path, ln, word))
            continue
        if sink is None:
            continue
        if sink[0] == "prelude":
            sp.prelude += line
        elif sink[0] == "extra":
            sp.extra += line
        else:
            for c in cur:
                if sink[0] == "text":
                    c.text += line
                elif sink[0] == "start":
                    c.start += line
                elif sink[0] == "loop":
                    c.loops[sink[1]] = c.loops.get(sink[1], "") + line
                elif sink[0] == "loopstart":
                    c.loopstart[sink[1]] = c.loopstart.get(sink[1], "") + line
                elif sink[0] == "loopend":
                    c.loopend[sink[1]] = c.loopend.get(sink[1], "") + line
    return sp

class Out(object):
    """The extraction of one source file."""
    def __init__(self):
        self.text = ""
        self.fns = {}        # key -> info
        self.notes = []
        self.lost = []       # contracts without a function
        self.opaque = {}     # key -> reason (body not verified on this run)

def find_closures(toks, body):
    """Closures in a body: `|` where an expression starts (`|_|` of map_err is not counted).
    [(first bar, last bar, body start, body end)] in source order, outermost first."""
    out, i = [], body[0]
    while i < body[1]:
        t = toks[i]
        if t.k == "p" and t.s in ("|", "||"):
            p = toks[i - 1]
            if (p.k == "p" and p.s in ("(", ",", "=", "{", ";", "=>", "&")) or p.s in ("move", "return"):
                j = i
                if t.s == "|":
                    j = i + 1
                    while j < body[1] and not (toks[j].k == "p" and toks[j].s == "|"):
                        j += 1
                if not (j == i + 2 and toks[i + 1].s == "_"):
                    e = j + 1
                    while e < body[1]:
                        q = toks[e]
                        if q.k == "p" and q.s in ("(", "[", "{"):
                            e = match_close(toks, e)
                        elif q.k == "p" and q.s in (",", ";", ")", "]", "}"):
                            break
                        e += 1
                    out.append((i, j, j + 1, e))
                i = j
        i += 1
    return out

def param_names(head):
    """The parameters' names in `|a: A, b: B| ...`."""
    depth, names, cur = 0, [], ""
    for ch in head[head.index("|") + 1:]:
        if ch in "(<[":
            depth += 1
        elif ch in ")>]":
            depth -= 1
        if ch == "|" or (ch == "," and depth == 0):
            if ":" in cur:
                names.append(cur.split(":")[0].strip())
            cur = ""
            if ch == "|":
                break
        else:
            cur += ch
    return names

def count_closures(toks, body):
    return len(find_closures(toks, body))

def has_cfg_test(toks, attrs):
    for a, b in attrs:
        s = "".join(t.s for t in toks[a:b])
        if s.startswith("#[cfg(test") or s == "#[test]":
            return True
    return False

def source_path(repo, source):
    """`dep:name-version/file` is a dependency's source in the cargo registry."""
    if source.startswith("dep:"):
        home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
        hits = glob.glob(os.path.join(home, "registry", "src", "*", source[4:]))
        return hits[0] if hits else source
    return os.path.join(repo, source)

def extract(repo, sp, force_opaque=(), canary=False):
    """force_opaque: {fn key: reason} whose bodies the verifier cannot take."""
    out = Out()
    src = open(source_path(repo, sp.source)).read()
    toks = lex(src)
    edits, hidden = [], []
    items = scan_items(toks, 0, len(toks))
    callable_names = set()

    def pos(i):
        return toks[i].a if i < len(toks) else len(src)

    def drop(a, b, why=None):
        edits.append((pos(a), toks[b - 1].b, ""))
        if why:
            out.notes.append(why)

    def drop_attrs(it):
        for a, b in it.attrs:
            drop(a, b)

    def make_pub(i):
        if toks[i].s != "pub":
            edits.append((toks[i].a, toks[i].a, "pub "))
        elif toks[i + 1].s == "(" and toks[i + 2].s in ("crate", "super", "self", "in"):
            c = match_close(toks, i + 1)
            edits.append((toks[i + 1].a, toks[c].b, ""))

    def fields(it):
        a, b = it.body
        i = a + 1
        depth_ok = True
        while i < b:
            while toks[i].s == "#":
                c = match_close(toks, i + 1)
                drop(i, c + 1)
                i = c + 1
            if i >= b:
                break
            make_pub(i)
            # to the next comma at depth 0
            ang = 0
            while i < b:
                t = toks[i]
                if t.k == "p" and t.s in "([{":
                    i = match_close(toks, i)
                elif t.k == "p" and t.s == "<":
                    ang += 1
                elif t.k == "p" and t.s == ">":
                    ang -= 1
                elif t.k == "p" and t.s == "," and ang == 0:
                    i += 1
                    break
                i += 1

    def do_fn(it, key, in_trait_impl, pub):
        c = sp.fns.get(key)
        info = {"key": key, "contract": bool(c), "line": src.count("\n", 0, toks[it.kw].a) + 1,
                "file": sp.source}
        drop_attrs(it)
        callable_names.add(it.name)
        if it.ret and c is not None:
            a, b = it.ret
            edits.append((pos(a), pos(a), "(r: "))
            edits.append((toks[b - 1].b, toks[b - 1].b, ")"))
        loops = find_loops(toks, it.body[0], it.body[1]) if it.body else []
        if it.body:
            j = it.kw
            while toks[j].s != "(":
                j += 1
            if toks[j + 1].s == "mut" and toks[j + 2].s == "self":
                edits.append((toks[j + 1].a, toks[j + 2].a, ""))
                edits.append((toks[it.body[0]].b, toks[it.body[0]].b, " let mut self_ = self; "))
                for i in range(it.body[0], it.body[1]):
                    if toks[i].k == "id" and toks[i].s == "self":
                        edits.append((toks[i].a, toks[i].b, "self_"))
        body_calls = set()
        if it.body:
            for i in range(it.body[0], it.body[1]):
                if toks[i].k == "id" and toks[i + 1].k == "p" and toks[i + 1].s in ("(", "::", "!"):
                    body_calls.add(toks[i].s)
                elif toks[i].k == "id":
                    body_calls.add("=" + toks[i].s)
        info["calls"] = body_calls
        info["has_body"] = bool(it.body)
        info["closures"] = count_closures(toks, it.body) if it.body else 0
        info["closures_ok"] = c.closures if c is not None else 0
        if c is not None and c.closure_specs and it.body:
            # the closure keeps its pattern and body; its parameter gets a type and its result a contract
            for n, (i, j, a, e) in enumerate(find_closures(toks, it.body)):
                if n not in c.closure_specs:
                    continue
                head = c.closure_specs[n]
                names = param_names(head)
                pat = src[toks[i].b:toks[j].a] if i != j else ""
                if not names or [p.strip() for p in pat.split(",")] == names:
                    bind = ""
                elif len(names) == 1:
                    bind = "let %s = %s; " % (pat, names[0])
                else:
                    bind = "let (%s) = (%s); " % (pat, ", ".join(names))
                edits.append((toks[i].a, toks[j].b, head + " { " + bind))
                edits.append((toks[e - 1].b, toks[e - 1].b, " }"))
        why = force_opaque.get(key) if isinstance(force_opaque, dict) else None
        if c is not None:
            c.used = True
            if not why and not c.trusted and len(loops) != len(c.loops):
                why = "loop structure changed (%d loops, contracts for %d)" % (len(loops), len(c.loops))
            for n, (k, br, e) in enumerate(loops):
                is_for = toks[k].s == "for"
                if not why and not c.trusted and c.loops.get(n, "").strip() and is_for != (n in c.iters):
                    why = "loop structure changed (loop %d is %s `for` loop)" % (n, "now a" if is_for else "no longer a")
        elif loops and not why:
            why = "loop without an invariant in a function without a contract"
        if c is not None and c.trusted:
            info["trusted"] = c.trusted
        pre = "/*@fn %s@*/ " % key
        if why:
            out.opaque[key] = why
        if why or (c is not None and c.trusted):
            pre += "#[verifier::external_body] "
            if it.body:
                edits.append((toks[it.body[0]].a, toks[it.body[1]].b, "{ unimplemented!() }"))
                hidden.append((toks[it.body[0]].a, toks[it.body[1]].b))
        if c is not None and c.attr:
            pre += c.attr.strip() + " "
        edits.append((toks[it.start].a, toks[it.start].a, pre))
        if pub:
            make_pub(it.start)
        if c is not None and it.body:
            edits.append((toks[it.sigend].a, toks[it.sigend].a, "\n" + c.text.rstrip("\n") + "\n"))
            if not why and not c.trusted:
                if canary:
                    pass
                elif c.start:
                    edits.append((toks[it.body[0]].b, toks[it.body[0]].b, "\n" + c.start))
                for n, (k, br, e) in enumerate(loops):
                    edits.append((toks[br].a, toks[br].a, "\n" + c.loops.get(n, "")))
                    if n in c.iters:
                        j = k
                        while toks[j].s != "in":
                            j += 1
                        edits.append((toks[j].b, toks[j].b, " %s:" % c.iters[n]))
                    if n in c.loopstart:
                        edits.append((toks[br].b, toks[br].b, "\n" + c.loopstart[n]))
                    if n in c.loopend:
                        edits.append((toks[e].a, toks[e].a, "\n" + c.loopend[n]))
        if canary and it.body and not why and not (c is not None and c.trusted):
            edits.append((toks[it.body[0]].b, toks[it.body[0]].b, " proof { assert(false); } "))
        edits.append((toks[it.end - 1].b, toks[it.end - 1].b, " /*@end@*/"))
        out.fns[key] = info

    def do_members(it, key_prefix, in_trait_impl, drops, is_trait=False):
        a, b = it.body
        for m in scan_items(toks, a + 1, b):
            if has_cfg_test(toks, m.attrs):
                drop(m.attrs[0][0], m.end)
                continue
            if m.kind == "fn":
                key = key_prefix + "::" + m.name
                if key in sp.skip:
                    drop(m.start, m.end)
                    drop_attrs(m)
                    out.notes.append("skipped fn %s: %s" % (key, sp.skip[key]))
                    continue
                do_fn(m, key, in_trait_impl, pub=not in_trait_impl and not is_trait)
            elif m.kind == "type" and m.name in drops:
                drop(m.start, m.end)
            else:
                drop_attrs(m)

    for it in items:
        if has_cfg_test(toks, it.attrs):
            drop(it.attrs[0][0], it.end)
            continue
        if it.kind == "macro_rules":
            drop_attrs(it)
            drop(it.start, it.end)
            continue
        if it.kind == "impl":
            hk = "impl " + (it.trait + "@" if it.trait else "") + it.selfty
        else:
            hk = it.kind + " " + it.name
        if it.kind == "use":
            hk = " ".join(t.s for t in toks[it.kw:it.end - 1])
        if sp.only is not None and hk not in sp.only:
            drop_attrs(it)
            drop(it.start, it.end)
            continue
        if hk in sp.skip or ("use" in sp.skip and it.kind == "use" and toks[it.start].s != "pub"):
            drop_attrs(it)
            drop(it.start, it.end)
            out.notes.append("skipped %s: %s" % (hk, sp.skip.get(hk, sp.skip.get("use"))))
            continue
        drop_attrs(it)
        if it.kind in ("struct", "enum") and it.name in sp.derive:
            edits.append((toks[it.start].a, toks[it.start].a, "#[derive(%s)]\n" % sp.derive[it.name]))
        if it.kind == "struct":
            make_pub(it.start)
            if it.body:
                fields(it)
        elif it.kind in ("enum", "trait"):
            make_pub(it.start)
            if it.kind == "trait" and it.body:
                do_members(it, "trait " + it.name, False, (), True)
            elif it.body:
                i = it.body[0] + 1
                while i < it.body[1]:
                    if toks[i].s == "#" and toks[i + 1].s == "[":
                        c = match_close(toks, i + 1)
                        drop(i, c + 1)
                        i = c + 1
                    else:
                        i += 1
        elif it.kind == "impl":
            kp = (it.trait + "@" if it.trait else "") + it.selfty
            do_members(it, kp, it.trait is not None, sp.droptypes.get(kp, ()))
        elif it.kind == "fn":
            if it.name in sp.skip:
                drop(it.start, it.end)
                continue
            do_fn(it, it.name, False, pub=True)
        elif it.kind in ("const", "static", "type"):
            make_pub(it.start)

    # token rewrites (not inside dropped regions)
    dropped = [(a, b) for a, b, r in edits if r == "" and b > a] + hidden
    rewritten = []
    for pat, rep, txt in sorted(sp.rewrites, key=lambda x: -len(x[0])) + [(lex("|_|"), "|_unused|", "|_|")]:
        n, hits = len(pat), 0
        i = 0
        while i + n <= len(toks):
            if all(toks[i + k].s == pat[k].s and toks[i + k].k == pat[k].k for k in range(n)):
                a, b = toks[i].a, toks[i + n - 1].b
                if not any(x < b and a < y for x, y in dropped + rewritten):
                    edits.append((a, b, rep))
                    rewritten.append((a, b))
                    hits += 1
                    i += n
                    continue
            i += 1
        out.notes.append("rewrite `%s` => `%s`: %d places" % (txt, rep, hits))

    # innermost dropped regions inside larger dropped ones are redundant
    edits2 = []
    for e in edits:
        if (e[0], e[1]) in hidden:
            edits2.append(e)
            continue
        if any(x <= e[0] and e[1] <= y and (x, y) != (e[0], e[1]) and (y - x) > (e[1] - e[0]) and
               not (e[0] == e[1] and (e[0] == x or e[0] == y)) for x, y in dropped):
            continue
        edits2.append(e)
    edits2.sort(key=lambda e: (e[0], e[1]))
    res, p = [], 0
    for a, b, r in edits2:
        if a < p:
            if b <= p:
                continue
            a = p
        res.append(src[p:a])
        res.append(r)
        p = b
    res.append(src[p:])
    text = "".join(res)
    text = re.sub(r"(?m)^\s*//[/!].*$", "", text)
    out.text = text
    out.names = callable_names
    out.lost = [k for k, c in sp.fns.items() if not c.used and not c.optional]
    return out
