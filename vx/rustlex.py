"""A small Rust lexer and item scanner: enough structure to splice contracts
into unmodified source text (items, impls, functions, loops), nothing more."""
import re

class LexError(Exception):
    pass

class Tok(object):
    __slots__ = ("k", "s", "a", "b")
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self):
        return "%s:%r" % (self.k, self.s)

IDENT = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z_0-9]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?")
PUNCT3 = ("..=", "...", "<<=", ">>=")
PUNCT2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=",
          "%=", "^=", "&=", "|=", "..")

def lex(src):
    """Returns the tokens of `src` (comments and blanks dropped)."""
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif src.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(?:b|c|br|cr|r)?(#*)"').match(src, i)
        if m and not (m.group(1) and "r" not in m.group(0)):
            raw = "r" in m.group(0)
            j = m.end()
            if raw:
                e = src.find('"' + m.group(1), j)
                if e < 0:
                    raise LexError("unterminated raw string")
                j = e + 1 + len(m.group(1))
            else:
                while src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
            toks.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        m = re.compile(r"b?'(?:\\(?:u\{[^}]*\}|x..|.)|[^\\'])'", re.S).match(src, i)
        if m:
            toks.append(Tok("chr", m.group(0), i, m.end()))
            i = m.end()
            continue
        if c == "'":
            m = IDENT.match(src, i + 1)
            if not m:
                raise LexError("stray quote")
            toks.append(Tok("life", src[i:m.end()], i, m.end()))
            i = m.end()
            continue
        m = IDENT.match(src, i)
        if m:
            toks.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            s = m.group(0)
            toks.append(Tok("num", s, i, m.end()))
            i = m.end()
            continue
        for p in PUNCT3 + PUNCT2:
            if src.startswith(p, i):
                toks.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            toks.append(Tok("p", c, i, i + 1))
            i += 1
    return toks

OPEN = {"(": ")", "[": "]", "{": "}"}

def match_close(toks, i):
    """Index of the token closing the bracket at `i`."""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.s in OPEN:
                depth += 1
            elif t.s in ")]}":
                depth -= 1
                if depth == 0:
                    return j
    raise LexError("unbalanced bracket")

def skip_angles(toks, i):
    """`toks[i]` is `<`: index just past the matching `>`."""
    depth = 0
    while i < len(toks):
        s = toks[i].s if toks[i].k == "p" else ""
        if s == "<":
            depth += 1
        elif s == ">":
            depth -= 1
            if depth == 0:
                return i + 1
        elif s in OPEN:
            i = match_close(toks, i)
        i += 1
    raise LexError("unbalanced <>")

class Item(object):
    """attrs: list of (a,b) token ranges; [start,end) token range without attrs."""
    def __init__(self, kind, name, attrs, start, end, **kw):
        self.kind, self.name, self.attrs, self.start, self.end = kind, name, attrs, start, end
        self.__dict__.update(kw)

def scan_items(toks, i, end):
    items = []
    while i < end:
        attrs = []
        while toks[i].s == "#" and toks[i].k == "p":
            j = i + 1
            if toks[j].s == "!":
                j += 1
            c = match_close(toks, j)
            attrs.append((i, c + 1))
            i = c + 1
            if i >= end:
                return items
        start = i
        j = i
        if toks[j].s == "pub":
            j += 1
            if toks[j].s == "(":
                j = match_close(toks, j) + 1
        kw = j
        quals = []
        while toks[kw].s in ("unsafe", "const", "async", "extern", "default") and toks[kw + 1].k in ("id", "str") \
                and (toks[kw + 1].s in ("fn", "unsafe", "extern", "impl", "trait") or toks[kw + 1].k == "str"):
            quals.append(toks[kw].s)
            kw += 1
        s = toks[kw].s
        if s == "fn":
            it = scan_fn(toks, kw, attrs, start)
        elif s in ("struct", "enum", "union"):
            name = toks[kw + 1].s
            j = kw + 2
            body = None
            while True:
                if toks[j].s == "<" and toks[j].k == "p":
                    j = skip_angles(toks, j)
                    continue
                if toks[j].s == ";":
                    e = j + 1
                    break
                if toks[j].s == "(":
                    body = (j, match_close(toks, j))
                    j = body[1] + 1
                    continue
                if toks[j].s == "{":
                    body = (j, match_close(toks, j))
                    e = body[1] + 1
                    break
                j += 1
            it = Item(s, name, attrs, start, e, body=body, kw=kw)
        elif s in ("impl", "trait", "mod"):
            j = kw + 1
            while not (toks[j].k == "p" and toks[j].s in ("{", ";")):
                if toks[j].k == "p" and toks[j].s == "<":
                    j = skip_angles(toks, j)
                    continue
                if toks[j].k == "p" and toks[j].s in "([":
                    j = match_close(toks, j)
                j += 1
            if toks[j].s == ";":
                it = Item(s, toks[kw + 1].s, attrs, start, j + 1, body=None, kw=kw)
            else:
                c = match_close(toks, j)
                it = Item(s, toks[kw + 1].s, attrs, start, c + 1, body=(j, c), kw=kw)
                if s == "impl":
                    it.trait, it.selfty = impl_header(toks, kw, j)
        else:  # use, const, static, type, extern crate, macro_rules!, macro call
            name = toks[kw + 1].s if kw + 1 < end else ""
            j = kw
            while not (toks[j].k == "p" and toks[j].s == ";"):
                if toks[j].k == "p" and toks[j].s in OPEN:
                    brace = toks[j].s == "{"
                    j = match_close(toks, j)
                    if brace and s not in ("use", "const", "static", "type", "let"):
                        break
                j += 1
            it = Item(s, name, attrs, start, j + 1, kw=kw)
        items.append(it)
        i = it.end
    return items

def base_name(toks, a, b):
    """Last path segment of the type in [a,b), references and generics stripped."""
    i = a
    while i < b and (toks[i].s in ("&", "&&", "mut", "dyn") or toks[i].k == "life"):
        i += 1
    name = None
    while i < b:
        if toks[i].k == "id":
            name = toks[i].s
            i += 1
        elif toks[i].s == "::":
            i += 1
        elif toks[i].s == "<":
            i = skip_angles(toks, i)
        else:
            if name is None:
                return "".join(t.s for t in toks[a:b])
            break
    return name

def impl_header(toks, kw, brace):
    i = kw + 1
    if toks[i].s == "<":
        i = skip_angles(toks, i)
    f, w, j = None, brace, i
    while j < brace:
        if toks[j].s == "<" and toks[j].k == "p":
            j = skip_angles(toks, j)
            continue
        if toks[j].k == "id" and toks[j].s == "for" and f is None:
            f = j
        if toks[j].k == "id" and toks[j].s == "where":
            w = j
            break
        j += 1
    if f is None:
        return None, base_name(toks, i, w)
    return base_name(toks, i, f), base_name(toks, f + 1, w)

def scan_fn(toks, kw, attrs, start):
    name = toks[kw + 1].s
    j = kw + 2
    if toks[j].s == "<":
        j = skip_angles(toks, j)
    params = (j, match_close(toks, j))
    j = params[1] + 1
    ret = None
    if toks[j].s == "->":
        r0 = j + 1
        j = r0
        while not (toks[j].s in ("{", ";") and toks[j].k == "p") and not (toks[j].k == "id" and toks[j].s == "where"):
            if toks[j].k == "p" and toks[j].s == "<":
                j = skip_angles(toks, j)
                continue
            if toks[j].k == "p" and toks[j].s in "([":
                j = match_close(toks, j)
            j += 1
        ret = (r0, j)
    while not (toks[j].k == "p" and toks[j].s in ("{", ";")):
        if toks[j].k == "p" and toks[j].s == "<":
            j = skip_angles(toks, j)
            continue
        j += 1
    if toks[j].s == ";":
        return Item("fn", name, attrs, start, j + 1, kw=kw, params=params, ret=ret, body=None, sigend=j)
    c = match_close(toks, j)
    return Item("fn", name, attrs, start, c + 1, kw=kw, params=params, ret=ret, body=(j, c), sigend=j)

def find_loops(toks, a, b):
    """Loops in the token range: (keyword index, body-brace index, end index)."""
    out = []
    for i in range(a, b):
        t = toks[i]
        if t.k == "id" and t.s in ("while", "for", "loop"):
            if t.s == "for" and toks[i + 1].s == "<":
                continue  # for<'a>
            j = i + 1
            while not (toks[j].k == "p" and toks[j].s == "{"):
                if toks[j].k == "p" and toks[j].s in "([":
                    j = match_close(toks, j)
                j += 1
            if t.s == "for" and not any(x.k == "id" and x.s == "in" for x in toks[i:j]):
                continue  # impl Trait for Type
            out.append((i, j, match_close(toks, j)))
    return out
