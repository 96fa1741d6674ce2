"""Literals of the current source: concrete runs try them as inputs (a dictionary, as fuzzers use them)."""
import ast
import glob
import json
import os
import re
import sys
from rustlex import lex, scan_items

def unescape(body):
    body = re.sub(r"\\\r?\n\s*", "", body)
    def one(m):
        s = m.group(1)
        if s[0] == "u":
            return chr(int(s[2:-1].replace("_", ""), 16))
        if s[0] == "x":
            return chr(int(s[1:], 16))
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(s, s)
    return re.sub(r"\\(u\{[^}]*\}|x[0-9a-fA-F]{2}|.)", one, body, flags=re.S)

def of_file(path):
    strs, nums = set(), set()
    try:
        src = open(path).read()
        toks = lex(src)
    except Exception:
        return strs, nums
    for t in toks:
        try:
            if t.k == "str":
                m = re.match(r'(?:b|c|br|cr|r)?(#*)"(.*)"\1$', t.s, re.S)
                raw = "r" in t.s[:t.s.index('"')]
                s = m.group(2) if raw else unescape(m.group(2))
                if len(s) <= 80:
                    strs.add(s)
            elif t.k == "chr":
                strs.add(unescape(re.match(r"b?'(.*)'$", t.s, re.S).group(1)))
            elif t.k == "num":
                s = re.sub(r"(?:[iu](?:8|16|32|64|128|size)|f32|f64)$", "", t.s.replace("_", ""))
                v = int(s, 0) if not re.match(r"0\d", s) else int(s)
                if 0 <= v < 2 ** 64:
                    nums.add(v)
        except Exception:
            pass
    return strs, nums

def of_tree(repo):
    strs, nums = set(), set()
    for p in sorted(glob.glob(os.path.join(repo, "src", "**", "*.rs"), recursive=True)):
        s, n = of_file(p)
        strs |= s
        nums |= n
    return strs, nums

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")

def dictionary(repo):
    """The literals of the tree, those that the pinned tree does not have first."""
    strs, nums = of_tree(repo)
    try:
        base = json.load(open(BASE))
    except Exception:
        base = {"strs": [], "nums": []}
    return {"strs": sorted(strs), "nums": sorted(nums), "new_strs": sorted(strs - set(base["strs"])), "new_nums": sorted(nums - set(base["nums"]))}

if __name__ == "__main__":
    s, n = of_tree(sys.argv[1])
    json.dump({"strs": sorted(s), "nums": sorted(n)}, open(BASE, "w"), indent=0, ensure_ascii=True)
    print(len(s), len(n))
