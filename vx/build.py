"""Assembles a verified crate from /repo's current source and runs Verus on it."""
import json
import os
import re
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract
from crates import CRATES

class Crate(object):
    pass

def read(p):
    return open(os.path.join(VERIF, p)).read()

def assemble(name, repo="/repo", force_opaque=None, canary=None):
    """Returns the crate text and the extraction records."""
    cfg = CRATES[name]
    force_opaque = force_opaque or {}
    cr = Crate()
    cr.outs, cr.notes = {}, []
    parts = ["#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_shorthand_field_patterns, unused_macros, bare_trait_objects, unused_parens, mismatched_lifetime_syntaxes)]\n#![verifier::loop_isolation(false)]\n",
             "extern crate core; extern crate alloc; extern crate vstd; extern crate verus_builtin; extern crate verus_builtin_macros;\n",
             "use vstd::prelude::*;\n"]
    for s in cfg["shims"]:
        parts.append(read("shims/%s.rs" % s))
    parts.append("verus! {\n" + cfg["root"] + "}\n")
    tree = {}
    for path, vc in cfg["modules"]:
        sp = extract.parse_vc(os.path.join(VERIF, "contracts", vc + ".vc"))
        fo = {k.split("|", 1)[1]: v for k, v in force_opaque.items() if k.startswith(vc + "|")}
        out = extract.extract(repo, sp, fo, bool(canary))
        out.text = re.sub(r"/\*@fn ", "/*@fn " + vc + "|", out.text)
        cr.outs[vc] = out
        body = "use vstd::prelude::*;\nverus! {\n" + sp.prelude + out.text + "\n/*@extra " + vc + "@*/\n" + sp.extra + "\n} // verus!\n"
        tree[path] = body
    tops = {}
    for path in tree:
        segs = path.split("::")
        tops.setdefault(segs[0], []).append(path)
    for top, paths in tops.items():
        parts.append("pub mod %s {\n" % top)
        for p in paths:
            segs = p.split("::")
            if len(segs) == 1:
                parts.append(tree[p])
            else:
                parts.append("pub mod %s {\n%s}\n" % (segs[1], tree[p]))
        if any("::" in p for p in paths):
            parts.append(cfg.get("reexport", {}).get(top, ""))
        parts.append("}\n")
    for t in cfg["theory"]:
        parts.append("/*@theory %s@*/\n" % t + read("theory/%s.rs" % t))
    cr.text = "".join(parts)
    return cr

def fn_ranges(text):
    """Line ranges of the spliced functions: [(first, last, key)]."""
    out, stack = [], []
    for m in re.finditer(r"/\*@fn ([^@]*(?:@[^@*]*)*?)@\*/|/\*@end@\*/", text):
        line = text.count("\n", 0, m.start()) + 1
        if m.group(1):
            stack.append((line, m.group(1)))
        else:
            a, k = stack.pop()
            out.append((a, line, k))
    return out

def run_verus(path, extra=(), timeout=600):
    t = time.time()
    cmd = ["verus", "--edition", "2015", "--crate-type", "lib", "--output-json", "--time-expanded",
           "--num-threads", "8"] + list(extra) + [path, "--", "--error-format=json"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=os.path.dirname(path))
        out, err, rc = p.stdout.decode(), p.stderr.decode(), p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = "", "timeout", -1
    msgs = []
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                msgs.append(json.loads(line))
            except ValueError:
                pass
    try:
        js = json.loads(out[out.index("{"):])
    except ValueError:
        js = {}
    return {"rc": rc, "json": js, "msgs": msgs, "stderr": err, "cmd": " ".join(cmd), "wall": time.time() - t}

if __name__ == "__main__":
    name = sys.argv[1]
    cr = assemble(name, os.environ.get("VERIF_REPO", "/repo"))
    os.makedirs("/tmp/vx", exist_ok=True)
    path = "/tmp/vx/%s.rs" % name
    open(path, "w").write(cr.text)
    r = run_verus(path, sys.argv[2:])
    for m in r["msgs"]:
        if m.get("level") in ("error",):
            print(m.get("rendered"))
    if not r["msgs"]:
        print(r["stderr"][:3000])
    print(json.dumps(r["json"].get("verification-results")), "wall %.1f" % r["wall"])
    for vc, o in cr.outs.items():
        print(vc, "opaque:", o.opaque, "lost:", o.lost, "uncontracted:", [k for k, i in o.fns.items() if not i["contract"] and not i.get("trait_contract") and "@" not in k])
