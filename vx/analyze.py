"""Reads Verus' answers: which obligations failed, in which function, and why."""
import json
import os
import re
import build
from crates import CRATES

VERIF_FAIL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic", "possible division", "decreases not satisfied", "unable to show", "could not prove",
              "possible bit shift", "cannot show invariant", "loop invariant", "assertion not satisfied", "fails to satisfy",
              "unreachable", "trait method implementation", "ensures not satisfied", "postcondition of", "while loop: ",
              "constructed value may fail", "precondition not met", "requirement not met: to access", "cannot prove", "index out of bounds", "requires not satisfied")
RLIMIT = ("resource limit", "rlimit", "timed out", "incompleteness", "unknown")

def theory_fns(text):
    """[(first, last, 'theory:name|fn')] for lemmas and drivers outside the spliced functions."""
    out = []
    marks = [(m.start(), m.group(1)) for m in re.finditer(r"/\*@theory ([^@]*)@\*/", text)]
    if not marks:
        return out
    for i, (p, name) in enumerate(marks):
        end = marks[i + 1][0] if i + 1 < len(marks) else len(text)
        fs = [(m.start(), m.group(1)) for m in re.finditer(r"\bfn (\w+)", text[p:end])]
        for j, (q, f) in enumerate(fs):
            e = fs[j + 1][0] if j + 1 < len(fs) else end - p
            out.append((text.count("\n", 0, p + q) + 1, text.count("\n", 0, p + e), "theory:%s|%s" % (name, f)))
    return out

def locate(ranges, line):
    best = None
    for a, b, k in ranges:
        if a <= line <= b and (best is None or b - a < best[1] - best[0]):
            best = (a, b, k)
    return best[2] if best else None

def spans_of(m):
    out = []
    for s in m.get("spans", []):
        out.append(s)
        e = s.get("expansion")
        while e:
            out.append(dict(e["span"], label=s.get("label"), is_primary=s.get("is_primary")))
            e = e["span"].get("expansion")
    return out

def classify(cr, r, name):
    ranges = build.fn_ranges(cr.text)
    th = theory_fns(cr.text)
    structural, failed, rlimit = [], [], []
    for m in r["msgs"]:
        if m.get("level") != "error":
            continue
        msg = m.get("message", "")
        if msg.startswith("aborting due to") or msg.startswith("could not compile"):
            continue
        low = msg.lower()
        sp = [s for s in spans_of(m) if s.get("file_name", "").endswith(name + ".rs")]
        key = None
        order = [s for s in sp if (s.get("label") or "").startswith("at ")] + [s for s in sp if s.get("is_primary")] + sp
        for s in order:
            key = locate(ranges, s["line_start"])
            if key:
                break
        if not key:
            for s in order:
                key = locate(th, s["line_start"])
                if key:
                    break
        rec = {"key": key, "msg": msg, "rendered": (m.get("rendered") or "")[:1500]}
        if any(x in low for x in RLIMIT) and "not satisfied" not in low:
            rlimit.append(rec)
        elif m.get("code") is None and any(low.startswith(x) or x in low for x in VERIF_FAIL):
            failed.append(rec)
        else:
            if key and key.startswith("theory:"):
                rec["key"] = None
            structural.append(rec)
    vr = r["json"].get("verification-results") or {}
    if vr.get("encountered-vir-error") and not structural:
        structural.append({"key": None, "msg": "verifier front-end error: " + r["stderr"][-300:], "rendered": ""})
    return {"failed": failed, "structural": structural, "rlimit": rlimit}

def verified_keys(cr):
    out = set()
    for vc, o in cr.outs.items():
        for k, i in o.fns.items():
            if i.get("has_body") and k not in o.opaque and not i.get("trusted"):
                out.add(vc + "|" + k)
    return out

def canaries(cr, r, name):
    a = classify(cr, r, name)
    return {x["key"] for x in a["failed"] if x["key"]}

def modules_of(name):
    cfg = CRATES[name]
    m = {vc: path for path, vc in cfg["modules"]}
    for t in cfg["theory"]:
        txt = build.read("theory/%s.rs" % t)
        m["theory:" + t] = re.search(r"pub mod (\w+)", txt).group(1)
    for t in cfg["shims"]:
        txt = build.read("shims/%s.rs" % t)
        m["shim:" + t] = re.findall(r"(?m)^pub mod (\w+)", txt)[-1]
    return m

def scan_trusted(name, rel, cr):
    """Mechanical scan for everything the proof takes on trust."""
    out = []
    cfg = CRATES[name]
    files = ["shims/%s.rs" % s for s in cfg["shims"]] + ["theory/%s.rs" % t for t in cfg["theory"]]
    for f in files:
        txt = build.read(f)
        for m in re.finditer(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", txt):
            out.append("%s: assumed contract of %s" % (f, m.group(1)))
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof )?(fn|struct) (\w+)", txt):
            kind = {"fn": "assumed contract or axiom", "struct": "opaque type"}[m.group(1)]
            out.append("%s: %s %s" % (f, kind, m.group(2)))
        for m in re.finditer(r"\b(assume|admit)\s*\(", txt):
            out.append("%s: %s" % (f, m.group(1)))
    for vc, o in cr.outs.items():
        for k, i in o.fns.items():
            if i.get("trusted"):
                out.append("%s|%s: trusted contract (%s)" % (vc, k, i["trusted"]))
    return out

def summary(cr, r, a, name, rel):
    mods = modules_of(name)
    want = {mods[x] for x in rel}
    times = (((r["json"].get("times-ms") or {}).get("smt") or {}).get("smt-run-module-times")) or []
    obligations = discharged = 0
    smt = 0
    for m in times:
        if m["module"] not in want:
            continue
        smt += m.get("time", 0)
        for f in m.get("function-breakdown", []):
            obligations += 1
            if f.get("success"):
                discharged += 1
    relv = set(rel)
    new = {}
    for vc, o in cr.outs.items():
        for k, i in o.fns.items():
            if not i["contract"] and "@" not in k:
                new[k.split("::")[-1]] = k
    fns, failed = [], []
    for vc, o in cr.outs.items():
        if vc not in relv:
            continue
        for k, i in sorted(o.fns.items()):
            if k in o.opaque or i.get("trusted"):
                continue
            fns.append({"function": k, "file": "%s:%d" % (i["file"], i["line"]),
                        "contract": "own" if i["contract"] else ("of the trait" if "@" in k else "none")})
    def info(key):
        vc, k = key.split("|", 1)
        return cr.outs[vc].fns.get(k) if vc in cr.outs else None
    for x in a["failed"] + a["rlimit"]:
        key = x["key"]
        if key is None:
            failed.append({"key": "(unattributed)", "msg": x["msg"], "undecided": "not attributable", "rendered": x["rendered"]})
            continue
        if key.split("|")[0] not in relv:
            continue
        und = ""
        if x in a["rlimit"]:
            und = "resource limit"
        i = info(key)
        if i is not None:
            called = sorted(n for n in new if n in i["calls"] and new[n] != key.split("|", 1)[1])
            if called:
                und = und or "calls %s, which has no contract" % ", ".join(called)
            if not i["contract"] and "@" not in key:
                und = und or "function without a contract"
            if i.get("closures", 0) > i.get("closures_ok", 0):
                und = und or "uses a closure the contracts do not describe"
        failed.append({"key": key, "msg": x["msg"], "undecided": und, "rendered": x["rendered"]})
    opaque, lost, drops = {}, [], []
    for vc, o in cr.outs.items():
        if vc not in relv:
            continue
        opaque.update({vc + "|" + k: w for k, w in o.opaque.items()})
        lost += [vc + "|" + k for k in o.lost]
        drops += ["%s: %s" % (vc, n) for n in o.notes]
    return {"obligations": obligations, "discharged": discharged, "smt_ms": smt, "functions": fns, "failed": failed,
            "trusted": scan_trusted(name, rel, cr), "opaque": opaque, "lost": lost, "drops": drops}

def verus_version(vres):
    for v in vres.values():
        if v.get("run"):
            return (v["run"]["json"].get("verus") or {}).get("version", "")
    return ""
