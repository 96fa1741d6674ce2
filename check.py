#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.

1. extracts the real functions, splices the contracts in, and lets Verus discharge every obligation;
2. runs a vacuity pass (assert(false) at the start of every verified body must fail);
3. runs the real crate on concrete inputs (bounded; validates the assumed contracts and
   supplies the failing input when an obligation fails).
Exit 0: held. Exit 1 with a VIOLATION line: broken. See DESIGN.md for what counts as what.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vx"))
import build
import analyze
import literals
from props import PROPS
from crates import CRATES

REPO = os.environ.get("VERIF_REPO", "/repo")

def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace"), "timeout after %ss" % timeout

def run_replay(prop, seed, tier, work):
    """Builds the replay crate against /repo and runs it."""
    res = {"ok": False, "note": "", "report": None}
    target = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "replay", "target"))
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    t = time.time()
    rc, out, err = sh(["cargo", "build", "--offline", "--locked", "--quiet"], 600, os.path.join(VERIF, "replay"), env)
    res["build_s"] = round(time.time() - t, 1)
    if rc != 0:
        res["note"] = "replay crate does not build against the current tree: " + err[-1500:]
        return res
    trace = os.path.join(work, "trace.json")
    env["REPLAY_TRACE"] = trace
    env["REPLAY_DICT"] = json.dumps(literals.dictionary(REPO))
    limit = 240 if tier == "quick" else 1500
    t = time.time()
    rc, out, err = sh([os.path.join(target, "debug", "replay"), prop, str(seed), tier], limit, work, env)
    res["run_s"] = round(time.time() - t, 1)
    try:
        res["report"] = json.loads(out.strip().splitlines()[-1])
        res["ok"] = True
    except (ValueError, IndexError):
        cur = open(trace).read() if os.path.exists(trace) else ""
        if cur:
            # the process died or hung while running this case on the real code
            try:
                case = json.loads(cur)
            except ValueError:
                case = {"raw": cur}
            case["reason"] = "the process ended abnormally (exit %s) while running this case; %s" % (rc, err[-300:])
            res["report"] = {"evaluations": 1, "distinct": 1, "samples": [], "failures": [case], "known": []}
            res["ok"] = True
        else:
            res["note"] = "replay gave no report (exit %s): %s" % (rc, err[-800:])
    return res

def verify_crate(name, relevant, work, tier):
    """Extract, verify, degrade what the verifier cannot take, and classify failures."""
    opaque, iters, out = {}, 0, None
    d = tempfile.mkdtemp(prefix=name + "-", dir=work)
    log = []
    while True:
        iters += 1
        try:
            cr = build.assemble(name, REPO, opaque)
        except Exception as e:  # the source no longer scans (or a file is gone)
            return {"crate": name, "state": "undecided", "why": "extraction failed: %r" % e, "iters": iters, "log": log}
        path = os.path.join(d, name + ".rs")
        open(path, "w").write(cr.text)
        extra = ["--rlimit", "40"] if tier == "thorough" else ["--rlimit", "20"]
        r = build.run_verus(path, extra, timeout=300)
        a = analyze.classify(cr, r, name)
        log.append({"iteration": iters, "verus": r["json"].get("verification-results"), "wall_s": round(r["wall"], 1),
                    "structural": [s["msg"] for s in a["structural"]][:6]})
        if r["rc"] == -1:
            return {"crate": name, "state": "undecided", "why": "verifier timeout", "iters": iters, "log": log, "cr": cr, "run": r, "a": a}
        if a["structural"]:
            new = {}
            for s in a["structural"]:
                if s["key"] and s["key"] not in opaque:
                    new[s["key"]] = "the verifier does not take this text: " + s["msg"][:200]
            if not new or iters > 14:
                return {"crate": name, "state": "undecided", "why": "not attributable: " + "; ".join(s["msg"][:300] for s in a["structural"][:3]),
                        "iters": iters, "log": log, "cr": cr, "run": r, "a": a}
            opaque.update(new)
            continue
        vr = r["json"].get("verification-results") or {}
        if not vr.get("verified"):
            return {"crate": name, "state": "undecided", "why": "no obligations reported: " + r["stderr"][-500:], "iters": iters, "log": log, "cr": cr, "run": r, "a": a}
        break
    return {"crate": name, "state": "done", "iters": iters, "log": log, "cr": cr, "run": r, "a": a, "opaque": opaque, "path": path}

def vacuity(name, opaque, work):
    """assert(false) at the start of every verified body: each must be refuted."""
    d = tempfile.mkdtemp(prefix=name + "-canary-", dir=work)
    try:
        cr = build.assemble(name, REPO, opaque, canary=True)
        path = os.path.join(d, name + ".rs")
        open(path, "w").write(cr.text)
        r = build.run_verus(path, ["--rlimit", "20"], timeout=300)
        hit = analyze.canaries(cr, r, name)
        want = analyze.verified_keys(cr)
        return {"expected": len(want), "refuted": len(want & hit), "silent": sorted(want - hit), "wall_s": round(r["wall"], 1)}
    except Exception as e:
        return {"expected": 0, "refuted": 0, "silent": [], "error": repr(e)}

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="htrpc-verif-")
    try:
        code = decide(prop, tier, seed, cfg, t0, ev_dir, work)
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def decide(prop, tier, seed, cfg, t0, ev_dir, work):
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        rp = ex.submit(run_replay, prop, seed, tier, work)
        vs = {n: ex.submit(verify_crate, n, rel, work, tier) for n, rel in cfg["crates"].items()}
        vres = {n: f.result() for n, f in vs.items()}
        can = {n: ex.submit(vacuity, n, v.get("opaque", {}), work) for n, v in vres.items() if v["state"] == "done"}
        canary = {n: f.result() for n, f in can.items()}
        replay = rp.result()

    # ---- proof side ----
    obligations = discharged = 0
    failed, undecided, fns, trusted, drops, solver_ms, cmds = [], [], [], [], [], 0, []
    for n, rel in cfg["crates"].items():
        v = vres[n]
        if v["state"] != "done":
            undecided.append("crate %s: %s" % (n, v["why"]))
            continue
        s = analyze.summary(v["cr"], v["run"], v["a"], n, rel)
        obligations += s["obligations"]
        discharged += s["discharged"]
        solver_ms += s["smt_ms"]
        fns += s["functions"]
        trusted += s["trusted"]
        drops += s["drops"]
        cmds.append(v["run"]["cmd"].replace(v["path"], "<extracted>/%s.rs" % n))
        for f in s["failed"]:
            (undecided if f["undecided"] else failed).append(
                "%s: %s (%s)" % (f["key"], f["msg"], f["undecided"]) if f["undecided"] else f)
        for k, why in s["opaque"].items():
            undecided.append("%s: body not verified on this tree: %s" % (k, why))
        for k in s["lost"]:
            undecided.append("%s: contract without a function on this tree" % k)
        for k in canary.get(n, {}).get("silent", []):
            undecided.append("%s: vacuity canary not refuted" % k)

    # ---- concrete side ----
    rep = replay["report"] or {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "known": []}
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
    listed = {k["id"]: k for k in kf["findings"] if k["property"] == prop}
    for k in rep["known"]:
        if k["id"] in listed and k["still_fails"]:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], listed[k["id"]]["what"]))
    fails = rep["failures"]

    viol = None
    replay_path = os.path.join(ev_dir, prop + ".replay.json")
    if os.path.exists(replay_path):
        os.unlink(replay_path)
    if fails or failed:
        body = {"property": prop, "failing_inputs": fails, "failed_obligations": failed,
                "how_to_replay": "cd /verif/replay && cargo run --offline -- %s %d %s  (prints every failing input)" % (prop, seed, tier)}
        json.dump(body, open(replay_path, "w"), indent=1)
        viol = "VIOLATION property=%s replay=%s" % (prop, replay_path)
        if not fails:
            viol += " no-failing-input-found"

    trusted = sorted(set(trusted))
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(cmds),
        "back_end": "Verus %s (Z3)" % analyze.verus_version(vres),
        "solver_ms": solver_ms,
        "functions_under_contract": fns,
        "functions_not_verified_on_this_tree": undecided,
        "decided_by_proof": not undecided,
        "vacuity_canaries": canary,
        "theorems": cfg.get("theorems", []),
        "failed_obligations": failed,
        "extraction_drops": sorted(set(drops)),
        "trusted_base": trusted,
        "bounded_validation": {
            "label": "bounded (concrete runs of the real crate; not counted as proved)",
            "evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"],
            "rule": cfg.get("rule", "cases as generated in /verif/replay/src; distinct by case name and input"),
            "samples": rep["samples"], "failures": len(fails), "skipped_for_time": rep.get("skipped_for_time", 0), "note": replay["note"],
            "build_s": replay.get("build_s"), "run_s": replay.get("run_s")},
    }
    if cfg.get("level") == "exploration":
        b = cov["bounded_validation"]
        cov.update({k: b[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + trusted,
          "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d functions; undecided %d; bounded runs %d (%s)" % (
        prop, obligations, discharged, len(fns), len(undecided), rep["evaluations"], replay["note"][:200] or "ok"))
    for u in undecided[:12]:
        print("  not decided by proof on this tree: " + u[:300])
    for f in failed[:8]:
        print("  failed obligation: %s: %s" % (f["key"], f["msg"]))
    for f in fails[:4]:
        print("  failing input: " + json.dumps(f)[:600])
    if viol:
        print(viol)
        return 1
    return 0

if __name__ == "__main__":
    main()
