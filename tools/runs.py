#!/usr/bin/env python3
"""tools/runs.py [-j N] [prefix ...]: hand-written bugs (tools/mutant_list.py) through the existing tests,
the concrete runs and, where those stay quiet, the proofs, on scratch copies of /repo's HEAD."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/vx", V + "/tools"]
import literals
from automut import sh
W = "/tmp/runs"
BUGS = []
def M(name, prop, *edits): BUGS.append((name, prop, edits))
def R(*a): pass
exec(open(V + "/tools/mutant_list.py").read())
def worker():
    import multiprocessing
    w = W + "/w%d" % multiprocessing.current_process()._identity[0]
    if not os.path.exists(w):
        os.makedirs(w)
        subprocess.check_call("git clone -q /repo %s/repo && cp -a %s/replay %s/replay && rm -rf %s/replay/target" % (w, V, w, w), shell=True)
        subprocess.call("cp -a /repo/Cargo.lock %s/repo/ 2>/dev/null" % w, shell=True)
        p = w + "/replay/Cargo.toml"; s = open(p).read().replace('path = "/repo"', 'path = "%s/repo"' % w); open(p, "w").write(s)
    return w
def one(m):
    name, prop, edits = m
    w = worker(); repo = w + "/repo"
    rec = {"name": name, "prop": prop}
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=w + "/t")
    try:
        for f, a, b in edits:
            s = open(repo + "/" + f).read()
            if a not in s: rec["verdict"] = "STALE " + a[:60]; return rec
            open(repo + "/" + f, "w").write(s.replace(a, b, 1))
        rc, o, e = sh("cargo test --offline --no-fail-fast --lib -- --test-threads 4", repo, env, 200)
        if "could not compile" in e: rec["verdict"] = "NO BUILD " + e[-900:]; return rec
        if rc: rec["verdict"] = "tests catch it"; return rec
        env["CARGO_TARGET_DIR"] = w + "/rt"
        rc, o, e = sh("cargo build --offline --quiet", w + "/replay", env)
        if rc: rec["verdict"] = "replay does not build " + e[-300:]; return rec
        env["REPLAY_DICT"] = json.dumps(literals.dictionary(repo))
        rc, o, e = sh("timeout 200 %s/rt/debug/replay %s 1 quick" % (w, prop), w, env, 240)
        try: r = json.loads(o.strip().splitlines()[-1]); n = len(r["failures"])
        except Exception: n = "died"
        if n: rec["verdict"] = "caught by runs (%s)" % n; return rec
        import check, analyze
        from props import PROPS
        check.REPO = repo
        fails = []
        for c, rel in PROPS[prop]["crates"].items():
            v = check.verify_crate(c, sorted(rel), w, "quick")
            if v["state"] != "done": fails.append("undecided " + c); continue
            s = analyze.summary(v["cr"], v["run"], v["a"], c, sorted(rel))
            fails += ["opaque " + k for k in s["opaque"]] + [("undecided " if x["undecided"] else "FAILED ") + x["key"] for x in s["failed"]]
        rec["verdict"] = ("proof only" if any(f.startswith("FAILED") for f in fails) else "MISSED") + " " + "; ".join(sorted(set(fails)))
        return rec
    except Exception as e:
        rec["verdict"] = "tool error %r" % e; return rec
    finally:
        subprocess.call(["git", "-C", repo, "checkout", "-q", "--", "."])
if __name__ == "__main__":
    from multiprocessing import Pool
    args = sys.argv[1:]; j = 4
    if "-j" in args: k = args.index("-j"); j = int(args[k + 1]); del args[k:k + 2]
    shutil.rmtree(W, ignore_errors=True)
    todo = [m for m in BUGS if not args or any(m[0].startswith(a) for a in args)]
    with Pool(j) as p:
        for r in p.imap_unordered(one, todo, chunksize=1):
            print("%-14s %s %s" % (r["name"], r["prop"], r["verdict"])); sys.stdout.flush()
    shutil.rmtree(W, ignore_errors=True)
