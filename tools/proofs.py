"""Runs only the proof side of the checks against the mutants, on a scratch copy (development aid).
proofs.py bugs|refactors [name prefixes]: per mutant, proved / OPAQUE functions / FAILED obligations."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "vx"))
BUGS, REFS, TODO = [], [], []
def M(name, prop, *edits): BUGS.append((name, [prop], edits))
def R(name, props, *edits): REFS.append((name, props.split(), edits))
exec(open(os.path.join(V, "tools/mutant_list.py")).read())
import check, analyze
from props import PROPS
def one(i):
    item = TODO[i]
    name, props, edits = item
    work = tempfile.mkdtemp(prefix="proofs-")
    try:
        shutil.copytree("/repo/src", work + "/src")
        for f, a, b in edits:
            p = os.path.join(work, f); s = open(p).read() if os.path.exists(p) else ""
            if callable(a): a, b = s, a(s)
            if a == "": open(p, "w").write(b); continue
            if s.count(a) != 1: print("%-24s EDIT DOES NOT APPLY %s" % (name, f)); return
            open(p, "w").write(s.replace(a, b))
        check.REPO = work
        crates = {}
        for p in props:
            for c, rel in PROPS[p]["crates"].items(): crates.setdefault(c, set()).update(rel)
        for c, rel in crates.items():
            v = check.verify_crate(c, sorted(rel), work, "quick")
            if v["state"] != "done": print("%-24s %-9s UNDECIDED %s" % (name, c, v["why"][:300])); continue
            s = analyze.summary(v["cr"], v["run"], v["a"], c, sorted(rel))
            t = []
            for k, w in s["opaque"].items(): t.append("opaque %s: %s" % (k, w[:160]))
            for k in s["lost"]: t.append("lost " + k)
            for f in s["failed"]: t.append("%s %s: %s" % ("undecided" if f["undecided"] else "FAILED", f["key"], f["undecided"] or f["msg"]))
            print("%-24s %-9s %s" % (name, c, "proved" if not t else "\n      ".join([""] + sorted(set(t)))))
            if "-v" in sys.argv:
                for f in s["failed"]: print(f["rendered"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
if __name__ == "__main__":
    from multiprocessing import Pool
    names = [a for a in sys.argv[2:] if a[0] != "-"]
    TODO[:] = [x for x in (BUGS if sys.argv[1] == "bugs" else REFS) if not names or any(x[0].startswith(n) for n in names)]
    with Pool(3) as p:
        p.map(one, range(len(TODO)), chunksize=1)
