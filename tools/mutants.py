"""Tries many small changes against the checks (development aid; no check reads this).
mutants.py bugs|refactors [-t] [names...]   -t: also run the repository's tests"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS, REFS = [], []
def M(name, prop, *edits): BUGS.append((name, [prop], edits))
def R(name, props, *edits): REFS.append((name, props.split(), edits))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def run(name, props, edits, tests):
    assert sh("git -C /repo status --porcelain").stdout == b""
    try:
        for f, a, b in edits:
            p = "/repo/" + f
            s = open(p).read() if os.path.exists(p) else ""
            if callable(a): a, b = s, a(s)
            if a == "": open(p, "w").write(b); continue
            if s.count(a) != 1: print(name, "EDIT DOES NOT APPLY", f, s.count(a)); return
            open(p, "w").write(s.replace(a, b))
        if sh("bash /opt/vp/build.sh").returncode: print(name, "DOES NOT BUILD"); return
        t = ""
        if tests:
            sh("bash /opt/vp/test.sh /tmp/mt.json")
            base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/mt.json"))
            if any(x not in got["passed"] for x in base["stable"]): t = " (tests catch it)"
        for p in props:
            r = sh("timeout 900 python3 check.py %s quick" % p, cwd=V)
            o = r.stdout.decode()
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            k = "QUIET" if r.returncode == 0 else ("weak" if v and v[0].endswith("no-failing-input-found") else "strong" if v else "BROKEN rc=%d" % r.returncode)
            print("%-28s %s %s%s" % (name, p, k, t)); sys.stdout.flush()
            open("/tmp/mut/%s.%s" % (name, p), "w").write(o)
    finally:
        sh("git -C /repo checkout -- . && git -C /repo clean -fdq src")
os.makedirs("/tmp/mut", exist_ok=True)
exec(open(os.path.join(V, "tools/mutant_list.py")).read())
kind = BUGS if sys.argv[1] == "bugs" else REFS
names = [a for a in sys.argv[2:] if a != "-t"]
for n, p, e in kind:
    if not names or any(n.startswith(x) for x in names): run(n, p, e, "-t" in sys.argv)
