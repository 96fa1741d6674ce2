"""Makes and tries planted bugs.  seed.py make DEF.py | try ID...  (scratch work under /tmp)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, 1 when it is not
set -e
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$here/demo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<'TOML'
[package]
name = "replay"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
htrpc = { path = "/repo" }
fibers = "0.1"
futures = "0.1"
handy_async = "0.2"
miasht = "0.0"
httparse = "1"
serde = "1"
serde_derive = "1"
serde_json = "1"
serdeconv = "0.4"
trackable = "1"
url = { version = "2", features = ["serde"] }
TOML
cd "$work"
CARGO_TARGET_DIR="$work/target" cargo build --offline --quiet
timeout 60 "$work/target/debug/replay"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def make(sid, prop, edits, demo, needs, breaks):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    sh("git -C /repo worktree prune; git clone -q /repo %s/r" % w)
    for f, a, b in edits:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        assert s.count(a) >= 1, (sid, f, a)
        assert s.count(a) == 1, (sid, "ambiguous", f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    out = subprocess.check_output(["git", "-C", w + "/r", "diff"])
    open(d + "/patch.diff", "wb").write(out)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(demo)
    shutil.copy(V + "/replay/Cargo.lock", d + "/demo.lock")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
def trybug(sid, demo=True):
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain").stdout == b""
    res = {"id": sid, "property": prop}
    if demo:
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); res["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout.decode()[-1500:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    assert r.returncode == 0, r.stdout
    try:
        if demo:
            r = sh("bash /opt/vp/build.sh"); res["build"] = r.returncode
            r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/seedtest.json"))
            bad = [t for t in base["stable"] if t not in got["passed"]]
            res["tests_broken"] = bad
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); res["demo_bug"] = r.returncode; res["demo_out"] = r.stdout.decode()[-300:]
        r = sh("python3 check.py %s quick" % prop, cwd=V)
        res["check"] = r.returncode; res["out"] = r.stdout.decode()[-1500:]
    finally:
        sh("git -C /repo checkout -- .")
    return res
if __name__ == "__main__":
    if sys.argv[1] == "make":
        exec(open(sys.argv[2]).read())
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            r = trybug(i, "-c" not in sys.argv)
            print(i, {k: v for k, v in r.items() if k not in ("out","demo_out")})
            print("   ", r["out"][-900:].replace("\n", "\n    "))
