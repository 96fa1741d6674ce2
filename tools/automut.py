"""Systematic small mutations of every source file, tried against the bounded runs and the proofs (development aid).
automut.py [-j N] [file substrings]: survivors and their verdicts go to /tmp/automut.jsonl"""
import json, os, re, shutil, subprocess, sys, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "vx"))
import rustlex, literals
FILES = {
 "src/serializers/url_path.rs": "C01 C05", "src/deserializers/url_path.rs": "C01 C15", "src/serializers/url_query.rs": "C02 C05", "src/deserializers/url_query.rs": "C02 C15",
 "src/serializers/http_header.rs": "C03 C06", "src/deserializers/http_header.rs": "C03 C15", "src/serializers/rpc_request.rs": "C05", "src/deserializers/rpc_request.rs": "C05 C08",
 "src/serializers/rpc_response.rs": "C06 C04", "src/deserializers/rpc_response.rs": "C06 C04", "src/pool.rs": "C10 C09 C11 C12", "src/client.rs": "C12", "src/router.rs": "C07",
 "src/server.rs": "C08 C07", "src/misc.rs": "C08", "src/rfc7807.rs": "C13 C08", "src/json.rs": "C14", "src/json_pretty.rs": "C14", "src/msgpack.rs": "C14", "src/procedure.rs": "C01 C07",
}
CMP = {"==": ["!="], "!=": ["=="], "<": ["<="], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "&&": ["||"], "||": ["&&"], "+=": ["-="]}
IDS = {"true": ["false"], "false": ["true"], "is_some": ["is_none"], "is_none": ["is_some"], "Included": ["Excluded"], "is_ok": ["is_err"], "any": ["all"], "all": ["any"]}
def mutants(f):
    s = open("/repo/" + f).read()
    cut = s.find("#[cfg(test)]")
    body = s if cut < 0 else s[:cut]
    toks = rustlex.lex(body)
    out = []
    def sub(a, b, new, why):
        if body[a:b] != new: out.append((f, body.count("\n", 0, a) + 1, why, s[:a] + new + s[b:]))
    for i, t in enumerate(toks):
        prev = toks[i - 1].s if i else ""
        nxt = toks[i + 1].s if i + 1 < len(toks) else ""
        if t.s in CMP and not (t.s in "<>" and not (body[t.a - 1] == " " and body[t.b] == " ")):
            if t.s == "||" and (prev in "(,=" or prev == "move"): continue
            for x in CMP[t.s]: sub(t.a, t.b, x, "%s -> %s" % (t.s, x))
        if t.s in IDS:
            for x in IDS[t.s]: sub(t.a, t.b, x, "%s -> %s" % (t.s, x))
        if re.match(r"^\d+$", t.s) and prev != ".":
            sub(t.a, t.b, str(int(t.s) + 1), "%s + 1" % t.s)
            if int(t.s) > 0: sub(t.a, t.b, "0" if int(t.s) == 1 else str(int(t.s) - 1), "%s - 1" % t.s)
        if t.s.startswith('"') and len(t.s) > 2 and prev not in ("(", ",") or t.s.startswith('"') and prev == "(" and len(t.s) > 2:
            sub(t.a, t.b, t.s[:-1] + 'x"', "%s + x" % t.s)
        if t.s == "if" and nxt != "let":
            j = i + 1; d = 0
            while j < len(toks) and not (toks[j].s == "{" and d == 0):
                if toks[j].s in "([": d += 1
                if toks[j].s in ")]": d -= 1
                j += 1
            a, b = toks[i + 1].a, toks[j - 1].b
            sub(a, b, "!(%s)" % body[a:b], "negated if")
            sub(a, b, "(%s) || true" % body[a:b], "if true")
            sub(a, b, "(%s) && false" % body[a:b], "if false")
        if t.s == "as" and nxt in ("i64", "u64", "f64"):
            nar = {"i64": "i8", "u64": "u8", "f64": "f32"}[nxt]
            sub(t.a, toks[i + 1].b, "as %s as %s" % (nar, nxt), "narrowing")
        if t.s == "!" and prev in ("(", ",", "&&", "||", "=", "{", "if", "return") and nxt != "(" and toks[i-1].b <= t.a: sub(t.a, t.b, "", "! dropped")
        m = re.match(r"^(deserialize|serialize|visit)_(\w+)$", t.s)
        if t.s in ("HttpStatus", "ErrorKind", "Phase", "HttpMethod") and nxt == "::" and t.s != "ErrorKind":
            k = toks[i + 2]
            alt = {"NotFound": "MethodNotAllowed", "MethodNotAllowed": "NotFound", "BadRequest": "NotFound", "Head": "Options", "Get": "Head", "Key": "Value", "Value": "Key", "Path": "Query", "Query": "Header", "Header": "Query", "Status": "Header", "Init": "Header"}.get(k.s)
            if alt: sub(k.a, k.b, alt, "%s -> %s" % (k.s, alt))
    # statements dropped
    for m in re.finditer(r"(?m)^[ \t]+((?:let _ = )?(?:\*?self|node|request|response|rpc_response|serializer|url|track_assert!|track!)\b[^;{}]*;)", body):
        if m.group(1).startswith(("let ",)) and "let _ =" not in m.group(1): continue
        sub(m.start(1), m.end(1), "", "dropped: " + " ".join(m.group(1).split())[:60])
    # match arms dropped to the default, early success
    for m in re.finditer(r"track_panic!\(ErrorKind::\w+[^;]*\);", body):
        j = body.rfind("fn ", 0, m.start()); sig = body[j:m.start()]
        if "Result<()>" in sig or "Result<Self::Ok>" in sig: sub(m.start(), m.end(), "return Ok(());", "error -> Ok(())")
    for m in re.finditer(r"return Err\(([^;]*)\);", body): sub(m.start(), m.end(), "", "error return dropped")
    seen, res = set(), []
    for x in out:
        if x[3] not in seen: seen.add(x[3]); res.append(x)
    return res
def sh(c, cwd, env, t=600):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace"), "timeout"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def worker_dir():
    import multiprocessing
    w = "/tmp/am/w%d" % multiprocessing.current_process()._identity[0]
    if not os.path.exists(w):
        os.makedirs(w)
        subprocess.check_call("cp -a /repo %s/repo && cp -a %s/replay %s/replay && rm -rf %s/replay/target %s/repo/target" % (w, V, w, w, w), shell=True)
        p = w + "/replay/Cargo.toml"; s = open(p).read().replace('path = "/repo"', 'path = "%s/repo"' % w); open(p, "w").write(s)
    return w
def one(i):
    f, line, why, text = TODO[i]
    w = worker_dir()
    src = w + "/repo/" + f
    keep = open("/repo/" + f).read()
    rec = {"file": f, "line": line, "why": why, "text": keep.splitlines()[line - 1].strip()}
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=w + "/t", CARGO_INCREMENTAL="1")
    try:
        open(src, "w").write(text)
        rc, o, e = sh("cargo test --offline --no-fail-fast --lib -- --test-threads 4", w + "/repo", env, 120)
        if "could not compile" in e: rec["verdict"] = "does not build"; return rec
        if rc != 0: rec["verdict"] = "tests catch it"; return rec
        env["CARGO_TARGET_DIR"] = w + "/rt"
        rc, o, e = sh("cargo build --offline --quiet", w + "/replay", env)
        if rc != 0: rec["verdict"] = "replay does not build"; rec["err"] = e[-300:]; return rec
        env["REPLAY_DICT"] = json.dumps(literals.dictionary(w + "/repo"))
        rec["replay"] = {}
        for p in FILES[f].split():
            rc, o, e = sh("timeout 200 %s/rt/debug/replay %s 1 quick" % (w, p), w, env, 240)
            try: r = json.loads(o.strip().splitlines()[-1]); n = len(r["failures"])
            except Exception: n = "died"
            rec["replay"][p] = n
            if n: rec["verdict"] = "caught " + p; return rec
        rec["verdict"] = "REPLAY MISSES"
        import check, analyze
        from props import PROPS
        check.REPO = w + "/repo"
        fails = []
        for p in FILES[f].split():
            for c, rel in PROPS[p]["crates"].items():
                v = check.verify_crate(c, sorted(rel), w, "quick")
                if v["state"] != "done": fails.append("undecided " + c); continue
                s = analyze.summary(v["cr"], v["run"], v["a"], c, sorted(rel))
                fails += ["opaque " + k for k in s["opaque"]] + [("undecided " if x["undecided"] else "FAILED ") + x["key"] for x in s["failed"]]
        rec["proof"] = sorted(set(fails))
        return rec
    except Exception as e:
        rec["verdict"] = "tool error %r" % e; return rec
    finally:
        open(src, "w").write(keep)
TODO = []
if __name__ == "__main__":
    from multiprocessing import Pool
    args = sys.argv[1:]; j = 4
    if "-j" in args: k = args.index("-j"); j = int(args[k + 1]); del args[k:k + 2]
    count = "-n" in args
    args = [a for a in args if a != "-n"]
    for f in FILES:
        if not args or any(a in f for a in args):
            m = mutants(f); print(f, len(m)); TODO += m
    if count: sys.exit()
    with Pool(j) as p, open("/tmp/automut.jsonl", "a") as out:
        for r in p.imap_unordered(one, range(len(TODO)), chunksize=1):
            out.write(json.dumps(r) + "\n"); out.flush()
            if "MISSES" in r["verdict"] or "error" in r["verdict"]: print(json.dumps(r)); sys.stdout.flush()
