#!/usr/bin/env python3
"""Builds and validates planted bugs (in scratch copies under /tmp/bw).

  bug.py make ID         write seeded/ID/patch.diff + meta.json from tools/bugs/ID.py, build the patched demo,
                         look for a small file that shows it, write demo.sh
  bug.py test ID         existing test suite with the patch (scratch copy of /repo)
  bug.py check ID [C..]  run quick checks of the property (or those named) against the patched copy
"""
import json, os, re, shutil, subprocess, sys
B = "/tmp/bw"
R = B + "/repo"
V = "/verif"
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def load(i):
    d = {}
    exec(open(f"{V}/tools/bugs/{i}.py").read(), d)
    return d
def reset():
    sh(f"cd {R} && git fetch -q /repo && git reset -q --hard FETCH_HEAD && git clean -fdq -e target")
def apply(i):
    reset()
    r = sh(f"cd {R} && git apply {V}/seeded/{i}/patch.diff")
    assert r.returncode == 0, r.stdout
def demo_build(repo, target):
    t = B + "/demo-src"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(V + "/tools/demo", t, ignore=shutil.ignore_patterns("target"))
    p = t + "/Cargo.toml"
    s = open(p).read().replace("/repo/jxl", repo + "/jxl")
    open(p, "w").write(s)
    r = sh(f"cd {t} && CARGO_TARGET_DIR={target} cargo build --offline -q")
    if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
    return target + "/debug/jxldemo"
def make(i):
    b = load(i)
    d = f"{V}/seeded/{i}"
    reset()
    os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = f"{R}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh(f"cd {R} && git diff").stdout)
    base = demo_build("/repo", B + "/dt-base")
    sh(f"cp {base} {B}/demo-base")
    pat = demo_build(R, B + "/dt-pat")
    sh(f"cp {pat} {B}/demo-{i}")
    open(d + "/meta.json", "w").write(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, indent=1) + "\n")
    # candidates
    best = None
    for gen in b["gens"]:
        if gen.startswith("/"):
            files = gen
        else:
            files = f"{B}/files-" + re.sub(r"\W+", "_", gen)
            if not os.path.isdir(files):
                g = gen if not gen.startswith("-") else "emit " + gen
                print(sh(f"EMIT={files} {V}/harness/target/debug/jxlmbt {g} --judge 0 --dir {files} --out {B}/gen.ndjson").stdout.strip()[:200])
        for args in b["args"]:
            r = sh(f"python3 {V}/tools/find.py {files} {B}/demo-base {B}/demo-{i} {args}")
            print(gen, "|", args, "|", r.stdout.strip())
            m = re.search(r"\((\d+), '(.*)'\)", r.stdout)
            if m and (best is None or int(m[1]) < best[0]):
                best = (int(m[1]), m[2], args)
    if best is None:
        print("no file shows it"); sys.exit(1)
    shutil.copy(best[1], d + "/case.jxl")
    shutil.rmtree(d + "/jxldemo", ignore_errors=True)
    shutil.copytree(V + "/tools/demo", d + "/jxldemo", ignore=shutil.ignore_patterns("target"))
    open(d + "/expected.txt", "w").write(subprocess.run([B + "/demo-base", d + "/case.jxl"] + best[2].split(), text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout)
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# Decodes case.jxl and compares what the decoder reports with expected.txt.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/jxldemo" "$T/"
(cd "$T/jxldemo" && CARGO_TARGET_DIR="$T/target" cargo build --offline -q) || exit 1
timeout 60 "$T/target/debug/jxldemo" "$D/case.jxl" {best[2]} > "$T/out" 2> "$T/err" || {{ tail -3 "$T/err"; exit 1; }}
diff "$D/expected.txt" "$T/out"
""")
    os.chmod(d + "/demo.sh", 0o755)
    out = subprocess.run([B + f"/demo-{i}", d + "/case.jxl"] + best[2].split(), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout
    import difflib
    print("\n".join(list(difflib.unified_diff(open(d + "/expected.txt").read().splitlines(), out.splitlines(), lineterm="", n=0))[:12])[:1500])
def test(i):
    apply(i)
    r = sh(f"bash {B}/vp/build.sh")
    if r.returncode: print(r.stdout[-3000:]); return
    sh(f"bash {B}/vp/test.sh {B}/out.json")
    o = json.load(open(B + "/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    want = base if isinstance(base, list) else base["stable"]
    miss = [t for t in want if t not in set(o["passed"])]
    print(i, "suite:", "ok" if not miss else f"BREAKS {len(miss)}: {miss[:5]}")
def check(i, props):
    apply(i)
    if not props: props = [load(i)["prop"]]
    vc = B + "/verif"
    os.makedirs(vc, exist_ok=True)
    sh(f"rsync -a --delete --exclude .git --exclude seeded --exclude harness/target --exclude work --exclude evidence {V}/ {vc}/")
    sh(f"grep -rlE '/repo/jxl|/verif' {vc} --include=*.py --include=*.toml --include=*.rs --include=*.sh | xargs sed -i -E 's#/repo/jxl#{R}/jxl#g; s#/verif/#{vc}/#g'")
    for p in props:
        r = sh(f"cd {vc} && VERIF_SEED=1 python3 run.py {p} quick")
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        what = [l for l in r.stdout.splitlines()][:1]
        print(i, p, "rc", r.returncode, f"{len(v)} violations", what, r.stdout.splitlines()[-1:])
        if r.returncode == 2: print(r.stdout[-1500:])
if __name__ == "__main__":
    c, i = sys.argv[1], sys.argv[2]
    if c == "make": make(i)
    elif c == "test": test(i)
    elif c == "check": check(i, sys.argv[3:])
