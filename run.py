#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [quick|thorough]

Every check consists of steps.  A step either explores a specification with TLC ("mc"),
has the harness replay behaviours TLC printed on the real decoder ("replay"), or records what the
real decoder does ("harness") and has TLC judge the records with a trace specification ("trace").
"""
import json, os, re, subprocess, sys, time, shutil, hashlib, random

V = os.path.dirname(os.path.abspath(__file__))
H = V + "/harness"
BIN = H + "/target/debug/jxlmbt"
SPEC = V + "/spec"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

from checks import CHECKS, BASE_ASSUMPTIONS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def repo_hash():
    h = hashlib.sha256()
    for root in ("/repo/jxl", "/repo/jxl_simd", "/repo/jxl_macros", "/repo/jxl_transforms"):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", "resources", "tests", "fuzz"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def build():
    env = dict(os.environ)
    env.setdefault("CARGO_NET_OFFLINE", "true")
    os.makedirs(H + "/target", exist_ok=True)
    stamp = H + "/target/repo.sha"
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        # never trust time stamps alone: the crates under test are rebuilt when their text changed
        for p in ("jxl", "jxl_simd", "jxl_macros", "jxl_transforms"):
            sh(["cargo", "clean", "--offline", "-p", p], cwd=H, env=env)
    r = sh(["cargo", "build", "--offline"], cwd=H, env=env)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("the harness does not build")
        sys.exit(2)
    open(stamp, "w").write(now)

def tlc(module, cfg, work, cases=None, env_extra=None, coverage=False):
    env = dict(os.environ)
    env["JAVA_TOOL_OPTIONS"] = "-Xss128m"
    if cases:
        env["CASES"] = cases
    env.update(env_extra or {})
    meta = work + "/tlc-" + cfg
    cmd = ["tlc", "-workers", "8", "-metadir", meta, "-config", cfg + ".cfg", module + ".tla"]
    t = time.time()
    r = sh(cmd, cwd=SPEC, env=env)
    shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    st = {"generated": int(m[-1][0]), "distinct": int(m[-1][1])} if m else None
    m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
    return {"out": out, "stats": st, "depth": int(m[-1]) if m else 0, "rc": r.returncode,
            "wall": time.time() - t, "ok": "Model checking completed. No error has been found." in out}

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.work = f"{V}/work/{prop}-{tier}-{os.getpid()}"
        self.replays = f"{V}/work/replay/{prop}"
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.steps = [], [], []
        # "finding: property=C12 id=NAME text": TLC reports such a case as "FINDING NAME"
        self.known = {}
        for l in open(V + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                self.known[m.group(2)] = m.group(3)
        self.found = set()

    def violation(self, what, replay):
        os.makedirs(self.replays, exist_ok=True)
        p = f"{self.replays}/{len(self.violations)}.json"
        with open(p, "w") as f:
            json.dump(dict(replay, property=self.prop, what=what), f, indent=1)
        self.violations.append((what, p))

    def harness(self, args, out):
        cmd = [BIN] + [str(a) for a in args] + ["--out", out]
        t = time.time()
        r = sh(cmd, timeout=3000 if self.tier == "quick" else 30000)
        if r.returncode in (3,) or r.returncode < 0 or r.returncode >= 128:
            self.violation("the decoder hung or crashed the process: " + r.stdout[-400:],
                           {"cmd": cmd, "exit": r.returncode, "output": r.stdout[-4000:]})
            return None
        if r.returncode != 0:
            print(r.stdout[-4000:])
            print("harness error", cmd)
            sys.exit(2)
        try:
            info = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            print(r.stdout[-3000:]); sys.exit(2)
        return {"cmd": cmd, "info": info, "wall": round(time.time() - t, 1)}

    def judge(self, module, recs, name, src):
        """TLC judges the records; BAD lines are violations.  Long files are judged in parts."""
        lines = [x for x in open(recs, encoding="utf-8").read().split("\n") if x]
        part, total = 6000, None
        for at in range(0, max(1, len(lines)), part):
            p = recs
            if len(lines) > part:
                p = recs + ".part"
                open(p, "w").write("\n".join(lines[at:at + part]) + "\n")
            r = self.judge_part(module, p, name, src, lines[at:at + part])
            if p != recs:
                os.remove(p)
            if total is None:
                total = r
            else:
                total["wall"] += r["wall"]
                for k in total["stats"]:
                    total["stats"][k] += r["stats"][k]
        return total, lines

    def judge_part(self, module, recs, name, src, lines):
        r = tlc(module, module, self.work, cases=recs)
        if not r["ok"]:
            print(r["out"][-5000:])
            print("TLC error in", module)
            sys.exit(2)
        bads = re.findall(r'"BAD",\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', r["out"])
        bads = [(i, l, re.sub(r"\s+", " ", v)) for i, l, v in bads]
        if len(bads) != r["out"].count('"BAD"'):
            print(r["out"][-3000:])
            print("cannot read some answers of", module)
            if not bads:
                sys.exit(2)
        n_bad = 0
        for i, l, v in sorted(bads, key=lambda b: (int(b[0]), int(b[1]))):
            k = v.split()[1] if v.startswith("FINDING ") else None
            if k in self.known:
                self.found.add(k)
                continue
            if v.startswith("UNSOUND"):
                print(v, i)
                print("the specification and the harness disagree; nothing is decided")
                sys.exit(2)
            n_bad += 1
            if n_bad <= 20:
                self.violation(v, {"step": name, "module": module, "record_number": int(i), "position": int(l),
                                   "source": src, "record": json.loads(lines[int(i) - 1]),
                                   "replay": f"write record to a file and run: CASES=file tlc -config {module}.cfg {module}.tla in /verif/spec"})
        self.states += r["stats"]["distinct"]
        self.transitions += r["stats"]["generated"]
        self.traces += len(lines)
        return r

    def step_trace(self, s):
        name, args, module = s["name"], list(s["args"]), s["module"]
        for k, v in s.get(self.tier, {}).items():
            args += ["--" + k, v]
        args += ["--seed", s.get("seed", 0) * 1000 + SEED]
        recs = f"{self.work}/{name}.ndjson"
        h = self.harness(args, recs)
        if h is None:
            return
        r, lines = self.judge(module, recs, name, h["cmd"])
        if lines and len(self.samples) < 4:
            x = min(lines[:50], key=len)
            self.samples.append({"step": name, "record": json.loads(x) if len(x) < 6000 else x[:6000]})
        st = {"step": name, "kind": "trace", "module": module, "records": len(lines), "harness": h["info"],
              "states": r["stats"]["distinct"], "depth": r["depth"], "wall_s": round(h["wall"] + r["wall"], 1)}
        if s.get("corrupt") and lines and not self.violations:
            st["corrupted_records_rejected"] = self.corrupt(s["corrupt"], module, lines, name)
        self.steps.append(st)
        os.remove(recs)

    def corrupt(self, how, module, lines, name):
        """Binding: records altered in one place must be rejected."""
        rng = random.Random(SEED)
        out, tries = [], 0
        while len(out) < 24 and tries < 2000:
            tries += 1
            r = json.loads(rng.choice(lines))
            if how(r, rng):
                out.append(json.dumps(r))
        p = f"{self.work}/{name}-corrupt.ndjson"
        open(p, "w").write("\n".join(out) + "\n")
        r = tlc(module, module, self.work, cases=p)
        rej = len(set(re.findall(r'"BAD",\s*(\d+),', r["out"])))
        os.remove(p)
        if out and rej == 0:
            print("binding check failed: no corrupted record is rejected by", module)
            sys.exit(2)
        return f"{rej} of {len(out)}"

    def step_mc(self, s):
        c = dict(s.get(self.tier, {}))
        given = None
        if "input" in s:
            given = f"{self.work}/{s['name']}.input"
            if self.harness(s["input"] + c.get("input", []), given) is None:
                return
        r = tlc(s["module"], c.get("cfg", s["module"]), self.work, cases=given, env_extra={k: str(v) for k, v in c.items() if k.isupper()})
        if not r["ok"]:
            print(r["out"][-6000:])
            print("model checking failed in", s["module"])
            sys.exit(2)
        self.states += r["stats"]["distinct"]
        self.transitions += r["stats"]["generated"]
        st = {"step": s["name"], "kind": "model checking", "module": s["module"], "cfg": c.get("cfg", s["module"]),
              "states": r["stats"]["distinct"], "transitions": r["stats"]["generated"], "depth": r["depth"],
              "wall_s": round(r["wall"], 1)}
        if "replay" in s:
            # behaviours printed by TLC are realised as files and run on the decoder
            cases = re.findall(r'<<"CASE", "(.*)">>', r["out"])
            cases = [x.replace('\\"', '"') for x in cases]
            p = f"{self.work}/{s['name']}.cases"
            open(p, "w").write("\n".join(cases) + "\n")
            recs = f"{self.work}/{s['name']}.ndjson"
            h = self.harness([s["replay"], "--cases", p, "--seed", SEED] + s.get("replay_args", []) + c.get("replay_args", []), recs)
            if h is not None:
                rr, lines = self.judge(s["judge"], recs, s["name"], h["cmd"])
                st.update(behaviours_replayed=len(cases), records=len(lines), harness=h["info"])
                if lines and len(self.samples) < 4:
                    self.samples.append({"step": s["name"], "behaviour": cases[len(cases) // 2][:3000]})
                os.remove(recs)
            os.remove(p)
        self.steps.append(st)

    def run(self):
        t0 = time.time()
        build()
        shutil.rmtree(self.replays, ignore_errors=True)
        c = CHECKS[self.prop]
        for s in c["steps"]:
            if self.tier in s.get("tiers", ("quick", "thorough")):
                getattr(self, "step_" + s["do"])(s)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
                           "steps": self.steps},
              "assumptions": BASE_ASSUMPTIONS + c.get("assumptions", []),
              "known_findings": sorted(self.found),
              "wall_s": round(time.time() - t0, 1), "violations": len(self.violations)}
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{self.prop}.json", "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in sorted(self.found):
            print(f"KNOWN-FINDING: property={self.prop} {k} {self.known[k]}")
        for what, p in self.violations[:10]:
            print(what)
            print(f"VIOLATION property={self.prop} replay={p}")
        print(f"{self.prop} {self.tier}: {self.states} states, {self.traces} records, "
              f"{len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0

if __name__ == "__main__":
    if sys.argv[1] == "build":
        build()
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(sys.argv[1], tier).run())
