#!/usr/bin/env python3
"""Driver: python3 check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only ENTRY]

Rebuilds the engine, the harness crate (whose dependency is /repo's current
working tree) and, where the property needs it, the generated code; runs the
symbolic executor on every registered entry; replays every reported
counterexample and a sample of the explored paths on the natively compiled
code; writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: no verdict (build failure, engine incompleteness, vacuity, replay mismatch).
"""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from specs import PROPS  # noqa: E402

B = os.path.join(V, ".build")
REPO = "/repo"
TOOL = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUST_BACKTRACE="0", RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


class NoVerdict(Exception):
    pass


def sh(cmd, cwd, timeout=850, env=ENV):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-3000:] + "\n" + r.stderr[-6000:] + "\n")
        ex = NoVerdict("command failed: " + " ".join(cmd))
        ex.stderr = r.stderr
        raise ex
    return r


def newest(path):
    m = 0
    for d, _, fs in os.walk(path):
        if "/target" in d:
            continue
        for f in fs:
            m = max(m, os.stat(os.path.join(d, f)).st_mtime_ns)
    return m


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--target-dir", f"{B}/engine"], f"{V}/llsym")
    host = f"{B}/host"
    if not os.path.exists(host) or os.stat(host).st_mtime_ns < newest(f"{V}/replay_host"):
        sh(["gcc", "-O1", "-rdynamic", "-o", host, f"{V}/replay_host/host.c", "-ldl"], V)


def build_gen(prop, deep):
    """Run the real code generator (built from /repo now) over the catalogue. Returns (programs, refused): formats it refuses although
    they are not on the list of unsupported ones."""
    out = f"{B}/gen"
    os.makedirs(out, exist_ok=True)
    sh(["cargo", "build", "--offline", "--target-dir", f"{B}/gentarget"], f"{V}/generator")
    tmp = f"{out}/{prop}.rs.new"
    with open(tmp, "w") as o:
        r = subprocess.run([f"{B}/gentarget/debug/generator", "deep" if deep else "quick"], stdout=o, stderr=subprocess.PIPE, text=True,
                           timeout=300, errors="replace", env=ENV)
    if r.returncode != 0:
        raise NoVerdict(f"generator exit {r.returncode}: {r.stderr[-1500:]}")
    refused, last = [], ""
    for l in r.stderr.splitlines():
        if l.startswith("UNSUPPORTED "):
            refused.append((l[12:], last[-200:]))
            last = ""
        else:
            last += " " + l.strip()
    dst = f"{out}/{prop}.rs"
    text = open(tmp).read()
    if not os.path.exists(dst) or open(dst).read() != text:
        os.replace(tmp, dst)
    else:
        os.unlink(tmp)
    return text.count("\n    pub fn run(") or text.count("pub fn run("), refused


def uncompilable(prop, ex):
    """Formats whose generated module is where the compiler reports errors; empty if any error lies elsewhere."""
    src = open(f"{B}/gen/{prop}.rs").read().split("\n")
    at, cur = {}, None
    for i, l in enumerate(src, 1):
        m = re.match(r"pub mod m(\d+) \{ // (.*)", l)
        if m:
            cur = m.group(2)
        at[i] = cur
    out, err = {}, None
    for l in ex.stderr.splitlines():
        if re.match(r"error(\[E\d+\])?:", l):
            err = l
        m = re.match(r"\s*--> (\S+):(\d+):\d+", l)
        if m and err:
            if not m.group(1).endswith(f"gen/{prop}.rs"):
                return []
            out.setdefault(at.get(int(m.group(2))), err)
            err = None
    return list(out.items())


def build_harness(prop, spec, deep):
    feats = list(spec["features"]) + (["deep"] if deep else [])
    env = dict(ENV, VERIF_GEN=f"{B}/gen/{prop}.rs")
    if spec.get("hook"):
        env["RUSTFLAGS"] = spec["hook"]
    tgt = f"{B}/target"
    sh(["cargo", "rustc", "--offline", "--profile", "sym", "--lib", "--target-dir", tgt, "--features", ",".join(feats), "--",
        "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], f"{V}/harness", env=env)
    d = f"{B}/run/{prop}" + ("-deep" if deep else "")
    os.makedirs(d, exist_ok=True)
    shutil.copy(f"{tgt}/sym/deps/harness.ll", f"{d}/harness.ll")
    so = f"{tgt}/sym/libharness.so"
    if not os.path.exists(so):
        so = f"{tgt}/sym/deps/libharness.so"
    shutil.copy(so, f"{d}/libharness.so")
    return d


def native(so, entry, inp, timeout=60):
    try:
        r = subprocess.run([f"{B}/host", so, entry, inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return {"kind": "hang", "msg": "", "out": "", "covers": []}
    o = r.stdout.decode("utf-8", "replace").splitlines()
    res = {"kind": "?", "msg": "", "out": "", "covers": []}
    for l in o:
        if l.startswith("out "):
            res["out"] += l[4:].strip()
        elif l.startswith("cover "):
            res["covers"].append(l[6:])
        elif l.startswith("end "):
            w = l[4:].split(" ", 1)
            res["kind"] = w[0]
            res["msg"] = w[1] if len(w) > 1 else ""
    if r.returncode < 0:
        res["kind"] = "panic"
        res["msg"] = r.stderr.decode("utf-8", "replace").strip()[-600:]
    elif r.returncode:
        res["kind"] = "error"
        res["msg"] = r.stderr.decode("utf-8", "replace")[-300:]
    return res


def run_job(d, e, shard, deep):
    nsh = e.get("shards", 1)
    to = e.get("timeout_deep" if deep else "timeout", 3000 if deep else 500)
    cmd = [f"{B}/engine/release/llsym", f"{d}/harness.ll", "--entry", e["fn"], "--timeout", str(to),
           "--qtimeout", str(e.get("qtimeout", 60000)), "--max-enum", str(e.get("max_enum", 300)),
           "--max-steps", str(e.get("max_steps", 400_000_000)), "--samples", str(e.get("samples", 12)), "--max-viol", "3"]
    if e.get("fork"):
        cmd += ["--fork"]
    if nsh > 1:
        cmd += ["--shard", f"{shard}/{nsh}"]
    try:
        # CPU seconds per process for confirming every path's byte-domain refutations; beyond it 1 path in 64 is confirmed
        env = dict(os.environ, LLSYM_CONF=str(round((3000 if deep else 240) / nsh, 1)))
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=to + 120, errors="replace", env=env)
        j = json.loads(r.stdout)
    except subprocess.TimeoutExpired:
        j = {"complete": False, "incomplete": ["engine wall limit"]}
    except Exception as ex:  # noqa: BLE001
        j = {"complete": False, "incomplete": [f"engine crashed: {r.stderr[-800:]} {ex}"]}
    if "error" in j:
        j.setdefault("incomplete", []).append(j["error"])
    j["fn"] = e["fn"]
    j["shard"] = shard
    return j


def known_findings(prop):
    p = f"{V}/known_findings.jsonl"
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known":
                    out.append(k)
    return out


def main():
    args = sys.argv[1:]
    if args[0] == "--setup":
        os.makedirs(B, exist_ok=True)
        build_engine()
        # warms the dependency build; every check rebuilds from /repo's current tree anyway
        for p, spec in PROPS.items():
            if not spec.get("gen"):
                build_harness(p, spec, False)
                break
        print("setup done")
        return
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    deep = tier == "thorough"
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    head = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
    violations = []
    with open(f"{B}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        refused, programs = [], 0
        if spec.get("gen"):
            programs, refused = build_gen(prop, deep)
        try:
            d = build_harness(prop, spec, deep)
        except NoVerdict as ex:
            bad = uncompilable(prop, ex) if spec.get("gen") else []
            if not bad:
                raise
            refused += bad
    if refused:
        # the real generator refuses, or emits code that does not compile, for formats it supports on the reference tree
        for i, (name, why) in enumerate(refused):
            rp = f"{B}/replays/{prop}-gen-{i}.json"
            os.makedirs(f"{B}/replays", exist_ok=True)
            json.dump({"property": prop, "format": name, "why": why}, open(rp, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  no usable decoder is generated for [{name}]: {' '.join(why.split())[:300]}")
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "wall_s": round(time.time() - t0, 1),
              "violations": len(refused), "assumptions": COMMON,
              "coverage": {"programs": max(programs, 1), "disagreements_checked": len(refused), "exhaustive": False,
                           "bounds": spec["bounds"], "repo_head": head}}
        json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
        sys.exit(1)
    tb = time.time() - t0
    so = f"{d}/libharness.so"
    if "--replay" in args:
        rp = json.load(open(args[args.index("--replay") + 1]))
        r = native(so, rp["entry"], rp["input"])
        print(json.dumps(r, indent=1, ensure_ascii=False))
        sys.exit(0 if r["kind"] in ("ok", "assume") else 1)
    ents = [e for e in spec["entries"] if (deep or not e.get("deep_only")) and (only is None or e["fn"] == only)]
    jobs = [(e, s) for e in ents for s in range(e.get("shards", 1))]
    jobs.sort(key=lambda x: -x[0].get("weight", 1))
    res = []
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        futs = {ex.submit(run_job, d, e, s, deep): (e, s) for e, s in jobs}
        for f in cf.as_completed(futs):
            res.append((futs[f][0], f.result()))
    res.sort(key=lambda x: (x[1]["fn"], x[1]["shard"]))
    problems = []
    known = known_findings(prop)
    known_hit = {}
    validated = 0
    dup_viol = 0
    samples_out = []
    covers = {}
    funcs = set()
    tot = dict.fromkeys(["paths_ok", "paths_assumed_away", "paths_fail", "paths_panic", "forks", "instructions", "queries", "sat",
                         "unsat", "unknown", "solver_s"], 0)
    per_entry = {}
    os.makedirs(f"{V}/.build/replays", exist_ok=True)
    for e, j in res:
        tag = f"{j['fn']}#{j['shard']}"
        if not j.get("complete"):
            problems.append(f"{tag}: exploration incomplete: {j.get('incomplete')}")
        for k in tot:
            tot[k] += j.get(k, 0)
        pe = per_entry.setdefault(j["fn"], {"paths": 0, "queries": 0, "solver_s": 0.0, "wall_s": 0.0, "complete": True})
        pe["paths"] += j.get("paths_ok", 0)
        pe["queries"] += j.get("queries", 0)
        pe["solver_s"] = round(pe["solver_s"] + j.get("solver_s", 0), 3)
        pe["wall_s"] = round(max(pe["wall_s"], j.get("wall_s", 0)), 2)
        pe["complete"] &= bool(j.get("complete"))
        if j.get("unknown"):
            problems.append(f"{tag}: {j['unknown']} solver queries undecided")
        for c, n in j.get("covers", {}).items():
            covers[(j["fn"], c)] = covers.get((j["fn"], c), 0) + n
        funcs.update(j.get("functions", []))
        for v in j.get("violations", []):
            r = native(so, j["fn"], v["input"])
            same = (v["kind"] == "fail" and r["kind"] == "fail" and r["msg"] == v["msg"]) or (
                v["kind"] == "panic" and r["kind"] == "panic")
            if not same and r["kind"] in ("fail", "panic", "hang"):
                same = True  # still a native violation, reported as the native run shows it
            if not same:
                problems.append(f"{tag}: counterexample did not reproduce natively: {v} -> {r}")
                continue
            msg = v["msg"] if v["kind"] == "fail" else f"panic: {v['msg']}"
            kf = next((k for k in known if k["entry"] == j["fn"] and re.search(k["match"], msg)), None)
            if kf:
                known_hit.setdefault(kf["id"], (kf, v["input"]))
                continue
            if any(x[0] == j["fn"] and x[2] == msg for x in violations):
                dup_viol += 1
                continue
            violations.append((j["fn"], v["kind"], msg, v["input"], r))
        smp = j.get("samples", [])
        cap = 200 if deep else 40
        for s in smp[:cap]:
            r = native(so, j["fn"], s["input"])
            if r["kind"] != "ok" or r["out"] != s["out"] or r["covers"] != s["covers"]:
                problems.append(f"{tag}: engine/native disagreement on {s} -> {r}")
            else:
                validated += 1
                if len(samples_out) < 12 and (len(samples_out) == 0 or samples_out[-1]["entry"] != j["fn"]):
                    samples_out.append({"entry": j["fn"], "input": s["input"][:200], "out": s["out"][:200], "covers": s["covers"][:8]})
    for e in ents:
        for c in e.get("cover", []):
            n = sum(v for (f, k), v in covers.items() if f == e["fn"] and (k == c or (c.endswith("*") and k.startswith(c[:-1]))))
            if n == 0:
                problems.append(f"{e['fn']}: vacuous: witness '{c}' was never reached")
        if per_entry.get(e["fn"], {}).get("paths", 0) == 0 and not any(v[0] == e["fn"] for v in violations):
            if not any(h[0]["entry"] == e["fn"] for h in known_hit.values()):
                problems.append(f"{e['fn']}: no path completed")
    wall = time.time() - t0
    level = spec.get("level", "model_checking")
    cov = {
        "states": tot["paths_ok"] + tot["paths_assumed_away"] + tot["paths_fail"] + tot["paths_panic"],
        "transitions": tot["instructions"],
        "traces_validated_against_impl": validated,
        "samples": samples_out,
        "exhaustive": not problems,
        "explanation": "states = completed symbolic paths; transitions = LLVM instructions executed symbolically; "
                       "traces_validated = explored paths whose solver model was replayed on the natively compiled code with equal outputs",
        "solver": {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
                   "solver_s": round(tot["solver_s"], 2)},
        "paths": {k: tot[k] for k in ("paths_ok", "paths_assumed_away", "paths_fail", "paths_panic", "forks")},
        "entries": per_entry,
        "covers": {f"{f}:{c}": n for (f, c), n in sorted(covers.items())},
        "bounds": spec["bounds_deep"] if deep and "bounds_deep" in spec else spec["bounds"],
        "outside_bounds": spec.get("outside", ""),
        "functions_encoded": sorted(x for x in funcs if re.search(spec.get("funcs", r"doodle|smallsorts|gencode"), x))[:600],
        "functions_encoded_total": len(funcs),
        "build_s": round(tb, 1),
        "repo_head": head,
    }
    if level == "translation_validation":
        cov["programs"] = programs
        cov["disagreements_checked"] = tot["paths_ok"] + tot["paths_fail"] + tot["paths_panic"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(wall, 1), "violations": len(violations) + dup_viol,
    }
    if problems:
        cov["problems"] = problems[:30]
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=False)
    for kf, inp in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {kf['what']} (input {inp})")
    for i, (fn, kind, msg, inp, r) in enumerate(violations):
        rp = f"{V}/.build/replays/{prop}-{i}.json"
        json.dump({"property": prop, "entry": fn, "kind": kind, "msg": msg, "input": inp, "native": r,
                   "how": f"python3 /verif/check.py {prop} --replay {rp}"}, open(rp, "w"), indent=1, ensure_ascii=False)
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  entry={fn} {msg} input={inp} native={r['kind']}: {' '.join(r['msg'].split())[:200]}")
    for p in problems:
        sys.stderr.write("NO-VERDICT: " + p[:1200] + "\n")
    print(f"{prop} {tier}: paths={cov['states']} queries={tot['queries']} solver_s={tot['solver_s']:.1f} "
          f"validated={validated} violations={len(violations)} problems={len(problems)} build={tb:.0f}s wall={wall:.0f}s")
    if violations:
        sys.exit(1)
    sys.exit(2 if problems else 0)


COMMON = [
    "rustc 1.99.1 front end and LLVM optimiser at opt-level 1 (the checked program is the emitted LLVM IR, overflow checks and debug assertions on)",
    "llsym semantics of LLVM IR (validated per run by native replay of explored paths) and Z3 4.8.12",
    "allocation succeeds; HashMap/HashSet RandomState keys fixed; undef/poison read as 0",
]

if __name__ == "__main__":
    try:
        main()
    except NoVerdict as e:
        sys.stderr.write(f"NO-VERDICT: {e}\n")
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        sys.stderr.write(f"NO-VERDICT: timeout {e}\n")
        sys.exit(2)
