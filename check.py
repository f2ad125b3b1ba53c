#!/usr/bin/env python3
"""check.py ID [--replay FILE] | --setup
Decides one property of /repo's current working tree.
 1. tools/vx extracts the functions under contract from /repo's source, mechanically, into one Verus
    file per unit (units/*.vx) and Verus discharges every obligation, function by function.
 2. the driver runs the real code (native build of /repo's pact_models) against an executable oracle of
    the same contract: a bounded search for a failing input, and the stand-in for what Verus cannot read.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Other: the check could not run."""
import json, os, re, resource, subprocess, sys, time, shutil, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(HERE, "build"); VX = os.path.join(B, "vx-target/release/vx"); KNOWN = os.path.join(HERE, "known_findings.txt"); LITS = os.path.join(B, "literals.json")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.89.0", CARGO_NET_OFFLINE="true")
for k in ("CARGO_BUILD_TARGET", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"): ENV.pop(k, None)
TIER = os.environ.get("VERIF_TIER", "quick"); SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

def sh(cmd, timeout=880, env=ENV, cwd=HERE, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)

def build_vx():
    r = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "vx-target"), "--manifest-path", os.path.join(HERE, "tools/vx/Cargo.toml")])
    if r.returncode: raise SystemExit(f"cannot build tools/vx:\n{r.stderr[-3000:]}")

def build_driver(crate):
    """returns (binary or None, error text)"""
    try: r = sh([sys.executable, os.path.join(HERE, "tools/shadow.py"), REPO, os.path.join(B, "shadow")])
    except Exception as e: return None, repr(e)
    if r.returncode: return None, r.stderr
    sh([sys.executable, os.path.join(HERE, "tools/literals.py"), REPO, LITS, "--base", os.path.join(HERE, "tools/literals_base.json")])
    r = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(B, "target"), "--manifest-path", os.path.join(HERE, crate, "Cargo.toml")])
    if r.returncode: return None, r.stderr[-6000:]
    return os.path.join(B, "target/release", os.path.basename(crate)), ""

TRUST = re.compile(r"assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*(?:\][^\](]*)*?)\]\s*\(|(?:axiom fn)\s+(\w+)|#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*pub\s+(?:proof\s+)?(fn|struct|enum)\s+(\w+)|\b(assume|admit)\s*\(")
def run_unit(unit):
    """verify one unit; -> dict(status = ok | failed | undecided, ...)"""
    t0 = time.time(); d = os.path.join(B, "units"); os.makedirs(d, exist_ok=True)
    o, m = f"{d}/{unit}.rs", f"{d}/{unit}.json"
    res = {"unit": unit, "status": "undecided", "verified": 0, "errors": 0, "failed": [], "why": "", "functions": [], "trusted": [], "solver_ms": 0, "rewrites": {}, "vacuous": []}
    x = sh([VX, f"{HERE}/units/{unit}.vx", "--repo", REPO, "--out", o, "--meta", m])
    if x.returncode not in (0, 4): res["why"] = "extraction failed: " + x.stderr[-800:]; return res
    meta = json.load(open(m)); res["rewrites"] = meta["rewrites"]
    text = open(o).read()
    fns = [i for i in meta["items"] if i["kind"] == "fn"]
    res["functions"] = [f"{f['src']}:{f['src_line']} {f['name']}" for f in fns if not f["trusted"]]
    tr = ["contract assumed, body not read: " + f["name"] + " (" + f["src"] + ")" for f in fns if f["trusted"]]
    for g in TRUST.findall(text): tr.append("assumed: " + (g[0] and f"contract of {' '.join(g[0].split())}" or g[1] and f"axiom {g[1]}" or g[3] and f"external {g[2]} {g[3]}" or g[4]))
    res["trusted"] = sorted(set(tr))
    soft = meta.get("soft", [])  # proof hints or substitutions that no longer apply: a success still counts, a failure does not
    if meta["lost"]: res["why"] = "anchors not found in the current source: " + "; ".join(meta["lost"][:5]); res["wall_s"] = time.time() - t0; return res
    def verus(f, extra=()):
        try: r = sh(["verus", f, "--output-json", "--time-expanded", "--multiple-errors", "3", "--num-threads", "4", *extra], env=dict(os.environ), timeout=300)
        except subprocess.TimeoutExpired: return None, "verus timed out"
        try: return json.loads(r.stdout[r.stdout.index("{"):]), r.stderr
        except ValueError: return None, r.stderr or r.stdout
    def classify(j, err):
        """-> (translated, errors list)"""
        if not j or "verification-results" not in j or j["verification-results"].get("encountered-vir-error") or "verified" not in j["verification-results"]: return False, []
        if j["verification-results"]["verified"] + j["verification-results"]["errors"] == 0: return False, []  # the front end refused the text: nothing was put to the solver
        errs = []
        for blk in re.split(r"\n(?=error)", "\n" + err):
            mm = re.match(r"error(?:\[\w+\])?: (.*)", blk.strip())
            if not mm or mm.group(1).startswith("aborting due to"): continue
            ls = [int(n) for n in re.findall(r"-->\s+\S+?:(\d+):", blk)]; sub = [int(n) for n in re.findall(r"(?m)^\s*(\d+)\s*\|", blk)]
            errs.append((mm.group(1), ls, sub, blk.strip()[:1500]))
        return True, errs
    def owner(ls):
        for l in ls:
            for f in fns:
                if f["out_lines"][0] <= l <= f["out_lines"][1]: return f
        return None
    j, err = verus(o)
    ok, errs = classify(j, err)
    if ok and errs and any("esource limit" in e[0] or "rlimit" in e[0] for e in errs):
        j, err = verus(o, ("--rlimit", "60")); ok, errs = classify(j, err)
    if not ok:
        res["why"] = "not in the verifier's reach: " + "\n".join(l for l in err.splitlines() if l.startswith("error"))[:600]; res["log"] = err[-3000:]
    else:
        vr = j["verification-results"]; res["verified"], res["errors"] = vr["verified"], vr["errors"]
        try:
            for mod in j["times-ms"]["smt"]["smt-run-module-times"]: res["solver_ms"] += sum(fb.get("time", 0) for fb in mod.get("function-breakdown", []))
        except Exception: pass
        if vr["errors"] == 0 and not errs: res["status"] = "ok"
        else:
            hard = [e for e in errs if not ("esource limit" in e[0] or "rlimit" in e[0])]
            inrepo = [(owner(e[1]) or owner(e[2]), e) for e in hard]
            res["failed"] = [{"function": f and f["name"], "source": f and f"{f['src']}:{f['src_line']}", "obligation": e[0], "verifier_output": e[3]} for f, e in inrepo]
            if soft and any(f for f, _ in inrepo): res["why"] = "proof hints no longer apply: " + "; ".join(soft[:4]) + " -- then " + "; ".join(f"{x['function']}: {x['obligation']}" for x in res["failed"][:2])
            elif any(f for f, _ in inrepo): res["status"] = "failed"; res["why"] = "; ".join(f"{x['function']}: {x['obligation']}" for x in res["failed"][:4])
            else: res["why"] = "obligations not discharged outside the extracted code or within the resource limit"
    if res["status"] == "ok":
        # vacuity: with assert(false) at its start every function under contract must fail
        ov = f"{d}/{unit}_vac.rs"
        sh([VX, f"{HERE}/units/{unit}.vx", "--repo", REPO, "--out", ov, "--meta", ov + ".json", "--vacuity"])
        vm = [i for i in json.load(open(ov + ".json"))["items"] if i["kind"] == "fn" and not i["trusted"] and not i["novac"]]
        j2, err2 = verus(ov); ok2, errs2 = classify(j2, err2)
        hit = set()
        for e in errs2:
            for l in e[1] + e[2]:
                for f in vm:
                    if f["out_lines"][0] <= l <= f["out_lines"][1]: hit.add(f["name"])
        if ok2: res["vacuous"] = [f["name"] for f in vm if f["name"] not in hit]
        if res["vacuous"]: res["status"] = "undecided"; res["why"] = "contracts that prove too much (assert(false) is accepted): " + ", ".join(res["vacuous"])
        else: res["vacuity_note"] = "vacuity run did not complete"
        res["vacuity_checked"] = len(vm) if ok2 else 0
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_driver(binary, pid, only=None, seed=SEED, tier=TIER, budget=None):
    d = os.path.join(B, "driver"); os.makedirs(d, exist_ok=True); out, prog = f"{d}/{pid}.json", f"{d}/{pid}.progress"
    for f in (out, prog):
        if os.path.exists(f): os.remove(f)
    scratch = f"{d}/{pid}.scratch"; os.makedirs(scratch, exist_ok=True)
    budget = budget or (120 if tier == "quick" else 700)
    base = [binary, pid, "--seed", str(seed), "--tier", tier, "--known", KNOWN, "--literals", LITS, "--hang", "40", "--budget", str(budget)]
    env = dict(ENV, TMPDIR=scratch, HOME=scratch, RUST_BACKTRACE="0")
    def go(args, t):
        try: r = sh(base + args, timeout=t, env=env, cwd=scratch, preexec_fn=limits); return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e: return 96, "", "timed out"
    if only is not None: return go(["--only", str(only)], 120)
    rc, so, se = go(["--out", out], budget + 90)
    if rc in (0, 1) and os.path.exists(out): return json.load(open(out)), None
    if rc == 9: return None, f"no driver suite: {se}"
    # aborted, hung or ran out of memory: run again, writing down each case before it is run
    rc2, so2, se2 = go(["--progress", prog, "--out", out], budget * 3)
    if rc2 in (0, 1) and os.path.exists(out): return json.load(open(out)), None
    if os.path.exists(prog):
        idx, kind, desc = open(prog).read().split("\n", 2)
        # confirm the one case on its own before believing it
        rc3, so3, se3 = go(["--only", idx], 120)
        if rc3 in (0, 1): return None, f"driver ended with {rc}/{rc2} but case {idx} alone ends with {rc3}"
        why = "did not return within the time limit" if rc3 in (96, 97) else f"aborted the process (status {rc3}): {se3[-300:]}"
        return {"evaluations": int(idx) + 1, "distinct_nontrivial": 0, "counts": {}, "samples": {}, "known": [], "failures": [{"index": int(idx), "kind": kind, "case": desc, "why": why}]}, None
    return None, f"driver ended with status {rc}: {se[-500:]}"

def main():
    cfg = json.load(open(os.path.join(HERE, "checks.json")))
    os.makedirs(B, exist_ok=True)
    if sys.argv[1] == "--setup":
        build_vx()
        for crate in sorted({c.get("driver", "driver") for c in cfg.values()}):
            b, e = build_driver(crate)
            if not b: print("driver does not build:\n" + e); sys.exit(2)
        print("built"); return
    pid = sys.argv[1]; c = cfg[pid]; t0 = time.time()
    crate = c.get("driver", "driver")
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if "input" not in rp or rp["input"] is None: print(json.dumps(rp, indent=1)); return
        b, e = build_driver(crate)
        if not b: print(e); sys.exit(2)
        rc, so, se = run_driver(b, pid, rp["input"]["index"], rp["seed"], rp["tier"]); print(so + se); sys.exit(1 if rc else 0)
    with ThreadPoolExecutor(4) as ex:
        fd = ex.submit(build_driver, crate); build_vx()
        units = list(ex.map(run_unit, c["units"]))
        binary, berr = fd.result()
    drv, derr = (None, "the driver does not build against the current tree: " + berr[-1500:])
    if binary: drv, derr = run_driver(binary, pid)
    dseed, dtier = SEED, TIER
    if drv and not drv["failures"] and TIER == "quick" and any(u["status"] != "ok" for u in units):
        # a proof that was not redone: search longer for a failing input before saying so
        d2, _ = run_driver(binary, pid, seed=SEED + 1000, tier="thorough", budget=100)
        if d2: dseed, dtier = SEED + 1000, "thorough"; d2["evaluations"] += drv["evaluations"]; drv = d2
    failed = [f for u in units for f in u["failed"] if u["status"] == "failed"]
    undecided = [u for u in units if u["status"] == "undecided"]
    vac = [v for u in units for v in u["vacuous"]]
    fails = drv["failures"] if drv else []
    for k in (drv or {}).get("known", []): print(f"KNOWN-FINDING: property={pid} {k['kind']} {k['case']}: {k['why']}")
    for u in units:
        print(f"unit {u['unit']}: {u['status']}, {u['verified']} verified, {u['errors']} errors, {len(u['functions'])} functions under contract, solver {u['solver_ms']} ms" + (f" -- {u['why']}" if u["why"] else ""))
    if drv: print(f"driver: {drv['evaluations']} cases, {drv['distinct_nontrivial']} distinct non-trivial, {len(fails)} failures")
    else: print("driver: " + derr)
    viol = bool(fails or failed)
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True); rpath = os.path.join(rdir, f"{pid}.json")
    if viol:
        json.dump({"property": pid, "seed": dseed, "tier": dtier, "input": fails[0] if fails else None, "all_inputs": fails,
                   "failed_obligations": failed, "note": "replay: python3 check.py %s --replay %s" % (pid, rpath)}, open(rpath, "w"), indent=1)
    obligations = sum(u["verified"] + u["errors"] for u in units)
    cov = {"obligations": obligations, "discharged": sum(u["verified"] for u in units), "checker_cmd": "verus <unit>.rs (extracted from /repo by tools/vx; back end Z3): " + ", ".join(c["units"]),
           "trusted_base": sorted({t for u in units for t in u["trusted"]}) + c.get("trusted", []),
           "proof_status": {u["unit"]: u["status"] + (": " + u["why"] if u["why"] else "") for u in units},
           "functions_under_contract": [f for u in units for f in u["functions"]], "theorems": c.get("theorems", []), "solver_ms": sum(u["solver_ms"] for u in units),
           "vacuity_checked_functions": sum(u.get("vacuity_checked", 0) for u in units), "vacuous_functions": vac,
           "extraction_rewrites": {k: n for u in units for k, n in u["rewrites"].items()},
           "bounded_stand_in": c.get("bounded", ""), "driver": "ran" if drv else derr}
    if drv:
        cov.update({"evaluations": drv["evaluations"], "distinct_nontrivial": drv["distinct_nontrivial"], "rule": c.get("rule", "a case is one call sequence on the real code with one input; non-trivial when the oracle's antecedent was met; distinct by kind and printed input"),
                    "samples": [f"[{k}] {s}" for k, v in drv["samples"].items() for s in v][:24], "case_counts": drv["counts"]})
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "proof", "coverage": cov, "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fails) + len(failed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if fails:
        print(f"input: [{fails[0]['kind']}] {fails[0]['case'][:600]}\n  {fails[0]['why'][:800]}")
        print(f"VIOLATION property={pid} replay={rpath}"); sys.exit(1)
    if failed:
        for f in failed[:5]: print(f"failed obligation in {f['function']} ({f['source']}): {f['obligation']}")
        print(f"VIOLATION property={pid} replay={rpath} no-failing-input-found"); sys.exit(1)
    if not drv and undecided: sys.exit(2)
    print(f"held: {pid}" + (" (proof undecided for: " + ", ".join(u["unit"] for u in undecided) + ")" if undecided else "")); sys.exit(0)
main()
