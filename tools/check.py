#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.

 1. the crate is macro-expanded by rustc, the functions under contract are extracted from it and
    every obligation Verus generates for them is discharged (or not);
 2. the bounded stand-ins / replay search of the property run on the real crate.

 exit 0: held on everything explored;  exit 1 + VIOLATION line: broken.
"""
import concurrent.futures as cf
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "units")]
import common
import unit as U
from registry import CHECKS
from rsx import Crate, ExtractError, TRANSFORMS

VERIF = common.VERIF
WORK = common.WORK
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
LOCK = os.path.join(VERIF, "units", "lock.json")


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ deductive part


def run_unit(name, crate, wd, lock):
    m = importlib.import_module("u_" + name)
    rl = getattr(m, "RLIMIT", 30)
    r = {"unit": name, "status": "undecided", "functions": [], "failed": [], "verified": 0, "obligations": 0, "smt_ms": 0, "reason": "",
         "assumptions": [], "dropped": [], "cmd": "", "wall": 0.0, "canary": None}
    try:
        u = m.unit()
        r["assumptions"] = list(u.assumptions) + list(getattr(m, "ASSUMPTIONS", []))
        text, where, skel = u.build(crate)
        r["dropped"] = u.dropped
    except ExtractError as e:
        r["reason"] = f"lost anchor: {e}"
        return r
    except Exception as e:  # the extractor met something it does not understand
        r["reason"] = f"extraction failed: {type(e).__name__}: {e}"
        return r
    path = os.path.join(wd, name + ".rs")
    open(path, "w").write(text)
    r["functions"] = [f"{w[3]} as {w[0]}" for w in where]
    v = U.verus(path, rlimit=rl, timeout=330)
    if v["status"] == "rejected":
        # once more with other solver settings: an unstable proof is not a refutation
        v2 = U.verus(path, rlimit=rl * 3, timeout=max(60, 450 - v["wall"]), extra=("--smt-option", "smt.random_seed=7"))
        if v2["status"] in ("ok", "rejected"):
            v = v2
    r["cmd"] = v["cmd"]
    r["wall"] = round(v["wall"], 2)
    r["verified"] = v["verified"]
    r["obligations"] = v["verified"] + v["failed"]
    r["smt_ms"] = v["smt_ms"]
    if v["status"] == "ok":
        r["status"] = "proved" if v["verified"] > 0 else "undecided"
        r["reason"] = "" if v["verified"] > 0 else "no obligation was generated"
    elif v["status"] == "rejected":
        lines = text.split("\n")
        soft = True
        changed = []
        for e in v["errors"]:
            if e["message"].startswith("aborting due to"):
                continue
            fn = next((w[0] for ln in e["lines"] for w in where if w[1] <= ln <= w[2]), None)
            if re.search(r"rlimit|resource limit|timed? ?out", e["message"], re.I):
                continue
            soft = False
            if fn and lock.get(name, {}).get(fn) != skel.get(fn):
                changed.append(fn)
                continue
            r["failed"].append({"function": fn or "(lemma)", "obligation": e["message"], "at": [lines[ln - 1].strip()[:200] for ln in e["lines"][:2] if ln - 1 < len(lines)]})
        if r["failed"]:
            r["status"] = "rejected"
        elif soft:
            r["reason"] = "the solver gave up within its resource limit"
        else:
            r["reason"] = "not verified, but the loops the invariants were written for have changed in " + ", ".join(sorted(set(changed)))
    elif v["status"] == "timeout":
        r["reason"] = "the verifier did not finish"
    else:
        msg = "; ".join(e["message"].split("\n")[0][:160] for e in v["errors"][:2]) or v.get("stderr", "")[-200:]
        r["reason"] = "the verifier does not accept the extracted text: " + msg
    r["output"] = [{k: e[k] for k in ("message", "text", "labels")} for e in v["errors"][:8]]
    if r["status"] == "proved":
        # vacuity guard: with assert(false) first in every body, every body must be rejected
        try:
            ct, cw, _ = m.unit().build(crate, canary=True)
            cp = os.path.join(wd, name + "_canary.rs")
            open(cp, "w").write(ct)
            c = U.verus(cp, rlimit=rl, timeout=300)
            hit = {w[0] for e in c["errors"] if "assertion failed" in e["message"] for ln in e["lines"] for w in cw if w[1] <= ln <= w[2]}
            vac = sorted({w[0] for w in cw} - hit)
            vac = [x for x in vac if x not in getattr(m, "CANARY_SKIP", [])]
            r["canary"] = {"bodies": len({w[0] for w in cw}), "reachable": len(hit), "vacuous": vac}
            if vac and c["status"] == "rejected":
                r["status"] = "undecided"
                r["reason"] = "vacuous contract (unsatisfiable precondition): " + ", ".join(vac)
        except Exception as e:
            r["canary"] = {"error": str(e)}
    return r


def run_units(names, wd):
    if not names:
        return []
    lock = json.load(open(LOCK)) if os.path.exists(LOCK) else {}
    try:
        text = common.expand()
        crate = Crate(text)
    except Exception as e:
        return [{"unit": n, "status": "undecided", "reason": f"expansion failed: {str(e)[:300]}", "functions": [], "failed": [], "verified": 0,
                 "obligations": 0, "smt_ms": 0, "assumptions": [], "dropped": [], "cmd": "", "wall": 0.0, "canary": None} for n in names]
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        return list(ex.map(lambda n: run_unit(n, crate, wd, lock), names))


# ------------------------------------------------------------------ bounded part


def build_harness():
    """-> (path of vh or None, mode, message)"""
    td = os.path.join(WORK, "harness")
    base = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]
    msg = ""
    for mode, extra, env in (("hooks", ["--features", "hooks"], {"RUSTFLAGS": "--cfg splr_verif"}), ("api", [], {})):
        p = subprocess.run(base + extra, env=common.cargo_env(CARGO_TARGET_DIR=os.path.join(td, mode), **env), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode == 0:
            return os.path.join(td, mode, "debug", "vh"), mode, msg
        msg += f"[{mode}] " + "\n".join([l for l in p.stdout.splitlines() if l.startswith("error")][:5]) + "\n"
    return None, None, msg


def build_bins():
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bins"], cwd=common.REPO,
                       env=common.cargo_env(CARGO_TARGET_DIR=os.path.join(WORK, "bins")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return os.path.join(WORK, "bins", "debug") if p.returncode == 0 else ""


def vh_once(vh, check, case, d, bins, timeout=90, seed=None):
    shutil.rmtree(d, ignore_errors=True)
    cmd = [vh, check, "--seed", str(SEED if seed is None else seed), "--case", str(case), "--dir", d, "--bin", bins]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", f"no end after {timeout} s", cmd
    try:
        j = json.loads(p.stdout.strip().splitlines()[-1])
        return ("ok" if j["ok"] else "fail"), j, cmd
    except (ValueError, IndexError):
        return "crash", f"process ended with {p.returncode}: {p.stderr[-400:]}", cmd


def run_vh(vh, check, secs, wd, bins, hang_is_violation, seed, max_cases=None):
    """run one harness check; -> dict with evaluations, samples, failure"""
    import struct
    out = {"check": check, "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "failure": None, "skipped": [], "secs": 0.0}
    skip = []
    t0 = time.time()
    for attempt in range(6):
        left = max(2.0, secs - (time.time() - t0))
        d = os.path.join(wd, f"vh-{check}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cmd = [vh, check, "--seed", str(seed), "--secs", f"{left:.1f}", "--dir", d, "--bin", bins]
        if skip:
            cmd += ["--skip", ",".join(map(str, skip))]
        if max_cases:
            cmd += ["--max", str(max_cases)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left + 120)
            rc, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            rc, so, se = 4, "", "timeout"
        rep = None
        try:
            rep = json.loads(so.strip().splitlines()[-1])
        except (ValueError, IndexError):
            pass
        if rep:
            out["evaluations"] += rep["evaluations"]
            out["distinct_nontrivial"] += rep["distinct_nontrivial"]
            out["samples"] = (out["samples"] + rep["samples"])[:4]
            for f in rep["failures"]:
                # confirm alone: a failure has to be reproducible from its seed and number
                st, j, c1 = vh_once(vh, check, f["case"], d + "-one", bins, seed=seed)
                if st in ("fail", "crash") or st == "hang" and hang_is_violation:
                    out["failure"] = {"case": f["case"], "seed": seed, "message": j["message"] if st == "fail" else f["message"], "input": f["note"], "command": c1}
                    break
            if out["failure"] or rc == 0 and not rep["failures"]:
                break
            if rep["failures"]:
                skip += [f["case"] for f in rep["failures"]]
                continue
        # crash or hang: find the case
        cand = []
        if rc == 4 and os.path.exists(os.path.join(d, "hang")):
            cand = [int(open(os.path.join(d, "hang")).read().strip())]
        else:
            for n in os.listdir(d):
                if n.startswith("progress."):
                    b = open(os.path.join(d, n), "rb").read()
                    if len(b) == 8 and struct.unpack("<Q", b)[0] > 0:
                        cand.append(struct.unpack("<Q", b)[0] - 1)
        cand = sorted(set(cand) - set(skip))
        if not cand:
            out["skipped"].append(f"run ended with {rc} and no case could be blamed: {se[-200:]}")
            break
        for c in cand:
            st, j, c1 = vh_once(vh, check, c, d + "-one", bins, timeout=60, seed=seed)
            if st == "ok":
                continue
            if st == "hang" and not hang_is_violation:
                out["skipped"].append(f"case {c} did not end within 60 s (termination is not part of this property)")
                skip.append(c)
                continue
            m = j["message"] if st == "fail" else {"hang": "the operation did not end", "crash": "the process was aborted (memory-safety check or abort): " + str(j)}[st]
            out["failure"] = {"case": c, "seed": seed, "message": m, "input": j.get("note", "") if isinstance(j, dict) else "", "command": c1}
            break
        if out["failure"]:
            break
        skip += [c for c in cand if c not in skip]
    out["secs"] = round(time.time() - t0, 2)
    return out


# ------------------------------------------------------------------


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def main():
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    t0 = time.time()
    wd = os.path.join(WORK, pid)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evf = os.path.join(VERIF, "evidence", f"{pid}.json")
    if os.path.exists(evf):
        os.remove(evf)
    secs = cfg.get("secs", 10) * (8 if THOROUGH else 1)
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        fu = ex.submit(run_units, cfg.get("units", []), wd)
        fb = ex.submit(build_harness) if cfg.get("vh") else None
        fbin = ex.submit(build_bins) if cfg.get("bins") else None
        vh, mode, msg = fb.result() if fb else (None, None, "")
        bins = fbin.result() if fbin else ""
        units = fu.result()
    runs = []
    seed = SEED
    checks = [c for c in cfg.get("vh", []) if not (c.endswith("+hooks") and mode != "hooks")]
    checks = [c.replace("+hooks", "") for c in checks]
    if vh:
        for c in checks:
            runs.append(run_vh(vh, c, secs / max(1, len(checks)), wd, bins, cfg.get("hang", False), seed, cfg.get("max", {}).get(c)))
    elif cfg.get("vh"):
        log("note: the harness does not build against this tree, bounded checks skipped:", msg)
    known = known_findings(pid)
    rejected = [u for u in units if u["status"] == "rejected"]
    undecided = [u for u in units if u["status"] == "undecided"]

    def failure():
        for r in runs:
            f = r["failure"]
            if f and not any(re.search(k, f["message"]) for k, _ in known):
                return r, f
        return None, None

    r, f = failure()
    if not f and rejected and vh:
        # search longer for an input that shows the rejected obligation on the real code
        for k, c in enumerate(checks * 2):
            if time.time() - t0 > 600:
                break
            runs.append(run_vh(vh, c, 40, wd, bins, cfg.get("hang", False), seed + 101 * (k + 1)))
            r, f = failure()
            if f:
                break
    violations = 0
    replay = os.path.join(VERIF, "replays", f"{pid}.json")
    vline = None
    if f or rejected:
        violations = 1
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        doc = {"property": pid, "failed_obligations": [dict(o, unit=u["unit"]) for u in rejected for o in u["failed"]],
               "verifier_output": {u["unit"]: u.get("output") for u in rejected}, "verifier_cmd": [u["cmd"] for u in rejected]}
        if f:
            doc.update(failing_input=f["input"], message=f["message"], seed=f["seed"], case=f["case"], replay_command=f["command"],
                       how="run replay_command (built by tools/check.py from /repo's working tree); it prints ok:false and the message")
        json.dump(doc, open(replay, "w"), indent=1)
        vline = f"VIOLATION property={pid} replay={replay}" + ("" if f else " no-failing-input-found")
    # ---------------- evidence
    ob = sum(u["obligations"] for u in units)
    di = sum(u["verified"] for u in units)
    bounded = [{k: x[k] for k in ("check", "evaluations", "distinct_nontrivial", "secs", "skipped")} for x in runs]
    trusted = sorted({a for u in units for a in u["assumptions"]}) + cfg.get("trusted", [])
    if units:
        trusted += ["Verus 0.2026.09.13 (front end, vstd, z3)", "extraction: " + "; ".join(TRANSFORMS),
                    "f64 and machine integers as Verus models them (usize is 64 bit, overflow is an obligation)"]
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": " && ".join(u["cmd"] for u in units if u["cmd"]) or "none",
        "trusted_base": trusted,
        "back_end": "Verus 0.2026.09.13 with its bundled z3",
        "solver_ms": round(sum(u["smt_ms"] for u in units), 1),
        "units": [{k: u[k] for k in ("unit", "status", "reason", "functions", "obligations", "verified", "smt_ms", "wall", "dropped", "canary", "failed")} for u in units],
        "functions_under_contract": sum(len(u["functions"]) for u in units),
        "evaluations": sum(x["evaluations"] for x in runs),
        "distinct_nontrivial": sum(x["distinct_nontrivial"] for x in runs),
        "rule": cfg.get("rule", ""),
        "samples": [s for x in runs for s in x["samples"]][:6],
        "bounded_checks": bounded,
        "harness_mode": mode or "not built",
        "explanation": cfg["explain"],
    }
    if cfg.get("exhaustive") and not f:
        cov["exhaustive"] = True
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": cfg["level"], "coverage": cov,
          "assumptions": trusted + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    json.dump(ev, open(evf, "w"), indent=1)
    # ---------------- report
    for u in units:
        log(f"unit {u['unit']}: {u['status']} ({u['verified']}/{u['obligations']} obligations, {len(u['functions'])} functions, {u['wall']} s)" + (f": {u['reason']}" if u["reason"] else ""))
        for o in u["failed"]:
            log(f"   obligation rejected: {u['unit']}/{o['function']}: {o['obligation']} at {o['at']}")
    for x in runs:
        log(f"bounded {x['check']}: {x['evaluations']} cases, {x['distinct_nontrivial']} distinct non-trivial, {x['secs']} s" + (f", FAILED: {x['failure']['message']}" if x["failure"] else ""))
        for s in x["skipped"]:
            log("   note:", s)
        if x["failure"]:
            log("   input:", x["failure"]["input"][:1500])
    for k, what in known:
        log(f"KNOWN-FINDING: property={pid} {what}")
    shutil.rmtree(wd, ignore_errors=True) if not vline else None
    if vline:
        log(vline)
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
