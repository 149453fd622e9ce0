"""MANIFEST.json from the registry (run by hand after changing it)"""
import json, sys
sys.path[:0] = ["/verif/tools"]
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cfg(splr_verif)", "enable": "RUSTFLAGS='--cfg splr_verif' cargo build (tools/check.py build_harness); without hooks the harness falls back to the public API", "source_commits": HOOKS if (HOOKS := json.load(open("/verif/tools/hook_commits.json"))) else []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 tools/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
m["notes"] = "Contract-based deductive verification (Verus on mechanically extracted code) plus bounded stand-ins on the real crate; see DESIGN.md."
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
