#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KANI = "Kani/CBMC proof of pre/postconditions over spec functions on the real functions, all inputs"
MIX = "Kani/CBMC contracts on the real functions; stated-bound native contract checks where the verifier cannot reach"
STAND = "the functions' contracts evaluated natively on enumerated and seeded inputs (bounded stand-in; the verifier cannot reach these functions)"

P = []
def prop(id, title, statement, quant, why, files, mech, tech, level, note):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, tech=tech, level=level, note=note))

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": [w for _, w in p["mech"]], "hook_needed": None},
        }, ensure_ascii=False) + "\n")

NA_IDS = {n["property"] for n in NA}
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg(verif)", "enable": "RUSTFLAGS='--cfg verif' (set by check.py for the harness crates under hl/, which mount /repo/src by #[path])",
              "source_commits": HOOK_COMMITS},
    "checks": [
        {"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
         "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
         "technique": p["tech"], "level": p["level"], "level_note": p["note"]}
        for p in P if p["id"] not in NA_IDS
    ],
    "not_applicable": NA,
    "notes": "See DESIGN.md. known-findings.txt lists the defects repaired by fix: commits.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks")
