#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/config.py."""
import json, sys
sys.path.insert(0, "/verif/lib")
import config
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or (not config.PROPS.get(i)):
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its contracts are not finished")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i}",
        "technique": "contract-based deductive verification: Verus contracts on functions extracted mechanically from /repo on every run; a concrete search on the real crate looks for the failing input and stands in (bounded) for functions the verifier does not take",
        "level": config.level(i),
        "level_note": "Units " + ", ".join(config.PROPS[i]) + ": every obligation discharged by Verus/Z3 for all inputs, generic over key, tree and collection types. Trusted: contracts of std and third-party containers, lawful Ord/Hash/Clone/Borrow, the extractor's rewrites (DESIGN.md)."
        + config.NOTE.get(i, ""),
    })
m = {"version": 1,
     "setup_cmd": "cargo build --offline --release --quiet --manifest-path extract/Cargo.toml && cargo build --offline --release --quiet --manifest-path harness/Cargo.toml",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. VERIF_TIER=thorough runs longer searches and gives the solver more resources. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
