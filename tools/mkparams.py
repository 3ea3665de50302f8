#!/usr/bin/env python3
"""Writes contracts/params.json: the parameter names of every function under contract, which the
contracts and prologues use.  Run on the tree the contracts were written for."""
import json, subprocess, sys, tempfile
from pathlib import Path
V = Path(__file__).resolve().parent.parent
out = {}
p = V / "contracts/params.json"
p.unlink(missing_ok=True)
with tempfile.TemporaryDirectory() as d:
    for u in ("tree", "bitset", "bytemap", "array", "hash", "lib", "iter", "keys", "instances", "steps"):
        m = Path(d) / "m.json"
        subprocess.run([V / "extract/target/release/extract", "--repo", "/repo", "--template", V / f"contracts/{u}.vrs", "--out", Path(d) / "o.rs", "--map", m], check=True)
        for f in json.loads(m.read_text())["functions"]:
            if f.get("params"): out[f["label"]] = f["params"]
# of provided methods which the code may come to override
out["Clone for Tree::clone_from"] = out["Clone for TreeData::clone_from"] = ["source"]
out["PartialEq<MaybeBorrowed<'r,R>> for MaybeBorrowed::ne"] = ["other"]
p.write_text(json.dumps(out, indent=0, sort_keys=True) + "\n")
print(len(out), "functions")
