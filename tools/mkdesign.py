#!/usr/bin/env python3
"""Fills the property and planted-bug tables of DESIGN.md from properties.jsonl, lib/config.py and the last runseeds.py."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "lib"))
import config
HOW = json.load(open(V / "tools/how.json"))
out = []
for l in open(V / "properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    us = config.PROPS.get(i) or []
    out.append(f"* **{i} {p['title']}**" + (f" — units {', '.join(us)}. " if us else " — ") + HOW[i])
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
res = {}
f = V / "tools/seed-results.json"
if f.exists(): res = json.load(open(f))
for d in sorted((V / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {res.get(d.name, 'not run yet')} |")
t = (V / "tools/DESIGN.tmpl.md").read_text().replace("@PROPS@", "\n".join(out)).replace("@SEEDS@", "\n".join(rows))
(V / "DESIGN.md").write_text(t)
