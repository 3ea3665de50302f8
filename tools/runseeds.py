#!/usr/bin/env python3
"""runseeds.py [ID...] [--all-props]: applies each planted bug to a scratch copy and runs its property's check on it."""
import json, os, shutil, subprocess, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
S = Path("/tmp/runseeds"); R = S / "repo"
shutil.rmtree(S, ignore_errors=True); S.mkdir()
subprocess.run(["git", "clone", "-q", "/repo", str(R)], check=True)
shutil.copy("/repo/Cargo.lock", R / "Cargo.lock") if Path("/repo/Cargo.lock").exists() else None
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(p.name for p in (V / "seeded").iterdir())
man = {c["property"] for c in json.load(open(V / "MANIFEST.json"))["checks"]}
RES = V / "tools/seed-results.json"
results = json.load(open(RES)) if RES.exists() else {}
for i in ids:
    d = V / "seeded" / i
    prop = json.load(open(d / "meta.json"))["property"]
    if prop not in man:
        print(i, prop, "not claimed"); continue
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=R, check=True)
    subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=R, check=True)
    t = time.time()
    r = subprocess.run([sys.executable, str(V / "check.py"), prop], cwd=V, capture_output=True, text=True,
                       env={**os.environ, "VERIF_REPO": str(R), "VERIF_HARNESS_TARGET": str(S / "htarget"), "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    ls = r.stdout.splitlines()
    fo = [l.strip()[len("failed obligation: "):] for l in ls if "failed obligation" in l]
    v = [l for l in ls if l.startswith("VIOLATION")]
    print(i, prop, "rc", r.returncode, f"{time.time()-t:.0f}s", "CONCRETE" if v and "no-failing" not in v[0] else (v[0].split()[-1] if v else "MISSED"), "|", "; ".join(fo)[:200], flush=True)
    results[i] = ("concrete history" if v and "no-failing" not in v[0] else "failed obligation only" if v else "MISSED") + (" + " + ", ".join(fo) if fo else "")
    json.dump(results, open(RES, "w"), indent=1, sort_keys=True)
    if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-1500:])
shutil.rmtree(S, ignore_errors=True)
