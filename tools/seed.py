#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE 'needs' 'breaks' MAIN.rs < edits.json
Plants a bug in a scratch copy, confirms it (builds, stable tests pass, demo passes without and
fails with it) and keeps it under seeded/ID.  edits: list of [file, old, new]."""
import json, os, shutil, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
SCR = Path("/tmp/seedwork")
DEMO = '''#!/bin/bash
# Builds and runs main.rs against the crate in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/vebdemo.XXXXXX)
trap 'rm -rf -- "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
veb-tree = { path = "$R" }
hashbrown = "0.16"
typenum = "1"
[workspace]
EOF
cd "$T" || exit 2
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cargo build --offline --quiet 2> "$T/build.log" || { tail -20 "$T/build.log"; exit 2; }
timeout 60 "$T/target/debug/demo"
'''
def main():
    sid, prop, needs, breaks, mainrs = sys.argv[1:6]
    edits = json.load(sys.stdin)
    d = SCR / "repo"
    if not d.exists():
        SCR.mkdir(exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=d, check=True)
    out = V / "seeded" / sid
    out.mkdir(parents=True, exist_ok=True)
    shutil.copy(mainrs, out / "main.rs")
    rel = os.environ.get("SEED_RELEASE")  # a bug of builds without debug assertions
    (out / "demo.sh").write_text(DEMO.replace("build --offline", "build --release --offline").replace("target/debug", "target/release") if rel else DEMO); os.chmod(out / "demo.sh", 0o755)
    def demo():
        r = subprocess.run(["bash", str(out / "demo.sh")], cwd=d, capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr)[-400:]
    rc, o = demo()
    if rc != 0: sys.exit(f"{sid}: demo fails without the change: {o}")
    for f, a, b in edits:
        p = d / f; s = p.read_text()
        n = s.count(a)
        if n != 1: sys.exit(f"{sid}: edit matches {n} times in {f}: {a[:60]!r}")
        p.write_text(s.replace(a, b))
    t = subprocess.run("cargo test --offline --lib 2>&1 | tail -15", shell=True, cwd=d, capture_output=True, text=True, env={**os.environ, "CARGO_TARGET_DIR": str(SCR / "target")})
    if "test result: ok" not in t.stdout: sys.exit(f"{sid}: tests fail with the change:\n{t.stdout}")
    rc, o = demo()
    if rc == 0: sys.exit(f"{sid}: demo passes with the change")
    diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
    (out / "patch.diff").write_text(diff)
    (out / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    subprocess.run("git checkout -q -- .", shell=True, cwd=d)
    print(f"{sid}: kept ({rc}: {o.strip().splitlines()[-1] if o.strip() else ''})")
main()
