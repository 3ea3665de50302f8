"""Extraction, verification and concrete search; shared by every check."""
import json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
EXTRACT = VERIF / "extract/target/release/extract"
CONTRACTS = VERIF / "contracts"


def sh(cmd, timeout, cwd=None, env=None, limit_gb=None):
    """Runs a command in its own process group; returns (rc, stdout, stderr); rc None on timeout."""
    def pre():
        os.setsid()
        if limit_gb:
            resource.setrlimit(resource.RLIMIT_AS, (limit_gb << 30, limit_gb << 30))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode(errors="replace"), e.decode(errors="replace")


def cargo_env(**kw):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env.pop("CARGO_TARGET_DIR", None)
    env.update(kw)
    return env


def build_extractor():
    """Builds the extractor when it is not there (setup_cmd does it; a check does it again if needed)."""
    rc, o, e = sh(["cargo", "build", "--offline", "--release", "--quiet"], 600, cwd=VERIF / "extract", env=cargo_env())
    if rc != 0 and not EXTRACT.exists():
        return "the extractor does not build: " + e[-1500:]
    return None


def build_harness(work, features=(), release=False):
    """Builds the search harness against REPO; returns (path or None, message). `release`: without debug
    assertions and overflow checks."""
    src = VERIF / "harness"
    tgt = src / ("target-release" if release else "target")
    env = cargo_env(CARGO_INCREMENTAL="0", **({"CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false"} if release else {}))
    if REPO != Path("/repo"):
        src2 = work / "harness"
        shutil.rmtree(src2, ignore_errors=True)
        shutil.copytree(src, src2, ignore=shutil.ignore_patterns("target"))
        t = (src2 / "Cargo.toml").read_text().replace('path = "/repo"', f'path = "{REPO}"')
        (src2 / "Cargo.toml").write_text(t)
        src = src2
        tgt = Path(os.environ.get("VERIF_HARNESS_TARGET", work / "htarget") if not release else work / "rtarget")
    for d in (tgt / "release/.fingerprint").glob("v*-*"):
        if d.name.startswith(("veb-tree-", "vharness-")):
            shutil.rmtree(d, ignore_errors=True)
    rc, o, e = sh(["cargo", "build", "--offline", "--release", "--quiet", "--target-dir", str(tgt), *[x for f in features for x in ("--features", f)]], 500, cwd=src, env=env)
    b = tgt / "release/vharness"
    if rc != 0 or not b.exists():
        return None, e[-3000:]
    return b, ""


# ---------------------------------------------------------------- verification of one unit

# what a message of the verifier says about the function it is in
UNDECIDED = ("resource limit", "rlimit", "could not prove termination", "timeout")
VERIF_MSG = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "possible arithmetic", "possible bit shift",
             "possible division", "invariant not satisfied", "decreases not satisfied", "loop invariant", "unable to prove", "failed this postcondition",
             "could not show", "fails to satisfy", "constructed value may fail", "index out of bounds", "cannot show", "not satisfied", "requires not satisfied")


def classify(d):
    if d.get("code"):  # an error of the language, not of the proof
        return "unsupported"
    m = d["message"].lower()
    if any(u in m for u in UNDECIDED):
        return "undecided"
    if any(u in m for u in VERIF_MSG):
        return "failed"
    return "unsupported"


class Unit:
    def __init__(self, name):
        self.name = name
        self.fns = {}          # label -> record of the extractor
        self.status = {}       # label -> verified | failed | undecided | degraded | trusted
        self.why = {}          # label -> reason / verifier text
        self.kind = {}         # label -> list of messages (failed)
        self.lemma_fail = []   # failures outside extracted functions
        self.lost = None       # reason the whole unit could not be decided
        self.missing = []
        self.renamed = []
        self.queries = 0
        self.queries_ok = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.trusted = []
        self.canary = None
        self.cmd = ""
        self.notes = []


def extract(unit, work, external=(), flips=(), canary=False, tag="", inline=()):
    out, mp = work / f"{unit}{tag}.rs", work / f"{unit}{tag}.json"
    cmd = [str(EXTRACT), "--repo", str(REPO), "--template", str(CONTRACTS / f"{unit}.vrs"), "--out", str(out), "--map", str(mp)]
    for l in external:
        cmd += ["--external", l]
    for f in inline:
        cmd += ["--inline", f]
    for f in flips:
        cmd += ["--flip", str(f)]
    if canary:
        cmd += ["--canary", "1"]
    rc, o, e = sh(cmd, 60)
    if rc != 0:
        return None, None, (e or o)[-1500:]
    return out, json.loads(mp.read_text()), ""


def verus(path, extra=(), timeout=240):
    cmd = ["verus", path.name, "--triggers-mode", "silent", "--error-format=json", "--output-json", "--time-expanded", "--multiple-errors", "4", *extra]
    rc, o, e = sh(cmd, timeout, cwd=path.parent)
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting due to"):
                diags.append(d)
    js = None
    try:
        js = json.loads(o)
    except ValueError:
        pass
    return rc, js, diags, e, " ".join(cmd)


def fn_at(fns, line):
    for f in fns:
        if f["gen_start"] <= line <= f["gen_end"]:
            return f["label"]
    return None


def locate(fns, d):
    """The function a diagnostic is in: the primary span first, then any."""
    spans = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
    # in a postcondition failure the primary span may be the clause in a trait; the body span then says which function
    for s in spans:
        l = fn_at(fns, s["line_start"])
        if l:
            return l
    for c in d.get("children", []):
        for s in c.get("spans", []):
            l = fn_at(fns, s["line_start"])
            if l:
                return l
    return None


# lemmas and client programs of a template which state a property themselves (by the prefix of their name)
STATEMENTS = {"instances": ("laws_", "client_", "clones_"), "steps": ("steps_",)}


def statement_fns(unit, path, fns):
    """Records, as of extracted functions, for the template's own functions which state a property."""
    pre = STATEMENTS.get(unit)
    if not pre:
        return []
    out, lines = [], path.read_text().splitlines()
    for i, l in enumerate(lines):
        m = re.match(r"(?:pub )?(?:proof )?fn (\w+)", l)
        if m and m.group(1).startswith(pre) and not fn_at(fns, i + 1):
            j = i
            while j < len(lines) - 1 and not lines[j].startswith("}") and not (lines[j].startswith("{ ") and lines[j].endswith(" }")):
                j += 1
            out.append({"label": m.group(1), "kind": "verified", "gen_start": i + 1, "gen_end": j + 1, "statement": True})
    return out


# private helpers: where one fails its contract, what counts is whether the operations which use it, with
# the helper inlined, still meet theirs
INLINABLE = {"bitset": {"ByteSet::array_len", "ByteSet::from_array", "ByteSet::mask_lower", "ByteSet::mask_higher", "ByteSet::array_set_bit"}}


def run_unit(name, work, canary=True, rlimit=None):
    u = run_unit_(name, work, canary, rlimit)
    bad = {l for l, s in u.status.items() if s == "failed"} & INLINABLE.get(name, set())
    if bad and not u.lost:
        v = run_unit_(name, work, False, rlimit, inline=sorted(l.split("::")[-1] for l in bad))
        left = [l for l, s in v.status.items() if s in ("undecided", "degraded")]
        if not v.lost and not left and not v.lemma_fail:
            v.canary, v.wall = u.canary, u.wall + v.wall
            v.notes.append("inlined, as they do not meet their own contract: " + ", ".join(sorted(bad)))
            if any(s == "failed" for s in v.status.values()):
                for l in bad:
                    v.status[l], v.why[l], v.fns[l], v.kind[l] = "failed", u.why[l], u.fns[l], u.kind[l]
            return v
    return u


def run_unit_(name, work, canary=True, rlimit=None, inline=()):
    u = Unit(name)
    t0 = time.time()
    external, flips = set(), set()
    tried_flip = set()
    extra = ["--rlimit", str(rlimit)] if rlimit else []
    res = None
    for attempt in range(14):
        out, mp, err = extract(name, work, external, flips, inline=inline, tag="_inl" if inline else "")
        if mp is None:
            u.lost = "extraction: " + err
            break
        u.missing = mp["missing"]
        u.renamed = mp.get("renamed", [])
        mp["functions"] += statement_fns(name, out, mp["functions"])
        u.fns = {f["label"]: f for f in mp["functions"]}
        rc, js, diags, raw, u.cmd = verus(out, extra)
        vr = (js or {}).get("verification-results", {})
        hard = [d for d in diags if classify(d) == "unsupported"]
        if rc is None:
            u.lost = "the verifier did not end in time"
            break
        if js is None or hard or vr.get("encountered-vir-error") or (not vr and rc != 0):
            # code the verifier does not take: take the functions concerned out, and try again
            bad = [(locate(mp["functions"], d), d) for d in (hard or diags)]
            labels = [l for l, _ in bad if l]
            if not labels:
                u.lost = "not accepted by the verifier: " + (bad[0][1]["rendered"] if bad else raw)[:1500]
                break
            progressed = False
            for l, d in bad:
                if not l:
                    continue
                amb = [s for s in u.fns[l].get("ambiguous", []) if s not in tried_flip]
                if amb and u.fns[l]["kind"] == "verified":
                    flips.add(amb[0]); tried_flip.add(amb[0]); progressed = True
                elif l not in external:
                    external.add(l); progressed = True
                    u.why[l] = "not accepted by the verifier: " + (d.get("rendered") or d["message"])[:800]
            if not progressed:
                u.lost = "not accepted by the verifier: " + (bad[0][1].get("rendered") or "")[:1500]
                break
            continue
        res = (js, diags, mp, out)
        break
    else:
        u.lost = "not accepted by the verifier after several attempts"
    if res:
        js, diags, mp, out = res
        # a failure is tried again with more resources before it counts
        if diags:
            rc2, js2, diags2, _, _ = verus(out, ["--rlimit", "40", "--smt-option", "smt.random_seed=7"])
            if js2 is not None and rc2 is not None:
                def key(d):
                    return (locate(mp["functions"], d) or d["message"] + str(d.get("spans", [{}])[0].get("line_start")))
                k2 = {key(d): d for d in diags2}
                kept = [d for d in diags if key(d) in k2]
                if len(kept) < len(diags):
                    u.notes.append("some obligations were discharged only on the second attempt")
                # an attempt that only ran out of resources is undecided
                diags = [k2[key(d)] if classify(d) == "undecided" else d for d in kept]
        for l, f in u.fns.items():
            u.status[l] = f["kind"]
            if f["kind"] == "degraded" and l not in u.why:
                u.why[l] = "not translated: " + "; ".join(e for e in mp["errors"] if e.startswith(l))[:500]
        for d in diags:
            l = locate(mp["functions"], d)
            c = classify(d)
            if l is None or u.fns[l]["kind"] != "verified":
                u.lemma_fail.append(d.get("rendered") or d["message"])
                continue
            if c == "failed":
                u.status[l] = "failed"
                u.kind.setdefault(l, []).append(d["message"])
                u.why[l] = (u.why.get(l, "") + (d.get("rendered") or d["message"]))[:6000]
            elif u.status[l] != "failed":
                u.status[l] = "undecided"
                u.why[l] = d["message"]
        for l, s in u.status.items():
            if s == "failed" and u.fns[l].get("opaque"):
                # the verifier knows nothing of what such code does: that is no verdict
                u.status[l] = "degraded"
                u.why[l] = "not decided: " + ", ".join(u.fns[l]["opaque"]) + ": " + u.why[l][:600]
        smt = js.get("times-ms", {}).get("smt", {})
        u.smt_ms = smt.get("smt-run", 0)
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                u.queries += 1
                u.queries_ok += 1 if f.get("success") else 0
        u.trusted = scan_trusted(out, mp)
        if canary:
            cout, cmp_, err = extract(name, work, external, flips, canary=True, tag="_canary", inline=inline)
            if cmp_:
                _, cjs, cd, _, _ = verus(cout, ["--rlimit", "5"])
                cfail = {locate(cmp_["functions"], d) for d in cd}
                src = cout.read_text().splitlines()
                with_canary = [f["label"] for f in cmp_["functions"] if f["kind"] == "verified" and any(x == "assert(false);" for x in src[f["gen_start"] - 1:f["gen_end"]])]
                u.canary = {"functions": len(with_canary), "reached": sum(l in cfail for l in with_canary), "unreached": [l for l in with_canary if l not in cfail]}
    u.wall = time.time() - t0
    return u


def scan_trusted(path, mp):
    """Everything assumed in the verified file, found by a textual scan."""
    out = []
    lines = path.read_text().splitlines()
    gen = {}
    for f in mp["functions"]:
        gen[f["gen_start"]] = f
    i = 0
    while i < len(lines):
        l = lines[i]
        if "external_body" in l or "external_type_specification" in l or "assume_specification" in l or re.search(r"\b(assume|admit)\s*\(", l) or l.strip().startswith("axiom fn") or " axiom fn" in l:
            f = next((f for f in mp["functions"] if f["gen_start"] <= i + 1 <= f["gen_end"]), None)
            if f is None:
                j = i
                while j < len(lines) - 1 and not re.search(r"\b(fn|struct|type|const|trait)\b", lines[j]):
                    j += 1
                m = re.search(r"assume_specification[^\[]*\[\s*([^\]]+)\]", l) or re.search(r"(fn|struct|type|const)\s+(\w+)", lines[j])
                if m:
                    out.append(m.group(m.lastindex).strip())
        i += 1
    return sorted(set(out))


# ---------------------------------------------------------------- concrete search

def conformance(binary, seed):
    rc, o, e = sh([str(binary), "deps", str(seed)], 60, limit_gb=8)
    try:
        return json.loads(o)
    except (ValueError, TypeError):
        return {"cases": 0, "bad": [f"the conformance run gave no answer (rc {rc})"]}


def harness(binary, prop, seed, secs, work, full=False, skip=(), t0=None):
    """Returns dict(stats, found) - found is None or dict(kind,name,ops,msg,props)."""
    cmd = [str(binary), "run", "--focus", prop, "--seed", str(seed), "--secs", str(secs)] + (["--full"] if full else []) + (["--skip", ",".join(skip)] if skip else [])
    t0 = t0 or time.time()
    rc, o, e = sh(cmd, secs * 3 + 100, limit_gb=20)
    try:
        js = json.loads(o.strip().splitlines()[-1]) if o.strip() else None
    except ValueError:
        js = None
    if js is not None and rc == 0:
        return js, None
    if js is not None and rc == 1 and js["found"]:
        return js, js["found"][0]
    # an operation that does not end, or the process died
    died = None
    if js is not None and rc == 2 and js["found"]:
        died = js["found"][0]
    else:
        tr = work / "trace"
        shutil.rmtree(tr, ignore_errors=True)
        tr.mkdir(parents=True)
        sh(cmd + ["--trace", str(tr)], secs * 12 + 60, limit_gb=20)
        f = tr / "trace"
        if f.exists():
            ls = f.read_text().splitlines()
            died = {"kind": "tree", "name": ls[0], "ops": ls[1:], "msg": "the process dies"}
    stats = js or {"histories": 0, "steps": 0, "distinct": 0, "samples": [], "key_evaluations": 0}
    if not died:
        return stats, None
    # which operation: the shortest prefix which does not end normally
    name, ops = died["name"], died["ops"]
    kind = "collection" if any("_key" in x or x.startswith("maybe_") or x.startswith("get") for x in ops) else "tree"
    lo, hi = 0, len(ops)
    rp = work / "probe.txt"

    def bad(n):
        rp.write_text(f"{kind} {name}\n" + "\n".join(ops[:n]) + "\n")
        rc, o, e = sh([str(binary), "replay", str(rp)], 6, limit_gb=20)
        return rc is None or rc not in (0, 1)
    if not ops or not bad(hi):
        return stats, None
    while lo + 1 < hi:
        mid = (lo + hi) // 2
        if bad(mid):
            hi = mid
        else:
            lo = mid
    last = ops[hi - 1].split()[0]
    props = {"insert": ["P01"], "find": ["P02"], "find_mut": ["P02", "P09"], "predecessor": ["P03"], "predecessor_mut": ["P03", "P09"], "successor": ["P04"],
             "successor_mut": ["P04", "P09"], "min_max": ["P05"], "min_val_mut": ["P05", "P09"], "max_val_mut": ["P05", "P09"], "remove": ["P06"],
             "remove_min": ["P07"], "remove_max": ["P07"], "into_monad": ["P08"], "shape": ["P08"], "iter": ["P11", "P12"], "clone": ["P19"],
             "insert_key": ["P16"], "get": ["P16"], "get_mut": ["P16"], "maybe_remove_key": ["P17"], "remove_key_min": ["P17"], "remove_key_max": ["P17"],
             "maybe_remove_refused": ["P17"]}.get(last, []) + ["P18"]
    if "ByteSet" == name: props.append("P20")
    if name.startswith("Sized/ref"): props.append("P10")
    if name.startswith(("Box/", "BTreeMap")): props.append("P21")
    if prop not in props:
        # another property's operation does not end: search again without it
        if len(skip) < 3 and time.time() - t0 < 200 and last not in ("insert", "insert_key"):
            return harness(binary, prop, seed, secs, work, full, (*skip, last), t0)
        return stats, None
    return stats, {"kind": kind, "name": name, "ops": ops[:hi], "msg": f"`{ops[hi-1]}` does not end normally (it does not return, or the process dies)"}
