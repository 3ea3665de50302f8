#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current source.  See DESIGN.md."""
import json, os, re, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent / "lib"))
import vlib, config

PANICKY = re.compile(r"rt_assert|vpanic|expect|unwrap|possible arithmetic|possible division|possible bit shift|index|unreachable|decreases", re.I)


def primary(prop, label, u):
    if u.name == "steps":
        return prop == "P24"
    ps = config.props_of(label)
    if prop == "P18":
        txt = u.why.get(label, "")
        return any("precondition" in m or "arithmetic" in m or "shift" in m or "division" in m or "index" in m for m in u.kind.get(label, [])) and bool(PANICKY.search(txt))
    return prop in ps


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.time()
    ev_dir = vlib.VERIF / "evidence"
    ev_dir.mkdir(exist_ok=True)
    (ev_dir / "replays").mkdir(exist_ok=True)
    ev_path = ev_dir / f"{prop}.json"
    work = vlib.VERIF / "work" / f"{prop}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    try:
        rc = run(prop, tier, seed, thorough, t0, ev_dir, ev_path, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, thorough, t0, ev_dir, ev_path, work):
    units = config.PROPS[prop]
    msg = vlib.build_extractor()
    with ThreadPoolExecutor(9) as ex:
        hb = ex.submit(vlib.build_harness, work, config.FEATURES.get(prop, ()))
        res = list(ex.map(lambda n: vlib.run_unit(n, work, canary=True, rlimit=60 if thorough else None), units)) if not msg else []
        binary, hmsg = hb.result()
    if msg:
        res = []
        for n in units:
            u = vlib.Unit(n); u.lost = msg; res.append(u)

    failed, dep_failed, degraded, undecided = [], [], [], []
    for u in res:
        if u.lost:
            degraded.append((u.name, "*", u.lost))
            continue
        for m in u.missing:
            degraded.append((u.name, m, "the function under contract is not there any more"))
        for l, s in u.status.items():
            if s == "failed":
                if not primary(prop, l, u):
                    dep_failed.append((u.name, l, u.why.get(l, "")))
                elif u.missing:
                    # a function whose contract carried part of the argument is gone (its body moved
                    # into its callers, say): the verifier lacks a lemma, which decides nothing
                    undecided.append((u.name, l, "(with " + ", ".join(u.missing)[:80] + " gone) " + u.why.get(l, "")))
                else:
                    failed.append((u.name, l, u.why.get(l, "")))
            elif s == "undecided":
                undecided.append((u.name, l, u.why.get(l, "")))
            elif s == "degraded":
                degraded.append((u.name, l, u.why.get(l, "")))
        for t in u.lemma_fail:
            undecided.append((u.name, "lemma", t[:1500]))

    # concrete search on the real crate: validates the assumptions when everything is
    # discharged, stands in for what is not, and looks for the input when an obligation fails
    suspicious = bool(failed)
    gone = any(u.missing for u in res)
    weak = bool(dep_failed or degraded or undecided) or not units
    secs = 60 if thorough else (25 if suspicious or gone else 10 if weak else 3)
    stats, found, searches = {}, None, 0
    deps = {"cases": 0, "bad": []}
    if binary:
        deps = vlib.conformance(binary, seed)
        focus = config.SEARCH.get(prop, [prop])
        if not (suspicious or weak): focus = focus[:1]
        full = prop in ("P13", "P14", "P15") and (weak or thorough)
        for x in focus:
            s2, found = vlib.harness(binary, x, seed, secs // len(focus) + 1, work, full=full)
            for k, v in s2.items():
                stats[k] = stats[k] + v if k in stats and isinstance(v, int) else v
            searches = 1
            if found: break
        if suspicious and not found and len(focus) == 1:
            s2, found = vlib.harness(binary, prop, seed + 1000, secs, work)
            for k in ("histories", "steps", "distinct", "key_evaluations"):
                stats[k] = stats.get(k, 0) + s2.get(k, 0)
            searches = 2
        if (suspicious or weak) and not found:
            # the code may differ where debug assertions are left out
            b2, _ = vlib.build_harness(work, config.FEATURES.get(prop, ()), release=True)
            if b2:
                s2, found = vlib.harness(b2, focus[0], seed, secs if suspicious else secs // 2, work)
                for k in ("histories", "steps", "distinct", "key_evaluations"):
                    stats[k] = stats.get(k, 0) + s2.get(k, 0)
                searches += 1
                if found: found["msg"] += " (in a build without debug assertions)"
            shutil.rmtree(vlib.VERIF / "harness/target-release", ignore_errors=True)

    # ---- evidence
    obligations = sum(u.queries for u in res)
    discharged = sum(u.queries_ok for u in res)
    fns = {u.name: {} for u in res}
    for u in res:
        for l, s in u.status.items():
            fns[u.name][l] = s
    verified_fns = sorted({l for u in res for l, s in u.status.items() if s == "verified"})
    trusted = sorted({f"{u.name}: {t}" for u in res for t in u.trusted})
    cross = sorted({l for u in res for l, s in u.status.items() if s == "trusted"})
    proof_level = config.level(prop) == "proof"
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(u.cmd for u in res if u.cmd)[:600] or "none",
        "trusted_base": trusted + [f"contract used across units, discharged in its own unit: {c}" for c in cross],
        "functions_under_contract": len(verified_fns),
        "functions": fns,
        "lost_units": {u.name: u.lost for u in res if u.lost},
        "bounded_stand_in_for": [f"{a}: {b}: {c[:200]}" for a, b, c in degraded],
        "undecided": [f"{a}: {b}: {c[:200]}" for a, b, c in undecided],
        "failed_obligations": [f"{a}: {b}" for a, b, _ in failed],
        "failed_obligations_of_other_properties": [f"{a}: {b}" for a, b, _ in dep_failed],
        "solver_ms": sum(u.smt_ms for u in res),
        "backend": "Verus 0.2026.09.13 (Z3)",
        "vacuity_canary": {u.name: u.canary for u in res if u.canary},
        "conformance_of_assumed_contracts": {"what": "BOUNDED: the dependencies' real functions on random cases against the contracts assumed of them", **deps},
        "renamed_to_match_contracts": {u.name: u.renamed for u in res if u.renamed},
        "rewrites": {l: f["rewrites"] for u in res for l, f in u.fns.items() if f.get("rewrites")},
        "concrete_search": {
            "what": "BOUNDED, never counted as proved: histories on the real crate against a reference map, to validate the trusted base and stand in for lost functions",
            "seconds": secs * max(searches, 1) if binary else 0, "seed": seed, "available": bool(binary), "message": hmsg[:600],
            **{k: v for k, v in stats.items() if k != "found"},
        },
    }
    if not proof_level:
        cov["evaluations"] = stats.get("steps", 0) + stats.get("key_evaluations", 0)
        cov["distinct_nontrivial"] = stats.get("distinct", 0) + stats.get("key_evaluations", 0)
        cov["rule"] = "keys enumerated or drawn from pools of colliding keys; histories are distinct by their text"
        cov.setdefault("samples", stats.get("samples", []))
        cov["explanation"] = "bounded"
    violation = bool(found or failed)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": config.level(prop), "coverage": cov,
          "assumptions": config.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": int(violation)}
    ev_path.write_text(json.dumps(ev, indent=1))

    print(f"{prop}: {len(verified_fns)} functions under contract, {discharged}/{obligations} verifier queries discharged, "
          f"{len(failed)} failed, {len(dep_failed)} failed for other properties, {len(degraded)} degraded, {len(undecided)} undecided; "
          f"search: {stats.get('histories', 0)} histories, {stats.get('key_evaluations', 0)} key cases; {time.time() - t0:.1f} s")
    for a, b, c in degraded: print(f"  bounded stand-in: {a}: {b}: {c[:160]!r}")
    for a, b, c in undecided: print(f"  undecided: {a}: {b}: {c[:160]!r}")
    for a, b, c in failed + dep_failed: print(f"  failed obligation: {a}: {b}")
    for b in deps["bad"]: print(f"  warning: an assumed contract does not hold: {b}")
    for u in res:
        if u.canary and u.canary["unreached"]:
            print(f"  warning: canary not reached in {u.canary['unreached']}")
    if not violation:
        return 0
    rp = ev_dir / "replays" / f"{prop}.txt"
    lines = [f"# property {prop}"]
    if found:
        lines += [f"# {found['msg']}", "# replay: /verif/harness/target/release/vharness replay " + str(rp)]
        if "without debug assertions" in found["msg"]: lines.append("# (vharness built with CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false)")
        for a, b, c in failed + dep_failed:
            lines.append(f"# failed obligation: {a}: {b}")
        lines += [f"{found['kind']} {found['name']}"] + found["ops"]
        lines += ["# " + l for a, b, c in failed for l in c.splitlines()]
        rp.write_text("\n".join(lines) + "\n")
        print("  " + found["msg"])
        print(f"VIOLATION property={prop} replay={rp}")
    else:
        for a, b, c in failed:
            lines += [f"# failed obligation: {a}: {b}"] + ["#   " + l for l in c.splitlines()]
        lines += ["# the search on the real crate found no failing input"]
        rp.write_text("\n".join(lines) + "\n")
        print(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
    return 1


if __name__ == "__main__":
    main()
