#!/usr/bin/env python3
"""python3 /verif/bin/check.py <property> [--tier quick|thorough]

1. Extracts the functions under contract from /repo's current source and has Verus discharge
   every obligation of the property's units.
2. Runs the executable form of the same contracts (rt) on the real crate, bounded.
Exit 0: property holds; exit 1: VIOLATION line printed; exit 2: no answer.
"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vf import core, literals, registry  # noqa: E402

REPO = core.REPO
RT_TARGET = os.path.join(VERIF, "target", "rt")
RT = os.path.join(RT_TARGET, "debug", "rt")


def arg(k, d):
    return sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d


def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "assets/BalanceData", "Cargo.toml"):
        b = os.path.join(REPO, base)
        files = [b] if os.path.isfile(b) else sorted(os.path.join(d, f) for d, _, fs in os.walk(b) for f in fs)
        for f in files:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def build_rt():
    """Returns None or the reason the executable contracts do not build."""
    env = dict(os.environ, CARGO_TARGET_DIR=RT_TARGET, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true",
               RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")
    os.makedirs(RT_TARGET, exist_ok=True)
    stamp = os.path.join(RT_TARGET, "tree.sha256")
    h = tree_hash()
    cwd = os.path.join(VERIF, "rt")
    if not os.path.exists(stamp) or open(stamp).read() != h:
        # cargo compares time stamps only; make sure this tree is what gets compiled
        subprocess.run(["cargo", "clean", "--offline", "-p", "s2protocol"], cwd=cwd, env=env, capture_output=True)
    r = subprocess.run(["cargo", "build", "--offline"], cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        return r.stderr[-1500:]
    open(stamp, "w").write(h)
    return None


def run_rt(pid, seed, tier, limit, tag=""):
    out = os.path.join(core.BUILD, f"rt_{pid}_{seed}{tag}.json")
    os.makedirs(core.BUILD, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    try:
        r = subprocess.run([RT, "check", pid, "--seed", str(seed), "--tier", tier, "--limit", str(limit), "--out", out],
                           capture_output=True, text=True, timeout=limit + 120)
        err = r.stderr[-800:]
    except subprocess.TimeoutExpired:
        return {"error": "timed out"}
    try:
        return json.load(open(out))
    except Exception:
        return {"error": f"rt ended with {r.returncode}: {err}"}


def main():
    pid = sys.argv[1]
    tier = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = registry.PROPS[pid]
    core.ensure_vx()
    ex = cf.ThreadPoolExecutor(4)
    rtb = ex.submit(build_rt)
    units = prop.units()
    results, proof_error = [], None
    for u in units:
        try:
            r = core.discharge(u)
            results.append((u, r))
        except Exception as e:  # extraction or composition broke down: bounded check decides
            proof_error = f"{type(e).__name__}: {e}"
    vac = []
    if not proof_error:
        for u, r in results:
            if not r["fatal"] and (tier == "thorough" or u.quick_vacuity):
                vac += core.vacuity(u)
    rt_err = rtb.result()
    new = literals.novel()
    if new["ints"] or new["strs"]:
        os.environ["RT_DICT"] = json.dumps(new)
    rt = {"error": "does not build: " + rt_err} if rt_err else run_rt(pid, seed, tier, 40 if tier == "quick" else 400)

    failed = [(u, f) for u, r in results for f in r["failures"]]
    under = [f for u in units for f in u.fns if not f.trusted]
    undecided = [f for f in under if f.status not in ("proved", "failed")]
    proved = [f for f in under if f.status == "proved"]
    spec_only = [(u, r["fatal"]) for u, r in results if r["fatal"]]
    violation = None
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)

    def write_replay(obj):
        s = json.dumps(obj, indent=1)
        p = os.path.join(replays, f"{pid}-{hashlib.sha256(s.encode()).hexdigest()[:12]}.json")
        open(p, "w").write(s)
        return p

    if rt.get("fail"):
        obj = dict(rt["fail"], how="/verif/target/rt/debug/rt replay <this file>",
                   failed_obligations=[{"function": f["fn"], "obligation": f["obligation"]} for _, f in failed])
        violation = (write_replay(obj), "")
        print("counterexample on the real code: " + rt["fail"]["message"][:600])
    elif failed or ((undecided or proof_error or spec_only) and not rt_err and time.time() - t0 < 500):
        # search harder for an input that shows the failed obligation, or that decides what the proof left open
        found = None
        if not rt_err:
            lim = 45 if tier == "quick" else 200
            with cf.ThreadPoolExecutor(7) as e2:
                for r in e2.map(lambda i: run_rt(pid, seed * 1000 + i, "thorough", lim, "s"), range(1, 8)):
                    rt["evaluations"] = rt.get("evaluations", 0) + r.get("evaluations", 0)
                    if r.get("fail") and not found:
                        found = r["fail"]
        detail = [{"function": f["fn"], "obligation": f["obligation"], "verifier_output": f["detail"]} for _, f in failed]
        if found:
            violation = (write_replay(dict(found, failed_obligations=detail)), "")
            print("counterexample on the real code: " + found["message"][:600])
        elif failed:
            violation = (write_replay({"property": pid, "failed_obligations": detail,
                                       "command": [r["cmd"] for _, r in results]}), " no-failing-input-found")
        for d in detail[:8]:
            print(f"failed obligation: {d['function']}: {d['obligation']}")

    obligations = sum(r["verified"] + r["errors"] for _, r in results) + len(undecided)
    discharged = sum(r["verified"] for _, r in results if not r["fatal"])
    complete = bool(proved) and not undecided and not failed and not spec_only and not proof_error and not vac
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "; ".join(r["cmd"] for _, r in results) or "verus",
        "trusted_base": registry.trusted_base(pid, units),
        "backend": "Verus 0.2026.09.13 / Z3",
        "solver_ms": sum(r["smt_ms"] for _, r in results),
        "functions_under_contract": len(under),
        "functions_proved": len(proved),
        "functions": sorted(f.key for f in proved),
        "functions_not_decided_by_proof": [{"function": f.key, "why": (f.why or "")[:300]} for f in undecided],
        "callee_contracts_discharged_by_another_check": sorted({f.key for u in units for f in u.fns if f.trusted}),
        "vacuous": vac,
        "bounded": {k: rt.get(k) for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "wall_s", "error", "seed") if k in rt},
        "bounded_note": "the bounded part runs the same contracts on the compiled crate; it is not counted as proved"
                        + ("" if complete else " and it is what decides the functions listed as not decided by proof"),
    }
    for k in ("evaluations", "distinct_nontrivial", "rule", "samples"):
        if k in rt:
            cov[k] = rt[k]
    if proof_error or spec_only:
        cov["proof_error"] = proof_error or [m[:500] for _, m in spec_only]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.level if complete or prop.level != "proof" else "exploration",
          "coverage": cov, "assumptions": registry.assumptions(pid), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for l in registry.known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, l))
    print(f"{pid}: {len(proved)}/{len(under)} functions proved, {discharged} of {obligations} obligations discharged, "
          f"{len(undecided)} undecided; bounded: {rt.get('evaluations', rt.get('error'))} cases; {time.time() - t0:.1f} s")
    for f in undecided[:6]:
        print(f"  not decided by proof: {f.key}: {(f.why or '')[:160]}")
    if proof_error or spec_only:
        print("  proof not available:", str(cov.get("proof_error"))[:400])
    if violation:
        print(f"VIOLATION property={pid} replay={violation[0]}{violation[1]}")
        sys.exit(1)
    if vac:
        print("vacuous contracts:", vac[:5])
        sys.exit(2)
    if rt.get("error") and not complete:
        print("no answer:", rt["error"][-800:])
        sys.exit(2)
    if rt.get("error"):
        print("  bounded part not available:", rt["error"][-300:])
    sys.exit(0)


if __name__ == "__main__":
    main()
