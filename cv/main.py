"""Driver of one check: deductive obligations on the current source first, then the runtime contracts."""
import argparse, importlib, json, os, sys, time, traceback
from . import env

RULE = ("seeded random inputs per scenario (case k of a scenario draws its configuration from seed, scenario name and k); a case is "
        "non-trivial when at least one contract clause was evaluated on values produced by the real code")


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f, indent=1, default=str)
    os.replace(path + ".tmp", path)


def known_findings():
    """Entries `finding: property=<id> match=<text>` of known-findings.txt (entries `fixed:` suppress nothing)."""
    out = []
    p = os.path.join(env.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                prop, _, m = line[8:].strip().partition(" match=")
                out.append((prop.replace("property=", "").strip(), m.strip()))
    return out


def manifest_level(prop):
    try:
        for c in json.load(open(os.path.join(env.VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "other"


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scenario")
    ap.add_argument("--case", type=int)
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-rac", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    prop, t0 = a.property, time.time()
    thorough = a.tier == "thorough"
    if a.replay:
        r = json.load(open(a.replay))
        a.scenario, a.case, a.seed = r.get("scenario"), r.get("case"), r.get("seed", a.seed)
        if a.case is None or a.case < 0 or not a.scenario:
            print(r.get("message") or r)
            return 1
    # 1. obligations discharged by the verifier on the current source
    proof = None
    if not a.no_proof and not a.scenario:
        try:
            from . import prove

            proof = prove.run(prop, thorough)
        except Exception as e:
            proof = dict(functions=[], results=[], failed=[dict(function="(verifier)", obligation="verification conditions can be generated from the source",
                         reason="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))], assumptions=[], trusted=[], wall=0.0)
    # 2. the same contracts evaluated on the real code
    viol, st = [], dict(assertions=0, cases=0, nontrivial=0, scenarios=[], samples=[], wall=0.0)
    if not a.no_rac:
        try:
            from . import rac

            importlib.import_module("cv.scen." + prop.lower())
            if a.scenario and a.case is not None:
                fn = [f for n, f, _, _ in rac.SCEN[prop] if n == a.scenario][0]
                err, ck, dt = rac.run_one(prop, a.scenario, fn, a.seed, a.case)
                print(err or "held (%d assertions)" % ck.n)
                return 1 if err else 0
            viol, st = rac.run(prop, a.seed, thorough)
            if not viol and proof and proof["failed"] and not thorough:
                # an obligation failed: look harder for a failing input
                viol, st2 = rac.run(prop, a.seed + 1000, True, budget=240)
                for k in ("assertions", "cases", "nontrivial"):
                    st[k] += st2[k]
        except Exception as e:
            viol = [{"scenario": "import", "case": -1, "seed": a.seed, "message": "cannot run on this tree: %s\n%s" % (e, traceback.format_exc())}]
    # 3. report
    known, new = known_findings(), []
    for v in viol:
        hit = [m for p, m in known if p == prop and m and m in v["message"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
        else:
            new.append(v)
    failed = proof["failed"] if proof else []
    nviol = 0
    rdir = os.path.join(env.VERIF, "replay")
    if new:
        v = dict(new[0])
        v.update(property=prop, command="cd /verif && ./check.py %s --seed %s --scenario %s --case %s" % (prop, v["seed"], v["scenario"], v["case"]),
                 failed_obligations=failed[:20], others=new[1:])
        path = os.path.join(rdir, "%s.json" % prop)
        write_json(path, v)
        print(v["message"])
        for f in failed[:5]:
            print("obligation failed: %s: %s" % (f["function"], f["obligation"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        nviol = len(new)
    elif failed:
        path = os.path.join(rdir, "%s-obligation.json" % prop)
        write_json(path, dict(property=prop, command="cd /verif && ./check.py %s --no-rac" % prop, failed_obligations=failed,
                              note="the verifier rejected these obligations on the current source; no failing input was found by evaluating the contracts on the real code"))
        for f in failed[:5]:
            print("obligation failed: %s: %s\n   %s" % (f["function"], f["obligation"], str(f["reason"])[:1500]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        nviol = len(failed)
    level = manifest_level(prop)
    cov = dict(evaluations=st["assertions"], distinct_nontrivial=st["nontrivial"], rule=RULE, samples=st["samples"], cases=st["cases"],
               scenarios=st["scenarios"], runtime_contract_wall_s=round(st["wall"], 2), runtime_contracts="bounded: evaluated on the sampled inputs only, not counted as proved")
    assumptions = []
    if proof:
        ok = [r for r in proof["results"]]
        cov.update(obligations=len(ok) + len(failed), discharged=len(ok), checker_cmd="./check.py %s --no-rac" % prop,
                   functions_under_contract=proof["functions"], backends=proof.get("backends", {}), solver_wall_s=round(proof["wall"], 2),
                   trusted_base=proof["trusted"], not_deduced=proof.get("bounded", []), obligation_names=[r["name"] for r in ok][:400])
        assumptions = proof["assumptions"]
    if level == "other":
        cov["explanation"] = ("%d proof obligations generated from the current source by the contract verifier, %d discharged; the parts listed under not_deduced are "
                              "covered by runtime evaluation of the same contracts (bounded)" % (cov.get("obligations", 0), cov.get("discharged", 0)))
    write_json(os.path.join(env.VERIF, "evidence", prop + ".json"),
               dict(property=prop, tier=a.tier, seed=a.seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=nviol))
    print("%s: %d obligations, %d discharged; %d runtime contract evaluations in %d cases; %.1f s"
          % (prop, cov.get("obligations", 0), cov.get("discharged", 0), st["assertions"], st["cases"], time.time() - t0))
    return 1 if nviol else 0
