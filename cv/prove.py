"""Collects the deductive contracts of a property (cv/proofs) and discharges them on the current source."""
import importlib, os, re, subprocess, sys, time

TRUSTED = [
    "the verifier itself (cv/sym: symbolic executor of the source text, term normaliser, prover) and z3",
    "CPython executes the unchanged expressions and statements as the verifier does",
    "real arithmetic: floating-point rounding, overflow and nan are not modelled; a float constant stands for the simplest rational that rounds to it",
]

# seconds of the quick tier: after a failure, no further contract is begun after SOON; the whole takes at most LONGEST
SOON, LONGEST = 200, 480


def run(prop, thorough, only=None):
    path = os.path.join(os.path.dirname(__file__), "proofs", prop.lower() + ".py")
    if not os.path.exists(path):
        return None
    t0 = time.time()
    sys.setrecursionlimit(20000)
    from .sym import contract as K, npf, poly as PY

    mod = importlib.import_module("cv.proofs." + prop.lower())
    res, failed, side, funcs = [], [], {}, []
    times, skipped = {}, []
    lem = lemmas(prop) if not only else None
    for functions, name, fn, th, limit in K.REG.get(prop, []):
        if th and not thorough or only and name != only:
            continue
        t1 = time.time()
        if failed and t1 - t0 > SOON and not thorough and not only:
            skipped.append(name)   # the verdict is settled; no claim is made about the rest
            continue
        v, sd = K.verify(functions, name, fn, limit if thorough else max(5, min(limit, int(LONGEST - (t1 - t0)))))
        times[name] = round(time.time() - t1, 2)
        res += v.results
        failed += v.failed
        for s in sd:
            side.setdefault(s, []).append(name)
        for f in functions:
            if f not in funcs:
                funcs.append(f)
    if lem is not None:
        good, bad, dt = lem()
        res += good
        failed += bad
        times["lemmas (Lean)"] = dt
    if skipped:
        failed.append(dict(function="(verifier)", obligation="contracts not evaluated after the failures above", reason=", ".join(skipped)))
    backends = {}
    for r in res:
        backends[r["backend"]] = backends.get(r["backend"], 0) + 1
    backends["z3 queries"] = PY.STAT["z3"]
    backends["z3 wall s"] = round(PY.STAT["z3_time"], 2)
    assumptions = ["%s [in %s]" % (s, ", ".join(n[:3])) for s, n in side.items()]
    assumptions += list(getattr(mod, "ASSUMPTIONS", []))
    return dict(functions=funcs, results=res, failed=failed, assumptions=assumptions,
                trusted=TRUSTED + ["contract of %s" % u for u in sorted(npf.USED)] + list(getattr(mod, "TRUSTED", [])),
                wall=time.time() - t0, backends=backends, bounded=list(getattr(mod, "BOUNDED", [])), times=times)


def lemmas(prop):
    """Checks lemmas/<prop>.lean (mathematical facts between contracts) with Lean, in the background."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas", prop + ".lean")
    if not os.path.exists(path):
        return None
    t0 = time.time()
    src = open(path).read()
    code = re.sub(r"/-.*?-/", "", src, flags=re.S)
    names = re.findall(r"^(?:theorem|lemma)\s+(\S+)", code, flags=re.M)
    p = subprocess.Popen(["lean", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def finish():
        try:
            out, _ = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            out = "time limit"
        ok = p.returncode == 0 and "sorry" not in out and not re.search(r"\b(sorry|axiom|native_decide)\b", code)
        dt = round(time.time() - t0, 2)
        what = "lemmas/%s.lean" % prop
        if not ok:
            return [], [dict(function=what, obligation="lemmas", reason=out[:3000])], dt
        return [dict(function=what, name="lemma " + n, backend="lean 4 + Mathlib") for n in names], [], dt

    return finish


if __name__ == "__main__":
    from . import env  # noqa: F401

    for p in sys.argv[1].split(","):
        r = run(p, "CV_QUICK" not in os.environ, sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != "-v" else None)
        if r is None:
            print(p, "no contracts")
            continue
        for f in r["failed"]:
            print("FAILED %s: %s\n  %s" % (f["function"], f["obligation"], f["reason"] if "-v" in sys.argv else f["reason"][:1200]))
        print(p, "%d discharged, %d failed, %.1f s" % (len(r["results"]), len(r["failed"]), r["wall"]), r["times"])
        for a in r["assumptions"]:
            print("  assumed:", a[:300])
