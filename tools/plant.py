"""plant.py SPEC.py ... : builds /verif/seeded/<id>/ from a spec, after confirming it in a scratch copy of /repo.
A spec defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source; exit status is the verdict)."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
d="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$d" OMP_NUM_THREADS=1 exec /opt/venv/bin/python -W ignore "$d/demo.py"
"""
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(sh("git -C /repo show --format= --name-only HEAD").stdout.split())
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = "/tmp/w/plant"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/w", exist_ok=True)
    sh("cp -a /repo " + d)
    for f, old, new in s["EDITS"]:
        p = os.path.join(d, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            sys.exit("%s: %d matches of %r in %s" % (s["ID"], n, old, f))
        open(p, "w").write(t.replace(old, new))
        # only lines of the original repository
        orig = sh("git -C /repo show 258498e:%s" % f).stdout
        for l in old.splitlines():
            if l.strip() and l not in orig.splitlines() and l.strip() not in [x.strip() for x in orig.splitlines()]:
                print("   note: line not in the original:", l.strip())
    out = os.path.join(V, "seeded", s["ID"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(sh("git -C %s diff" % d).stdout)
    open(out + "/demo.sh", "w").write(SH)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(s["DEMO"])
    shutil.copy(os.path.join(V, "tools", "fakepsr.py"), out + "/fakepsr.py")
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % out, cwd="/repo")
    b = sh("bash %s/demo.sh" % out, cwd=d)
    # the stable tests, in the scratch copy
    ids = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/w/j.xml tests; python3 /opt/vp/results.py /tmp/w/j.json junit:/tmp/w/j.xml", cwd=d)
    passed = set(json.load(open("/tmp/w/j.json"))["passed"])
    broke = [x for x in ids if x not in passed]
    if broke:
        print("   <<<<< BREAKS TESTS:", broke[:3])
    ok = a.returncode == 0 and b.returncode not in (0,)
    r = sh("cd /verif && CV_REPO=%s ./check.py %s" % (d, s["PROPERTY"]))
    last = (r.stdout.strip().splitlines() or [""])
    print("%-28s demo clean %d, planted %d  %s | check exit %d %s" % (s["ID"], a.returncode, b.returncode, "" if ok else "<<<<< BAD " + a.stdout[-300:] + a.stderr[-300:], r.returncode, "" if r.returncode == 1 else "MISSED"))
    if b.returncode and "AssertionError" not in b.stderr:
        print("   demo stderr:", b.stderr[-300:])
    shutil.rmtree(d, ignore_errors=True)
