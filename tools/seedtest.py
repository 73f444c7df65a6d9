#!/usr/bin/env python3
"""seedtest.py [--nocheck] ID...: apply each planted change to /repo, build, run the tests, the demo and the check; undo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
stable = json.load(open("/opt/vp/BASELINE.json"))
stable = set(stable["stable"])


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(i):
    return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo")


for i in args:
    t = time.time()
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    sh("bash /opt/vp/build.sh")
    d0 = demo(i)
    res = {"demo_clean": d0.returncode}
    if d0.returncode:
        print(d0.stdout[-1500:])
    a = sh("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i))
    try:
        if a.returncode:
            print(i, "PATCH FAILS", a.stdout)
            continue
        b = sh("bash /opt/vp/build.sh")
        res["build"] = b.returncode
        if "--notest" not in sys.argv:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            o = json.load(open("/tmp/seedtest.json"))
            p = set(o.get("passed", []))
            res["tests_lost"] = sorted(stable - p)
        d1 = demo(i)
        res["demo_patched"] = d1.returncode
        if not d1.returncode:
            print(d1.stdout[-1500:])
        if "--nocheck" not in sys.argv:
            c = sh("VERIF_SEED=1 python3 check.py %s quick" % m["property"], cwd=V)
            res["check"] = c.returncode
            res["out"] = [l[:300] for l in c.stdout.splitlines() if l][-3:]
    finally:
        sh("git -C /repo checkout -q -- .")
    ok = res.get("build") == 0 and res["demo_clean"] == 0 and res.get("demo_patched") and not res.get("tests_lost")
    print("%-26s %s  caught=%s %ds" % (i, "VALID" if ok else "INVALID %s" % res, res.get("check") == 1, time.time() - t), res.get("out") if res.get("check") != 1 else "", flush=True)
sh("bash /opt/vp/build.sh")
