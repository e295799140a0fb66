#!/usr/bin/env python3
"""Developer tool: validates the planted changes under seeded/ and says which checks catch them.
usage: seedcheck.py [-fast] [ids...]   (applies each patch to /repo and undoes it again)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = sys.argv[1:]
fast = "-fast" in args
args = [a for a in args if a[0] != "-"]


def sh(c, **k):
    return subprocess.run(c, shell=True, cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


base = set()
b = json.load(open("/opt/vp/BASELINE.json"))
stable = b["stable"] if isinstance(b, dict) and "stable" in b else b
for i in sorted(args or os.listdir(S)):
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    pid = meta["property"]
    assert not sh("git status --porcelain").stdout.strip()
    res = []
    if not fast:
        r = sh("timeout 300 bash %s/demo.sh" % d)
        res.append("demo-clean=%d%s" % (r.returncode, "" if r.returncode == 0 else " BAD " + r.stdout[-1500:]))
    a = sh("git apply %s/patch.diff" % d)
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stdout)
        continue
    try:
        if not fast:
            r = sh("bash /opt/vp/build.sh")
            res.append("build=%d" % r.returncode)
            r = sh("bash /opt/vp/test.sh /tmp/seed_test.json")
            o = json.load(open("/tmp/seed_test.json"))
            fl = json.dumps(o.get("failed", o.get("fail", "?")))[:300]
            res.append("tests=%s failed=%s" % (len(o.get("passed", o.get("pass", []))), fl))
            r = sh("timeout 300 bash %s/demo.sh" % d)
            res.append("demo-bug=%d%s" % (r.returncode, "" if r.returncode else " BAD"))
        r = sh("python3 %s/check.py %s" % (V, pid))
        last = [l for l in r.stdout.splitlines() if l.startswith(("violated", "ok", "ERROR"))]
        res.append("check %s=%d %s %s" % (pid, r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + pid in r.stdout else "MISSED", (last or [""])[0][:150]))
    finally:
        sh("git checkout -- . && git clean -fdq")
    print(i, " | ".join(res), flush=True)
