#!/usr/bin/env python3
"""plant.py ID: confirm a seeded change in a scratch copy: applies, builds, stable tests pass, demo passes without and fails with it.
plant.py --check ID [prop..]: apply to /repo, run the check(s), undo."""
import sys, os, subprocess, json, shutil
S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def confirm(i):
    d = "%s/%s" % (S, i)
    try:
        r = sh("git -C /repo status --porcelain --untracked-files=no")
        assert r.stdout == "", r.stdout
        # demo on the unchanged tree (build is up to date)
        sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        if r.returncode != 0: return "demo fails on unchanged tree: " + r.stdout[-500:]
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: return "does not apply: " + r.stdout
        r = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        o = json.load(open("/tmp/plant_out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        st = base.get("stable") or base.get("passed") or base
        names = st if isinstance(st, list) else list(st)
        miss = [n for n in names if n not in o["passed"]]
        if miss: return "tests fail: %s %s" % (miss[:5], r.stdout[-800:])
        r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        if r.returncode == 0: return "demo passes with the patch: " + r.stdout[-300:]
        return "OK " + r.stdout.strip()[-200:]
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
def check(i, props):
    d = "%s/%s" % (S, i)
    m = json.load(open(d + "/meta.json"))
    for p in props or [m["property"]]:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: return "does not apply"
        try:
            r = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py --property %s" % p)
        finally:
            sh("git -C /repo checkout -- .")
        t = r.stdout.strip().split("\n")
        print("%s %s rc=%d | %s" % (i, p, r.returncode, " || ".join(x[:300] for x in t[-6:])))
if __name__ == "__main__":
    if sys.argv[1] == "--check": check(sys.argv[2], sys.argv[3:])
    else:
        for i in sys.argv[1:]: print(i, confirm(i))
