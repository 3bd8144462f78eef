"""Development driver: python3 -m vt.dev C01 [-k substr] [-s] -- translate, prove, show open goals."""
import sys, os, importlib, json, time, argparse, tempfile
from . import gen, prove
ROOT = gen.ROOT

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("-f", default=None, help="prove a theory file")
    ap.add_argument("-k", default=None)
    ap.add_argument("-s", action="store_true", help="only show generated text")
    ap.add_argument("-t", type=int, default=10)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    if a.f:
        a.pid = "theory"
    else:
      m = importlib.import_module("contracts." + a.pid)
    wd = "/tmp/vt_" + a.pid
    os.makedirs(wd, exist_ok=True)
    t0 = time.time()
    if not a.f:
        g = gen.generate(m.PROP, a.repo, wd)
        print("generated in %.1fs; problems:" % (time.time() - t0), g.problems)
        open(wd + "/props.mlw", "w").write(g.text)
    if a.s:
        print(g.text)
        return
    try:
        if a.f:
            goals = prove.vcgen(a.f, wd, ROOT + "/theories", "t")
        else:
            goals = prove.vcgen(wd + "/props.mlw", wd, ROOT + "/theories")
    except prove.ProveError as e:
        print(e)
        return
    if a.k:
        goals = {k: v for k, v in goals.items() if a.k in k}
    print(len(goals), "goals")
    t1 = time.time()
    res, stats = prove.discharge(goals, schedule=((2, 1), (a.t, 1)))
    nopen = 0
    tl = {}
    for k, r in res.items():
        gi = goals[k]
        if r["status"] != "valid":
            nopen += 1
            ln, fil = gi["line"], gi["file"]
            if fil not in tl:
                tl[fil] = open(fil).read().split("\n") if fil and os.path.exists(fil) else []
            print("OPEN", k, gi["expl"], "line", ln, tl[fil][ln - 1].strip()[:200] if ln and ln <= len(tl[fil]) else "", r["reasons"])
        elif a.v or r["time"] > 5:
            print("ok", k, r["solver"], "%.1f" % r["time"])
    print("open", nopen, "of", len(res), "stats", {k: (n, round(t, 1)) for k, (n, t) in stats.items()}, "wall %.1f" % (time.time() - t1))
main()
