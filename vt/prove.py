"""Why3 VC generation and parallel discharge by several SMT solvers."""
import os, re, subprocess, time, threading, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

DRV = os.path.join(os.path.dirname(os.path.abspath(__file__)), "drivers")
SOLVERS = {
    "z3": (["/usr/bin/z3", "-smt2", "-T:%d"], "z3"),
    "z3-new": (["/usr/local/bin/z3-new", "-smt2", "-T:%d"], "z3"),
    "cvc5": (["cvc5", "--lang=smt2.6", "--tlimit=%d000"], "cvc5"),
}


class ProveError(Exception):
    pass


CONF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "why3.conf")


def goal_groups(src, n=8):
    """goal names of a generated file, spread over n groups of similar size (one why3 process each)"""
    names, last = [], None
    for i, l in enumerate(open(src)):
        m = re.match(r"^\s*(?:let|with) (?:rec )?(?:ghost |lemma )*(?:function |predicate )?(\w+)", l)
        if m and (l.lstrip().startswith("let ") and l.startswith("  let ") or l.startswith("  with ")):
            names.append([m.group(1) + "'vc", 0])
        m = re.match(r"^  (?:lemma|goal) (\w+)\s*:", l)
        if m:
            names.append([m.group(1), 0])
        if names:
            names[-1][1] += 2 if "ensures" in l or "invariant" in l else 1
    groups = [[0, []] for _ in range(n)]
    for nm, w in sorted(names, key=lambda x: -x[1]):
        g = min(groups, key=lambda g: g[0])
        g[0] += w + 5
        g[1].append(nm)
    return [g[1] for g in groups if g[1]]


def vcgen(src, workdir, loadpath, tag="p", split=True):
    """split VCs of file src; returns {goal name: dict(z3=path, cvc5=path, fn=.., line=.., file=.., expl=..)}"""
    outs = {}
    for drv in ("z3", "cvc5"):
        od = os.path.join(workdir, "vc_%s_%s" % (tag, drv))
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)
        outs[drv] = od
    base = ["why3", "--config", CONF, "prove", "-L", loadpath]
    jobs = []
    txt = open(src).read()
    single = split and len(re.findall(r"^module ", txt, re.M)) == 1
    groups = goal_groups(src) if single else [[]]
    for i, grp in enumerate(groups):
        sel = []
        if grp:
            sel = ["-T", "Props"]
            for gname in grp:
                sel += ["-G", gname]
        for drv, d in (("z3", "vt_z3_487.drv"), ("cvc5", "vt_cvc5.drv")):
            jobs.append(base + ["-a", "split_vc", "-D", os.path.join(DRV, d), "-o", outs[drv] + ("/%d" % i), src] + sel)
            os.makedirs(outs[drv] + "/%d" % i)
        jobs.append(base + ["--json", "-P", "Lister", "-a", "split_vc", src] + sel)
    def go(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout, p.stderr
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, jobs))
    goals = {}
    for i, grp in enumerate(groups):
        for rc, so, se in res[3 * i:3 * i + 2]:
            if rc != 0:
                raise ProveError(se.decode()[:2000] + so.decode()[:500])
        goals.update(collect(src, {d: o + "/%d" % i for d, o in outs.items()}, res[3 * i + 2][1].decode(), tag))
    return goals


def collect(src, outs, txt, tag):
    import json
    dec = json.JSONDecoder()
    i, n = 0, len(txt)
    infos = []
    while i < n:
        while i < n and txt[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(txt, i)
        infos.append(o["term"])
    files = sorted(os.listdir(outs["z3"]))
    stem = os.path.basename(src)[:-4]
    byname = {}
    for f in files:
        b = f[:-5]
        m = re.match(r"^(.*qtvc)(\d*)$", b)
        if m:
            byname.setdefault(m.group(1), []).append((int(m.group(2) or 0), f))
        else:
            byname.setdefault(b, []).append((0, f))
    cnt = {}
    goals = {}
    if len(infos) != len(files):
        raise ProveError("goal listing mismatch: %d vs %d" % (len(infos), len(files)))
    # the files are numbered in listing order per goal name; several modules may share names
    per = {}
    for it in infos:
        per.setdefault(it["goal_name"], []).append(it)
    taken = {}
    for b, l in byname.items():
        l.sort()
        # file stem is FILE-MODULE-goal with ' written qt
        gname = b.split("-", 2)[2].replace("qt", "'")
        for idx, f in l:
            k = taken.get(gname, 0)
            cand = per.get(gname) or []
            if k >= len(cand):
                it = {"goal_name": gname, "loc": {}, "explanations": []}
            else:
                it = cand[k]
            taken[gname] = k + 1
            loc = it.get("loc", {})
            goals[tag + ":" + f[:-5].split("-", 1)[1]] = dict(z3=os.path.join(outs["z3"], f), cvc5=os.path.join(outs["cvc5"], f), goal=gname,
                                  fn=re.sub(r"'vc$", "", gname), line=loc.get("start-line"), file=loc.get("file-name"),
                                  expl=(it.get("explanations") or [""])[0])
    return goals


def run_solver(s, path, tl):
    cmd, _ = SOLVERS[s]
    cmd = [c % tl if "%d" in c else c for c in cmd] + [path]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tl + 5)
        o = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        o = "timeout"
    dt = time.time() - t
    for l in o.split("\n"):
        l = l.strip()
        if l == "unsat":
            return "valid", dt
        if l == "sat":
            return "refuted", dt
        if l == "unknown":
            return "unknown", dt
        if "timeout" in l:
            return "timeout", dt
    return "timeout" if dt >= tl - 0.5 else "unknown", dt


def discharge(goals, hints=None, schedule=((2, 1), (10, 1), (40, 1)), jobs=8, budget=None, order=("z3", "cvc5", "z3-new"), stop=None):
    """returns {goal: dict(status, solver, time, reasons)}"""
    hints = hints or {}
    res = {}
    pend = list(goals)
    t0 = time.time()
    stats = {s: [0, 0.0] for s in SOLVERS}
    lock = threading.Lock()
    for tl, _ in schedule:
        work = []

        def one(gname):
            h = hints.get(gname)
            seq = ([h] if h in order else []) + [s for s in order if s != h]
            reasons = res.get(gname, {}).get("reasons", {})
            for s in seq:
                if (budget and time.time() - t0 > budget) or (stop is not None and stop()):
                    reasons.setdefault(s, "budget exhausted" if stop is None or not stop() else "not tried: the harness had already found a failing input")
                    continue
                st, dt = run_solver(s, goals[gname][SOLVERS[s][1]], tl)
                with lock:
                    stats[s][1] += dt
                reasons[s] = "%s after %.1fs" % (st, dt)
                if st == "valid":
                    with lock:
                        stats[s][0] += 1
                    return dict(status="valid", solver=s, time=dt, reasons=reasons)
            return dict(status="open", solver=None, time=tl, reasons=reasons)
        with ThreadPoolExecutor(jobs) as ex:
            for gname, r in zip(pend, ex.map(one, pend)):
                res[gname] = r
        pend = [p for p in pend if res[p]["status"] != "valid"]
        if not pend:
            break
    return res, stats
