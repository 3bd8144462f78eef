#!/usr/bin/env python3
"""One property: extract /repo's current source, generate the proof
obligations of its contracts, discharge them, run the bounded harness.

exit 0: nothing found; exit 1: a line 'VIOLATION property=.. replay=..'."""
import sys, os, argparse, importlib, json, time, shutil, tempfile, threading, re, hashlib, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from vt import gen, prove, harness

REPO = os.environ.get("VT_REPO", "/repo")


def norm_text(lines):
    return hashlib.sha256("\n".join(lines).encode()).hexdigest()[:16]


def load_baseline(pid):
    p = os.path.join(ROOT, "baseline", pid + ".json")
    return json.load(open(p)) if os.path.exists(p) else {}


class Proof:
    def __init__(self, pid, mod, wd, bl, quick):
        self.pid, self.mod, self.wd, self.bl, self.quick = pid, mod, wd, bl, quick
        self.undecided, self.alarms, self.flakes = [], [], []
        self.res, self.stats, self.goals = {}, {}, {}
        self.g = None
        self.fatal = None
        self.vacuous = []
        self.theory = None
        self.wall = 0
        self.stop = lambda: False

    def run(self):
        t0 = time.time()
        try:
            self._run()
        except Exception:
            self.fatal = traceback.format_exc()
        self.wall = time.time() - t0

    def _run(self):
        prop = self.mod.PROP
        if not prop.fns:
            return
        bl = self.bl
        skip = {}
        for attempt in range(8):
            g = gen.generate(prop, REPO, self.wd, bl.get("fns"), skip=skip)
            src = os.path.join(self.wd, "props.mlw")
            open(src, "w").write(g.text)
            try:
                goals = prove.vcgen(src, self.wd, os.path.join(ROOT, "theories"))
                break
            except prove.ProveError as e:
                m = re.search(r'line (\d+)', str(e))
                ln = int(m.group(1)) if m else None
                hit = [f for f, (a, b) in g.lines_fn.items() if ln and a - 60 <= ln <= b and (a < ln or True)]
                exact = [f for f, (a, b) in g.lines_fn.items() if ln and a < ln <= b]
                near = sorted((a - ln, f) for f, (a, b) in g.lines_fn.items() if ln and ln <= a)
                victim = exact[0] if exact else (near[0][1] if near else None)
                if victim is None or victim in skip:
                    raise
                skip[victim] = "generated text rejected by the verifier: %s" % str(e).strip()[-300:]
        else:
            raise RuntimeError("no consistent extraction")
        self.g = g
        self.undecided = list(g.problems)
        for f, t in g.texts.items():
            if not t["exact"]:
                self.undecided.append((f, "; ".join(t["why_not"])))
        inexact = {f for f, _ in self.undecided}
        self.goals = goals
        hints = bl.get("hints", {})
        changed = {f for f, t in g.texts.items() if norm_text(t["body"]) != bl.get("fns", {}).get(f, {}).get("hash")}
        self.changed = changed
        byfn = {gn.lower(): gn for gn in g.texts}
        sched = ((2, 1), (10, 1), (40, 1)) if bl else ((2, 1), (15, 1), (60, 1))
        # obligations of functions whose extraction is unchanged get only the normal schedule
        res, stats = prove.discharge(goals, hints=hints, schedule=sched, budget=330, stop=self.stop)
        self.res, self.stats = res, stats
        lines = g.lines
        for k, r in res.items():
            if r["status"] == "valid":
                continue
            gi = goals[k]
            fn = gi["fn"]
            ln = gi["line"] or 0
            txt = lines[ln - 1].strip() if gi["file"] and gi["file"].endswith("props.mlw") and 0 < ln <= len(lines) else ""
            lab = re.search(r"\(\*@ (.*?) \*\)", txt)
            d = dict(goal=k, fn=fn, expl=gi["expl"], clause=lab.group(1) if lab else "", text=txt[:300], reasons=r["reasons"], vc=gi["z3"])
            if fn in inexact:
                self.undecided.append((fn, "obligation not discharged after a structural change: %s %s" % (gi["expl"], d["clause"])))
            elif fn in changed and bl:
                self.alarms.append(d)
            else:
                self.flakes.append(d)
        # vacuity: a contradictory precondition (or theory) would make this provable
        vac = ["module Vac", "  use Props"]
        txt = g.text[:g.text.rindex("end")]
        vtxt = []
        for f in g.order:
            t = g.texts[f]
            vtxt.append("  let vac'%s %s : unit" % (f, t["params"]) if False else "  let vac_%s %s : unit" % (f, t["params"]))
            for lab, r in t["requires"]:
                vtxt.append("    requires { %s }" % r)
            vtxt.append("    ensures { false }\n  = ()")
        vsrc = os.path.join(self.wd, "vac.mlw")
        # contracts only: bodies are replaced by declarations
        open(vsrc, "w").write(txt + "\n".join(vtxt) + "\nend\n")
        try:
            vg = prove.vcgen(vsrc, self.wd, os.path.join(ROOT, "theories"), "v")
            vg = {k: v for k, v in vg.items() if v["fn"].startswith("vac_")}
            vr, _ = prove.discharge(vg, schedule=((1, 1),), order=("z3",) if self.quick else ("z3", "cvc5"))
            self.vacuous = [vg[k]["fn"][4:] for k, r in vr.items() if r["status"] == "valid"]
            self.vac_checked = len(vg)
        except prove.ProveError as e:
            self.vacuous = []
            self.vac_checked = 0

    def prove_theories(self, names):
        tot, ok, und = 0, 0, []
        for nme in names:
            gl = prove.vcgen(os.path.join(ROOT, "theories", nme), self.wd, os.path.join(ROOT, "theories"), "t")
            r, st = prove.discharge(gl, schedule=((3, 1), (20, 1), (60, 1)), budget=300)
            tot += len(gl)
            ok += sum(1 for x in r.values() if x["status"] == "valid")
            und += [k for k, x in r.items() if x["status"] != "valid"]
        self.theory = dict(files=list(names), obligations=tot, discharged=ok, open=und)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--rebase", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-harness", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("contracts." + pid)
    wd = tempfile.mkdtemp(prefix="vt_%s_" % pid)
    bl = {} if a.rebase else load_baseline(pid)
    try:
        rc = go(pid, tier, seed, mod, wd, bl, a, t0)
    finally:
        if not a.keep:
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("kept", wd)
    sys.exit(rc)


def known_findings(pid):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def go(pid, tier, seed, mod, wd, bl, a, t0):
    quick = tier == "quick"
    H = getattr(mod, "HARNESS", None)
    hres = dict(status="none", line="", stats={}, wall=0)
    exe = [None]

    def do_harness():
        nonlocal hres
        try:
            exe[0] = harness.build(REPO, wd, H)
            hres = harness.run(exe[0], seed, 1 if quick else 10, H.get("limit_quick", 40) if quick else H.get("limit_thorough", 300), wd)
        except harness.BuildError as e:
            hres = dict(status="error", line="harness does not build: %s" % str(e)[:600], stats={}, wall=0)
        except Exception:
            hres = dict(status="error", line=traceback.format_exc()[-600:], stats={}, wall=0)
    th = None
    if H and not a.no_harness:
        th = threading.Thread(target=do_harness)
        th.start()
    pr = Proof(pid, mod, wd, bl, quick)
    pr.stop = lambda: hres["status"] == "fail"
    if not a.no_proof:
        pr.run()
        ths = getattr(mod, "THEORIES", ()) if quick else getattr(mod, "THEORIES_THOROUGH", ("numproof.mlw",))
        if ths and not pr.fatal and not pr.stop():
            try:
                pr.prove_theories(ths)
            except Exception:
                pr.fatal = traceback.format_exc()
    if th:
        th.join()
    if pr.fatal:
        pr.undecided.append(("(all)", pr.fatal.strip().split("\n")[-1][:500]))
        if a.keep or a.rebase:
            print(pr.fatal)
    if a.rebase:
        rebase(pid, pr)
    rep = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    rp = os.path.join(rep, pid + ".txt")
    if os.path.exists(rp):
        os.remove(rp)
    viol = 0
    msgs = []
    if pr.alarms and hres["status"] == "clean" and exe[0]:
        # look harder for a failing input before reporting a bare obligation
        for s2 in range(2, 5):
            h2 = harness.run(exe[0], seed + 1000 * s2, 3, 60, wd)
            if h2["status"] == "fail":
                hres = h2
                break
    if hres["status"] == "fail":
        viol = 1
        write_replay(rp, pid, seed, hres, pr, H)
        msgs.append("VIOLATION property=%s replay=%s" % (pid, rp))
    elif pr.alarms:
        viol = 1
        write_replay(rp, pid, seed, None, pr, H)
        for d in pr.alarms[:10]:
            print("obligation not discharged: %s: %s [%s] %s" % (d["fn"], d["expl"], d["clause"], d["text"][:160]))
        msgs.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    evidence(pid, tier, seed, mod, pr, hres, viol, time.time() - t0)
    for f, r in pr.undecided:
        print("UNDECIDED %s: %s" % (f, str(r)[:300].replace("\n", " ")))
    for d in ([] if hres["status"] == "fail" else pr.flakes):
        print("NOT-DISCHARGED (text identical to the committed baseline, solver resources): %s %s [%s]" % (d["goal"], d["expl"], d["clause"]))
    if pr.vacuous:
        print("VACUITY: contradictory precondition or theory: %s" % pr.vacuous)
    if hres["status"] == "error":
        print("HARNESS: %s" % hres["line"])
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    n = len(pr.res)
    ok = sum(1 for r in pr.res.values() if r["status"] == "valid")
    print("%s %s: obligations %d discharged %d; functions %d; harness %s %s; %.1fs (proof %.1fs)" % (
        pid, tier, n, ok, len(pr.g.texts) if pr.g else 0, hres["status"], hres["stats"].get("evaluations", ""), time.time() - t0, pr.wall))
    for m in msgs:
        print(m)
    return 1 if viol else 0


def write_replay(rp, pid, seed, hres, pr, H):
    with open(rp, "w") as f:
        f.write("property %s\n" % pid)
        if hres:
            f.write("failing input found by the harness harness/%s on the real code:\n%s\n\n" % (H["src"], hres["line"]))
            f.write("replay: cd /verif && VERIF_SEED=%d python3 check.py --property %s --no-proof\n\n" % (seed, pid))
        else:
            f.write("no failing input found; the verifier no longer accepts the obligations below, which it accepts on the committed baseline\n")
            f.write("replay: cd /verif && python3 check.py --property %s\n\n" % pid)
        for d in pr.alarms:
            f.write("FAILED OBLIGATION function=%s\n  kind: %s\n  clause: %s\n  text: %s\n  solvers: %s\n" % (d["fn"], d["expl"], d["clause"], d["text"], d["reasons"]))
            try:
                f.write("  goal (SMT-LIB, tail):\n" + "".join("    " + l for l in open(d["vc"]).readlines()[-40:]) + "\n")
            except OSError:
                pass
        for u in pr.undecided:
            f.write("UNDECIDED %s: %s\n" % u)


def rebase(pid, pr):
    if not pr.g:
        return
    fns = {}
    for f, t in pr.g.texts.items():
        fns[f] = dict(params=[x for x in t["cxxparams"]], locals=t["locals"], loops=t["loops"], hash=norm_text(t["body"]), qname=t["qname"])
    hints = {k: r["solver"] for k, r in pr.res.items() if r["status"] == "valid" and r["solver"] != "z3"}
    os.makedirs(os.path.join(ROOT, "baseline"), exist_ok=True)
    json.dump(dict(fns=fns, hints=hints, obligations=len(pr.res)), open(os.path.join(ROOT, "baseline", pid + ".json"), "w"), indent=1, sort_keys=True)
    print("baseline written: %d functions, %d obligations" % (len(fns), len(pr.res)))


GENERAL = [
    "machine integers are treated as mathematical integers (no overflow)",
    "long double/double are treated as real numbers",
    "std:: containers, std::gcd/lcm/min/max/floor/ceil/accumulate and boost graph accessors obey the models in theories/prelude.mlw",
    "distinct reference parameters do not alias; allocation and destructors have no effect",
    "the extraction (vt/trans.py, from clang's typed AST of the current sources), Why3 1.6 VC generation and the SMT solvers are correct",
]


def evidence(pid, tier, seed, mod, pr, hres, viol, wall):
    n = len(pr.res)
    ok = sum(1 for r in pr.res.values() if r["status"] == "valid")
    by = {}
    for r in pr.res.values():
        if r["status"] == "valid":
            by[r["solver"]] = by.get(r["solver"], 0) + 1
    per = {}
    for k, r in pr.res.items():
        f = pr.goals[k]["fn"]
        x = per.setdefault(f, [0, 0])
        x[0] += 1
        x[1] += r["status"] == "valid"
    und = sorted({f for f, _ in pr.undecided})
    cov = dict(
        obligations=n, discharged=ok,
        checker_cmd="python3 check.py --property %s --tier %s (why3 prove -a split_vc; z3 4.8.12, cvc5 1.1.2, z3-new)" % (pid, tier),
        trusted_base=GENERAL + list(mod.PROP.assumptions) + ["trusted external contract: %s" % v.why for v in mod.PROP.externals]
        + ["contract used here, discharged by check %s: %s" % (c, k) for w, k, c in (pr.g.assumed if pr.g else [])],
        functions_under_contract=[dict(function=pr.g.texts[f]["qname"], contract=f, obligations=per.get(f, [0, 0])[0], discharged=per.get(f, [0, 0])[1],
                                       text_as_baseline=f not in pr.changed) for f in pr.g.order] if pr.g else [],
        lemma_obligations={k: v for k, v in per.items() if not pr.g or k not in pr.g.texts},
        discharged_by=by, solver_seconds={s: round(t, 1) for s, (c, t) in pr.stats.items()},
        undecided=[dict(function=f, reason=str(r)[:400]) for f, r in pr.undecided],
        failed_obligations=[dict(function=d["fn"], kind=d["expl"], clause=d["clause"]) for d in pr.alarms],
        not_discharged_text_unchanged=[d["goal"] for d in pr.flakes],
        vacuity=dict(preconditions_checked=getattr(pr, "vac_checked", 0), contradictory=pr.vacuous),
        constructs_dropped_by_extraction=pr.g.world.dropped if pr.g else {},
        theory_proofs=pr.theory,
        bounded_harness=dict(label="bounded, not proof", status=hres["status"], detail=hres["line"][:500], wall_s=round(hres.get("wall", 0), 1), **{k: v for k, v in hres["stats"].items()}),
    )
    level = getattr(mod, "LEVEL", "proof")
    if level == "exploration":
        cov["evaluations"] = hres["stats"].get("evaluations", 0)
        cov["distinct_nontrivial"] = hres["stats"].get("distinct_nontrivial", 0)
        cov["rule"] = getattr(mod, "RULE", "")
        cov["samples"] = hres["stats"].get("samples", [])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 1), violations=viol,
              assumptions=GENERAL + list(mod.PROP.assumptions))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)


main()
