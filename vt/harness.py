"""Builds and runs the bounded harness of a property against /repo's sources."""
import os, subprocess, re, json, time, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = ["g++", "-std=c++17", "-include", "array", "-w", "-D__RELEASE_MODE__", "-D_GLIBCXX_ASSERTIONS", "-I/usr/include/libxml2"]


def flags(repo, opt="-O1"):
    return CXX + [opt, "-I%s/src/libkiter" % repo, "-I%s/harness" % HERE, "-include", "%s/harness/vt_exit.h" % HERE]


class BuildError(Exception):
    pass


def compile_one(repo, src, obj, opt="-O1", extra=()):
    p = subprocess.run(flags(repo, opt) + list(extra) + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return p.returncode, p.stderr.decode(errors="replace")


def build(repo, workdir, h):
    """h: dict(src=, sources=[paths relative to src/libkiter])"""
    od = os.path.join(workdir, "obj")
    os.makedirs(od, exist_ok=True)
    lib = os.path.join(repo, "src/libkiter")
    srcs = [os.path.join(lib, s) for s in h.get("sources", [])]
    hsrc = os.path.join(HERE, "harness", h["src"])
    exe = os.path.join(workdir, "harness")
    jobs = [(hsrc, os.path.join(od, "harness.o"), ())]
    for s in srcs:
        if os.path.exists(s):
            jobs.append((s, os.path.join(od, os.path.relpath(s, lib).replace("/", "_") + ".o"), ()))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(repo, j[0], j[1], h.get("opt", "-O1"), j[2]), jobs))
    for (s, o, _), (rc, err) in zip(jobs, res):
        if rc != 0:
            raise BuildError("%s: %s" % (s, err[:1500]))
    objs = [j[1] for j in jobs]
    link = lambda ol: subprocess.run(["g++", "-o", exe] + ol + ["-lxml2", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p = link(objs)
    if p.returncode != 0:
        # a definition moved to another file: take the whole library
        done = set(srcs)
        rest = [s for s in glob.glob(lib + "/**/*.cpp", recursive=True) if s not in done and "/lp/" not in s]
        rest += [s for s in [os.path.join(lib, "lp", x) for x in ("glpsol.cpp",)] if os.path.exists(s)]
        jobs2 = [(s, os.path.join(od, os.path.relpath(s, lib).replace("/", "_") + ".o")) for s in rest]
        with ThreadPoolExecutor(8) as ex:
            r2 = list(ex.map(lambda j: compile_one(repo, j[0], j[1], h.get("opt", "-O1")), jobs2))
        good = [o for (s, o), (rc, e) in zip(jobs2, r2) if rc == 0]
        ar = os.path.join(od, "rest.a")
        subprocess.run(["ar", "rcs", ar] + good)
        p = subprocess.run(["g++", "-o", exe] + objs + [ar, "-lxml2", "-lpthread", "-Wl,--unresolved-symbols=ignore-all"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise BuildError("link: " + p.stderr.decode(errors="replace")[:1500])
    return exe


def run(exe, seed, effort, limit, workdir):
    """-> dict(status=clean|fail|error, line=, stats=)"""
    t = time.time()
    sd = os.path.join(workdir, "scratch")
    os.makedirs(sd, exist_ok=True)
    try:
        p = subprocess.run(["setsid", "-w", exe, str(seed), str(effort), str(limit)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit + 300, cwd=sd,
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (12 << 30, 12 << 30)))
    except subprocess.TimeoutExpired:
        return dict(status="error", line="harness time limit", wall=time.time() - t, stats={})
    out = p.stdout.decode(errors="replace")
    for l in out.split("\n"):
        if l.startswith("FAIL "):
            return dict(status="fail", line=l, wall=time.time() - t, stats={}, out=out[-4000:])
    for l in out.split("\n"):
        if l.startswith("DONE "):
            return dict(status="clean", line="", wall=time.time() - t, stats=json.loads(l[5:]))
    return dict(status="error", line="exit code %s, no verdict: %s" % (p.returncode, out[-300:]), wall=time.time() - t, stats={})
