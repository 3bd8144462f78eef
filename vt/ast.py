"""Loading of clang's typed AST of the real sources under /repo.

Every call runs clang on a small driver file which #includes the real source
file (and, for templates, explicitly instantiates them).  Nothing is cached
between runs: what is analysed is the current working tree."""
import json, os, subprocess, hashlib, threading

CLANG = os.environ.get("VT_CLANG", "clang++-18")
_lock = threading.Lock()


class AstError(Exception):
    pass


def _docs(s):
    d = json.JSONDecoder()
    i, n = 0, len(s)
    while i < n:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        yield o


def clang_flags(repo):
    return ["-x", "c++", "-std=c++17", "-include", "array",
            "-I%s/src/libkiter" % repo, "-I/usr/include/libxml2",
            "-D__RELEASE_MODE__", "-fsyntax-only", "-w"]


class Tu:
    """One translation unit: a driver text that includes real sources."""

    def __init__(self, repo, workdir, name, text):
        self.repo, self.name, self.text = repo, name, text
        self.path = os.path.join(workdir, name + ".cpp")
        with open(self.path, "w") as f:
            f.write(text)
        self._dumps = {}

    def dump(self, filt):
        """List of decl nodes (with a body) whose qualified name contains filt."""
        if filt in self._dumps:
            return self._dumps[filt]
        cmd = [CLANG] + clang_flags(self.repo) + [
            "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, self.path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise AstError("clang failed on %s: %s" % (self.name, p.stderr.decode()[:800]))
        roots = list(_docs(p.stdout.decode("utf-8", "replace")))
        fns, recs = [], []
        for r in roots:
            self._collect(r, fns, recs)
        names = demangle([f["mangledName"] for f in fns])
        seen, out = set(), []
        for f, nm in zip(fns, names):
            f["_qname"] = nm
            if f["id"] in seen:
                continue
            seen.add(f["id"])
            out.append(f)
        res = Dump(out, recs)
        self._dumps[filt] = res
        return res

    def _collect(self, n, fns, recs):
        stack = [n]
        while stack:
            n = stack.pop()
            k = n.get("kind")
            if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl"):
                if "mangledName" in n:
                    if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", [])):
                        fns.append(n)
                continue
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
                if n.get("completeDefinition"):
                    recs.append(n)
            for c in reversed(n.get("inner", []) or []):
                if c.get("kind", "").endswith("Decl"):
                    stack.append(c)


class Dump:
    def __init__(self, fns, recs):
        self.fns, self.recs = fns, recs


def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode().split("\n")[:len(names)]
