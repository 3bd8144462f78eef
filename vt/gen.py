"""From a property description (contracts) and the current sources to one
WhyML file, with a map from lines of that file to named obligations."""
import copy, os, re, json, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import ast as A
from . import trans as T
from .trans import Unsupported, World, FnSpec, Fn, Var, LV, kids, ident
from .ctypes_ import why as WT

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class F:
    """A function of /repo under contract."""

    def __init__(self, why, key, tu, filt=None, cls=None, name=None, requires=(), ensures=(), loops=None, hooks=None,
                 entry=(), fail=None, raises=(), after=None, skip_params=(), retself=None, trusted=False, note=None,
                 self_ref=None, writes=None, use=None, lemma_before=None, inout=(), variant=None):
        self.why, self.key, self.tu = why, key, tu
        nm = re.sub(r"[(\[].*$", "", key)
        if filt is None:
            filt = strip_targs(nm)
        self.filt = filt
        self.cls = cls
        if name is None:
            name = strip_targs(nm).split("::")[-1].split(" ")[-1]
        self.name = name
        self.requires, self.ensures = norm(requires, "pre"), norm(ensures, "post")
        self.loops, self.hooks, self.entry, self.fail = loops or {}, hooks or {}, list(entry), fail
        self.raises = list(raises)
        self.retself = retself
        self.trusted = trusted
        self.note = note
        self.self_ref = self_ref
        self.lemma_before = lemma_before
        self.inout = tuple(inout)
        self.variant = variant


def strip_targs(s):
    out, d = "", 0
    i = 0
    m = re.search(r"operator\s*(<=|>=|<<|>>|<|>|->)", s)
    head, tail = (s, "") if not m else (s[:m.start()], s[m.start():m.end()])
    for c in head:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out += c
    return (out + tail).strip()


def assume(fns, check):
    """contracts used here and discharged by another check"""
    out = []
    for f in fns:
        f = copy.copy(f)
        f.trusted = check
        out.append(f)
    return out


def norm(l, p):
    out = []
    for i, x in enumerate(l):
        out.append(x if isinstance(x, tuple) else ("%s%d" % (p, i + 1), x))
    return out


class V:
    """A trusted external function (declared, never verified)."""

    def __init__(self, cls, name, params, ret, spec, why, self_mode="val", const=True):
        self.cls, self.name, self.params, self.ret, self.spec, self.why, self.self_mode, self.const = cls, name, params, ret, spec, why, self_mode, const


class Prop:
    def __init__(self, pid, tus, fns, classes=None, records=(), theory="", uses=("Sum",), externals=(), builtins=None,
                 fail_mode="unreach", defaults=None, drop_calls=(), assumptions=(), prelude_files=("prelude.mlw",), post_theory=None):
        self.pid, self.tus, self.fns = pid, tus, fns
        self.classes = dict(classes or {})
        self.records = list(records)     # (why name, [(cxx field, why field, cxx type string)])
        self.theory = theory
        self.uses = uses
        self.externals = externals
        self.builtins = builtins or {}
        self.fail_mode = fail_mode
        self.defaults = defaults or {}
        self.drop_calls = set(drop_calls)
        self.assumptions = list(assumptions)
        self.prelude_files = prelude_files


class Generated:
    pass


def local_vars(node):
    out = []

    def walk(n):
        if n.get("kind") in ("VarDecl", "BindingDecl") and n.get("name") and not n["name"].startswith("__"):
            out.append((n["name"], n.get("type", {}).get("qualType", "")))
        for c in kids(n):
            walk(c)
    for c in kids(node):
        if c["kind"] != "ParmVarDecl":
            walk(c)
    return out


def rename_map(base, cur):
    """base, cur: lists (name,type) in order.  cur name -> base name for renamed locals."""
    bn, cn = [b[0] for b in base], [c[0] for c in cur]
    missing = [b for b in base if b[0] not in cn]
    new = [c for c in cur if c[0] not in bn]
    m = {}
    used = set()
    for b in missing:
        for j, c in enumerate(new):
            if j not in used and c[1] == b[1]:
                m[c[0]] = b[0]
                used.add(j)
                break
    return m


def assigned_params(node):
    ids = {c["id"] for c in kids(node) if c["kind"] == "ParmVarDecl"}
    hit = set()

    def root(n):
        n = T.strip_all(n)
        while n["kind"] in ("MemberExpr", "ArraySubscriptExpr") or (n["kind"] == "UnaryOperator" and n["opcode"] in ("*", "++", "--")):
            n = T.strip_all(kids(n)[0])
        if n["kind"] == "CXXOperatorCallExpr":
            return root(kids(n)[1])
        if n["kind"] == "CXXMemberCallExpr":
            me = T.strip(kids(n)[0])
            return root(kids(me)[0]) if kids(me) else None
        if n["kind"] == "DeclRefExpr":
            return n["referencedDecl"]["id"]
        return None
    # any parameter passed by value is copied into a fresh mutable local
    return ids


def generate(prop, repo, workdir, baseline=None, only=None, skip=None):
    g = Generated()
    g.problems = []          # (fn why name, reason)
    g.fn_info = {}
    tus = {k: A.Tu(repo, workdir, k, v) for k, v in prop.tus.items()}
    jobs = sorted({(f.tu, f.filt) for f in prop.fns})
    with ThreadPoolExecutor(8) as ex:
        futs = {j: ex.submit(tus[j[0]].dump, j[1]) for j in jobs}
    dumps, broken = {}, {}
    for j, fu in futs.items():
        try:
            dumps[j] = fu.result()
        except Exception as e:
            broken[j] = str(e)
    w = World(prop.classes, {}, prop.defaults)
    w.fail_mode = prop.fail_mode
    w.drop_calls = prop.drop_calls
    w.extra_builtins = dict(prop.builtins)
    for rn, fs in prop.records:
        d = {}
        for cf, wf, ct in fs:
            mt = w.types.parse(ct) if isinstance(ct, str) else ct
            d[cf] = (wf, mt)
        w.fields[rn] = d
    for v in prop.externals:
        s = FnSpec(v.why, v.cls, v.name, [(pn, w.types.parse(pt) if isinstance(pt, str) else pt, pm) for pn, pt, pm in v.params],
                   w.types.parse(v.ret) if isinstance(v.ret, str) else v.ret, v.self_mode, v.name, const=v.const)
        w.add_fn(s)
    # locate definitions
    found = []
    for f in prop.fns:
        j = (f.tu, f.filt)
        if j in broken:
            g.problems.append((f.why, "extraction: " + broken[j]))
            continue
        cand = [n for n in dumps[j].fns if f.key in n["_qname"]]
        if len(cand) != 1:
            g.problems.append((f.why, "extraction: %d definitions match %s" % (len(cand), f.key)))
            continue
        found.append((f, cand[0]))
    ctx = []
    for f, n in found:
        ps = [c for c in kids(n) if c["kind"] == "ParmVarDecl"]
        isctor = n["kind"] == "CXXConstructorDecl"
        params = []
        spec = FnSpec(f.why, f.cls, "<ctor>" if isctor else f.name, params, None, None, f.key)
        for i, p in enumerate(ps):
            tmp = Fn(w, n, {})
            pt = tmp.ty(p)
            q = p["type"]["qualType"]
            q2 = p["type"].get("desugaredQualType", q)
            if pt[0] == "ptr":
                mode = "val" if q2.startswith("const ") else "ref"
                pt = pt[1]
            elif q.rstrip().endswith("&") and not q.startswith("const ") and not q.rstrip().endswith("&&"):
                mode = "ref"
            else:
                mode = "val"
            if mode == "ref" and f.inout and p.get("name") not in f.inout and i not in f.inout:
                mode = "ref"
            params.append((ident(p.get("name", "arg%d" % i)), pt, mode))
            dk = kids(p)
            if dk:
                spec.defaults[ident(p.get("name", "arg%d" % i))] = dk[0]
        q = n["type"]["qualType"]
        const = q.rstrip().endswith("const") or q.rstrip().endswith("const noexcept")
        spec.const = const
        ret = T.fn_ret(Fn(w, n, {}), n)
        spec.ret = ret
        if f.cls and not isctor and n.get("storageClass") != "static" and n["kind"] == "CXXMethodDecl":
            spec.self_mode = "val" if const else "ref"
            if f.self_ref is not None:
                spec.self_mode = "ref" if f.self_ref else "val"
        if isctor:
            spec.ret = ("cls", f.cls)
        if f.retself or (f.retself is None and f.cls and spec.self_mode == "ref" and ret == ("cls", f.cls) and "&" in q.split("(")[0]):
            spec.retself = True
        spec.raises = bool(f.raises)
        bl = (baseline or {}).get(f.why)
        if bl and bl.get("params"):
            bp = bl["params"]
            if len(bp) == len(params):
                params[:] = [(bp[i], params[i][1], params[i][2]) for i in range(len(params))]
        w.add_fn(spec)
        ctx.append((f, n, spec))

    def inliner(fn, cls, nm, args, obj, node):
        # look for a definition in any dump, then ask clang for it
        tu = fn.c["_tu"]
        cppcls = None
        for (t, fl), d in list(dumps.items()):
            if t != tu:
                continue
            c = pick(d.fns, nm, args, fn)
            if c is not None:
                return c
        try:
            d = tus[tu].dump(nm)
        except Exception:
            return None
        dumps[(tu, nm)] = d
        return pick(d.fns, nm, args, fn)

    def pick(fns, nm, args, fn):
        A_ = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        good = []
        for c in fns:
            if c.get("name") != nm or "<" in c["_qname"].split("(")[0] and False:
                continue
            ps = [p for p in kids(c) if p["kind"] == "ParmVarDecl"]
            if len(ps) < len(A_) or any(not kids(p) for p in ps[len(A_):]):
                continue
            ok = all(compat(fn.ty(p), fn.ty(a)) for p, a in zip(ps, A_))
            if ok:
                good.append(c)
        if len(good) >= 1:
            return good[0]
        return None

    def compat(p, a):
        if p[0] == "ptr":
            p = p[1]
        if a[0] == "ptr":
            a = a[1]
        return p == a or (p[0] in ("int", "real", "bool") and a[0] in ("int", "real", "bool"))

    w.inliner = inliner
    texts = {}
    skip = dict(skip or {})
    for f, n, spec in ctx:
        if f.trusted:
            continue
        if f.why in skip:
            g.problems.append((f.why, skip[f.why]))
            continue
        try:
            info = translate(w, f, n, spec, (baseline or {}).get(f.why))
            texts[f.why] = info
            spec.diverges = info["diverges"]
            g.fn_info[f.why] = info
        except Unsupported as e:
            g.problems.append((f.why, "not translated: %s" % str(e)[:400]))
        except RecursionError:
            g.problems.append((f.why, "not translated: recursion"))
        except (KeyError, IndexError, TypeError, AttributeError) as e:
            import traceback
            tb = traceback.format_exc().strip().split("\n")
            g.problems.append((f.why, "not translated: internal %s %s [%s]" % (type(e).__name__, e, tb[-3].strip() if len(tb) > 3 else "")))
    # propagate 'diverges'
    changed = True
    while changed:
        changed = False
        for f, n, spec in ctx:
            t = texts.get(f.why)
            if t and not t["diverges"]:
                if any(texts.get(c, {}).get("diverges") for c in t["calls"]):
                    t["diverges"] = True
                    changed = True
    # emit
    L = []
    L.append("module Props")
    for u in prop.uses:
        L.append("  use prelude.%s" % u)
    L.append("  use prelude.Pair")
    for s, c in sorted(w.strings.items(), key=lambda x: x[1]):
        L.append("  (* %s *) val constant %s : int" % (s.replace("(*", "( *").replace("*)", "* )"), c))
    if w.strings:
        cs = sorted(w.strings.values()) + ["str_empty"]
        ax = [" /\\ ".join("%s <> %s" % (a, b) for i, a in enumerate(cs) for b in cs[i + 1:])]
        L.append("  axiom string_literals_distinct : %s" % ax[0])
    recs = {rn: fs for rn, fs in prop.records}
    for rn, fs in prop.records:
        L.append("  type %s = { %s }" % (rn, "; ".join("%s : %s" % (wf, WT(w.fields[rn][cf][1])) for cf, wf, ct in fs)))
    for rn, fs in w.anon_records:
        L.append("  type %s = { %s }" % (rn, "; ".join("%s : %s" % (wf, WT(t)) for wf, t in fs.values())))
    L += prop.theory.split("\n")
    for v in prop.externals:
        ps = []
        if v.self_mode:
            ps.append("(%sthis: %s)" % ("ref " if v.self_mode == "ref" else "", v.cls))
        for pn, pt, pm in v.params:
            pt = w.types.parse(pt) if isinstance(pt, str) else pt
            ps.append("(%s%s: %s)" % ("ref " if pm == "ref" else "", pn, WT(pt)))
        rt = w.types.parse(v.ret) if isinstance(v.ret, str) else v.ret
        L.append("  val %s %s : %s" % (v.why, " ".join(ps) or "()", WT(rt)))
        for s in v.spec:
            L.append("    " + s)
    lines_fn = {}
    for f, n, spec in ctx:
        if f.why in texts:
            continue
        # not verified on this run: callers still see its contract
        sig = []
        if spec.self_mode:
            sig.append("(%sthis: %s)" % ("ref " if spec.self_mode == "ref" else "", f.cls))
        for pn, pt, pm in spec.params:
            sig.append("(%s%s: %s)" % ("ref " if pm == "ref" else "", pn, WT(pt)))
        try:
            isctor = n["kind"] == "CXXConstructorDecl"
            rt = "unit" if (spec.retself and not isctor) else WT(spec.ret)
        except TypeError:
            continue
        fx = []
        if spec.self_mode == "ref":
            fx.append("this")
        fx += [pn for pn, pt, pm in spec.params if pm == "ref"]
        L.append("  val %s %s : %s" % (f.why, " ".join(sig) or "()", rt))
        for lab, r in f.requires:
            L.append("    requires { %s }" % r)
        for lab, r in f.ensures:
            L.append("    ensures { %s }" % r)
        if fx:
            L.append("    writes { %s }" % ", ".join(fx))
        for r in f.raises:
            L.append("    raises { %s }" % r)
    order = toposort([f.why for f, n, s in ctx if f.why in texts], texts)
    byname = {f.why: (f, n, s) for f, n, s in ctx}
    for fw in order:
        t = texts[fw]
        if t.get("lemma_before"):
            L += t["lemma_before"].split("\n")
        for e, ty in t["exc"]:
            L.append("  exception %s_%s %s" % (e, fw, ty or ""))
        rec = fw in t["calls"]
        L.append("  let %s%s %s : %s" % ("rec " if rec else "", fw, t["params"], t["ret"]))
        for lab, r in t["requires"]:
            L.append("    requires { %s } (*@ pre %s *)" % (r, lab))
        for lab, r in t["ensures"]:
            L.append("    ensures { %s } (*@ post %s *)" % (r, lab))
        for r in t["raises"]:
            L.append("    raises { %s } (*@ raises *)" % r)
        if rec and t["variant"]:
            L.append("    variant { %s } (*@ recursion: variant *)" % t["variant"])
        if t["diverges"] or (rec and not t["variant"]):
            L.append("    diverges")
        L.append("  =")
        start = len(L)
        body = "\n".join(t["body"])
        for e, ty in t["exc"]:
            body = re.sub(r"\b%s\b" % e, "%s_%s" % (e, fw), body)
        L += body.split("\n")
        lines_fn[fw] = (start, len(L))
    L.append("end")
    g.text = "\n".join(L) + "\n"
    g.lines = g.text.split("\n")
    g.order = order
    g.lines_fn = lines_fn
    g.specs = {f.why: (f, spec) for f, n, spec in ctx}
    g.texts = texts
    g.assumed = [(f.why, f.key, f.trusted) for f in prop.fns if f.trusted]
    g.world = w
    return g


def toposort(names, texts):
    out, seen = [], set()

    def visit(n, stack=()):
        if n in seen:
            return
        seen.add(n)
        for c in sorted(texts[n]["calls"]):
            if c in texts and c not in stack and c != n:
                visit(c, stack + (n,))
        out.append(n)
    for n in names:
        visit(n)
    return out


def translate(w, f, n, spec, bl):
    c = {"loops": f.loops, "hooks": f.hooks, "_tu": f.tu}
    if f.fail:
        c["fail"] = f.fail
    base_locals = (bl or {}).get("locals")
    cur_locals = local_vars(n)
    names = rename_map([tuple(x) for x in base_locals], cur_locals) if base_locals else {}
    fn = Fn(w, n, c, {k: ident(v) for k, v in names.items()})
    fn.ret = spec.ret
    fn.retself = spec.retself
    ps = [p for p in kids(n) if p["kind"] == "ParmVarDecl"]
    isctor = n["kind"] == "CXXConstructorDecl"
    sig = []
    head = []
    if spec.self_mode:
        sig.append("(%sthis: %s)" % ("ref " if spec.self_mode == "ref" else "", f.cls))
        fn.this_lv = LV("this", (), ("cls", f.cls))
        fn.used["this"] = 1
    for p, (pn, pt, pm) in zip(ps, spec.params):
        fn.used[pn] = 1
        sig.append("(%s%s: %s)" % ("ref " if pm == "ref" else "", pn, WT(pt)))
        if pm == "val":
            q = p["type"]["qualType"]
            if not q.startswith("const "):
                head.append("let ref %s = %s in" % (pn, pn))
        fn.vars[p["id"]] = Var(pn, pt, "ref")
    fn.out += head
    for e in f.entry:
        fn.emit(e)
    if isctor:
        fn.emit("let ref this = %s in" % fn.default_any(f.cls))
        fn.this_lv = LV("this", (), ("cls", f.cls))
        fn.inout_self_ctor = True
        fn.retself = True
        for ci in n.get("inner", []):
            if ci.get("kind") == "CXXCtorInitializer":
                fld = ci.get("anyInit", {}).get("name")
                if fld is None:
                    raise Unsupported("base class initializer")
                lv = fn.field(fn.this_lv, ("cls", f.cls), fld)
                e = fn.pure(fn.rv(kids(ci)[0], lv.ty))
                fn.write(lv, e)
    b = [x for x in kids(n) if x["kind"] in ("CompoundStmt", "CXXTryStmt")]
    fn.stmt(b[0])
    if spec.why in fn.calls and not f.variant:
        fn.diverges = True
    if isctor:
        fn.hook(("return",))
        fn.emit("this")
    elif spec.ret == ("void",) or spec.retself:
        fn.hook(("return",))
        fn.emit("()")
    else:
        fn.emit("absurd")
    ret = "unit" if (spec.retself and not isctor) else WT(spec.ret)
    exact = True
    why_not = []
    nloops = len(fn.loops_seen)
    want = max(f.loops) if f.loops else 0
    exp = (bl or {}).get("loops")
    if exp is not None and exp != fn.loops_seen:
        exact = False
        why_not.append("loop structure %s, contract written for %s" % (fn.loops_seen, exp))
    if names:
        why_not.append("renamed locals %s" % names)
    if base_locals is not None:
        bn = {x[0] for x in base_locals}
        cn = {x[0] for x in cur_locals} | {names.get(x[0]) for x in cur_locals}
        gone = [x for x in bn if x not in cn]
        text = json.dumps([str(f.loops), str(f.hooks)])
        gone = [x for x in gone if re.search(r"\b%s\b" % re.escape(ident(x)), text)]
        if gone:
            exact = False
            why_not.append("locals %s used by the contract are gone" % gone)
    return dict(params=" ".join(sig) if sig else "()", ret=ret, requires=f.requires, ensures=f.ensures, raises=f.raises,
                diverges=fn.diverges, body=fn.out, exc=fn.exc, calls=fn.calls, locals=cur_locals, loops=fn.loops_seen,
                cxxparams=[ident(p.get("name", "arg%d" % i)) for i, p in enumerate(ps)], exact=exact, why_not=why_not,
                lemma_before=f.lemma_before, variant=f.variant, qname=n["_qname"], key=f.key)


def _default_any(self, cls):
    fs = self.w.fields[cls]
    vals = []
    for wf, mt in fs.values():
        a = self.anyval(mt) or self.default(mt)
        vals.append((wf, self.pure(a)))
    return "{ %s }" % "; ".join("%s = %s" % v for v in vals)


Fn.default_any = _default_any
