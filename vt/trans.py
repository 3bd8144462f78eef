"""Mechanical translation of clang AST function bodies into WhyML.

What the translation drops or abstracts (reported in the evidence as
assumptions): logging statements, machine-integer overflow (mathematical
integers), floating-point rounding (real numbers), destructors/allocation,
aliasing between reference parameters.  Everything else is translated
statement by statement; a construct outside the supported subset raises
Unsupported (the function is then reported as not translated, never guessed)."""
import re
from . import ctypes_ as CT
from .ctypes_ import why as WT


class Unsupported(Exception):
    pass


KEYWORDS = set("""abstract absurd alias any assert assume at axiom begin break by check clone coinductive constant continue
diverges do done downto else end ensures epsilon exception exists export expand false float for forall fun function ghost goal if
import in inductive invariant label lemma let match meta module mutable namespace not old partial predicate private pure raise raises
reads rec ref requires result return returns scope so then theory to true try type use val variant while with writes range
length get set keys elems min max gcd lcm abs first second div mod cd cm snoc cons divides ri""".split())


def ident(n):
    n = re.sub(r"[^A-Za-z0-9_]", "_", n)
    if not n:
        n = "anon_"
    if n[0].isupper() or n[0].isdigit():
        n = "v_" + n
    if n in KEYWORDS:
        n = n + "_"
    return n


def kids(n):
    return [c for c in (n.get("inner") or []) if not c.get("kind", "").endswith("Comment")]


class LV:
    def __init__(self, root, steps=(), ty=None):
        self.root, self.steps, self.ty = root, tuple(steps), ty

    def __repr__(self):
        return "LV(%s,%s)" % (self.root, self.steps)


class Var:
    def __init__(self, why, ty, mode, lv=None, cont=None):
        self.why, self.ty, self.mode, self.lv, self.cont = why, ty, mode, lv, cont


class FnSpec:
    """Signature seen by callers."""

    def __init__(self, why, cls, name, params, ret, self_mode, key, retself=False, raises=False, const=False):
        self.why, self.cls, self.name, self.params, self.ret = why, cls, name, params, ret
        self.self_mode, self.key, self.retself, self.raises, self.const = self_mode, key, retself, raises, const
        self.defaults = {}
        self.diverges = False


class World:
    """Everything known while translating one property."""

    def __init__(self, classes, fields, defaults=None, strings=None):
        self.types = CT.Types(classes)
        self.fields = fields        # why record name -> {cxx field: (why field, mtype)}
        self.fns = {}               # (cls or '', name) -> [FnSpec]
        self.class_default = defaults or {}
        self.strings = strings if strings is not None else {}
        self.anon_records = []      # (name, [(field, type)])
        self.dropped = {}
        self.inliner = None
        self.enums = {}
        self.usedspecs = set()
        self.extra_builtins = {}
        self.drop_calls = set()
        self.fail_mode = "unreach"

    def add_fn(self, s):
        self.fns.setdefault((s.cls or "", s.name), []).append(s)

    def drop(self, what):
        self.dropped[what] = self.dropped.get(what, 0) + 1


def is_logging(n):
    """if (VERBOSE_IS_xxx()) ...  or a std::cerr/std::cout expression."""
    if n.get("kind") == "IfStmt":
        s = find_ref(kids(n)[0], lambda r: r.get("name", "").startswith("VERBOSE_IS_") or r.get("name", "") == "is_info_verbose")
        return s
    return False


def find_ref(n, pred):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        r = x.get("referencedDecl")
        if r and pred(r):
            return True
        st.extend(kids(x))
    return False


def has_kind(n, kinds, stop=("LambdaExpr",)):
    st = [n]
    while st:
        x = st.pop()
        if x.get("kind") in kinds:
            return True
        if x.get("kind") in stop:
            continue
        st.extend(kids(x))
    return False


def has_loop_ctl(n, which):
    """continue/break belonging to the loop whose body is n."""
    st = [n]
    while st:
        x = st.pop()
        k = x.get("kind")
        if k == which:
            return True
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr"):
            continue
        if k == "SwitchStmt" and which == "BreakStmt":
            continue
        st.extend(kids(x))
    return False


SKIP_EXPR = ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr",
             "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr")


def strip(n, kinds=("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr")):
    while n.get("kind") in kinds:
        n = kids(n)[-1] if n["kind"] == "SubstNonTypeTemplateParmExpr" else kids(n)[0]
    return n


def strip_all(n):
    while n.get("kind") in SKIP_EXPR:
        n = kids(n)[0]
    return n


class Fn:
    """Translates one function definition."""

    def __init__(self, world, node, contract, names=None):
        self.w, self.node, self.c = world, node, contract
        self.vars = {}
        self.used = {}
        self.out = []
        self.tmp = 0
        self.loopno = 0
        self.exc = []
        self.retstack = ["native"]
        self.cont_stack = []
        self.names = names or {}      # cxx name (with occurrence) -> why name (rename recovery)
        self.locals = []              # [(cxxname, type string)]
        self.calls = set()
        self.inline_depth = 0
        self.self_mode = None
        self.switch_depth = 0
        self.loops_seen = []
        self.fnlocals = {}

    # ---------------------------------------------------------------- basics
    def ty(self, n):
        t = n.get("type", {})
        for k in ("desugaredQualType", "qualType"):
            if k in t:
                m = self.w.types.parse(t[k])
                if m[0] != "?" and not has_unknown(m):
                    return m
        return self.w.types.parse(t.get("qualType", "?"))

    def emit(self, s):
        self.out.append(s)

    def fresh(self, base="t"):
        self.tmp += 1
        return "%s'%d" % (base, self.tmp) if False else "%s_%d_" % (base, self.tmp)

    def bind(self, e, base="t"):
        t = self.fresh(base)
        self.emit("let %s = %s in" % (t, e))
        return t

    def sub(self, f):
        old, self.out = self.out, []
        try:
            r = f()
            return self.out, r
        finally:
            self.out = old

    def newname(self, cxx):
        base = self.names.get(cxx) or ident(cxx)
        n = self.used.get(base, 0) + 1
        self.used[base] = n
        return base if n == 1 else "%s__%d" % (base, n)

    def default(self, t):
        k = t[0]
        if k == "int":
            return "0"
        if k == "str":
            return "str_empty"
        if k == "real":
            return "0.0"
        if k == "bool":
            return "false"
        if k == "vec":
            return "(vempty_ () : %s)" % WT(t)
        if k == "set":
            return "(s_empty () : %s)" % WT(t)
        if k == "map":
            return "(m_empty () : %s)" % WT(t)
        if k == "pair":
            return "({ first = %s; second = %s } : %s)" % (self.pure(self.default(t[1])), self.pure(self.default(t[2])), WT(t))
        if k == "cls":
            if t[1] in self.w.class_default:
                return self.w.class_default[t[1]]
            fs = self.w.fields.get(t[1])
            if fs:
                return "{ %s }" % "; ".join("%s = %s" % (wf, self.pure(self.default(mt))) for wf, mt in fs.values())
        raise Unsupported("default value of %r" % (t,))

    def pure(self, e):
        if re.match(r"^[\w'.]+$", e):
            return e
        return self.bind(e)

    def anyval(self, t):
        return {"int": "any_int ()", "bool": "any_bool ()", "real": "any_real ()", "str": "any_int ()"}.get(t[0])

    def string(self, v):
        if v in ("", '""'):
            return "str_empty"
        if v not in self.w.strings:
            self.w.strings[v] = ident("enum_" + v[5:]) if v.startswith("enum:") else "str_%d" % len(self.w.strings)
        return self.w.strings[v]

    # ---------------------------------------------------------------- lvalues
    def read(self, lv):
        e = lv.root
        for s in lv.steps:
            if s[0] == "fld":
                e = "%s.%s" % (e, s[1]) if re.match(r"^[\w'.]+$", e) else "(%s).%s" % (e, s[1])
            elif s[0] == "idx":
                e = self.bind("vget %s %s" % (self.atom(e), s[1]))
            elif s[0] == "key":
                e = self.bind("m_get %s %s" % (self.atom(e), s[1]))
            elif s[0] == "keyat":
                e = self.bind("m_at %s %s" % (self.atom(e), s[1]))
        return e

    def atom(self, e):
        if re.match(r"^[\w'.]+$", e) or (e.startswith("(") and balanced(e)):
            return e
        return "(%s)" % e

    def write(self, lv, val):
        def rec(base, steps, val):
            if not steps:
                return val
            s = steps[0]
            if s[0] == "fld":
                inner = rec("%s.%s" % (base, s[1]), steps[1:], val) if len(steps) > 1 else val
                return self.bind("{ %s with %s = %s }" % (base, s[1], inner)) if len(steps) >= 1 else None
            if s[0] == "idx":
                if len(steps) > 1:
                    cur = self.bind("vget %s %s" % (self.atom(base), s[1]))
                    val = rec(cur, steps[1:], val)
                return self.bind("vset %s %s %s" % (self.atom(base), s[1], self.atom(val)))
            if s[0] in ("key", "keyat"):
                if len(steps) > 1:
                    cur = self.bind(("m_get %s %s" if s[0] == "key" else "m_at %s %s") % (self.atom(base), s[1]))
                    val = rec(cur, steps[1:], val)
                return self.bind("m_add %s %s %s" % (self.atom(base), s[1], self.atom(val)))
        v = rec(lv.root, list(lv.steps), val)
        self.emit("%s <- %s;" % (lv.root, v))

    def lvalue(self, n):
        n = strip(n)
        k = n["kind"]
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            v = self.vars.get(r["id"])
            if v is None:
                raise Unsupported("unknown variable %s" % r.get("name"))
            if v.mode == "alias":
                return v.lv
            return LV(v.why, (), v.ty)
        if k == "ImplicitCastExpr":
            return self.lvalue(kids(n)[0])
        if k == "CXXThisExpr":
            return self.this_lv
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.lvalue(kids(n)[0])
        if k == "UnaryOperator" and n["opcode"] == "&":
            return self.lvalue(kids(n)[0])
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            self.expr(n)
            return self.lvalue(kids(n)[0])
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("="):
            self.assign(n)
            return self.lvalue(kids(n)[0])
        if k == "MemberExpr":
            base = kids(n)[0]
            bt = self.ty(base)
            if bt[0] == "ptr":
                bt = bt[1]
            nm = n["name"]
            if bt == ("int",) and nm in ("v", "e"):
                return self.lvalue(base)
            sb = strip_all(base)
            # iterator->second / ->first
            if sb["kind"] == "CXXOperatorCallExpr" and op_name(sb) == "->":
                it = kids(sb)[1]
                itlv = self.iter_var(it)
                if itlv is not None and itlv.cont is not None and nm == "second":
                    kx = self.bind("it_get %s" % self.atom(self.expr(it)))
                    cl = itlv.cont
                    mt = cl.ty
                    return LV(cl.root, cl.steps + (("key", kx),), mt[2])
                raise Unsupported("iterator member lvalue")
            if sb["kind"] == "CXXOperatorCallExpr" and op_name(sb) == "*" and bt[0] == "pair" and nm == "second":
                itlv = self.iter_var(kids(sb)[1])
                if itlv is not None and itlv.cont is not None and itlv.cont.ty[0] == "map":
                    kx = self.bind("it_get %s" % self.atom(self.expr(kids(sb)[1])))
                    return LV(itlv.cont.root, itlv.cont.steps + (("key", kx),), itlv.cont.ty[2])
            lv = self.lvalue(base)
            return self.field(lv, bt, nm)
        if k == "CXXOperatorCallExpr" and op_name(n) == "[]":
            a = kids(n)
            ct = self.ty(a[1])
            lv = self.lvalue(a[1])
            h = self.w.extra_builtins.get((ct[1] if ct[0] == "cls" else "", "operator[]"))
            if hasattr(h, "lv"):
                return h.lv(self, lv, a[2:])
            ix = self.pure(self.conv(self.expr(a[2]), self.ty(a[2]), ct[1] if ct[0] == "map" else ("int",)))
            if ct[0] == "vec":
                return LV(lv.root, lv.steps + (("idx", ix),), ct[1])
            if ct[0] == "map":
                cur = self.read(lv)
                d = self.pure(self.default(ct[2]))
                self.write(lv, self.bind("m_touch %s %s %s" % (self.atom(cur), ix, d)))
                return LV(lv.root, lv.steps + (("key", ix),), ct[2])
            raise Unsupported("operator[] on %r" % (ct,))
        if k == "ArraySubscriptExpr":
            a = kids(n)
            lv = self.lvalue(a[0])
            ix = self.pure(self.expr(a[1]))
            return LV(lv.root, lv.steps + (("idx", ix),), self.ty(n))
        if k == "CXXMemberCallExpr":
            me = strip(kids(n)[0])
            nm = me.get("name")
            obj = kids(me)[0]
            ot = self.ty(obj)
            if ot[0] == "ptr":
                ot = ot[1]
            if nm == "at" and ot[0] == "vec":
                lv = self.lvalue(obj)
                ix = self.pure(self.expr(kids(n)[1]))
                return LV(lv.root, lv.steps + (("idx", ix),), ot[1])
            if nm == "at" and ot[0] == "map":
                lv = self.lvalue(obj)
                ix = self.pure(self.expr(kids(n)[1]))
                return LV(lv.root, lv.steps + (("keyat", ix),), ot[2])
            if nm == "back" and ot[0] == "vec":
                lv = self.lvalue(obj)
                cur = self.read(lv)
                ix = self.bind("(vlen %s) - 1" % self.atom(cur))
                return LV(lv.root, lv.steps + (("idx", ix),), ot[1])
            if nm == "front" and ot[0] == "vec":
                lv = self.lvalue(obj)
                return LV(lv.root, lv.steps + (("idx", "0"),), ot[1])
            if (ot[1] if ot[0] == "cls" else "", nm) in self.w.extra_builtins:
                h = self.w.extra_builtins[(ot[1], nm)]
                if hasattr(h, "lv"):
                    return h.lv(self, self.lvalue(obj), kids(n)[1:])
            spec = self.method_spec(ot, nm, kids(n)[1:], obj)
            if spec is not None and spec.retself:
                self.call_spec(spec, kids(n)[1:], obj)
                return self.lvalue(obj)
        if k == "CXXOperatorCallExpr":
            a = kids(n)
            op = op_name(n)
            if op == "=":
                self.expr(n)
                return self.lvalue(a[1])
            if op == "*" and len(a) == 2:
                itlv = self.iter_var(a[1])
                raise Unsupported("lvalue through iterator")
            h = self.w.extra_builtins.get((self.ty(a[1])[1] if self.ty(a[1])[0] == "cls" else "", "operator" + op))
            if hasattr(h, "lv"):
                return h.lv(self, self.lvalue(a[1]), a[2:])
            spec = self.method_spec(self.ty(a[1]), "operator" + op, a[2:], a[1])
            if spec is not None and spec.retself:
                self.call_spec(spec, a[2:], a[1])
                return self.lvalue(a[1])
        if k == "CallExpr":
            f = callee_ref(n)
            if f is not None and f.get("name") == "get":
                m = re.match(r"^.*?get<(\d+)", n.get("_x", "")) if False else None
        # fall back: materialise a temporary
        t = self.ty(n)
        e = self.expr(n)
        nm = self.fresh("tmp")
        self.emit("let ref %s = %s in" % (nm, e))
        return LV(nm, (), t)

    def field(self, lv, bt, nm):
        if bt[0] == "pair":
            i = {"first": 1, "second": 2}[nm]
            return LV(lv.root, lv.steps + (("fld", nm),), bt[i])
        if bt[0] == "cls":
            fs = self.w.fields.get(bt[1], {})
            if nm not in fs:
                raise Unsupported("field %s of %s not in the model" % (nm, bt[1]))
            return LV(lv.root, lv.steps + (("fld", fs[nm][0]),), fs[nm][1])
        raise Unsupported("member %s of %r" % (nm, bt))

    def iter_var(self, n):
        n = strip_all(n)
        while n["kind"] == "CXXConstructExpr" and len(kids(n)) == 1:
            n = strip_all(kids(n)[0])
        if n["kind"] == "DeclRefExpr":
            return self.vars.get(n["referencedDecl"]["id"])
        return None

    def is_lv_expr(self, n):
        n = strip(n)
        k = n["kind"]
        if k in ("DeclRefExpr",):
            r = n["referencedDecl"]
            return r["id"] in self.vars
        if k == "CXXThisExpr":
            return True
        if k == "MemberExpr":
            return self.is_lv_expr(kids(n)[0])
        if k == "UnaryOperator" and n["opcode"] in ("*", "&"):
            return self.is_lv_expr(kids(n)[0])
        if k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase"):
            return self.is_lv_expr(kids(n)[0])
        if k == "CXXOperatorCallExpr" and op_name(n) == "[]":
            return self.is_lv_expr(kids(n)[1])
        if k == "CXXMemberCallExpr":
            me = strip(kids(n)[0])
            if me.get("name") in ("at", "back", "front") and me["kind"] == "MemberExpr":
                return self.is_lv_expr(kids(me)[0])
            ot = self.ty(kids(me)[0])
            if ot[0] == "ptr":
                ot = ot[1]
            h = self.w.extra_builtins.get((ot[1] if ot[0] == "cls" else "", me.get("name")))
            if h is not None and hasattr(h, "lv"):
                return True
        return False

    # ---------------------------------------------------------------- conversions
    def conv(self, e, src, dst):
        if src == dst or dst[0] == "?" or src[0] == "?":
            return e
        s, d = src[0], dst[0]
        if s == "bool" and d == "int":
            return "(if %s then 1 else 0)" % e
        if s == "int" and d == "bool":
            return "(%s <> 0)" % e
        if s == "int" and d == "real":
            if re.match(r"^\d+$", e):
                return e + ".0"
            return self.bind("real_of_int %s" % self.atom(e))
        if s == "bool" and d == "real":
            return self.bind("real_of_int (if %s then 1 else 0)" % e)
        if s == "real" and d == "int":
            return self.bind("int_of_real %s" % self.atom(e))
        if s == "real" and d == "bool":
            return "(not %s)" % self.bind("req %s 0.0" % self.atom(e))
        if s == "pair" and d == "pair":
            t = self.pure(e)
            return "{ first = %s; second = %s }" % (self.conv(t + ".first", src[1], dst[1]), self.conv(t + ".second", src[2], dst[2]))
        return e

    # ---------------------------------------------------------------- expressions
    def expr(self, n):
        n0 = n
        n = strip(n)
        k = n["kind"]
        h = getattr(self, "x_" + k, None)
        if h is None:
            raise Unsupported("expression kind %s" % k)
        return h(n)

    def rv(self, n, want):
        """expression converted to model type want"""
        return self.conv(self.expr(n), self.ty(n), want)

    def x_IntegerLiteral(self, n):
        v = int(n["value"])
        return str(v) if v >= 0 else "(%d)" % v

    def x_CharacterLiteral(self, n):
        return str(n["value"])

    def x_FloatingLiteral(self, n):
        v = n["value"]
        if re.match(r"^-?\d+$", v):
            v += ".0"
        return v

    def x_CXXBoolLiteralExpr(self, n):
        return "true" if n["value"] else "false"

    def x_StringLiteral(self, n):
        return self.string(n["value"])

    def x_CXXNullPtrLiteralExpr(self, n):
        raise Unsupported("nullptr")

    def x_CXXThisExpr(self, n):
        return self.read(self.this_lv)

    def x_DeclRefExpr(self, n):
        r = n["referencedDecl"]
        if r["kind"] == "EnumConstantDecl":
            return self.w.enums.get(r["name"]) or self.enum(r["name"])
        v = self.vars.get(r["id"])
        if v is None:
            g = self.w.extra_builtins.get(("global", r.get("name")))
            if g:
                return g
            raise Unsupported("reference to %s %s" % (r["kind"], r.get("name")))
        if v.mode == "alias":
            return self.read(v.lv)
        return v.why

    def enum(self, nm):
        return self.string("enum:" + nm)

    def x_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        a = kids(n)[0]
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase", "FloatingCast"):
            return self.expr(a)
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            return self.expr(a)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "IntegralToBoolean", "FloatingToBoolean"):
            return self.conv(self.expr(a), self.ty(a), self.ty(n))
        if ck == "ToVoid":
            e = self.expr(a)
            if e != "()" and not re.match(r"^[\w'.]+$", e):
                self.emit("let _ = %s in" % e)
            return "()"
        raise Unsupported("cast %s" % ck)

    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr

    def x_MemberExpr(self, n):
        base = kids(n)[0]
        bt = self.ty(base)
        if bt[0] == "ptr":
            bt = bt[1]
        nm = n["name"]
        if bt == ("int",) and nm in ("v", "e"):
            return self.expr(base)
        sb = strip_all(base)
        if sb["kind"] == "CXXOperatorCallExpr" and op_name(sb) in ("->", "*") and len(kids(sb)) == 2:
            it = kids(sb)[1]
            itt = self.ty(it)
            if itt[0] == "iter":
                e = self.atom(self.expr(it))
                ismap = itt[2] is not None and itt[2][0] == "map"
                g = self.bind("%s %s" % ("it_get_in" if ismap else "it_get", e))
                if ismap:
                    if nm == "first":
                        return g
                    c = self.iter_container(it)
                    if c is None:
                        raise Unsupported("map iterator of unknown container")
                    return self.bind("m_get %s %s" % (self.atom(self.read(c)), g))
                return self.read(self.field(LV(g, (), itt[1]), itt[1], nm))
        if self.is_lv_expr(n):
            return self.read(self.lvalue(n))
        e = self.pure(self.expr(base))
        return self.read(self.field(LV(e, (), bt), bt, nm))

    def x_UnaryOperator(self, n):
        op = n["opcode"]
        a = kids(n)[0]
        t = self.ty(n)
        if op == "-":
            e = self.expr(a)
            return "(- %s)" % self.atom(e) if t[0] != "real" else (("(-. %s)" % e) if False else self.bind("rneg %s" % self.atom(e)))
        if op == "+":
            return self.expr(a)
        if op == "!":
            return "(not %s)" % self.atom(self.expr(a))
        if op in ("*", "&"):
            return self.expr(a)
        if op in ("++", "--"):
            lv = self.lvalue(a)
            cur = self.bind(self.read(lv))
            d = "+" if op == "++" else "-"
            if lv.ty and lv.ty[0] == "iter":
                nv = self.bind("it_add %s (%s1)" % (cur, "" if op == "++" else "-"))
            elif t[0] == "real":
                nv = self.bind("%s %s 1.0" % ("radd" if op == "++" else "rsub", cur))
            else:
                nv = self.bind("%s %s 1" % (cur, d))
            self.write(lv, nv)
            return cur if n.get("isPostfix") else nv
        raise Unsupported("unary %s" % op)

    def arith(self, op, a, b, t):
        if t[0] == "real":
            f = {"+": "radd", "-": "rsub", "*": "rmul", "/": "rdiv"}.get(op)
            if not f:
                raise Unsupported("real %s" % op)
            return self.bind("%s %s %s" % (f, self.atom(a), self.atom(b)))
        if op in "+-*":
            return "(%s %s %s)" % (a, op, b)
        if op == "/":
            return self.bind("cdiv %s %s" % (self.atom(a), self.atom(b)))
        if op == "%":
            return self.bind("cmod %s %s" % (self.atom(a), self.atom(b)))
        if op == "^":
            return self.bind("bxor %s %s" % (self.atom(a), self.atom(b)))
        raise Unsupported("arithmetic %s" % op)

    def compare(self, op, a, b, t):
        if t[0] == "real":
            a, b = self.atom(a), self.atom(b)
            m = {"<": "rlt %s %s" % (a, b), "<=": "rle %s %s" % (a, b), ">": "rlt %s %s" % (b, a), ">=": "rle %s %s" % (b, a),
                 "==": "req %s %s" % (a, b)}
            if op == "!=":
                return "(not %s)" % self.bind("req %s %s" % (a, b))
            return self.bind(m[op])
        if t[0] == "bool":
            r = self.bind("beq %s %s" % (self.atom(a), self.atom(b)))
            return r if op == "==" else "(not %s)" % r
        if t[0] in ("int", "str"):
            o = {"==": "=", "!=": "<>"}.get(op, op)
            return "(%s %s %s)" % (a, o, b)
        raise Unsupported("comparison %s on %r" % (op, t))

    def x_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = kids(n)
        if op == "=":
            self.assign(n)
            return self.read(self.lvalue_noeffect(a))
        if op == ",":
            self.effect(a)
            return self.expr(b)
        if op in ("&&", "||"):
            x = self.pure_bool(self.expr(a))
            pre, y = self.sub(lambda: self.expr(b))
            if not pre:
                return "(%s %s %s)" % (x, op, y)
            if op == "&&":
                return self.bind("if %s then begin %s %s end else false" % (x, " ".join(pre), y))
            return self.bind("if %s then true else begin %s %s end" % (x, " ".join(pre), y))
        ta, tb = self.ty(a), self.ty(b)
        x = self.expr(a)
        if not re.match(r"^[\w'.]+$|^\d+$", x):
            pass
        y = self.expr(b)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            t = ta if ta[0] != "?" else tb
            return self.compare(op, x, y, t)
        return self.arith(op, x, y, self.ty(n))

    def pure_bool(self, e):
        return e

    def lvalue_noeffect(self, n):
        return self.lvalue(n)

    def x_CompoundAssignOperator(self, n):
        self.assign(n)
        return self.read(self.lvalue(kids(n)[0]))

    def x_ConditionalOperator(self, n):
        c, a, b = kids(n)
        ce = self.expr(c)
        t = self.ty(n)
        if t == ("void",):
            pa, _ = self.sub(lambda: self.effect(a))
            pb, _ = self.sub(lambda: self.effect(b))
            self.emit("(if %s then begin %s () end else begin %s () end);" % (ce, " ".join(pa), " ".join(pb)))
            return "()"
        pa, xa = self.sub(lambda: self.rv(a, t))
        pb, xb = self.sub(lambda: self.rv(b, t))
        return self.bind("if %s then begin %s %s end else begin %s %s end" % (ce, " ".join(pa), xa, " ".join(pb), xb))

    def x_CXXDefaultArgExpr(self, n):
        if kids(n):
            return self.expr(kids(n)[0])
        raise Unsupported("default argument")

    def x_ImplicitValueInitExpr(self, n):
        return self.default(self.ty(n))

    def x_CXXScalarValueInitExpr(self, n):
        return self.default(self.ty(n))

    def x_InitListExpr(self, n):
        t = self.ty(n)
        if t[0] == "cls":
            fs = self.w.fields[t[1]]
            vals = [self.pure(self.rv(c, ft)) for c, (wf, ft) in zip(kids(n), fs.values())]
            return "{ %s }" % "; ".join("%s = %s" % (wf, v) for (wf, ft), v in zip(fs.values(), vals))
        if t[0] == "vec":
            return self.vec_lit([self.pure(self.rv(c, t[1])) for c in kids(n)], t)
        if t[0] in ("int", "real", "bool") and len(kids(n)) == 1:
            return self.rv(kids(n)[0], t)
        if t[0] in ("int", "real", "bool") and not kids(n):
            return self.default(t)
        raise Unsupported("initializer list for %r" % (t,))

    def vec_lit(self, xs, t):
        e = self.bind(self.default(t))
        for x in xs:
            e = self.bind("vpush %s %s" % (e, x))
        return e

    def x_CXXStdInitializerListExpr(self, n):
        return self.expr(kids(n)[0])

    def init_list_items(self, n):
        n = strip_all(n)
        while n["kind"] in ("CXXStdInitializerListExpr",):
            n = strip_all(kids(n)[0])
        if n["kind"] == "InitListExpr":
            return kids(n)
        return None

    def x_CXXNewExpr(self, n):
        """new C(args) for a class that is modelled by value: one fresh object, no alias"""
        t = self.ty(n)
        t = t[1] if t[0] == "ptr" else t
        h = self.w.extra_builtins.get((t[1] if t[0] == "cls" else "", "new"))
        if h is None:
            raise Unsupported("new %s" % (t,))
        return h(self, None, kids(n), n)

    def x_CXXConstructExpr(self, n):
        t = self.ty(n)
        args = [a for a in kids(n) if a["kind"] != "CXXDefaultArgExpr"]
        k = t[0]
        if k == "?":
            raise Unsupported("construct %s" % (t,))
        if len(args) == 1:
            at = self.ty(args[0])
            if at == t and k not in ("vec", "set", "map"):
                return self.expr(args[0])
            if at == t:
                if self.init_list_items(args[0]) is None or k != "vec":
                    return self.expr(args[0])
        if t == ("int",):      # Vertex / Edge
            if not args:
                q = n["type"]["qualType"]
                return self.bind("null_edge_ ()" if "Edge" in q or "edge" in q else "null_vertex_ ()")
            return self.expr(args[0])
        if k == "str":
            if not args:
                return self.string("")
            return self.expr(args[0])
        if k == "pair":
            if not args:
                return self.default(t)
            if len(args) == 2:
                a = self.pure(self.rv(args[0], t[1]))
                b = self.pure(self.rv(args[1], t[2]))
                return "{ first = %s; second = %s }" % (a, b)
            if len(args) == 1:
                return self.rv(args[0], t)
        if k == "tup" and len(args) == len(t) - 1:
            xs = [self.pure(self.rv(a, ti)) for a, ti in zip(args, t[1:])]
            return "{ " + "; ".join("t%d = %s" % (i, x) for i, x in enumerate(xs)) + " }"
        if k == "vec":
            if not args:
                return self.default(t)
            items = self.init_list_items(args[0])
            if items is not None:
                return self.vec_lit([self.pure(self.rv(c, t[1])) for c in items], t)
            a0 = self.ty(args[0])
            if a0[0] == "int" and len(args) == 1:
                nn = self.pure(self.expr(args[0]))
                return self.bind("vmake_ %s %s" % (nn, self.pure(self.default(t[1]))))
            if a0[0] == "int" and len(args) == 2:
                nn = self.pure(self.expr(args[0]))
                return self.bind("vmake_ %s %s" % (nn, self.pure(self.rv(args[1], t[1]))))
            if a0[0] == "vec":
                return self.expr(args[0])
            if a0[0] == "iter" and len(args) == 2 and self.ty(args[1])[0] == "iter":
                x = self.atom(self.pure(self.expr(args[0])))
                y = self.atom(self.pure(self.expr(args[1])))
                return self.bind("it_range %s %s" % (x, y))
        if k in ("set", "map"):
            if not args:
                return self.default(t)
            items = self.init_list_items(args[0])
            if items is not None:
                e = self.bind(self.default(t))
                for c in items:
                    if k == "set":
                        e = self.bind("s_add %s %s" % (e, self.pure(self.rv(c, t[1]))))
                    else:
                        p = self.pure(self.rv(c, ("pair", t[1], t[2])))
                        e = self.bind("m_insert %s %s.first %s.second" % (e, p, p))
                return e
            if self.ty(args[0]) == t:
                return self.expr(args[0])
        if k == "iter" and len(args) == 1:
            return self.expr(args[0])
        if k == "iter" and not args:
            return self.bind("it_none ()")
        if k == "cls":
            spec = self.find_spec(t[1], "<ctor>", args)
            if spec is not None:
                return self.call_spec(spec, args, None)
            if not args:
                return self.default(t)
            fs = self.w.fields.get(t[1], {})
            if len(args) == 2 and set(fs) == {"first", "second"}:      # a std::pair kept as a monomorphic record
                a = self.pure(self.rv(args[0], fs["first"][1]))
                b = self.pure(self.rv(args[1], fs["second"][1]))
                return "{ %s = %s; %s = %s }" % (fs["first"][0], a, fs["second"][0], b)
        raise Unsupported("constructor of %r with %d args %s" % (t, len(args), [(self.ty(a), a["type"]) for a in args]))

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    # ---------------------------------------------------------------- calls
    def find_spec(self, cls, name, args, objconst=None):
        cands = self.w.fns.get((cls or "", name), [])
        good = []
        ats = [self.ty(a) for a in args]
        for s in cands:
            if len(s.params) < len(args):
                continue
            if len(s.params) != len(args) and any(p[0] not in s.defaults for p in s.params[len(args):]):
                continue
            score = 0
            ok = True
            for (pn, pt, pm), at in zip(s.params, ats):
                if pt == at or (at[0] == "ptr" and at[1] == pt):
                    score += 2
                elif pt[0] in ("int", "real", "bool") and at[0] in ("int", "real", "bool"):
                    score += 1
                else:
                    ok = False
            if not ok:
                continue
            if objconst is not None:
                if objconst and not s.const and s.self_mode == "ref":
                    continue
                if not objconst and not s.const:
                    score += 1
            good.append((score, s))
        if not good:
            return None
        good.sort(key=lambda x: -x[0])
        return good[0][1]

    def method_spec(self, ot, nm, args, obj):
        if ot[0] == "ptr":
            ot = ot[1]
        if ot[0] != "cls":
            return None
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        return self.find_spec(ot[1], nm, args, self.obj_const(obj))

    def obj_const(self, obj):
        q = obj.get("type", {}).get("qualType", "")
        o = strip_all(obj)
        q2 = o.get("type", {}).get("qualType", "")
        if q.endswith("*") or q.endswith("*const"):
            return q.startswith("const ")
        return q.startswith("const ")

    def pass_args(self, spec, args):
        xs, post = [], []
        for (pn, pt, pm), a in zip(spec.params, args):
            if pm == "ref":
                lv = self.lvalue(a)
                x, p = self.ref_arg(lv)
                xs.append(x)
                post += p
            else:
                xs.append(self.atom(self.pure(self.rv(a, pt))))
        for (pn, pt, pm) in spec.params[len(args):]:
            xs.append(self.atom(self.pure(self.rv(spec.defaults[pn], pt))))
        return xs, post

    def ref_arg(self, lv):
        if not lv.steps:
            return lv.root, []
        cur = self.read(lv)
        nm = self.fresh("cp")
        self.emit("let ref %s = %s in" % (nm, cur))
        return nm, [(lv, nm)]

    def call_spec(self, spec, args, obj):
        self.w.usedspecs.add(spec.why)
        self.calls.add(spec.why)
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        pre, post = [], []
        if spec.self_mode:
            lvobj = self.is_lv_expr(obj)
            if spec.self_mode == "ref":
                lv = self.lvalue(obj)
                x, p = self.ref_arg(lv)
                pre.append(x)
                post += p
            else:
                pre.append(self.atom(self.read(self.lvalue(obj)) if lvobj else self.pure(self.expr(obj))))
        xs, p2 = self.pass_args(spec, args)
        post += p2
        call = "%s %s" % (spec.why, " ".join(pre + xs)) if (pre + xs) else "%s ()" % spec.why
        if not hasattr(self, "callno"):
            self.callno = {}
        self.callno[spec.why] = cn = self.callno.get(spec.why, 0) + 1
        self.hook(("call", spec.why))
        self.hook(("call", spec.why, cn))
        if spec.ret == ("void",) or spec.retself:
            self.emit(call + ";")
            r = "()"
        else:
            r = self.bind(call)
        for lv, nm in post:
            self.write(lv, nm)
        self.hook(("called", spec.why))
        self.hook(("called", spec.why, cn))
        if spec.retself:
            return self.read(self.lvalue(obj))
        return r

    def x_CXXMemberCallExpr(self, n):
        me = strip(kids(n)[0])
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call through %s" % me["kind"])
        nm = me["name"]
        obj = kids(me)[0]
        args = kids(n)[1:]
        ot = self.ty(obj)
        if ot[0] == "ptr":
            ot = ot[1]
        if ot[0] == "?":
            raise Unsupported("method %s of %s" % (nm, ot[1]))
        if ot[0] == "int" and nm == "get_property":
            return self.expr(obj)
        if ot[0] == "cls":
            h = self.w.extra_builtins.get((ot[1], nm))
            if h is not None:
                return h(self, obj, args, n)
            spec = self.method_spec(ot, nm, args, obj)
            if spec is not None:
                return self.call_spec(spec, args, obj)
            return self.inline_call(ot[1], nm, args, obj, n)
        return self.container_method(ot, nm, obj, args, n)

    def val_of(self, obj):
        return self.atom(self.pure(self.expr(obj)))

    def container_method(self, ot, nm, obj, args, n):
        k = ot[0]
        A = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        rd = lambda: self.atom(self.pure(self.expr(obj)))
        if k == "vec":
            if nm in ("size", "length"):
                return self.bind("vlen %s" % rd())
            if nm == "empty":
                return "(%s = 0)" % self.bind("vlen %s" % rd())
            if nm in ("at", "operator[]"):
                v = rd()
                return self.bind("vget %s %s" % (v, self.atom(self.pure(self.expr(A[0])))))
            if nm in ("back",):
                v = rd()
                return self.bind("vget %s (%s - 1)" % (v, self.bind("vlen %s" % v)))
            if nm in ("front", "top") and "stack" not in obj["type"]["qualType"]:
                return self.bind("vget %s 0" % rd())
            if nm == "top":
                v = rd()
                return self.bind("vget %s (%s - 1)" % (v, self.bind("vlen %s" % v)))
            if nm in ("push_back", "push", "emplace_back", "emplace"):
                x = self.pure(self.rv(A[0], ot[1]))
                lv = self.lvalue(obj)
                self.write(lv, self.bind("vpush %s %s" % (self.atom(self.read(lv)), self.atom(x))))
                return "()"
            if nm == "push_front":
                x = self.pure(self.rv(A[0], ot[1]))
                lv = self.lvalue(obj)
                self.write(lv, self.bind("vpush_front %s %s" % (self.atom(self.read(lv)), self.atom(x))))
                return "()"
            if nm in ("pop_back",) or (nm == "pop" and "stack" in obj["type"]["qualType"]):
                lv = self.lvalue(obj)
                self.write(lv, self.bind("vpop %s" % self.atom(self.read(lv))))
                return "()"
            if nm in ("pop_front", "pop"):
                lv = self.lvalue(obj)
                self.write(lv, self.bind("vpop_front %s" % self.atom(self.read(lv))))
                return "()"
            if nm == "clear":
                self.write(self.lvalue(obj), self.bind(self.default(ot)))
                return "()"
            if nm in ("begin", "cbegin"):
                return self.bind("it_begin %s" % rd())
            if nm in ("end", "cend"):
                return self.bind("it_end %s" % rd())
            if nm == "reserve":
                return "()"
            if nm == "resize" and len(A) == 2:
                raise Unsupported("resize")
        if k == "set":
            if nm == "size":
                return self.bind("vlen %s" % self.bind("s_elems %s" % rd()))
            if nm == "empty":
                return "(%s = 0)" % self.bind("vlen %s" % self.bind("s_elems %s" % rd()))
            if nm in ("insert", "emplace") and len(A) == 1 and self.ty(A[0])[0] != "iter":
                x = self.pure(self.rv(A[0], ot[1]))
                lv = self.lvalue(obj)
                self.write(lv, self.bind("s_add %s %s" % (self.atom(self.read(lv)), self.atom(x))))
                return "()"
            if nm == "erase" and self.ty(A[0])[0] != "iter":
                x = self.pure(self.rv(A[0], ot[1]))
                lv = self.lvalue(obj)
                self.write(lv, self.bind("s_rem %s %s" % (self.atom(self.read(lv)), self.atom(x))))
                return "()"
            if nm == "count":
                x = self.pure(self.rv(A[0], ot[1]))
                return "(if %s then 1 else 0)" % self.bind("s_has %s %s" % (rd(), self.atom(x)))
            if nm == "find":
                x = self.pure(self.rv(A[0], ot[1]))
                return self.bind("s_find %s %s" % (rd(), self.atom(x)))
            if nm in ("begin", "cbegin"):
                return self.bind("it_begin %s" % self.bind("s_elems %s" % rd()))
            if nm in ("end", "cend"):
                return self.bind("it_end %s" % self.bind("s_elems %s" % rd()))
            if nm == "clear":
                self.write(self.lvalue(obj), self.bind(self.default(ot)))
                return "()"
        if k == "map":
            if nm == "size":
                return self.bind("vlen %s" % self.bind("m_keys %s" % rd()))
            if nm == "empty":
                return "(%s = 0)" % self.bind("vlen %s" % self.bind("m_keys %s" % rd()))
            if nm == "at":
                m = rd()
                x = self.pure(self.rv(A[0], ot[1]))
                return self.bind("m_at %s %s" % (m, self.atom(x)))
            if nm == "count":
                x = self.pure(self.rv(A[0], ot[1]))
                return "(if %s then 1 else 0)" % self.bind("m_has %s %s" % (rd(), self.atom(x)))
            if nm == "find":
                x = self.pure(self.rv(A[0], ot[1]))
                return self.bind("m_find %s %s" % (rd(), self.atom(x)))
            if nm in ("insert", "emplace") and len(A) == 1:
                p = self.pure(self.rv(A[0], ("pair", ot[1], ot[2])))
                lv = self.lvalue(obj)
                self.write(lv, self.bind("m_insert %s %s.first %s.second" % (self.atom(self.read(lv)), p, p)))
                return "()"
            if nm == "erase" and self.ty(A[0])[0] != "iter":
                x = self.pure(self.rv(A[0], ot[1]))
                lv = self.lvalue(obj)
                self.write(lv, self.bind("m_rem %s %s" % (self.atom(self.read(lv)), self.atom(x))))
                return "()"
            if nm in ("begin", "cbegin"):
                return self.bind("it_begin %s" % self.bind("m_keys %s" % rd()))
            if nm in ("end", "cend"):
                return self.bind("it_end %s" % self.bind("m_keys %s" % rd()))
            if nm == "clear":
                self.write(self.lvalue(obj), self.bind(self.default(ot)))
                return "()"
        if k == "str":
            if nm == "empty":
                return "(%s = %s)" % (rd(), self.string(""))
        raise Unsupported("method %s of %s" % (nm, k))

    def x_CXXOperatorCallExpr(self, n):
        op = op_name(n)
        a = kids(n)[1:]
        t0 = self.ty(a[0])
        if op == "=":
            if t0[0] == "cls" and self.method_spec(t0, "operator=", a[1:], a[0]) is not None:
                return self.call_spec(self.method_spec(t0, "operator=", a[1:], a[0]), a[1:], a[0])
            lv = self.lvalue(a[0])
            self.write(lv, self.rv(a[1], t0))
            if lv.ty and lv.ty[0] == "iter":
                self.track_iter(a[0], a[1])
            return self.read(lv)
        if op == "[]":
            if t0[0] == "vec":
                v = self.atom(self.pure(self.expr(a[0])))
                return self.bind("vget %s %s" % (v, self.atom(self.pure(self.expr(a[1])))))
            if t0[0] == "map":
                return self.read(self.lvalue(n))
        if op == "<<" or op == ">>":
            raise Unsupported("stream operator")
        if t0[0] == "iter":
            if op == "*":
                g = self.bind("it_get %s" % self.atom(self.expr(a[0])))
                if t0[2] is not None and t0[2][0] == "map":
                    c = self.iter_container(a[0])
                    if c is None:
                        raise Unsupported("map iterator of unknown container")
                    x = self.bind("m_get %s %s" % (self.atom(self.read(c)), g))
                    return "{ first = %s; second = %s }" % (g, x)
                return g
            if op in ("==", "!="):
                x = self.atom(self.pure(self.expr(a[0])))
                y = self.atom(self.pure(self.expr(a[1])))
                r = self.bind("it_eq %s %s" % (x, y))
                return r if op == "==" else "(not %s)" % r
            if op in ("++", "--"):
                lv = self.lvalue(a[0])
                cur = self.bind(self.read(lv))
                nv = self.bind("it_add %s (%s1)" % (cur, "" if op == "++" else "-"))
                self.write(lv, nv)
                return cur if len(a) == 2 else nv
            if op == "+":
                return self.bind("it_add %s %s" % (self.atom(self.expr(a[0])), self.atom(self.expr(a[1]))))
            if op == "-" and self.ty(a[1])[0] == "iter":
                x = self.pure(self.expr(a[0])); y = self.pure(self.expr(a[1]))
                return "(%s.it_pos - %s.it_pos)" % (x, y)
        if len(a) == 2:
            t1 = self.ty(a[1])
            if t0[0] in ("int", "str", "real") and t1[0] in ("int", "str", "real"):
                x = self.expr(a[0])
                y = self.expr(a[1])
                if op in ("==", "!="):
                    return self.compare(op, x, y, t0)
                if op in ("<", ">", "<=", ">=") and t0[0] == "int":
                    return self.compare(op, x, y, t0)
            if op in ("==", "!=") and t0 == t1 and t0[0] in ("vec", "set", "map", "pair"):
                x = self.atom(self.pure(self.expr(a[0])))
                y = self.atom(self.pure(self.expr(a[1])))
                r = self.bind("any_bool ()") if False else self.bind("poly_eq %s %s" % (x, y))
                return r if op == "==" else "(not %s)" % r
        spec = self.method_spec(t0, "operator" + op, a[1:], a[0])
        if spec is not None:
            return self.call_spec(spec, a[1:], a[0])
        spec = self.find_spec("", "operator" + op, a)
        if spec is not None:
            return self.call_spec(spec, a, None)
        raise Unsupported("operator%s on %r" % (op, t0))

    def x_CallExpr(self, n):
        f = callee_ref(n)
        args = kids(n)[1:]
        A = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if f is None:
            raise Unsupported("indirect call")
        nm = f["name"]
        h = self.w.extra_builtins.get(("", nm))
        if h is not None:
            r = h(self, None, A, n)
            if r is not None:
                return r
        spec = self.find_spec("", nm, A)
        if spec is not None:
            return self.call_spec(spec, A, None)
        b = self.std_call(nm, A, n, f)
        if b is not None:
            return b
        return self.inline_call("", nm, A, None, n)

    def std_call(self, nm, A, n, f):
        ft = f.get("type", {}).get("qualType", "")
        t = self.ty(n)
        if nm == "gcd" and len(A) == 2:
            return self.bind("std_gcd %s %s" % tuple(self.atom(self.pure(self.expr(a))) for a in A))
        if nm == "lcm" and len(A) == 2:
            return self.bind("std_lcm %s %s" % tuple(self.atom(self.pure(self.expr(a))) for a in A))
        if nm in ("infinity", "max") and not A and t == ("real",):
            return "rlim_inf" if nm == "infinity" else "rlim_max"
        if nm in ("max", "min") and len(A) == 2:
            t = self.ty(A[0])
            p = "std_" if t[0] == "int" else "r"
            if t[0] not in ("int", "real"):
                return None
            return self.bind("%s%s %s %s" % ((p, nm) + tuple(self.atom(self.pure(self.expr(a))) for a in A)))
        if nm in ("floor", "ceil", "floorl", "ceill") and len(A) == 1:
            return self.bind("std_%s %s" % (nm[:5] if nm[0] == "f" else nm[:4], self.atom(self.rv(A[0], ("real",)))))
        if nm in ("abs", "labs") and len(A) == 1 and self.ty(A[0])[0] == "int":
            return self.bind("std_abs %s" % self.atom(self.expr(A[0])))
        if nm == "make_pair" and len(A) == 2:
            a = self.pure(self.rv(A[0], t[1])); b = self.pure(self.rv(A[1], t[2]))
            return "{ first = %s; second = %s }" % (a, b)
        if nm == "move" or nm == "forward":
            return self.expr(A[0])
        if nm == "exit" or nm == "abort" or nm == "__assert_fail":
            self.fail()
            return "()"
        if nm == "print_trace":
            self.w.drop("print_trace")
            return "()"
        if nm == "accumulate" and len(A) == 3:
            # std::accumulate(v.begin(), v.end(), init) over a whole vector
            c0 = self.range_container(A[0], A[1])
            it = self.ty(A[2])
            ct = self.ty(A[0])
            v = self.atom(self.pure(self.expr(c0)))
            init = self.atom(self.pure(self.expr(A[2])))
            if ct[1] == ("int",) and it == ("int",):
                return self.bind("vsum_from %s %s" % (v, init))
            if ct[1] == ("real",) and it == ("real",):
                return self.bind("vsumr_from %s %s" % (v, init))
            if ct[1] == ("real",) and it == ("int",):
                return self.bind("vsum_trunc %s %s" % (v, init))
            raise Unsupported("accumulate")
        if nm == "tie":
            return None
        return None

    def range_container(self, b, e):
        def c(x, names):
            x = strip_all(x)
            while x["kind"] == "CXXConstructExpr" and len(kids(x)) == 1:
                x = strip_all(kids(x)[0])
            if x["kind"] != "CXXMemberCallExpr":
                raise Unsupported("iterator range")
            me = strip(kids(x)[0])
            if me.get("name") not in names:
                raise Unsupported("iterator range")
            return kids(me)[0]
        x, y = c(b, ("begin", "cbegin")), c(e, ("end", "cend"))
        dx, dy = strip_all(x), strip_all(y)
        if dx["kind"] != "DeclRefExpr" or dy["kind"] != "DeclRefExpr" or dx["referencedDecl"]["id"] != dy["referencedDecl"]["id"]:
            raise Unsupported("iterator range over different containers")
        return x

    def fail(self):
        if self.c.get("fail", self.w.fail_mode) == "stop":
            self.emit("terminate ();")
            self.emit("absurd;") if False else None
        else:
            self.emit("absurd;")

    # inlining of functions without a contract
    def inline_call(self, cls, nm, args, obj, n):
        if self.inline_depth > 4 or self.w.inliner is None:
            raise Unsupported("call to %s::%s (no contract)" % (cls, nm))
        body = self.w.inliner(self, cls, nm, args, obj, n)
        if body is None:
            raise Unsupported("call to %s%s (no contract, no body found)" % (cls + "::" if cls else "", nm))
        params = [c for c in kids(body) if c["kind"] == "ParmVarDecl"]
        A = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        for p in params[len(A):]:
            A.append(kids(p)[0])
        binds = []
        for p, a in zip(params, A):
            pt = self.ty(p)
            q = p["type"]["qualType"]
            isref = q.rstrip().endswith("&") and not q.startswith("const ")
            if (isref or pt[0] == "ptr") and self.is_lv_expr(a):
                v = Var(None, pt[1] if pt[0] == "ptr" else pt, "alias", self.lvalue(a))
            else:
                nmw = self.newname(p.get("name", "arg"))
                self.emit("let ref %s = %s in" % (nmw, self.rv(a, pt)))
                v = Var(nmw, pt, "ref")
                iv = self.iter_var(a) if pt[0] == "iter" else None
                if iv is not None:
                    v.cont = iv.cont
            binds.append((p["id"], v))
        saved_this = getattr(self, "this_lv", None)
        if obj is not None:
            self.this_lv = self.lvalue(obj)
        for i, v in binds:
            self.vars[i] = v
        rt = fn_ret(self, body)
        self.calls.add("inlined:" + nm)
        self.inline_depth += 1
        rref = body["type"]["qualType"].split("(")[0].rstrip().endswith("&")
        try:
            b = [c for c in kids(body) if c["kind"] == "CompoundStmt"][0]
            exc = "Ret_%d" % (len(self.exc) + 1)
            if rt == ("void",):
                self.exc.append((exc, "unit"))
                self.retstack.append(("exc", exc, rt))
                lines, _ = self.sub(lambda: self.stmt(b))
                self.emit("(try begin %s () end with %s _ -> () end);" % ("\n".join(lines), exc))
                r = "()"
            else:
                self.exc.append((exc, WT(rt)))
                self.retstack.append(("exc", exc, rt))
                lines, _ = self.sub(lambda: self.stmt(b))
                r = self.bind("(try begin %s absurd end with %s x -> x end)" % ("\n".join(lines), exc))
            self.retstack.pop()
        finally:
            self.inline_depth -= 1
            if obj is not None:
                self.this_lv = saved_this
        return r

    # ---------------------------------------------------------------- statements
    def effect(self, n):
        """expression statement"""
        s = strip_all(n) if n["kind"] in ("ExprWithCleanups", "ImplicitCastExpr", "ParenExpr") else n
        s = strip(s)
        k = s["kind"]
        if self.is_stream(s):
            self.w.drop("stream output")
            return
        if k in ("BinaryOperator", "CompoundAssignOperator") and s["opcode"].endswith("=") and s["opcode"] not in ("==", "!=", "<=", ">="):
            return self.assign(s)
        if k == "BinaryOperator" and s["opcode"] == ",":
            for c in kids(s):
                self.effect(c)
            return
        if k == "CXXThrowExpr":
            return self.throw(s)
        if k == "CallExpr":
            f = callee_ref(s)
            if f is not None and f["name"] in self.w.drop_calls:
                self.w.drop("call " + f["name"])
                return
        e = self.expr(s)
        if e not in ("()",) and not re.match(r"^[\w'.]+$", e):
            self.emit("let _ = %s in" % e)

    def is_stream(self, n):
        q = n.get("type", {}).get("qualType", "")
        return "ostream" in q or "basic_ostream" in q or "__ostream_type" in q

    def throw(self, s):
        t = kids(s)
        q = ""
        if t:
            q = t[0].get("type", {}).get("qualType", "")
        if "out_of_range" in q:
            self.emit("raise Out_of_range;")
        else:
            self.fail()

    def assign(self, n):
        a, b = kids(n)
        op = n["opcode"]
        t = self.ty(a)
        if op == "=":
            v = self.pure(self.rv(b, t)) if not self.simple_lv(a) else self.rv(b, t)
            lv = self.lvalue(a)
            self.write(lv, v)
        else:
            o = op[:-1]
            y = self.expr(b)
            tb = self.ty(b)
            ct = n.get("computeResultType", {})
            cty = self.w.types.parse(ct.get("desugaredQualType") or ct.get("qualType", "")) if ct else t
            if cty[0] not in ("int", "real", "bool"):
                cty = t
            if cty[0] != tb[0]:
                y = self.conv(y, tb, cty)
            if not self.simple_lv(a):
                y = self.pure(y)
            lv = self.lvalue(a)
            cur = self.read(lv)
            if cty[0] != t[0]:
                cur = self.conv(cur, t, cty)
            r = self.arith(o, self.atom(cur), self.atom(y), cty)
            if cty[0] != t[0]:
                r = self.conv(r, cty, t)
            self.write(lv, r)
        self.after_assign(a)

    def simple_lv(self, a):
        a = strip(a)
        return a["kind"] == "DeclRefExpr" and self.vars.get(a["referencedDecl"]["id"]) is not None and self.vars[a["referencedDecl"]["id"]].mode == "ref"

    def after_assign(self, a):
        pass

    def track_iter(self, a, b):
        v = self.iter_var(a)
        if v is not None:
            c = self.iter_container(b)
            if c is not None:
                v.cont = c

    def iter_container(self, n):
        """container lvalue behind an iterator-valued expression"""
        n = strip_all(n)
        while n["kind"] == "CXXConstructExpr" and len(kids(n)) == 1:
            n = strip_all(kids(n)[0])
        if n["kind"] == "CXXMemberCallExpr":
            me = strip(kids(n)[0])
            if me.get("name") in ("find", "begin", "end", "cbegin", "cend"):
                if self.is_lv_expr(kids(me)[0]):
                    return self.lvalue(kids(me)[0])
        if n["kind"] == "DeclRefExpr":
            v = self.vars.get(n["referencedDecl"]["id"])
            if v is not None:
                return v.cont
        return None

    def stmt(self, n):
        k = n.get("kind")
        if k is None:
            return
        h = getattr(self, "s_" + k, None)
        if h is not None:
            return h(n)
        return self.effect(n)

    def s_CompoundStmt(self, n):
        # names declared here are dead afterwards: a later sibling scope may use them again (and then hides them)
        saved = dict(self.used)
        for c in kids(n):
            self.stmt(c)
        self.release(saved)

    def release(self, saved):
        self.used = {k: v for k, v in self.used.items() if k in saved}
        self.used.update(saved)

    def s_NullStmt(self, n):
        pass

    def block(self, n):
        lines, _ = self.sub(lambda: self.stmt(n))
        return "begin\n" + "\n".join(lines) + "\n() end"

    def s_IfStmt(self, n):
        if is_logging(n):
            self.w.drop("logging statement")
            return
        ks = kids(n)
        if n.get("hasInit") or n.get("hasVar"):
            self.stmt(ks[0])
            ks = ks[1:]
        c = self.expr(ks[0])
        c = self.conv(c, self.ty(ks[0]), ("bool",))
        a = self.block(ks[1])
        if len(ks) > 2:
            b = self.block(ks[2])
            self.emit("if %s then\n%s\nelse\n%s;" % (c, a, b))
        else:
            # one assignment: joined again right away (strongest postcondition), so that the paths after it do not double
            sp = "[@vc:sp] " if strip(ks[1])["kind"] in ("BinaryOperator", "CXXOperatorCallExpr", "ExprWithCleanups") else ""
            self.emit("(%sif %s then\n%s);" % (sp, c, a))

    def s_DeclStmt(self, n):
        for d in kids(n):
            self.decl(d)

    def decl(self, d):
        k = d["kind"]
        if k in ("TypedefDecl", "TypeAliasDecl", "UsingDirectiveDecl", "UsingDecl", "StaticAssertDecl", "EmptyDecl"):
            return
        if k == "CXXRecordDecl":
            return self.local_record(d)
        if k == "DecompositionDecl":
            return self.decomp(d)
        if k != "VarDecl":
            raise Unsupported("declaration %s" % k)
        q = d["type"]["qualType"]
        self.pending_anon(q)
        t = self.ty(d)
        init = [c for c in kids(d)]
        nm = d.get("name", "anon")
        if t[0] == "?" and find_ref(d, lambda r: False) is False and any(s in q for s in ("stringstream", "ostream", "basic_ostringstream", "timeval", "chrono", "time_point", "basic_stringstream")):
            self.w.drop("local %s" % q.split("<")[0])
            return
        isref = q.rstrip().endswith("&") or (d["type"].get("desugaredQualType", "").rstrip().endswith("&"))
        if isref and init and self.is_lv_expr(init[0]):
            lv = self.lvalue(init[0])
            self.vars[d["id"]] = Var(None, t, "alias", lv)
            self.locals.append((nm, str(t)))
            return
        if t[0] == "ptr" and init and self.is_lv_expr(init[0]):
            lv = self.lvalue(init[0])
            self.vars[d["id"]] = Var(None, t, "alias", lv)
            return
        if init:
            if t[0] == "?":
                raise Unsupported("type %s" % t[1])
            e = self.rv(init[0], t)
            if strip_all(init[0])["kind"] == "InitListExpr":
                e = self.expr(strip_all(init[0])) if t[0] != "vec" else e
        else:
            e = self.anyval(t) or self.default(t)
        wn = self.newname(nm)
        self.locals.append((nm, str(t)))
        self.emit("let ref %s = (%s : %s) in" % (wn, e, WT(t)))
        v = Var(wn, t, "ref")
        self.vars[d["id"]] = v
        if t[0] == "iter" and init:
            c = self.iter_container(init[0])
            if c is not None:
                v.cont = c
        self.hook(("decl", nm))

    def decomp(self, d):
        raise Unsupported("structured binding")

    def pending_anon(self, q):
        pass

    def local_record(self, d):
        # anonymous local struct; its type string is 'struct (unnamed struct at FILE:L:C)'
        fs = {}
        name = "anon%d" % (len(self.w.anon_records) + 1)
        for c in kids(d):
            if c["kind"] == "FieldDecl":
                fs[c["name"]] = ("%s_%s" % (name, ident(c["name"])), self.ty(c))
        self.w.fields[name] = fs
        self.w.anon_records.append((name, fs))
        loc = d.get("loc", {})
        self._last_anon = name
        self.w.types.anon_pending = name

        class AnonMap(dict):
            pass
        # any unnamed-struct type string seen afterwards in this function resolves to this record
        self.w.types.anon_latest = name

    def s_ReturnStmt(self, n):
        ks = kids(n)
        r = self.retstack[-1]
        if ks and not self.ret_void():
            e = self.rv(ks[0], self.ret_type())
        else:
            if ks and not (strip_all(ks[0])["kind"] in ("CXXThisExpr",) or self.is_lv_expr(ks[0])):
                e0 = self.expr(ks[0])
            e = "()"
        self.hook(("return",))
        if r == "native":
            if self.inout_self_ctor:
                e = "this"
            self.emit("return (%s);" % e)
        else:
            self.emit("raise (%s %s);" % (r[1], self.atom(e)))

    inout_self_ctor = False

    def ret_void(self):
        r = self.retstack[-1]
        if r == "native":
            return self.ret == ("void",) or self.retself
        return r[2] == ("void",)

    def ret_type(self):
        r = self.retstack[-1]
        return self.ret if r == "native" else r[2]

    def s_BreakStmt(self, n):
        self.emit("break;")

    def s_ContinueStmt(self, n):
        c = self.cont_stack[-1]
        if c is None:
            self.emit("continue;")
        else:
            self.emit("raise %s;" % c)

    def hook(self, key):
        for l in self.c.get("hooks", {}).get(key, []):
            self.emit(l)

    # loops
    def loop_contract(self, kind):
        self.loopno += 1
        i = self.loopno
        self.loops_seen.append(kind)
        lc = self.c.get("loops", {}).get(i)
        return i, lc

    def loop_spec(self, i, lc, auto_inv=(), auto_variant=None):
        s = []
        for a in auto_inv:
            s.append("invariant { %s } (*@ loop %d: automatic bounds *)" % (a, i))
        if lc:
            for j, inv in enumerate(lc.get("inv", [])):
                lab, f = inv if isinstance(inv, tuple) else ("inv%d" % (j + 1), inv)
                s.append("invariant { %s } (*@ loop %d: %s *)" % (f, i, lab))
        v = lc.get("variant") if lc else None
        if v is None:
            v = auto_variant
        if v and not (lc and lc.get("diverges")):
            s.append("variant { %s } (*@ loop %d: variant *)" % (v, i))
        elif not v:
            self.diverges = True
        return "\n".join(s)

    diverges = False

    def run_loop(self, i, lc, cond, body, inc, auto_inv=(), auto_variant=None, has_continue=False, post_cond=None):
        """cond: callable returning condition text or None (true)"""
        for l in (lc or {}).get("before", []):
            self.emit(l)
        pre, c = self.sub(cond) if cond else ([], "true")
        lines = []
        cname = None
        if has_continue and (inc is not None or post_cond is not None):
            cname = "Cont_%d" % (len(self.exc) + 1)
            self.exc.append((cname, None))
        self.cont_stack.append(cname)

        def do_body():
            for l in (lc or {}).get("begin", []):
                self.emit(l)
            if cname:
                bl, _ = self.sub(body)
                self.emit("(try begin\n%s\n() end with %s -> () end);" % ("\n".join(bl), cname))
            else:
                body()
            for l in (lc or {}).get("end", []):
                self.emit(l)
            if inc:
                inc()
            if post_cond:
                pc = post_cond()
                self.emit("if not (%s) then break;" % pc)
            for l in (lc or {}).get("last", []):
                self.emit(l)
        bl, _ = self.sub(do_body)
        self.cont_stack.pop()
        spec = self.loop_spec(i, lc, auto_inv, auto_variant)
        if not pre and c != "true":
            self.emit("while %s do\n%s\n%s\n() done;" % (c, spec, "\n".join(bl)))
        elif c == "true" and not pre:
            self.emit("while true do\n%s\n%s\n() done;" % (spec, "\n".join(bl)))
        else:
            self.emit("while true do\n%s\n%s\nif not (%s) then break;\n%s\n() done;" % (spec, "\n".join(pre), c, "\n".join(bl)))
        for l in (lc or {}).get("after", []):
            self.emit(l)

    def s_WhileStmt(self, n):
        ks = kids(n)
        i, lc = self.loop_contract("while")
        c, b = ks[0], ks[-1]
        self.run_loop(i, lc, lambda: self.conv(self.expr(c), self.ty(c), ("bool",)), lambda: self.stmt(b), None)

    def s_DoStmt(self, n):
        b, c = kids(n)
        i, lc = self.loop_contract("do")
        self.run_loop(i, lc, None, lambda: self.stmt(b), None, has_continue=has_loop_ctl(b, "ContinueStmt"),
                      post_cond=lambda: self.conv(self.expr(c), self.ty(c), ("bool",)))

    def s_ForStmt(self, n):
        ks = n["inner"]
        init, _, c, inc, b = ks
        saved = dict(self.used)
        if init:
            self.stmt(init)
        i, lc = self.loop_contract("for")
        cond = (lambda: self.conv(self.expr(c), self.ty(c), ("bool",))) if c else None
        self.run_loop(i, lc, cond, lambda: self.stmt(b), (lambda: self.effect(inc)) if inc else None,
                      has_continue=has_loop_ctl(b, "ContinueStmt"))
        self.release(saved)

    def s_CXXForRangeStmt(self, n):
        ks = n["inner"]
        # init, range decl, begin, end, cond, inc, loopvar, body
        rng = [k for k in ks if k and k.get("kind") == "DeclStmt" and kids(k)[0].get("name", "").startswith("__range")][0]
        body = ks[-1]
        var = kids(ks[-2])[0]
        rexpr = kids(kids(rng)[0])[0]
        rt = self.ty(kids(rng)[0])
        if rt[0] == "?":
            rt = self.ty(rexpr)
        i, lc = self.loop_contract("range")
        rn, ix = "rng%d" % i, "idx%d" % i
        q = var["type"]["qualType"]
        vt = self.ty(var)
        mutref = q.rstrip().endswith("&") and not q.startswith("const ") and self.mutates(body, var["id"])
        if var["kind"] == "DecompositionDecl":
            mutref = False
        contlv = None
        if self.is_lv_expr(rexpr):
            contlv = self.lvalue(rexpr)
        if rt[0] in ("vec",):
            seq = self.atom(self.pure(self.expr(rexpr)))
            self.emit("let %s = %s in" % (rn, seq))
        elif rt[0] == "set":
            s0 = self.atom(self.pure(self.expr(rexpr)))
            self.emit("let %s = s_elems %s in" % (rn, s0))
        elif rt[0] == "map":
            s0 = self.atom(self.pure(self.expr(rexpr)))
            self.emit("let rngm%d = %s in" % (i, s0))
            self.emit("let %s = m_keys %s in" % (rn, s0))
        else:
            raise Unsupported("range-for over %r" % (rt,))
        self.emit("let ref %s = 0 in" % ix)

        def dobody():
            e = self.bind("vget %s %s" % (rn, ix))
            nm = var.get("name", "elem")
            if rt[0] == "map":
                if mutref:
                    if contlv is None:
                        raise Unsupported("mutable range-for over temporary map")
                    vlv = LV(contlv.root, contlv.steps + (("key", e),), rt[2])
                    p = PairAlias(e, vlv, rt)
                    self.vars[var["id"]] = Var(None, vt, "pairalias", p)
                    raise Unsupported("mutable range-for over map")
                x = self.bind("m_get rngm%d %s" % (i, e))
                if var["kind"] == "DecompositionDecl":
                    bs = [c for c in kids(var) if c["kind"] == "BindingDecl"]
                    for bd, val, ty_ in zip(bs, (e, x), (rt[1], rt[2])):
                        wn = self.newname(bd["name"])
                        self.emit("let ref %s = %s in" % (wn, val))
                        self.vars[bd["id"]] = Var(wn, ty_, "ref")
                else:
                    wn = self.newname(nm)
                    self.emit("let ref %s = { first = %s; second = %s } in" % (wn, e, x))
                    self.vars[var["id"]] = Var(wn, ("pair", rt[1], rt[2]), "ref")
            elif mutref:
                if contlv is None or rt[0] != "vec":
                    raise Unsupported("mutable range-for")
                self.vars[var["id"]] = Var(None, rt[1], "alias", LV(contlv.root, contlv.steps + (("idx", ix),), rt[1]))
            else:
                if var["kind"] == "DecompositionDecl":
                    raise Unsupported("structured binding")
                wn = self.newname(nm)
                self.emit("let ref %s = %s in" % (wn, self.conv(e, rt[1], vt)))
                self.vars[var["id"]] = Var(wn, vt if vt[0] != "?" else rt[1], "ref")
            self.locals.append((nm, str(vt)))
            self.stmt(body)

        def inc():
            self.emit("%s <- %s + 1;" % (ix, ix))
        self.run_loop(i, lc, lambda: "(%s < %s)" % (ix, self.bind("vlen %s" % rn)), dobody, inc,
                      auto_inv=["0 <= %s <= length %s" % (ix, rn)], auto_variant="length %s - %s" % (rn, ix),
                      has_continue=has_loop_ctl(body, "ContinueStmt"))

    def mutates(self, body, vid):
        """conservative: is variable vid written through in body?"""
        found = [False]

        def refs(x):
            return find_ref(x, lambda r: r["id"] == vid)

        def walk(x):
            k = x.get("kind")
            ks = kids(x)
            if k in ("BinaryOperator", "CompoundAssignOperator") and x["opcode"].endswith("=") and x["opcode"] not in ("==", "!=", "<=", ">="):
                if refs(ks[0]):
                    found[0] = True
            if k == "UnaryOperator" and x["opcode"] in ("++", "--") and refs(ks[0]):
                found[0] = True
            if k == "CXXOperatorCallExpr" and op_name(x) in ("=", "+=", "-=", "*=", "/=", "++", "--") and refs(ks[1]):
                found[0] = True
            if k == "CXXMemberCallExpr":
                me = strip(ks[0])
                if me.get("name") in ("push_back", "insert", "erase", "clear", "pop_back", "push", "pop") and refs(me):
                    found[0] = True
            for c in ks:
                walk(c)
        walk(body)
        return found[0]

    def s_SwitchStmt(self, n):
        ks = kids(n)
        t = self.ty(ks[0])
        v = self.pure(self.expr(ks[0]))
        body = ks[-1]
        # group: list of (labels, stmts); only fallthrough-free switches
        groups, cur = [], None
        def push(c, labels):
            nonlocal cur
            if c["kind"] == "CaseStmt":
                cc = kids(c)
                push(cc[-1], labels + [self.expr(cc[0])])
            elif c["kind"] == "DefaultStmt":
                push(kids(c)[0], labels + [None])
            else:
                if labels:
                    cur = (labels, [])
                    groups.append(cur)
                if cur is not None:
                    cur[1].append(c)
        for c in kids(body):
            push(c, [])
        chain = ""
        default = None
        parts = []
        for idx, (labels, sts) in enumerate(groups):
            last = sts[-1]["kind"] if sts else None
            if last == "CompoundStmt" and kids(sts[-1]):
                last = kids(sts[-1])[-1]["kind"]
            if last not in ("BreakStmt", "ReturnStmt", "CXXThrowExpr") and idx != len(groups) - 1:
                raise Unsupported("switch fallthrough")
            sts2 = [s for s in sts if s["kind"] != "BreakStmt"]
            lines, _ = self.sub(lambda: [self.stmt(s) for s in sts2])
            blk = "begin\n" + "\n".join(lines) + "\n() end"
            if None in labels:
                default = blk
            else:
                parts.append((" || ".join("%s = %s" % (v, l) for l in labels), blk))
        s = ""
        for c, b in parts:
            s += "if %s then\n%s\nelse " % (c, b)
        s += default or "()"
        self.emit("(" + s + ");")

    def s_CXXTryStmt(self, n):
        ks = kids(n)
        b = self.block(ks[0])
        hs = ks[1:]
        if len(hs) != 1:
            raise Unsupported("several catch clauses")
        h = kids(hs[0])
        q = h[0].get("type", {}).get("qualType", "") if h and h[0]["kind"] == "VarDecl" else "..."
        if "out_of_range" not in q and q != "...":
            raise Unsupported("catch %s" % q)
        hb = self.block(h[-1])
        self.emit("(try %s with Out_of_range -> %s end);" % (b, hb))

    def s_CXXThrowExpr(self, n):
        self.throw(n)

    def x_CXXThrowExpr(self, n):
        self.throw(n)
        return "()"

    def x_LambdaExpr(self, n):
        raise Unsupported("lambda")


class PairAlias:
    def __init__(self, k, lv, t):
        self.k, self.lv, self.t = k, lv, t


def has_unknown(m):
    if m[0] == "?":
        return True
    return any(isinstance(x, tuple) and has_unknown(x) for x in m[1:])


def balanced(e):
    d = 0
    for i, c in enumerate(e):
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
            if d == 0 and i != len(e) - 1:
                return False
    return True


def op_name(n):
    f = strip_all(kids(n)[0])
    r = f.get("referencedDecl", {}).get("name", "")
    return r[len("operator"):] if r.startswith("operator") else r


def callee_ref(n):
    f = strip_all(kids(n)[0])
    if f["kind"] == "DeclRefExpr":
        return f["referencedDecl"]
    return None


def fn_ret(fn, node):
    q = node["type"]["qualType"]
    # 'RET (ARGS) const'
    depth = 0
    for i, c in enumerate(q):
        if c in "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "(" and depth == 0:
            return fn.w.types.parse(q[:i].strip())
    return ("?", q)
