"""Model of models::Dataflow (one WhyML record over the trusted Boost graph model),
translation of the Boost accesses, and the contracts of its member functions."""
from vt.gen import F, V
from vt import trans as T
from vt.trans import LV, kids, strip_all, Unsupported
import re

TU = """#include <boost/assert.hpp>
#include <models/Dataflow.h>
"""
VPROPS = [("vertex_name", "std::string"), ("vertex_index2", "long"), ("vertex_Zi", "long"), ("vertex_mapping", "long"), ("vertex_Ni", "long"),
          ("vertex_phaseduration", "std::vector<long double>"), ("vertex_initphaseduration", "std::vector<long double>"), ("vertex_reentrancy", "long"),
          ("vertex_type", "std::string"), ("vertex_initphasecount", "long"), ("vertex_phasecount", "long")]
EPROPS = [("edge_name", "std::string"), ("edge_input_port_name", "std::string"), ("edge_output_port_name", "std::string"),
          ("edge_inputs", "std::vector<long>"), ("edge_outputs", "std::vector<long>"), ("edge_init_inputs", "std::vector<long>"), ("edge_init_outputs", "std::vector<long>"),
          ("edge_total_input", "long"), ("edge_total_output", "long"), ("edge_preload", "long"), ("edge_alpha", ("cls", "fraction")), ("edge_tokensize", "long"),
          ("edge_type", "long"), ("edge_route", "std::vector<long>"), ("edge_index", "long")]
PM = lambda t: ("pmap", t)
CLASSES = {"models::Dataflow": "flow", "Dataflow": "flow", "Fraction<long>": "fraction", "TOKEN_FRACT": "fraction", "EXEC_COUNT_FRACT": "fraction",
           "BoostDataflow": "bg", r"~(boost::)?(vec_adj_list_impl|adjacency_list|adj_list_helper)<.*vertex_phasecount_t.*>$": "bg", "EDGE_TYPE": ("int",), "route_t": ("vec", ("int",)), "NoC": "noc",
           "boost::integer_range<edge_iterator>": ("vec", ("int",))}
FLOW_FIELDS = [("readonly", "bool"), ("normalizationisdone", "bool"), ("repetitionvectorisdone", "bool"), ("g", ("cls", "bg")),
               ("graph_name", "std::string"), ("graph_type", "std::string"), ("app_name", "std::string"), ("graph_id", "long"), ("filename", "std::string"),
               ("auto_vertex_num", "long"), ("auto_edge_num", "long"), ("normalized_period", "long double"), ("channelGCDA", "std::map<long,long>")]
RECORDS = [("fraction", [("_numerator", "fn", "long"), ("_denominator", "fd", "long")]),
           ("bg", [("@t", "topo", ("cls", "topo"))] + [("@" + n, n, PM(t)) for n, t in VPROPS + EPROPS]),
           ("flow", [(n, "f_" + n if n in ("g",) else n, t) for n, t in FLOW_FIELDS])]
ALLP = [n for n, t in VPROPS + EPROPS]

# ------------------------------------------------------------------ translation of Boost accesses
VSET, ESET = {n for n, t in VPROPS}, {n for n, t in EPROPS}


def enum_name(n):
    n = strip_all(n)
    while n["kind"] == "CXXConstructExpr" and kids(n):
        n = strip_all(kids(n)[0])
    if n["kind"] == "DeclRefExpr" and n["referencedDecl"]["kind"] == "EnumConstantDecl":
        return n["referencedDecl"]["name"]
    return None


def graph_rv(fn, n):
    return fn.atom(fn.pure(fn.expr(n)))


def prop_get(fn, tag, g, key):
    gv = graph_rv(fn, g)
    k = fn.atom(fn.pure(fn.expr(key)))
    chk = "chk_v" if tag in VSET else "chk_e"
    fn.emit("%s %s %s;" % (chk, gv, k))
    return fn.bind("pget_ %s.%s %s" % (gv, tag, k))


def b_get(fn, obj, A, n):
    if len(A) == 2:
        inner = strip_all(A[0])
        if inner["kind"] == "CallExpr" and (T.callee_ref(inner) or {}).get("name") == "get":
            ia = kids(inner)[1:]
            tag = enum_name(ia[0])
            if tag in VSET | ESET:
                return prop_get(fn, tag, ia[1], A[1])
    if len(A) == 3:
        tag = enum_name(A[0])
        if tag in VSET | ESET:
            return prop_get(fn, tag, A[1], A[2])
    return None


def b_put(fn, obj, A, n):
    tag = enum_name(A[0])
    if len(A) == 4 and tag in VSET | ESET:
        t = dict(VPROPS + EPROPS)[tag]
        mt = fn.w.types.parse(t) if isinstance(t, str) else t
        k = fn.atom(fn.pure(fn.expr(A[2])))
        v = fn.atom(fn.pure(fn.rv(A[3], mt)))
        lv = fn.lvalue(A[1])
        cur = fn.atom(fn.pure(fn.read(lv)))
        fn.emit("%s %s %s;" % ("chk_v" if tag in VSET else "chk_e", cur, k))
        m = fn.bind("pset_ %s.%s %s %s" % (cur, tag, k, v))
        fn.write(LV(lv.root, lv.steps + (("fld", tag),)), m)
        return "()"
    return None


def simple(fmt, nargs=1):
    def h(fn, obj, A, n):
        xs = [fn.atom(fn.pure(fn.expr(a))) for a in A]
        return fn.bind(fmt % tuple(xs))
    return h


def b_add_edge(fn, obj, A, n):
    s = fn.atom(fn.pure(fn.expr(A[0])))
    t = fn.atom(fn.pure(fn.expr(A[1])))
    lv = fn.lvalue(A[2])
    x, post = fn.ref_arg(lv)
    r = fn.bind("bg_add_edge %s %s %s" % (x, s, t))
    for l, nm in post:
        fn.write(l, nm)
    return r


def b_add_vertex(fn, obj, A, n):
    lv = fn.lvalue(A[-1])
    x, post = fn.ref_arg(lv)
    r = fn.bind("bg_add_vertex %s" % x)
    for l, nm in post:
        fn.write(l, nm)
    return r


def b_remove(which):
    def h(fn, obj, A, n):
        k = fn.atom(fn.pure(fn.expr(A[0])))
        lv = fn.lvalue(A[1])
        x, post = fn.ref_arg(lv)
        fn.emit("bg_remove_%s %s %s;" % (which, x, k))
        for l, nm in post:
            fn.write(l, nm)
        return "()"
    return h


def b_deref(fn, obj, A, n):
    return fn.bind("it_get %s" % fn.atom(fn.pure(fn.expr(A[0]))))


def b_getG(fn, obj, args, n):
    return fn.read(lv_getG(fn, fn.lvalue(obj), args))


def lv_getG(fn, objlv, args):
    return LV(objlv.root, objlv.steps + (("fld", "f_g"),), ("cls", "bg"))


b_getG.lv = lv_getG


def b_vertex_set(fn, obj, args, n):
    g = graph_rv(fn, obj)
    return fn.bind("vrange_ %s" % g)


def b_null_vertex(fn, obj, args, n):
    return fn.bind("null_vertex_ ()")


BUILTINS = {("", "get"): b_get, ("", "put"): b_put,
            ("", "source"): simple("bg_source %s %s"), ("", "target"): simple("bg_target %s %s"),
            ("", "edges"): simple("bg_edges %s"), ("", "vertices"): simple("bg_vertices %s"),
            ("", "in_edges"): simple("bg_in_edges %s %s"), ("", "out_edges"): simple("bg_out_edges %s %s"),
            ("", "num_vertices"): simple("bg_num_vertices %s"), ("", "num_edges"): simple("bg_num_edges %s"),
            ("", "degree"): simple("bg_degree %s %s"), ("", "in_degree"): simple("bg_in_degree %s %s"), ("", "out_degree"): simple("bg_out_degree %s %s"),
            ("", "add_edge"): b_add_edge, ("", "add_vertex"): b_add_vertex, ("", "remove_edge"): b_remove("edge"), ("", "remove_vertex"): b_remove("vertex"),
            ("", "edge"): simple("bg_edge %s %s %s"),
            ("", "it2Vertex"): b_deref, ("", "it2Edge"): b_deref, ("flow", "getG"): b_getG, ("bg", "vertex_set"): b_vertex_set, ("", "null_vertex"): b_null_vertex}
DROP = ("print_trace",)

DEFAULTS = {"long": "0", "std::string": "str_empty", "std::vector<long>": "vempty", "std::vector<long double>": "vempty"}


def dflt(t):
    return "frac_default" if isinstance(t, tuple) else DEFAULTS[t]


def theory():
    same = lambda ps, pre="old g": " /\\ ".join("g.%s = (%s).%s" % (p, pre, p) for p in ps)
    L = ["  constant frac_default : fraction = { fn = 0; fd = 1 }",
         "  val chk_v (g: bg) (v: int) : unit requires { [@expl:vertex of this graph] vok g.topo v }",
         "  val chk_e (g: bg) (e: int) : unit requires { [@expl:edge of this graph] eok g.topo e }",
         "  val pget_ (m: pmap 'a) (k: int) : 'a ensures { result = pget m k }",
         "  val pset_ (m: pmap 'a) (k: int) (x: 'a) : pmap 'a ensures { result = pset m k x }",
         "  val bg_source (e: int) (g: bg) : int requires { [@expl:edge of this graph] eok g.topo e } ensures { result = pget g.topo.esrc e }",
         "  val bg_target (e: int) (g: bg) : int requires { [@expl:edge of this graph] eok g.topo e } ensures { result = pget g.topo.edst e }",
         "  val bg_edges (g: bg) : pair (iter int) (iter int) ensures { result.first.it_seq = g.topo.edges /\\ result.first.it_pos = 0 /\\ result.second.it_seq = g.topo.edges /\\ result.second.it_pos = length g.topo.edges }",
         "  val bg_vertices (g: bg) : pair (iter int) (iter int) ensures { result.first.it_seq = vrange g.topo.nv /\\ result.first.it_pos = 0 /\\ result.second.it_seq = vrange g.topo.nv /\\ result.second.it_pos = length (vrange g.topo.nv) }",
         "  val vrange_ (g: bg) : vec int ensures { result = vrange g.topo.nv }"]
    for d in ("in", "out"):
        L.append("  val bg_%s_edges (v: int) (g: bg) : pair (iter int) (iter int) requires { [@expl:vertex of this graph] vok g.topo v } ensures { result.first.it_seq = pget g.topo.%sE v /\\ result.first.it_pos = 0 /\\ result.second.it_seq = pget g.topo.%sE v /\\ result.second.it_pos = length (pget g.topo.%sE v) }" % (d, d, d, d))
        L.append("  val bg_%s_degree (v: int) (g: bg) : int requires { [@expl:vertex of this graph] vok g.topo v } ensures { result = length (pget g.topo.%sE v) }" % (d, d))
    L += ["  val bg_degree (v: int) (g: bg) : int requires { [@expl:vertex of this graph] vok g.topo v } ensures { result = length (pget g.topo.inE v) + length (pget g.topo.outE v) }",
          "  val bg_num_vertices (g: bg) : int ensures { result = g.topo.nv }",
          "  val bg_num_edges (g: bg) : int ensures { result = length g.topo.edges }",
          "  val bg_edge (s t: int) (g: bg) : pair int bool ensures { result.second <-> exists e. eok g.topo e /\\ pget g.topo.esrc e = s /\\ pget g.topo.edst e = t }",
          "  val bg_add_edge (ref g: bg) (s t: int) : pair int bool requires { [@expl:vertex of this graph] vok g.topo s /\\ vok g.topo t } writes { g } ensures { result.second } ensures { edge_added (old g).topo g.topo result.first s t } ensures { twf (old g).topo -> twf g.topo }",
          "    ensures { %s }" % same([n for n, t in VPROPS]),
          "    ensures { %s }" % " /\\ ".join("g.%s = pset (old g).%s result.first %s" % (n, n, dflt(t)) for n, t in EPROPS),
          "  val bg_add_vertex (ref g: bg) : int writes { g } ensures { result = (old g).topo.nv } ensures { g.topo = { (old g).topo with nv = (old g).topo.nv + 1; inE = pset (old g).topo.inE result vempty; outE = pset (old g).topo.outE result vempty } } ensures { twf (old g).topo -> twf g.topo }",
          "    ensures { %s }" % same([n for n, t in EPROPS]),
          "    ensures { %s }" % " /\\ ".join("g.%s = pset (old g).%s result %s" % (n, n, dflt(t)) for n, t in VPROPS),
          "  val bg_remove_edge (ref g: bg) (e: int) : unit requires { [@expl:edge of this graph] eok g.topo e } writes { g } ensures { edge_removed (old g).topo g.topo e } ensures { twf (old g).topo -> twf g.topo }",
          "    ensures { %s }" % same(ALLP),
          "  val bg_remove_vertex (ref g: bg) (v: int) : unit requires { [@expl:isolated vertex of this graph] vok g.topo v /\\ length (pget g.topo.inE v) = 0 /\\ length (pget g.topo.outE v) = 0 } writes { g } ensures { vertex_removed (old g).topo g.topo v } ensures { twf (old g).topo -> twf g.topo }",
          "    ensures { %s }" % same([n for n, t in EPROPS]),
          "    ensures { %s }" % " /\\ ".join("g.%s = pshift (old g).%s v" % (n, n) for n, t in VPROPS),
          ]
    # abbreviations used in contracts
    L += ["  predicate uid (g: bg) = (forall u v [pget g.vertex_index2 u, pget g.vertex_index2 v]. vok g.topo u -> vok g.topo v -> pget g.vertex_index2 u = pget g.vertex_index2 v -> u = v) /\\",
          "    (forall e f [pget g.edge_index e, pget g.edge_index f]. eok g.topo e -> eok g.topo f -> pget g.edge_index e = pget g.edge_index f -> e = f) /\\ (forall e [pget g.edge_index e]. eok g.topo e -> pget g.edge_index e > 0)",
          "  predicate unames (g: bg) = (forall u v [pget g.vertex_name u, pget g.vertex_name v]. vok g.topo u -> vok g.topo v -> pget g.vertex_name u = pget g.vertex_name v -> pget g.vertex_name u <> str_empty -> u = v) /\\",
          "    (forall e f [pget g.edge_name e, pget g.edge_name f]. eok g.topo e -> eok g.topo f -> pget g.edge_name e = pget g.edge_name f -> pget g.edge_name e <> str_empty -> e = f)",
          "  predicate fwf (f: flow) = twf f.f_g.topo /\\ uid f.f_g /\\ unames f.f_g",
          "  predicate okv (f: flow) (v: int) = vok f.f_g.topo v",
          "  predicate oke (f: flow) (e: int) = eok f.f_g.topo e",
          "  function srcof (f: flow) (e: int) : int = pget f.f_g.topo.esrc e",
          "  function dstof (f: flow) (e: int) : int = pget f.f_g.topo.edst e"]
    for n, t in VPROPS + EPROPS:
        wt = "fraction" if isinstance(t, tuple) else {"long": "int", "std::string": "int", "std::vector<long>": "vec int", "std::vector<long double>": "vec real"}[t]
        L.append("  function %s_ (f: flow) (k: int) : %s = pget f.f_g.%s k" % (n, wt, n))
    return "\n".join(L)


# ------------------------------------------------------------------ contracts
CACHE = ("readonly", "normalizationisdone", "repetitionvectorisdone")


def setg(pairs):
    """graph after writing the given (property, key, value) triples"""
    return "this.f_g = { (old this.f_g) with %s }" % "; ".join("%s = pset (old this).f_g.%s %s %s" % (p, p, k, v) for p, k, v in pairs)


def frame(*changed):
    return " /\\ ".join("this.%s = (old this).%s" % (w, w) for w in ["graph_name", "graph_type", "app_name", "graph_id", "filename", "auto_vertex_num", "auto_edge_num", "normalized_period", "channelGCDA"] if w not in changed)


RESET = "not this.readonly /\\ not this.normalizationisdone /\\ not this.repetitionvectorisdone"
KEEPFLAGS = "this.readonly = (old this).readonly /\\ this.normalizationisdone = (old this).normalizationisdone /\\ this.repetitionvectorisdone = (old this).repetitionvectorisdone"
WRITABLE = ("refused_when_read_only", "not (old this).readonly")


def each(i, seq, it=None):
    """invariants of the ForEach macros over iterator range of seq"""
    it = it or i
    return [("%s range" % i, "%scount.it_seq = %s /\\ %s_end.it_seq = %s /\\ %s_end.it_pos = length %s /\\ 0 <= %scount.it_pos <= length %s" % (it, seq, it, seq, it, seq, it, seq)),
            ("%s current" % i, "%scount.it_pos < length %s -> %s = get %s %scount.it_pos" % (it, seq, i, seq, it))]


def evar(i, seq):
    return "length %s - %scount.it_pos" % (seq, i)


FL = {}


def add(f):
    FL[f.why] = f
    return f


def M(why, key, **kw):
    kw.setdefault("filt", "models::Dataflow::")
    return add(F(why, "models::Dataflow::" + key, "df", cls="flow", **kw))


def getter_v(why, key, p, par="t", **kw):
    return M(why, key, requires=["okv this %s" % par] + kw.pop("req", []), ensures=[("reads", "result = %s_ this %s" % (p, par))], **kw)


def getter_e(why, key, p, par="c", **kw):
    return M(why, key, requires=["oke this %s" % par] + kw.pop("req", []), ensures=[("reads", "result = %s_ this %s" % (p, par))], **kw)


def setter(why, key, p, k, v, flags=RESET, writable=True, ok=None, **kw):
    ens = [("graph_after", setg([(p, k, v)])), ("frame", frame()), ("flags", flags)] + ([WRITABLE] if writable else [])
    return M(why, key, requires=[ok], ensures=ens, fail="stop", **kw)

VS, ES = "(vrange this.f_g.topo.nv)", "this.f_g.topo.edges"
WF = "twf this.f_g.topo"
# -- topology
M("getEdgeSource", "getEdgeSource(", requires=["oke this c"], ensures=[("reads", "result = srcof this c")])
M("getEdgeTarget", "getEdgeTarget(", requires=["oke this c"], ensures=[("reads", "result = dstof this c")])
M("getVerticesCount", "getVerticesCount(", ensures=[("reads", "result = this.f_g.topo.nv")])
M("getEdgesCount", "getEdgesCount(", ensures=[("reads", "result = length this.f_g.topo.edges")])
M("getVertexDegree", "getVertexDegree(", requires=["okv this t"], ensures=[("reads", "result = length (pget this.f_g.topo.inE t) + length (pget this.f_g.topo.outE t)")])
M("getVertexInDegree", "getVertexInDegree(", requires=["okv this t"], ensures=[("reads", "result = length (pget this.f_g.topo.inE t)")])
M("getVertexOutDegree", "getVertexOutDegree(", requires=["okv this t"], ensures=[("reads", "result = length (pget this.f_g.topo.outE t)")])
M("getFirstEdge", "getFirstEdge(", requires=["length this.f_g.topo.edges > 0"], ensures=[("reads", "result = get this.f_g.topo.edges 0")])
M("getFirstVertex", "getFirstVertex(", requires=["this.f_g.topo.nv > 0"], ensures=[("reads", "result = 0")])
IT = lambda seq: "result.first.it_seq = %s /\\ result.first.it_pos = 0 /\\ result.second.it_seq = %s /\\ result.second.it_pos = length %s" % (seq, seq, seq)
M("getEdges", "getEdges[", ensures=[("range", IT(ES))])
M("getVertices", "getVertices(", ensures=[("range", IT(VS))])
M("getInputEdges", "getInputEdges[", requires=["okv this t"], ensures=[("range", IT("(pget this.f_g.topo.inE t)"))])
M("getOutputEdges", "getOutputEdges[", requires=["okv this t"], ensures=[("range", IT("(pget this.f_g.topo.outE t)"))])
M("vertices_", "vertices(", name="vertices", ensures=[("range", "result = " + VS)])
M("edges_", "edges[", name="edges", ensures=[("range", "result = " + ES)])
M("in_edges_", "in_edges[", name="in_edges", requires=["okv this t"], ensures=[("range", "result = pget this.f_g.topo.inE t")])
M("out_edges_", "out_edges[", name="out_edges", requires=["okv this t"], ensures=[("range", "result = pget this.f_g.topo.outE t")])
M("edgeExist", "edgeExist(", ensures=[("exact", "result <-> exists e. oke this e /\\ srcof this e = from /\\ dstof this e = to_")])
# -- flags
M("is_read_only", "is_read_only(", ensures=[("reads", "result = this.readonly")])
M("is_normalized", "is_normalized(", ensures=[("reads", "result = this.normalizationisdone")])
M("has_repetition_vector", "has_repetition_vector(", ensures=[("reads", "result = this.repetitionvectorisdone")])
M("set_read_only", "set_read_only(", ensures=[("sets", "this = { (old this) with readonly = true }")])
M("set_normalize", "set_normalize(", ensures=[("sets", "this = { (old this) with normalizationisdone = true }")])
M("set_repetition_vector", "set_repetition_vector(", ensures=[("sets", "this = { (old this) with repetitionvectorisdone = true }")])
M("reset_computation", "reset_computation(", ensures=[("drops_every_computed_result", "this = { (old this) with readonly = false; normalizationisdone = false; repetitionvectorisdone = false; channelGCDA = mempty }")])
RESETTED = "{ (old this) with readonly = false; normalizationisdone = false; repetitionvectorisdone = false; channelGCDA = mempty }"


def after(pairs, **more):
    """whole-object effect of a mutator: computed results dropped, exactly these properties written"""
    s = "this = { (old this) with readonly = false; normalizationisdone = false; repetitionvectorisdone = false; channelGCDA = mempty"
    if pairs:
        s += "; f_g = { (old this).f_g with %s }" % "; ".join("%s = pset (old this).f_g.%s %s %s" % (p, p, k, v) for p, k, v in pairs)
    for k, v in more.items():
        s += "; %s = %s" % (k, v)
    return ("exact_effect", s + " }")


# -- plain property accessors
for nm, p in (("getVertexId", "vertex_index2"), ("getVertexName", "vertex_name"), ("getVertexType", "vertex_type"), ("getMapping", "vertex_mapping"),
              ("getPhasesQuantity", "vertex_phasecount"), ("getInitPhasesQuantity", "vertex_initphasecount"), ("getReentrancyFactor", "vertex_reentrancy")):
    getter_v(nm, nm + ("[" if nm in ("getVertexName", "getVertexType") else "("), p, par="v" if nm == "getVertexType" else "t")
for nm, p in (("getEdgeId", "edge_index"), ("getEdgeName", "edge_name"), ("getEdgeType", "edge_type"), ("getRoute", "edge_route"), ("getPreload", "edge_preload"),
              ("getTokenSize", "edge_tokensize"), ("getEdgeIn", "edge_total_input"), ("getEdgeOut", "edge_total_output"), ("getEdgeInVector", "edge_inputs"),
              ("getEdgeOutVector", "edge_outputs"), ("getEdgeInitInVector", "edge_init_inputs"), ("getEdgeInitOutVector", "edge_init_outputs"),
              ("getEdgeInputPortName", "edge_input_port_name"), ("getEdgeOutputPortName", "edge_output_port_name")):
    getter_e(nm, nm + ("[" if "Name" in nm else "("), p, par="e" if nm == "getEdgeType" else "c")
getter_v("getZi", "getZi(", "vertex_Zi", req=["this.normalizationisdone"])
getter_v("getNi", "getNi(", "vertex_Ni", req=["this.repetitionvectorisdone"])
getter_e("getAlpha", "getAlpha(", "edge_alpha", req=["this.normalizationisdone"])
M("getEdgeInPhasesCount", "getEdgeInPhasesCount(", requires=["oke this c"], ensures=[("reads", "result = length (edge_inputs_ this c)")])
M("getEdgeOutPhasesCount", "getEdgeOutPhasesCount(", requires=["oke this c"], ensures=[("reads", "result = length (edge_outputs_ this c)")])
M("getEdgeInInitPhasesCount", "getEdgeInInitPhasesCount(", requires=["oke this c"], ensures=[("reads", "result = length (edge_init_inputs_ this c)")])
M("getEdgeOutInitPhasesCount", "getEdgeOutInitPhasesCount(", requires=["oke this c"], ensures=[("reads", "result = length (edge_init_outputs_ this c)")])
M("getEdgeInInitPhase", "getEdgeInInitPhase(", requires=["oke this c", "1 <= k <= length (edge_init_inputs_ this c)"], ensures=[("phase", "result = get (edge_init_inputs_ this c) (k - 1)")])
M("getEdgeOutInitPhase", "getEdgeOutInitPhase(", requires=["oke this c", "1 <= k <= length (edge_init_outputs_ this c)"], ensures=[("phase", "result = get (edge_init_outputs_ this c) (k - 1)")])
M("getEdgeInPhase", "getEdgeInPhase(", requires=["oke this c", "- length (edge_init_inputs_ this c) < k <= length (edge_inputs_ this c)"],
  ensures=[("phase", "result = if k > 0 then get (edge_inputs_ this c) (k - 1) else get (edge_init_inputs_ this c) (k + length (edge_init_inputs_ this c) - 1)")])
M("getEdgeOutPhase", "getEdgeOutPhase(", requires=["oke this c", "- length (edge_init_outputs_ this c) < k <= length (edge_outputs_ this c)"],
  ensures=[("phase", "result = if k > 0 then get (edge_outputs_ this c) (k - 1) else get (edge_init_outputs_ this c) (k + length (edge_init_outputs_ this c) - 1)")])
M("getVertexPhaseDuration", "getVertexPhaseDuration(", requires=["okv this t", "length (vertex_phaseduration_ this t) > 0"], ensures=[("reads", "result = vertex_phaseduration_ this t")])
M("getVertexInitPhaseDuration", "getVertexInitPhaseDuration(", requires=["okv this t"], ensures=[("reads", "result = vertex_initphaseduration_ this t")])
M("getVertexInitDuration", "getVertexInitDuration(", requires=["okv this t", "1 <= k <= length (vertex_initphaseduration_ this t)"], ensures=[("phase", "result = get (vertex_initphaseduration_ this t) (k - 1)")])
M("getVertexDuration1", "getVertexDuration(Vertex) ", name="getVertexDuration", requires=["okv this t", "length (vertex_phaseduration_ this t) = 1"], ensures=[("phase", "result = get (vertex_phaseduration_ this t) 0")])
M("getVertexDurationK", "getVertexDuration(Vertex, long)", name="getVertexDuration",
  requires=["okv this t", "k > 0 -> length (vertex_phaseduration_ this t) > 0",
            "k <= 0 -> 1 <= k + vertex_initphasecount_ this t <= length (vertex_initphaseduration_ this t)"],
  ensures=[("phase", "result = if k > 0 then get (vertex_phaseduration_ this t) (cm (k - 1) (length (vertex_phaseduration_ this t))) else get (vertex_initphaseduration_ this t) (k + vertex_initphasecount_ this t - 1)")])
M("getVertexTotalDuration", "getVertexTotalDuration(", requires=["okv this t", "length (vertex_phaseduration_ this t) > 0"],
  ensures=[("sum", "result = vsumr (vertex_phaseduration_ this t) (length (vertex_phaseduration_ this t))")])
# -- lookup
M("getVertexById", "getVertexById(", requires=[WF],
  ensures=[("found", "okv this result /\\ vertex_index2_ this result = id"), ("first", "forall v. 0 <= v < result -> vertex_index2_ this v <> id")],
  raises=["Out_of_range -> forall v. okv this v -> vertex_index2_ this v <> id"],
  loops={1: dict(inv=each("pVertex", VS) + [("not yet found", "forall v. 0 <= v < pVertexcount.it_pos -> vertex_index2_ this v <> id")], variant=evar("pVertex", VS))})
M("getVertexByName", "getVertexByName(", requires=[WF],
  ensures=[("found", "okv this result /\\ vertex_name_ this result = s")],
  raises=["Out_of_range -> forall v. okv this v -> vertex_name_ this v <> s"],
  loops={1: dict(inv=each("pVertex", VS) + [("not yet found", "forall v. 0 <= v < pVertexcount.it_pos -> vertex_name_ this v <> s")], variant=evar("pVertex", VS))})
M("getEdgeById", "getEdgeById(", requires=[WF],
  ensures=[("found", "oke this result /\\ edge_index_ this result = id")],
  raises=["Out_of_range -> forall e. oke this e -> edge_index_ this e <> id"],
  loops={1: dict(inv=each("pEdge", ES) + [("not yet found", "forall i. 0 <= i < pEdgecount.it_pos -> edge_index_ this (get this.f_g.topo.edges i) <> id")], variant=evar("pEdge", ES))})
M("getEdgeByName", "getEdgeByName(", requires=[WF],
  ensures=[("found", "oke this result /\\ edge_name_ this result = s")],
  raises=["Out_of_range -> forall e. oke this e -> edge_name_ this e <> s"],
  loops={1: dict(inv=each("pEdge", ES) + [("not yet found", "forall i. 0 <= i < pEdgecount.it_pos -> edge_name_ this (get this.f_g.topo.edges i) <> s")], variant=evar("pEdge", ES))})
for d, p in (("Input", "edge_output_port_name"), ("Output", "edge_input_port_name")):
    seq = "(pget this.f_g.topo.%sE t)" % ("in" if d == "Input" else "out")
    M("get%sEdgeByPortName" % d, "get%sEdgeByPortName(" % d, requires=[WF, "okv this t"],
      ensures=[("found", "result <> null_edge -> oke this result /\\ %s this result = t /\\ %s_ this result = name" % ("dstof" if d == "Input" else "srcof", p)),
               ("absent", "result = null_edge -> forall e. oke this e -> %s this e = t -> %s_ this e <> name" % ("dstof" if d == "Input" else "srcof", p))],
      loops={1: dict(inv=each("pChannel", seq) + [("not yet found", "forall i. 0 <= i < pChannelcount.it_pos -> %s_ this (get %s i) <> name" % (p, seq))], variant=evar("pChannel", seq))})
# -- mutators
def mut(why, key, p, k, v, okp, extra_ens=(), extra_req=(), **kw):
    return M(why, key, requires=[okp] + list(extra_req), ensures=[WRITABLE, after([(p, k, v)])] + list(extra_ens), fail="stop", **kw)


mut("setMapping", "setMapping(", "vertex_mapping", "t", "core_id", "okv this t")
mut("setVertexType", "setVertexType(", "vertex_type", "v", "t", "okv this v")
mut("setEdgeType", "setEdgeType(", "edge_type", "e", "t", "oke this e")
mut("setRoute", "setRoute(", "edge_route", "c", "route", "oke this c")
mut("setPhasesQuantity", "setPhasesQuantity(", "vertex_phasecount", "t", "phi", "okv this t")
mut("setInitPhasesQuantity", "setInitPhasesQuantity(", "vertex_initphasecount", "t", "phi", "okv this t")
mut("setReentrancyFactor", "setReentrancyFactor(", "vertex_reentrancy", "t", "r", "okv this t")
mut("setTokenSize", "setTokenSize(", "edge_tokensize", "c", "ts", "oke this c")
mut("setEdgeInputPortName", "setEdgeInputPortName(", "edge_input_port_name", "c", "name", "oke this c")
mut("setEdgeOutputPortName", "setEdgeOutputPortName(", "edge_output_port_name", "c", "name", "oke this c")
M("setPreload", "setPreload(", requires=["oke this c"], fail="stop",
  ensures=[WRITABLE, ("exact_effect", "this = { (old this) with f_g = { (old this).f_g with edge_preload = pset (old this).f_g.edge_preload c p } }")])
M("setZi", "setZi(", requires=["okv this t"], fail="stop",
  ensures=[("refused_when_normalized", "not (old this).normalizationisdone"), ("exact_effect", "this = { (old this) with f_g = { (old this).f_g with vertex_Zi = pset (old this).f_g.vertex_Zi t v_Zi } }")])
M("setNi", "setNi(", requires=["okv this t"], fail="stop",
  ensures=[("refused_when_computed", "not (old this).repetitionvectorisdone"), ("exact_effect", "this = { (old this) with f_g = { (old this).f_g with vertex_Ni = pset (old this).f_g.vertex_Ni t v_Ni } }")])
M("setAlpha", "setAlpha(", requires=["oke this c"], fail="stop",
  ensures=[("refused_when_normalized", "not (old this).normalizationisdone"), ("exact_effect", "this = { (old this) with f_g = { (old this).f_g with edge_alpha = pset (old this).f_g.edge_alpha c a } }")])
for d, tot, end in (("In", "input", "srcof"), ("Out", "output", "dstof")):
    M("setEdge%sPhases" % d, "setEdge%sPhases(" % d, requires=[WF, "oke this c"], fail="stop",
      ensures=[WRITABLE, ("phase_counts_agree", "vertex_phasecount_ (old this) (%s (old this) c) <= 0 \\/ vertex_phasecount_ (old this) (%s (old this) c) = length l" % (end, end)),
               after([("edge_%sputs" % d.lower(), "c", "l"), ("edge_total_%s" % tot, "c", "(vtotal l)"), ("vertex_phasecount", "(%s (old this) c)" % end, "(length l)")])])
    M("setEdge%sInitPhases" % d, "setEdge%sInitPhases(" % d, requires=[WF, "oke this c"], fail="stop",
      ensures=[WRITABLE, ("phase_counts_agree", "vertex_initphasecount_ (old this) (%s (old this) c) <= 0 \\/ vertex_initphasecount_ (old this) (%s (old this) c) = length l" % (end, end)),
               after([("edge_init_%sputs" % d.lower(), "c", "l"), ("vertex_initphasecount", "(%s (old this) c)" % end, "(length l)")])])
M("setVertexDuration", "setVertexDuration(", requires=["okv this t"], fail="stop",
  ensures=[WRITABLE, ("phase_counts_agree", "length l = vertex_phasecount_ (old this) t"), after([("vertex_phaseduration", "t", "l")])])
M("setVertexInitDuration", "setVertexInitDuration(", requires=["okv this t"], fail="stop",
  ensures=[WRITABLE, ("phase_counts_agree", "length l = vertex_initphasecount_ (old this) t"), after([("vertex_initphaseduration", "t", "l")])])
UV = "uid (old this).f_g -> uid this.f_g"
UN = "unames (old this).f_g -> unames this.f_g"
M("setVertexIdUnsafe", "setVertexIdUnsafe(", requires=["okv this t"], fail="stop",
  ensures=[WRITABLE, after([("vertex_index2", "t", "id")], auto_vertex_num="max (old this).auto_vertex_num (id + 1)")])
# the id may already be carried by this very vertex: nothing changes then
M("setVertexId", "setVertexId(", requires=[WF, "okv this t"], fail="stop",
  ensures=[WRITABLE, ("id_set", "vertex_index2_ this t = id"), ("no_earlier_vertex_has_it", "forall v. 0 <= v < t -> vertex_index2_ this v <> id"), ("ids_stay_unique", "(forall v. okv this v -> v <> t -> vertex_index2_ this v <> id) \\/ (vertex_index2_ (old this) t = id)"),
           ("ids_of_others", "this.f_g = { (old this).f_g with vertex_index2 = pset (old this).f_g.vertex_index2 t id } \\/ this.f_g = (old this).f_g"),
           ("rest", "this = { %s with f_g = this.f_g; auto_vertex_num = this.auto_vertex_num }" % RESETTED),
           ("counter", "this.auto_vertex_num >= (old this).auto_vertex_num"), ("uniqueness_kept", UV)])
M("setEdgeId", "setEdgeId(", requires=[WF, "oke this c"], fail="stop",
  ensures=[WRITABLE, ("id_set", "edge_index_ this c = id"), ("positive", "id > 0"), ("ids_stay_unique", "(forall e. oke this e -> e <> c -> edge_index_ this e <> id) \\/ (edge_index_ (old this) c = id)"),
           ("ids_of_others", "this.f_g = { (old this).f_g with edge_index = pset (old this).f_g.edge_index c id } \\/ this.f_g = (old this).f_g"),
           ("rest", "this = { %s with f_g = this.f_g; auto_edge_num = this.auto_edge_num }" % RESETTED),
           ("counter", "this.auto_edge_num >= (old this).auto_edge_num"), ("uniqueness_kept", UV)])
M("setVertexName", "setVertexName(", requires=[WF, "okv this t"], fail="stop",
  ensures=[WRITABLE, ("not_empty", "name <> str_empty"), after([("vertex_name", "t", "name")]), ("names_stay_unique", UN)])
M("setEdgeName", "setEdgeName(", requires=[WF, "oke this c"], fail="stop",
  ensures=[WRITABLE, ("not_empty", "name <> str_empty"), after([("edge_name", "c", "name")]), ("names_stay_unique", UN)])
for nm, f in (("setGraphName", "graph_name"), ("setAppName", "app_name"), ("setGraphType", "graph_type")):
    M(nm, nm + "(", fail="stop", ensures=[WRITABLE, after([], **{f: "name"})])
for nm, f in (("getGraphName", "graph_name"), ("getAppName", "app_name"), ("getGraphType", "graph_type")):
    M(nm, nm + "[", ensures=[("reads", "result = this.%s" % f)])
EFF_E = """edge_added (old this).f_g.topo this.f_g.topo result from to_"""
NEWE = [("new_edge", EFF_E), ("id_given", "edge_index_ this result = id"), ("normal_edge", "edge_type_ this result = enum_NORMAL_EDGE"),
        ("others_keep_their_properties", "forall e. e <> result -> " + " /\\ ".join("%s_ this e = %s_ (old this) e" % (n, n) for n, t in EPROPS)),
        ("new_edge_is_blank", " /\\ ".join("%s_ this result = %s" % (n, dflt(t)) for n, t in EPROPS if n not in ("edge_index", "edge_type"))),
        ("vertices_untouched", " /\\ ".join("this.f_g.%s = (old this).f_g.%s" % (n, n) for n, t in VPROPS)),
        ("rest", "this = { %s with f_g = this.f_g; auto_edge_num = this.auto_edge_num }" % RESETTED), WRITABLE, ("well_formed", "twf this.f_g.topo"), ("ids_unique", UV), ("names_unique", UN)]
M("addEdgeUnsafe", "addEdgeUnsafe(", requires=[WF, "okv this from", "okv this to_"], ensures=NEWE, fail="stop", hooks={("return",): []})
M("addEdge3", "addEdge(Vertex, Vertex, long)", name="addEdge", requires=[WF, "okv this from", "okv this to_"], ensures=NEWE, fail="stop")
FRESHID = ("fresh_id", "forall e. eok (old this).f_g.topo e -> edge_index_ this result <> edge_index_ (old this) e")
NEWE2 = [x for x in NEWE if x[0] != "id_given"] + [FRESHID]
M("addEdge2", "addEdge(Vertex, Vertex)", name="addEdge", requires=[WF, "okv this from", "okv this to_", "uid this.f_g"], ensures=NEWE2, fail="stop",
  loops={1: dict(inv=each("e", ES) + [("counter covers the ids seen", "forall i. 0 <= i < ecount.it_pos -> edge_index_ this (get this.f_g.topo.edges i) < this.auto_edge_num"),
                                      ("only the counter changes", "this = { (old this) with auto_edge_num = this.auto_edge_num }")], variant=evar("e", ES))})
NM = lambda l: [x for x in l if x[0] not in ("others_keep_their_properties", "new_edge_is_blank", "new_vertex_is_blank")] + [("named", "edge_name_ this result = name"), ("name_not_empty", "name <> str_empty")]
M("addEdge4", "addEdge(Vertex, Vertex, long, std", name="addEdge", requires=[WF, "okv this from", "okv this to_"], ensures=NM(NEWE), fail="stop")
M("addEdge3s", "addEdge(Vertex, Vertex, std", name="addEdge", requires=[WF, "okv this from", "okv this to_", "uid this.f_g"], ensures=NM(NEWE2), fail="stop")
NEWV = [("new_vertex", "result = (old this).f_g.topo.nv /\\ this.f_g.topo = { (old this).f_g.topo with nv = (old this).f_g.topo.nv + 1; inE = pset (old this).f_g.topo.inE result vempty; outE = pset (old this).f_g.topo.outE result vempty }"),
        ("id_given", "vertex_index2_ this result = id"),
        ("others_keep_their_properties", "forall v. v <> result -> " + " /\\ ".join("%s_ this v = %s_ (old this) v" % (n, n) for n, t in VPROPS)),
        ("new_vertex_is_blank", " /\\ ".join("%s_ this result = %s" % (n, dflt(t)) for n, t in VPROPS if n not in ("vertex_index2", "vertex_mapping")) + " /\\ vertex_mapping_ this result = -1"),
        ("edges_untouched", " /\\ ".join("this.f_g.%s = (old this).f_g.%s" % (n, n) for n, t in EPROPS)),
        ("rest", "this = { %s with f_g = this.f_g; auto_vertex_num = this.auto_vertex_num }" % RESETTED), WRITABLE, ("well_formed", "twf this.f_g.topo"), ("ids_unique", UV), ("names_unique", UN)]
M("addUnsafeVertex", "addUnsafeVertex(", requires=[WF], ensures=NEWV, fail="stop")
FRESHV = ("fresh_id", "forall v. vok (old this).f_g.topo v -> vertex_index2_ this result <> vertex_index2_ (old this) v")
M("addVertex1", "addVertex(long)", name="addVertex", requires=[WF], ensures=NEWV + [("greatest_id", "forall v. vok (old this).f_g.topo v -> vertex_index2_ (old this) v < id")], fail="stop",
  loops={1: dict(inv=each("v", VS) + [("ids below", "forall i. 0 <= i < vcount.it_pos -> vertex_index2_ this i < id"), ("unchanged", "this = old this")], variant=evar("v", VS))})
NEWV2 = [x for x in NEWV if x[0] != "id_given"] + [FRESHV]
M("addVertex0", "addVertex()", name="addVertex", requires=[WF, "uid this.f_g"], ensures=NEWV2, fail="stop",
  loops={1: dict(inv=each("v", VS) + [("counter covers the ids seen", "forall i. 0 <= i < vcount.it_pos -> vertex_index2_ this i < this.auto_vertex_num"),
                                      ("only the counter changes", "this = { (old this) with auto_vertex_num = this.auto_vertex_num }")], variant=evar("v", VS))})
NMV = lambda l: [x for x in l if x[0] not in ("others_keep_their_properties", "new_vertex_is_blank")] + [("named", "vertex_name_ this result = name"), ("name_not_empty", "name <> str_empty")]
M("addVertex2", "addVertex(long, std", name="addVertex", requires=[WF], ensures=NMV(NEWV), fail="stop")
M("addVertex1s", "addVertex(std", name="addVertex", requires=[WF, "uid this.f_g"], ensures=NMV(NEWV2), fail="stop")
M("removeEdge", "removeEdge(", requires=[WF, "oke this c"], fail="stop",
  ensures=[WRITABLE, ("edge_gone", "edge_removed (old this).f_g.topo this.f_g.topo c"), ("well_formed", WF),
           ("degrees_drop", "(let d = dstof (old this) c in length (pget this.f_g.topo.inE d) = length (pget (old this).f_g.topo.inE d) - 1) /\\ (let s = srcof (old this) c in length (pget this.f_g.topo.outE s) = length (pget (old this).f_g.topo.outE s) - 1)"),
           ("nothing_else", "this = { %s with f_g = { (old this).f_g with topo = this.f_g.topo } }" % RESETTED), ("ids_unique", UV), ("names_unique", UN)])
INV_RM = [("only the topology changes", "exists tp. this = { %s with f_g = { (old this).f_g with topo = tp } }" % RESETTED),
          ("well formed", WF), ("same vertices", "this.f_g.topo.nv = (old this).f_g.topo.nv"),
          ("edges away from t stay", "forall e. oke this e -> eok (old this).f_g.topo e /\\ srcof this e = srcof (old this) e /\\ dstof this e = dstof (old this) e"),
          ("only edges of t go", "forall e. eok (old this).f_g.topo e -> srcof (old this) e <> t -> dstof (old this) e <> t -> oke this e")]
M("removeVertex", "removeVertex(", requires=[WF, "okv this t", "uid this.f_g", "unames this.f_g"], fail="stop",
  ensures=[WRITABLE, ("one_vertex_less", "this.f_g.topo.nv = (old this).f_g.topo.nv - 1"), ("well_formed", WF),
           ("exactly_the_other_edges_stay", "forall e. oke this e <-> eok (old this).f_g.topo e /\\ srcof (old this) e <> t /\\ dstof (old this) e <> t"),
           ("edges_keep_their_properties", " /\\ ".join("this.f_g.%s = (old this).f_g.%s" % (n, n) for n, t in EPROPS)),
           ("vertices_keep_their_properties", "forall v. okv this v -> " + " /\\ ".join("%s_ this v = %s_ (old this) (if v < t then v else v + 1)" % (n, n) for n, t in VPROPS)),
           ("edge_ends_kept", "forall e. oke this e -> (let s = srcof this e in srcof (old this) e = if s < t then s else s + 1) /\\ (let d = dstof this e in dstof (old this) e = if d < t then d else d + 1)"),
           ("ids_unique", "uid this.f_g"), ("names_unique", "unames this.f_g")],
  loops={1: dict(inv=INV_RM, variant="length (pget this.f_g.topo.inE t)"),
         2: dict(inv=INV_RM + [("no input left", "length (pget this.f_g.topo.inE t) = 0")], variant="length (pget this.f_g.topo.outE t)")})
