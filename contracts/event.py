"""Model of models::EventGraph over the trusted Boost graph model, and the contracts of its accessors."""
from vt.gen import F, V
from vt import trans as T
from vt.trans import LV, strip_all, kids
from contracts import flow as D

EV = [("vertex_index1", "int"), ("vertex_potential", "int"), ("vertex_predecessor", "int"), ("vertex_color", "int"), ("vertex_index2", "int"), ("vertex_discover_time", "real")]
EE = [("edge_weight", "real"), ("edge_index", "int"), ("edge_color", "bool"), ("edge_weight2", "real"), ("edge_flow", "real")]
MT = {"int": ("int",), "real": ("real",), "bool": ("bool",)}
CXXT = {"int": "long", "real": "long double", "bool": "bool"}
IT = ("iter", ("int",), None)
CLASSES = {"models::EventGraph": "egraph", "EventGraph": "egraph", "models::SchedulingEvent": "sevent", "SchedulingEvent": "sevent",
           "models::SchedulingEventConstraint": "sconstr", "SchedulingEventConstraint": "sconstr",
           "BoostEventGraph": "ebg", r"~(boost::)?(vec_adj_list_impl|adjacency_list|adj_list_helper)<.*vertex_discover_time_t.*>$": "ebg",
           "EventGraphVertex": ("int",), "EventGraphEdge": ("int",),
           "EventGraphVertexIterator": IT, "EventGraphEdgeIterator": IT, "EventGraphInEdgeIterator": IT, "EventGraphOutEdgeIterator": IT}
RECORDS = [("sevent", [("_t", "se_t", "long"), ("_p", "se_p", "long"), ("_n", "se_n", "long")]),
           ("sconstr", [("_s", "sc_s", ("cls", "sevent")), ("_t", "sc_t", ("cls", "sevent")), ("_w", "sc_w", "long double"), ("_d", "sc_d", "long double"), ("_id", "sc_id", "long")]),
           ("ebg", [("@t", "etopo", ("cls", "topo"))] + [("@" + n, "x_" + n, ("pmap", CXXT[t])) for n, t in EV + EE]),
           ("egraph", [("g", "eg_g", ("cls", "ebg")), ("_root", "eg_root", "long"), ("schedulingEvent2Vertex", "eg_map", ("map", ("cls", "sevent"), ("int",)))])]
VS_, ES_ = {n for n, t in EV}, {n for n, t in EE}
TY = dict(EV + EE)


def isebg(fn, n):
    try:
        return fn.ty(n) == ("cls", "ebg") or fn.ty(strip_all(n)) == ("cls", "ebg")
    except Exception:
        return False


def b_get(fn, obj, A, n):
    if len(A) == 2:
        inner = strip_all(A[0])
        if inner["kind"] == "CallExpr" and (T.callee_ref(inner) or {}).get("name") == "get":
            ia = kids(inner)[1:]
            tag = D.enum_name(ia[0])
            if len(ia) == 2 and isebg(fn, ia[1]) and tag in TY:
                return pget(fn, tag, ia[1], A[1])
    if len(A) == 3 and isebg(fn, A[1]):
        tag = D.enum_name(A[0])
        if tag in TY:
            return pget(fn, tag, A[1], A[2])
    return D.b_get(fn, obj, A, n)


def pget(fn, tag, g, key):
    gv = D.graph_rv(fn, g)
    k = fn.atom(fn.pure(fn.expr(key)))
    fn.emit("%s %s %s;" % ("echk_v" if tag in VS_ else "echk_e", gv, k))
    return fn.bind("pget_ %s.x_%s %s" % (gv, tag, k))


def pset(fn, tag, gnode, k, v):
    lv = fn.lvalue(gnode)
    cur = fn.atom(fn.pure(fn.read(lv)))
    fn.emit("%s %s %s;" % ("echk_v" if tag in VS_ else "echk_e", cur, k))
    m = fn.bind("pset_ %s.x_%s %s %s" % (cur, tag, k, v))
    fn.write(LV(lv.root, lv.steps + (("fld", "x_" + tag),)), m)
    return "()"


def b_put(fn, obj, A, n):
    if len(A) == 4 and isebg(fn, A[1]):
        tag = D.enum_name(A[0])
        if tag in TY:
            k = fn.atom(fn.pure(fn.expr(A[2])))
            v = fn.atom(fn.pure(fn.rv(A[3], MT[TY[tag]])))
            return pset(fn, tag, A[1], k, v)
    if len(A) == 3:
        inner = strip_all(A[0])
        if inner["kind"] == "CallExpr" and (T.callee_ref(inner) or {}).get("name") == "get":
            ia = kids(inner)[1:]
            tag = D.enum_name(ia[0])
            if len(ia) == 2 and isebg(fn, ia[1]) and tag in TY:
                k = fn.atom(fn.pure(fn.expr(A[1])))
                v = fn.atom(fn.pure(fn.rv(A[2], MT[TY[tag]])))
                return pset(fn, tag, ia[1], k, v)
    return D.b_put(fn, obj, A, n)


def pick(name, fmt, nargs, base):
    def h(fn, obj, A, n):
        if len(A) == nargs and isebg(fn, A[-1]):
            xs = [fn.atom(fn.pure(fn.expr(a))) for a in A]
            return fn.bind(fmt % tuple(xs))
        return base(fn, obj, A, n)
    return h


def mutate(fmt, nargs, base, result=True):
    def h(fn, obj, A, n):
        if len(A) != nargs or not isebg(fn, A[-1]):
            return base(fn, obj, A, n)
        xs = [fn.atom(fn.pure(fn.expr(a))) for a in A[:-1]]
        lv = fn.lvalue(A[-1])
        x, post = fn.ref_arg(lv)
        call = fmt % tuple([x] + xs)
        if result:
            r = fn.bind(call)
        else:
            fn.emit(call + ";")
            r = "()"
        for l, nm in post:
            fn.write(l, nm)
        return r
    return h


def lv_getG(fn, objlv, args):
    return LV(objlv.root, objlv.steps + (("fld", "eg_g"),), ("cls", "ebg"))


def b_getG(fn, obj, args, n):
    return fn.read(lv_getG(fn, fn.lvalue(obj), args))


b_getG.lv = lv_getG
B = D.BUILTINS
def b_new(fn, obj, A, n):
    return fn.bind("egraph_new ()")


none = lambda fn, obj, A, n: None
BUILTINS = dict(B)
BUILTINS.update({("egraph", "new"): b_new, ("", "get"): b_get, ("", "put"): b_put, ("egraph", "getG"): b_getG,
                 ("", "source"): pick("source", "ebg_source %s %s", 2, B[("", "source")]), ("", "target"): pick("target", "ebg_target %s %s", 2, B[("", "target")]),
                 ("", "edges"): pick("edges", "ebg_edges %s", 1, B[("", "edges")]), ("", "vertices"): pick("vertices", "ebg_vertices %s", 1, B[("", "vertices")]),
                 ("", "in_edges"): pick("in_edges", "ebg_in_edges %s %s", 2, B[("", "in_edges")]), ("", "out_edges"): pick("out_edges", "ebg_out_edges %s %s", 2, B[("", "out_edges")]),
                 ("", "in_degree"): pick("in_degree", "ebg_in_degree %s %s", 2, B[("", "in_degree")]), ("", "out_degree"): pick("out_degree", "ebg_out_degree %s %s", 2, B[("", "out_degree")]),
                 ("", "num_vertices"): pick("num_vertices", "ebg_num_vertices %s", 1, B[("", "num_vertices")]), ("", "num_edges"): pick("num_edges", "ebg_num_edges %s", 1, B[("", "num_edges")]),
                 ("", "add_edge"): mutate("ebg_add_edge %s %s %s", 3, B[("", "add_edge")]), ("", "add_vertex"): mutate("ebg_add_vertex %s", 1, B[("", "add_vertex")]),
                 ("", "clear_vertex"): mutate("ebg_clear_vertex %s %s", 2, none, False)})


def theory():
    same = lambda ps: " /\\ ".join("g.x_%s = (old g).x_%s" % (p, p) for p in ps)
    vo, eo = "requires { [@expl:vertex of this event graph] vok g.etopo v }", "requires { [@expl:edge of this event graph] eok g.etopo e }"
    L = ["  val echk_v (g: ebg) (v: int) : unit " + vo, "  val echk_e (g: ebg) (e: int) : unit " + eo,
         "  val ebg_source (e: int) (g: ebg) : int %s ensures { result = pget g.etopo.esrc e }" % eo,
         "  val ebg_target (e: int) (g: ebg) : int %s ensures { result = pget g.etopo.edst e }" % eo,
         "  val ebg_edges (g: ebg) : pair (iter int) (iter int) ensures { result.first.it_seq = g.etopo.edges /\\ result.first.it_pos = 0 /\\ result.second.it_seq = g.etopo.edges /\\ result.second.it_pos = length g.etopo.edges }",
         "  val ebg_vertices (g: ebg) : pair (iter int) (iter int) ensures { result.first.it_seq = vrange g.etopo.nv /\\ result.first.it_pos = 0 /\\ result.second.it_seq = vrange g.etopo.nv /\\ result.second.it_pos = length (vrange g.etopo.nv) }",
         "  val ebg_num_vertices (g: ebg) : int ensures { result = g.etopo.nv }", "  val ebg_num_edges (g: ebg) : int ensures { result = length g.etopo.edges }"]
    for d in ("in", "out"):
        L.append("  val ebg_%s_edges (v: int) (g: ebg) : pair (iter int) (iter int) %s ensures { result.first.it_seq = pget g.etopo.%sE v /\\ result.first.it_pos = 0 /\\ result.second.it_seq = pget g.etopo.%sE v /\\ result.second.it_pos = length (pget g.etopo.%sE v) }" % (d, vo, d, d, d))
        L.append("  val ebg_%s_degree (v: int) (g: ebg) : int %s ensures { result = length (pget g.etopo.%sE v) }" % (d, vo, d))
    dv = {"int": "0", "real": "0.0", "bool": "false"}
    L += ["  val ebg_add_edge (ref g: ebg) (s t: int) : pair int bool requires { [@expl:vertex of this event graph] vok g.etopo s /\\ vok g.etopo t } writes { g } ensures { result.second } ensures { edge_added (old g).etopo g.etopo result.first s t } ensures { twf (old g).etopo -> twf g.etopo }",
          "    ensures { %s }" % same(VS_),
          "    ensures { %s }" % " /\\ ".join("g.x_%s = pset (old g).x_%s result.first %s" % (n, n, dv[t]) for n, t in EE),
          "  val ebg_add_vertex (ref g: ebg) : int writes { g } ensures { result = (old g).etopo.nv } ensures { g.etopo = { (old g).etopo with nv = (old g).etopo.nv + 1; inE = pset (old g).etopo.inE result vempty; outE = pset (old g).etopo.outE result vempty } } ensures { twf (old g).etopo -> twf g.etopo }",
          "    ensures { %s }" % same(ES_),
          "    ensures { %s }" % " /\\ ".join("g.x_%s = pset (old g).x_%s result %s" % (n, n, dv[t]) for n, t in EV),
          # what a reader sees of an event graph: its events and its constraints
          """
  lemma madd_madd0 : forall m: fmap sevent int, k d x. map_eq (madd (madd m k d) k x) (madd m k x)
  lemma madd_madd : forall m: fmap sevent int, k d x [madd (madd m k d) k x]. madd (madd m k d) k x = madd m k x by map_eq (madd (madd m k d) k x) (madd m k x)
  type cons = { c_s : int; c_t : int; c_w : real; c_d : real; c_id : int }
  predicate eoke (g: egraph) (e: int) = eok g.eg_g.etopo e
  predicate eokv (g: egraph) (v: int) = vok g.eg_g.etopo v
  function consof (g: egraph) (e: int) : cons = { c_s = pget g.eg_g.etopo.esrc e; c_t = pget g.eg_g.etopo.edst e; c_w = pget g.eg_g.x_edge_weight e; c_d = pget g.eg_g.x_edge_weight2 e; c_id = pget g.eg_g.x_edge_index e }
  predicate hasc (g: egraph) (x: cons)
  axiom hasc_def : forall g x. hasc g x <-> exists e. eoke g e /\\ consof g e = x
  function evof (g: egraph) (v: int) : sevent = { se_t = pget g.eg_g.x_vertex_index1 v; se_p = pget g.eg_g.x_vertex_color v; se_n = pget g.eg_g.x_vertex_index2 v }
  predicate ewf (g: egraph) = twf g.eg_g.etopo /\\ forall k [mfind g.eg_map k]. mhas g.eg_map k -> eokv g (mfind g.eg_map k) /\\ evof g (mfind g.eg_map k) = k
  predicate hase (g: egraph) (t p n: int)
  axiom hase_def : forall g t p n [hase g t p n]. hase g t p n <-> mhas g.eg_map { se_t = t; se_p = p; se_n = n }
  function evn (g: egraph) (t p n: int) : int
  axiom evn_def : forall g t p n [evn g t p n]. evn g t p n = mfind g.eg_map { se_t = t; se_p = p; se_n = n }
  (* the same events *)
  predicate same_events (g h: egraph) = h.eg_map = g.eg_map /\\ h.eg_g.etopo.nv = g.eg_g.etopo.nv /\\ h.eg_g.x_vertex_index1 = g.eg_g.x_vertex_index1 /\\ h.eg_g.x_vertex_color = g.eg_g.x_vertex_color /\\ h.eg_g.x_vertex_index2 = g.eg_g.x_vertex_index2
  val egraph_new () : egraph ensures { ewf result /\\ result.eg_g.etopo.nv = 0 /\\ result.eg_g.etopo.edges = vempty /\\ result.eg_map = mempty }
  predicate plus_c (g h: egraph) (x: cons) = forall y [hasc h y]. hasc h y <-> hasc g y \\/ y = x
  predicate cons_added (g h: egraph) (e: int) (x: cons) = (forall f [eoke h f]. eoke h f <-> eoke g f \\/ f = e) /\\ not eoke g e /\\ (forall f [consof h f]. consof h f = if f = e then x else consof g f)
  lemma snoci_len : forall v: vec int, x [snoci v x]. length (snoci v x) = length v + 1
  lemma snoci_get : forall v: vec int, x i [get (snoci v x) i]. 0 <= i <= length v -> get (snoci v x) i = if i = length v then x else get v i
  lemma snoci_keeps : forall v: vec int, x y. vmem y v -> vmem y (snoci v x) by exists i. 0 <= i < length v /\\ get v i = y /\\ get (snoci v x) i = y /\\ i < length (snoci v x)
  lemma snoci_has : forall v: vec int, x. vmem x (snoci v x) by get (snoci v x) (length v) = x
  lemma snoci_only : forall v: vec int, x y. vmem y (snoci v x) -> y <> x -> vmem y v by exists i. 0 <= i < length (snoci v x) /\\ get (snoci v x) i = y /\\ i <> length v /\\ get v i = y
  lemma snoci_mem : forall v: vec int, x y [vmem y (snoci v x)]. vmem y (snoci v x) <-> vmem y v \\/ y = x
  lemma cons_added_plus1 : forall g h e x y. cons_added g h e x -> hasc h y -> hasc g y \\/ y = x
  lemma cons_added_plus2 : forall g h e x y. cons_added g h e x -> hasc g y \\/ y = x -> hasc h y by (hasc g y -> exists f. eoke g f /\\ consof g f = y /\\ eoke h f /\\ consof h f = y) /\\ (y = x -> eoke h e /\\ consof h e = x)
  lemma cons_added_plus : forall g h e x [cons_added g h e x]. cons_added g h e x -> plus_c g h x
  lemma same_events_trans : forall g h k [same_events g h, same_events h k]. same_events g h -> same_events h k -> same_events g k
  lemma same_events_ev : forall g h [same_events g h]. same_events g h -> (forall t p n [hase h t p n]. hase h t p n <-> hase g t p n) /\\ (forall t p n [evn h t p n]. evn h t p n = evn g t p n)
"""]
    return "\n".join(L)


TU = """#include <boost/assert.hpp>
#include <models/EventGraph.h>
"""
FL = {}


def M(why, key, **kw):
    kw.setdefault("filt", "models::EventGraph::")
    FL[why] = F(why, "models::EventGraph::" + key, "eg", cls="egraph", **kw)
    return FL[why]


def S(why, key, **kw):
    kw.setdefault("filt", "models::SchedulingEvent::")
    FL[why] = F(why, "models::SchedulingEvent::" + key, "eg", cls="sevent", **kw)


G = "this.eg_g"
S("se_ctor", "SchedulingEvent(long, long, long)", ensures=[("fields", "result = { se_t = t; se_p = p; se_n = n }")])
S("se_task", "getTaskId(", ensures=[("reads", "result = this.se_t")])
S("se_phase", "getTaskPhase(", ensures=[("reads", "result = this.se_p")])
S("se_oc", "getTaskOc(", ensures=[("reads", "result = this.se_n")])
FL["se_lt"] = F("se_lt", "models::operator<(models::SchedulingEvent const&, models::SchedulingEvent const&)", "eg", filt="models::operator<", name="operator<",
                ensures=[("lexicographic", "result <-> lh.se_t < rh.se_t \\/ (lh.se_t = rh.se_t /\\ (lh.se_p < rh.se_p \\/ (lh.se_p = rh.se_p /\\ lh.se_n < rh.se_n)))")])
M("getEventGraphVertex", "getEventGraphVertex(long, long, long)", name="getEventGraphVertex",
  requires=["ewf this", "hase this taskId phase execution"], ensures=[("event", "result = evn this taskId phase execution /\\ eokv this result"), ("unchanged", "this = old this")])
M("setWeight", "setWeight(", requires=["eoke this e"], ensures=[("sets", "this = { (old this) with eg_g = { (old this).eg_g with x_edge_weight = pset (old this).eg_g.x_edge_weight e w } }")])
M("setDuration", "setDuration(", requires=["eoke this e"], ensures=[("sets", "this = { (old this) with eg_g = { (old this).eg_g with x_edge_weight2 = pset (old this).eg_g.x_edge_weight2 e d } }")])
M("setChannelId", "setChannelId(", requires=["eoke this e"], ensures=[("sets", "this = { (old this) with eg_g = { (old this).eg_g with x_edge_index = pset (old this).eg_g.x_edge_index e id } }")])
M("addEventConstraint", "addEventConstraint(unsigned long, unsigned long, long double, long double, long)", name="addEventConstraint",
  requires=["ewf this", "eokv this source", "eokv this target"],
  ensures=[("adds_exactly_one_constraint", "plus_c (old this) this { c_s = source; c_t = target; c_w = w; c_d = d; c_id = id }"), ("well_formed", "ewf this"), ("same_events", "same_events (old this) this")],
  entry=["let g0 = this in"], hooks={("return",): ["assert { cons_added g0 this res.first { c_s = source; c_t = target; c_w = w; c_d = d; c_id = id } };"]})
M("addEvent", "addEvent(", requires=["ewf this"],
  ensures=[("new_event", "result = (old this).eg_g.etopo.nv /\\ this.eg_g.etopo.nv = result + 1 /\\ this.eg_map = madd (old this).eg_map se result"),
           ("well_formed", "ewf this"), ("labelled", "evof this result = se /\\ forall v [evof this v]. v <> result -> evof this v = evof (old this) v"), ("constraints", "forall x [hasc this x]. hasc this x <-> hasc (old this) x")])

for nm, prop, kind in (("getWeight", "edge_weight", "e"), ("getDuration", "edge_weight2", "e"), ("getFlow", "edge_flow", "e"), ("getStartingTime", "vertex_discover_time", "v")):
    M(nm, nm + "(", requires=["eok%s this %s" % ("e" if kind == "e" else "v", kind)], ensures=[("reads", "result = pget this.eg_g.x_%s %s" % (prop, kind)), ("unchanged", "this = old this")])
M("setFlow", "setFlow(", requires=["eoke this e"], ensures=[("sets", "this = { (old this) with eg_g = { (old this).eg_g with x_edge_flow = pset (old this).eg_g.x_edge_flow e s } }")])
M("setStartingTime", "setStartingTime(", requires=["eokv this v"], ensures=[("sets", "this = { (old this) with eg_g = { (old this).eg_g with x_vertex_discover_time = pset (old this).eg_g.x_vertex_discover_time v s } }")])
M("eg_getTarget", "getTarget(", requires=["eoke this c"], ensures=[("end", "result = pget this.eg_g.etopo.edst c"), ("unchanged", "this = old this")])
M("eg_getSource", "getSource(", requires=["eoke this c"], ensures=[("start", "result = pget this.eg_g.etopo.esrc c"), ("unchanged", "this = old this")])
for nm, seq in (("getEvents", "vrange this.eg_g.etopo.nv"), ("getConstraints", "this.eg_g.etopo.edges")):
    M(nm, nm + "(", ensures=[("all", "result.first.it_seq = %s /\\ result.first.it_pos = 0 /\\ result.second.it_seq = %s /\\ result.second.it_pos = length (%s)" % (seq, seq, seq)), ("unchanged", "this = old this")])
for nm, seq in (("getOutputs", "outE"), ("getInputs", "inE")):
    q = "pget this.eg_g.etopo.%s t" % seq
    M(nm, nm + "(", requires=["eokv this t"], ensures=[("all", "result.first.it_seq = %s /\\ result.first.it_pos = 0 /\\ result.second.it_seq = %s /\\ result.second.it_pos = length (%s)" % (q, q, q)), ("unchanged", "this = old this")])
M("getEventCount", "getEventCount(", ensures=[("number", "result = this.eg_g.etopo.nv"), ("unchanged", "this = old this")])
M("getConstraintsCount", "getConstraintsCount(", ensures=[("number", "result = length this.eg_g.etopo.edges"), ("unchanged", "this = old this")])
BASE = ("se_ctor", "se_task", "se_phase", "se_oc", "se_lt", "getEventGraphVertex", "setWeight", "setDuration", "setChannelId", "addEventConstraint", "addEvent")
TIMES = [k for k in FL if k not in BASE]
