"""The schedule that period2scheduling reads off an event graph."""
from vt.gen import Prop, F, assume
from contracts import flow as D
from contracts import event as E
from contracts import C05, C06

GEN = [f for f in C05.FNS if f.why == "generateKPeriodicEventGraph"]
CST = [f for f in C06.FNS if f.why == "computeStartingTimeWithOmega"]
THEORY = C05.THEORY + C06.POT.replace("use real.RealInfix", "") + C06.SCHED + r"""
  function period_of (k phi: int) (omega: real) (ni: int) : real
  val ghost period_def (k phi: int) (omega: real) (ni: int) : unit ensures { period_of k phi omega ni = (ri (k * phi) *. omega) /. ri ni }
  (* start times of the initial phases a .. p-1 of a task, and of its phases 1 .. n of the executions 1 .. k-1 followed by the phases 1 .. p-1 of execution k *)
  function ilist (d: pmap real) (h: fmap sevent int) (t a p: int) : vec real
  axiom ilist_first : forall d h t a [ilist d h t a a]. ilist d h t a a = vempty
  val ghost ilist_step (d: pmap real) (h: fmap sevent int) (t a p: int) : unit requires { a <= p } ensures { ilist d h t a (p + 1) = snoc (ilist d h t a p) (pget d (evm h t p 1)) }
  function plist (d: pmap real) (h: fmap sevent int) (t n k p: int) : vec real
  axiom plist_first : forall d h t n [plist d h t n 1 1]. plist d h t n 1 1 = vempty
  val ghost plist_step (d: pmap real) (h: fmap sevent int) (t n k p: int) : unit requires { 1 <= k } requires { 1 <= p <= n } ensures { plist d h t n k (p + 1) = snoc (plist d h t n k p) (pget d (evm h t p k)) }
  val ghost plist_wrap (d: pmap real) (h: fmap sevent int) (t n k: int) : unit requires { 1 <= k } requires { 0 <= n } ensures { plist d h t n k (n + 1) = plist d h t n (k + 1) 1 }
  (* the entry of task v for the start times d *)
  predicate entry (f: flow) (m: fmap int int) (h: fmap sevent int) (omega: real) (d: pmap real) (v: int) (s: tsched)
  val ghost entry_def (f: flow) (m: fmap int int) (h: fmap sevent int) (omega: real) (d: pmap real) (v: int) : unit
    ensures { forall s [entry f m h omega d v s]. entry f m h omega d v s <-> (s.ts_init = ilist d h (vertex_index2_ f v) (1 - vertex_initphasecount_ f v) 1 /\
       s.ts_per.tp_first = period_of (mfind m v) (vertex_phasecount_ f v) omega (vertex_Ni_ f v) /\ s.ts_per.tp_second = plist d h (vertex_index2_ f v) (vertex_phasecount_ f v) (mfind m v + 1) 1) }
  predicate entries (f: flow) (m: fmap int int) (h: fmap sevent int) (omega: real) (d: pmap real) (n: int) (s: sched) =
    (forall v [vertex_index2_ f v]. 0 <= v < n -> mhas s.sc_data (vertex_index2_ f v) /\ entry f m h omega d v (mfind s.sc_data (vertex_index2_ f v)))
    /\ forall t [mhas s.sc_data t]. mhas s.sc_data t -> exists v. 0 <= v < n /\ vertex_index2_ f v = t
  function ipos (k p: int) : int = if k = 1 /\ p < 1 then p else 1
  function ppos (p: int) : int = if p < 1 then 1 else p
  predicate partly (d: pmap real) (h: fmap sevent int) (t a n k p: int) (per: real) (s: tsched) = s.ts_init = ilist d h t a (ipos k p) /\ s.ts_per.tp_first = per /\ s.ts_per.tp_second = plist d h t n k (ppos p)
  predicate others (t: int) (a b: sched) = forall u [mhas b.sc_data u]. u <> t -> (mhas b.sc_data u <-> mhas a.sc_data u) /\ mfind b.sc_data u = mfind a.sc_data u
  let ghost add_entry (f: flow) (m: fmap int int) (h: fmap sevent int) (omega: real) (d: pmap real) (v: int) (a b: sched) : unit
    requires { okv f v } requires { ids_distinct f } requires { entries f m h omega d v a } requires { others (vertex_index2_ f v) a b } requires { mhas b.sc_data (vertex_index2_ f v) } requires { entry f m h omega d v (mfind b.sc_data (vertex_index2_ f v)) }
    ensures { entries f m h omega d (v + 1) b } = ()
  let ghost fresh_entry (f: flow) (m: fmap int int) (h: fmap sevent int) (omega: real) (d: pmap real) (v: int) (a: sched) : unit
    requires { okv f v } requires { ids_distinct f } requires { entries f m h omega d v a } ensures { not mhas a.sc_data (vertex_index2_ f v) } = ()
  predicate kgraph (f: flow) (m: fmap int int) (g: egraph) = (forall t p k [hase g t p k]. hase g t p k <-> evset f m f.f_g.topo.nv t p k) /\ allev g /\ ewf g /\
    forall x [hasc g x]. hasc g x <-> selfs f m g.eg_map f.f_g.topo.nv x \/ chans f m g.eg_map (length f.f_g.topo.edges) x
  predicate starts (g: egraph) (omega: real) (d: pmap real) = (exists d. schedule g omega d) -> schedule g omega d /\
    forall q [schedule g omega q]. schedule g omega q -> nonneg g.eg_g.etopo q -> forall v [pget d v]. eokv g v -> 0.0 <=. pget d v <=. pget q v
"""
def s_index(fn, lv, A):
    ix = fn.pure(fn.expr(A[0]))
    l2 = T.LV(lv.root, lv.steps + (("fld", "sc_data"),), ("map", ("int",), ("cls", "tsched")))
    cur = fn.read(l2)
    d = fn.pure(fn.default(("cls", "tsched")))
    fn.write(l2, fn.bind("m_touch %s %s %s" % (fn.atom(cur), ix, d)))
    return T.LV(l2.root, l2.steps + (("key", ix),), ("cls", "tsched"))
class Index:
    lv = staticmethod(s_index)
    def __call__(self, fn, obj, A, n):
        return fn.read(s_index(fn, fn.lvalue(obj), A))
from vt import trans as T
BUILTINS = dict(E.BUILTINS)
BUILTINS[("sched", "operator[]")] = Index()
RECORDS = D.RECORDS + E.RECORDS + [("tper", [("first", "tp_first", "long double"), ("second", "tp_second", ("vec", ("real",)))]), ("tsched", [("initial_starts", "ts_init", ("vec", ("real",))), ("periodic_starts", "ts_per", ("cls", "tper"))]),
    ("sched", [("_data", "sc_data", ("map", ("int",), ("cls", "tsched")))])]
VSD = "(vrange dataflow.f_g.topo.nv)"
TS = "mfind scheduling_result.sc_data tid"
FNS = assume([f for f in D.FNS if f.why in ("getVertexId", "getPhasesQuantity", "getInitPhasesQuantity", "getNi", "vertices_", "getVertexName")], "C03") if hasattr(D, "FNS") else []
if not FNS:
    FNS = assume([D.FL[k] for k in ("getVertexId", "getPhasesQuantity", "getInitPhasesQuantity", "getNi", "vertices_")], "C03")
FNS += assume([E.FL["getEventGraphVertex"]] + GEN, "C05") + assume([E.FL["getStartingTime"]] + CST, "C06")
FNS += [
    F("period2scheduling", "period2scheduling(", "kp",
      requires=["kp_ok dataflow", "ids_distinct dataflow", "fine_cache dataflow", "kvec dataflow kvector", "throughput <> 0.0", "1.0 /. throughput <. rlim_inf"],
      ensures=[("no_schedule_without_throughput", "1.0 /. throughput <=. 0.0 -> result.sc_data = mempty"),
               ("schedule_of_every_task", "1.0 /. throughput >. 0.0 -> exists g d. kgraph dataflow kvector g /\\ starts g (1.0 /. throughput) d /\\ entries dataflow kvector g.eg_map (1.0 /. throughput) d dataflow.f_g.topo.nv result")],
      hooks={("decl", "omega"): ["let g0 = eg in"],
             ("called", "computeStartingTimeWithOmega"): ["let d0 = pure { eg.eg_g.x_vertex_discover_time } in let h0 = pure { g0.eg_map } in assert { starts g0 omega d0 };"],
             ("decl", "tid"): ["assert { okv dataflow v }; assert { mfind kvector v > 0 }; evset_has dataflow kvector v; fresh_entry dataflow kvector h0 omega d0 v s0; let a0 = pure { 1 - vertex_initphasecount_ dataflow v } in let n0 = pure { vertex_phasecount_ dataflow v } in"],
             ("decl", "period"): ["entry_def dataflow kvector h0 omega d0 v; period_def (pure { mfind kvector v }) (pure { vertex_phasecount_ dataflow v }) omega (pure { vertex_Ni_ dataflow v });"],
             ("decl", "se"): ["assert { hase g0 tid pi ki }; assert { se = evm h0 tid pi ki };"],
             },
      loops={1: dict(inv=[("times", "only_times g0 eg /\\ eg.eg_g.x_vertex_discover_time = d0 /\\ ewf eg"), ("entries", "entries dataflow kvector h0 omega d0 idx1 scheduling_result")],
                     begin=["let s0 = scheduling_result in let i0 = idx1 in"], end=["assert { v = i0 }; add_entry dataflow kvector h0 omega d0 v s0 scheduling_result;"]),
             2: dict(inv=[("range", "1 <= ki <= maxki + 1"), ("times", "only_times g0 eg /\\ eg.eg_g.x_vertex_discover_time = d0 /\\ ewf eg"), ("others", "others tid s0 scheduling_result /\\ mhas scheduling_result.sc_data tid"),
                          ("start times", "partly d0 h0 tid a0 n0 ki (if ki = 1 then a0 else 1) period (%s)" % TS)], variant="maxki + 1 - ki", end=["plist_wrap d0 h0 tid n0 ki;"]),
             3: dict(inv=[("range", "first_pi <= pi <= pq + 1"), ("times", "only_times g0 eg /\\ eg.eg_g.x_vertex_discover_time = d0 /\\ ewf eg"), ("others", "others tid s0 scheduling_result /\\ mhas scheduling_result.sc_data tid"),
                          ("start times", "partly d0 h0 tid a0 n0 ki pi period (%s)" % TS)], variant="pq + 1 - pi",
                     begin=["let s1 = scheduling_result in assert { phv dataflow v (mfind kvector v) ki pi }; assert { evset dataflow kvector dataflow.f_g.topo.nv (vertex_index2_ dataflow v) pi ki }; assert { hase g0 tid pi ki }; assert { hase eg tid pi ki }; if pi < 1 then ilist_step d0 h0 tid a0 pi else plist_step d0 h0 tid n0 ki pi;"], end=["assert { others tid s1 scheduling_result };"]),
             })]
PROP = Prop("C07", {"df": D.TU, "eg": E.TU, "kp": C05.TU["kp"]}, FNS, classes=D.CLASSES | E.CLASSES | {"periodicity_vector_t": ("map", ("int",), ("int",)), "critical_circuit_t": ("set", ("int",)), "scheduling_t": "sched", "task_schedule_t": "tsched", "periodic_task_schedule_t": "tper", r"~(std::)?pair<(long double|TIME_UNIT), *(static_task_schedule_t|(std::)?vector<(long double|TIME_UNIT)(, *(std::)?allocator<(long double|TIME_UNIT)> ?)?>) ?>$": "tper"},
    records=RECORDS, theory=THEORY, uses=("Graph",), builtins=BUILTINS, drop_calls=D.DROP, defaults={"fraction": "{ fn = 0; fd = 1 }"})
THEORIES = ("prelude.mlw",)
HARNESS = dict(C05.HARNESS, src="C07.cpp")
