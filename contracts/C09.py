"""Symbolic execution: actors and states."""
from vt.gen import Prop, F, assume
from contracts import flow as D

TU = {"df": D.TU, "ac": """#include <boost/assert.hpp>
#include <algorithms/throughput/actor.cpp>
""", "st": """#include <boost/assert.hpp>
#include <algorithms/throughput/state.cpp>
"""}
II = ("map", ("int",), ("int",))
EXC = ("cls", "exc")
RECORDS = D.RECORDS + [
    ("exc", [("first", "x_t", "long double"), ("second", "x_p", "long")]),
    ("actor", [("actor", "ac_v", "unsigned long"), ("numExecs", "ac_n", "long"), ("phaseCount", "ac_phi", "long"), ("repFactor", "ac_rep", "long"), ("id", "ac_id", "long"), ("isExecuting", "ac_run", "bool"),
               ("consPhaseCount", "ac_cp", II), ("prodPhaseCount", "ac_pp", II), ("prodExecRate", "ac_pr", ("map", ("int",), II)), ("consExecRate", "ac_cr", ("map", ("int",), II))]),
    ("sstate", [("executingActors", "st_q", ("map", ("int",), ("vec", EXC))), ("actorPhases", "st_ph", II), ("currentTokens", "st_tok", II), ("bufferCapacities", "st_cap", II), ("bufferSpaces", "st_sp", II),
                ("actors", "st_act", ("vec", ("int",))), ("timeElapsed", "st_t", "long double"), ("isBounded", "st_b", "bool")]),
]
CLASSES = dict(D.CLASSES)
CLASSES.update({"Actor": "actor", "State": "sstate", r"~(std::)?pair<(long double|TIME_UNIT), *(long|PHASE_INDEX) ?>$": "exc"})

THEORY = D.theory() + r"""
  use real.RealInfix
  (* tokens consumed from, produced on, a channel by phase p of its end *)
  function crate (f: flow) (e p: int) : int = get (edge_outputs_ f e) (p - 1)
  function prate (f: flow) (e p: int) : int = get (edge_inputs_ f e) (p - 1)
  function phi (f: flow) (v: int) : int = vertex_phasecount_ f v
  predicate gok (f: flow) = twf f.f_g.topo /\ (forall v [vertex_phasecount_ f v]. okv f v -> vertex_phasecount_ f v > 0 /\ length (vertex_phaseduration_ f v) = vertex_phasecount_ f v) /\
    forall e [edge_inputs_ f e | edge_outputs_ f e]. oke f e -> length (edge_inputs_ f e) = vertex_phasecount_ f (srcof f e) /\ length (edge_outputs_ f e) = vertex_phasecount_ f (dstof f e)
  function queue (s: sstate) (v: int) : vec exc = if mhas s.st_q v then mfind s.st_q v else vempty
  (* phase that an actor executes next *)
  function nextp (a: actor) : int = cm a.ac_n a.ac_phi + 1
  let ghost nextp_range (a: actor) : unit requires { a.ac_phi > 0 } requires { a.ac_n >= 0 } ensures { 1 <= nextp a <= a.ac_phi } = ()
  predicate isin (f: flow) (v e: int) = oke f e /\ dstof f e = v
  predicate isout (f: flow) (v e: int) = oke f e /\ srcof f e = v
  function cget (a: actor) (e p: int) : int = mfind (mfind a.ac_cr e) p
  function pget2 (a: actor) (e p: int) : int = mfind (mfind a.ac_pr e) p
  (* what an actor stores is complete *)
  predicate awf (a: actor) = a.ac_phi > 0 /\ a.ac_n >= 0 /\
    (forall e [mhas a.ac_cp e | mhas a.ac_cr e]. mhas a.ac_cp e <-> mhas a.ac_cr e) /\ (forall e [mhas a.ac_pp e | mhas a.ac_pr e]. mhas a.ac_pp e <-> mhas a.ac_pr e) /\
    (forall e [mfind a.ac_cp e]. mhas a.ac_cp e -> mfind a.ac_cp e = a.ac_phi) /\ (forall e [mfind a.ac_pp e]. mhas a.ac_pp e -> mfind a.ac_pp e = a.ac_phi) /\
    (forall e p [mhas (mfind a.ac_cr e) p]. mhas a.ac_cr e -> 1 <= p <= a.ac_phi -> mhas (mfind a.ac_cr e) p) /\
    (forall e p [mhas (mfind a.ac_pr e) p]. mhas a.ac_pr e -> 1 <= p <= a.ac_phi -> mhas (mfind a.ac_pr e) p)
  (* the actor is the one of its task in this graph *)
  predicate aok (f: flow) (a: actor) = awf a /\ okv f a.ac_v /\ a.ac_phi = vertex_phasecount_ f a.ac_v /\
    (forall e [mhas a.ac_cr e]. mhas a.ac_cr e <-> isin f a.ac_v e) /\ (forall e [mhas a.ac_pr e]. mhas a.ac_pr e <-> isout f a.ac_v e) /\
    (forall e p [mfind (mfind a.ac_cr e) p]. isin f a.ac_v e -> 1 <= p <= a.ac_phi -> mfind (mfind a.ac_cr e) p = crate f e p) /\
    (forall e p [mfind (mfind a.ac_pr e) p]. isout f a.ac_v e -> 1 <= p <= a.ac_phi -> mfind (mfind a.ac_pr e) p = prate f e p)
  (* one actor per task, found by the task's id *)
  predicate crew (f: flow) (m: fmap int actor) = forall v [vertex_index2_ f v]. okv f v -> mhas m (vertex_index2_ f v) /\ aok f (mfind m (vertex_index2_ f v)) /\ (mfind m (vertex_index2_ f v)).ac_v = v
  predicate sees (a: actor) (s: sstate) = (forall e [mhas s.st_tok e]. mhas a.ac_cp e -> mhas s.st_tok e) /\ (s.st_b -> forall e [mhas s.st_sp e]. mhas a.ac_pp e -> mhas s.st_sp e)
  predicate ready (a: actor) (s: sstate) = not a.ac_run /\ (forall e [mhas a.ac_cp e]. mhas a.ac_cp e -> mfind s.st_tok e >= cget a e (nextp a)) /\
    (s.st_b -> forall e [mhas a.ac_pp e]. mhas a.ac_pp e -> mfind s.st_sp e >= pget2 a e (nextp a))
  (* firing rule of the dataflow graph *)
  predicate can_fire (f: flow) (a: actor) (s: sstate) = not a.ac_run /\ (forall e [isin f a.ac_v e]. isin f a.ac_v e -> mfind s.st_tok e >= crate f e (nextp a)) /\
    (s.st_b -> forall e [isout f a.ac_v e]. isout f a.ac_v e -> mfind s.st_sp e >= prate f e (nextp a))
  let ghost ready_exact (f: flow) (a: actor) (s: sstate) : unit requires { aok f a } ensures { ready a s <-> can_fire f a s }
  = nextp_range a;
    assert { forall e. mhas a.ac_cp e <-> isin f a.ac_v e }; assert { forall e. mhas a.ac_pp e <-> isout f a.ac_v e };
    assert { forall e. isin f a.ac_v e -> cget a e (nextp a) = crate f e (nextp a) }; assert { forall e. isout f a.ac_v e -> pget2 a e (nextp a) = prate f e (nextp a) };
    assert { ready a s -> can_fire f a s }; assert { can_fire f a s -> ready a s }
  lemma vempty0 : forall v: vec exc. length v = 0 -> vec_eq v vempty
  lemma vempty1 : forall v: vec exc [length v]. length v = 0 -> v = vempty by vec_eq v vempty
  lemma madd_ii0 : forall m: fmap int int, k d x. map_eq (madd (madd m k d) k x) (madd m k x)
  lemma madd_ii : forall m: fmap int int, k d x [madd (madd m k d) k x]. madd (madd m k d) k x = madd m k x by map_eq (madd (madd m k d) k x) (madd m k x)
  lemma madd_q0 : forall m: fmap int (vec exc), k d x. map_eq (madd (madd m k d) k x) (madd m k x)
  lemma madd_q : forall m: fmap int (vec exc), k d x [madd (madd m k d) k x]. madd (madd m k d) k x = madd m k x by map_eq (madd (madd m k d) k x) (madd m k x)
  lemma madd_one0 : forall m: fmap int int, k. mhas m k -> map_eq (madd m k (mfind m k)) m
  lemma madd_one : forall m: fmap int int, k [madd m k (mfind m k)]. mhas m k -> madd m k (mfind m k) = m by map_eq (madd m k (mfind m k)) m
  lemma madd_id0 : forall m: fmap int (fmap int int), k. mhas m k -> map_eq (madd m k (mfind m k)) m
  lemma madd_id : forall m: fmap int (fmap int int), k [madd m k (mfind m k)]. mhas m k -> madd m k (mfind m k) = m by map_eq (madd m k (mfind m k)) m
  lemma madd_a0 : forall m: fmap int actor, k. mhas m k -> map_eq (madd m k (mfind m k)) m
  lemma madd_a : forall m: fmap int actor, k [madd m k (mfind m k)]. mhas m k -> madd m k (mfind m k) = m by map_eq (madd m k (mfind m k)) m
  let ghost cm_small (a b: int) : unit requires { 0 <= a < b } ensures { cm a b = a } = let q = pure { cd a b } in if q > 0 then mul_sign b (1 - q)
  (* every remaining time is d less *)
  predicate aged (q h: vec exc) (d: real) = length h = length q /\ forall i [get h i]. 0 <= i < length q -> (get h i).x_p = (get q i).x_p /\ (get h i).x_t = (get q i).x_t -. d
  (* the channels of the first n entries of a list *)
  predicate among (l: vec int) (n e: int) = exists i. 0 <= i < n /\ get l i = e
  let ghost among_step (l: vec int) (n: int) : unit requires { 0 <= n < length l } requires { distinct l } ensures { not among l n (get l n) } ensures { forall e [among l (n + 1) e]. among l (n + 1) e <-> among l n e \/ e = get l n } = ()
  lemma vrange_ext : forall v: vec int, n [length v, vrange n]. n >= 0 -> length v = n -> (forall i. 0 <= i < n -> get v i = i) -> v = vrange n by vec_eq v (vrange n)
  let ghost range_ext (v: vec int) (n: int) : unit requires { n >= 0 } requires { length v = n } requires { forall i [get v i]. 0 <= i < n -> get v i = i } ensures { v = vrange n } = ()
  let ghost keys_step (m: fmap int (vec exc)) (n: int) : unit requires { 0 <= n < length (keys m) } ensures { not among (keys m) n (get (keys m) n) } ensures { forall e [among (keys m) (n + 1) e]. among (keys m) (n + 1) e <-> among (keys m) n e \/ e = get (keys m) n } = ()
  let ghost keys_all (m: fmap int (vec exc)) : unit ensures { forall e [among (keys m) (length (keys m)) e]. among (keys m) (length (keys m)) e <-> mhas m e } = ()
  let ghost among_all (l: vec int) : unit ensures { forall e [among l (length l) e]. among l (length l) e <-> vmem e l } = ()
  let ghost among_none (l: vec int) : unit ensures { forall e [among l 0 e]. not among l 0 e } = ()
  let ghost among_in (f: flow) (v: int) : unit requires { twf f.f_g.topo } requires { okv f v } ensures { forall e [among (pget f.f_g.topo.inE v) (length (pget f.f_g.topo.inE v)) e]. among (pget f.f_g.topo.inE v) (length (pget f.f_g.topo.inE v)) e <-> isin f v e }
  = among_all (pure { pget f.f_g.topo.inE v })
  let ghost among_out (f: flow) (v: int) : unit requires { twf f.f_g.topo } requires { okv f v } ensures { forall e [among (pget f.f_g.topo.outE v) (length (pget f.f_g.topo.outE v)) e]. among (pget f.f_g.topo.outE v) (length (pget f.f_g.topo.outE v)) e <-> isout f v e }
  = among_all (pure { pget f.f_g.topo.outE v })
  let ghost cell (c h: fmap int (fmap int int)) (e p x: int) : unit requires { mfind h e = madd (mtouch (mfind (mtouch c e mempty) e) p 0) p x } ensures { mhas (mfind h e) p } ensures { mfind (mfind h e) p = x }
    ensures { forall q [mfind (mfind h e) q]. q <> p -> mhas c e -> (mhas (mfind h e) q <-> mhas (mfind c e) q) /\ mfind (mfind h e) q = mfind (mfind c e) q } = ()
  predicate crated (f: flow) (v: int) (m: fmap int (fmap int int)) = forall e p [mfind (mfind m e) p | mhas (mfind m e) p]. mhas m e -> 1 <= p <= phi f v -> mhas (mfind m e) p /\ mfind (mfind m e) p = crate f e p
  let ghost crated_step (f: flow) (v: int) (m h: fmap int (fmap int int)) (e: int) : unit requires { crated f v m } requires { forall x [mhas h x | mfind h x]. x <> e -> (mhas h x <-> mhas m x) /\ mfind h x = mfind m x }
    requires { forall q [mfind (mfind h e) q]. 1 <= q < phi f v + 1 -> mhas (mfind h e) q /\ mfind (mfind h e) q = crate f e q } ensures { crated f v h } = ()
  predicate prated (f: flow) (v: int) (m: fmap int (fmap int int)) = forall e p [mfind (mfind m e) p | mhas (mfind m e) p]. mhas m e -> 1 <= p <= phi f v -> mhas (mfind m e) p /\ mfind (mfind m e) p = prate f e p
  let ghost prated_step (f: flow) (v: int) (m h: fmap int (fmap int int)) (e: int) : unit requires { prated f v m } requires { forall x [mhas h x | mfind h x]. x <> e -> (mhas h x <-> mhas m x) /\ mfind h x = mfind m x }
    requires { forall q [mfind (mfind h e) q]. 1 <= q < phi f v + 1 -> mhas (mfind h e) q /\ mfind (mfind h e) q = prate f e q } ensures { prated f v h } = ()
  let ghost aok_intro (f: flow) (a: actor) : unit requires { a.ac_phi > 0 } requires { a.ac_n >= 0 } requires { okv f a.ac_v } requires { a.ac_phi = vertex_phasecount_ f a.ac_v }
    requires { forall e [mhas a.ac_cp e | mhas a.ac_cr e]. (mhas a.ac_cp e <-> isin f a.ac_v e) /\ (mhas a.ac_cr e <-> isin f a.ac_v e) } requires { forall e [mhas a.ac_pp e | mhas a.ac_pr e]. (mhas a.ac_pp e <-> isout f a.ac_v e) /\ (mhas a.ac_pr e <-> isout f a.ac_v e) }
    requires { forall e [mfind a.ac_cp e]. mhas a.ac_cp e -> mfind a.ac_cp e = phi f a.ac_v } requires { forall e [mfind a.ac_pp e]. mhas a.ac_pp e -> mfind a.ac_pp e = phi f a.ac_v }
    requires { crated f a.ac_v a.ac_cr } requires { prated f a.ac_v a.ac_pr } ensures { aok f a } = ()
  (* the state knows every channel of the graph *)
  predicate holds (f: flow) (s: sstate) = (forall e [mhas s.st_tok e]. oke f e -> mhas s.st_tok e) /\ (s.st_b -> forall e [mhas s.st_sp e]. oke f e -> mhas s.st_sp e)
  function endp (s: sstate) (v: int) : int = (get (mfind s.st_q v) 0).x_p
  predicate running (f: flow) (s: sstate) (v: int) = mhas s.st_q v /\ length (mfind s.st_q v) > 0 /\ 1 <= endp s v <= vertex_phasecount_ f v
  predicate took (f: flow) (v p: int) (m h: fmap int int) (n: int) = forall e [mhas h e | mfind h e]. (mhas h e <-> mhas m e) /\ mfind h e = mfind m e - (if among (pget f.f_g.topo.inE v) n e then crate f e p else 0)
  let ghost took_step (f: flow) (v p: int) (m h: fmap int int) (n: int) : unit requires { twf f.f_g.topo } requires { okv f v } requires { took f v p m h n } requires { 0 <= n < length (pget f.f_g.topo.inE v) }
    ensures { let e = get (pget f.f_g.topo.inE v) n in forall d x [madd (madd h e d) e x | madd h e x]. mhas m e -> x = mfind h e - crate f e p -> took f v p m (madd h e x) (n + 1) }
  = among_step (pure { pget f.f_g.topo.inE v }) n
  predicate reserved (f: flow) (v p: int) (m h: fmap int int) (n: int) = forall e [mhas h e | mfind h e]. (mhas h e <-> mhas m e) /\ mfind h e = mfind m e - (if among (pget f.f_g.topo.outE v) n e then prate f e p else 0)
  let ghost reserved_step (f: flow) (v p: int) (m h: fmap int int) (n: int) : unit requires { twf f.f_g.topo } requires { okv f v } requires { reserved f v p m h n } requires { 0 <= n < length (pget f.f_g.topo.outE v) }
    ensures { let e = get (pget f.f_g.topo.outE v) n in forall d x [madd (madd h e d) e x | madd h e x]. mhas m e -> x = mfind h e - prate f e p -> reserved f v p m (madd h e x) (n + 1) }
  = among_step (pure { pget f.f_g.topo.outE v }) n
  predicate gave (f: flow) (v p: int) (m h: fmap int int) (n: int) = forall e [mhas h e | mfind h e]. (mhas h e <-> mhas m e) /\ mfind h e = mfind m e + (if among (pget f.f_g.topo.outE v) n e then prate f e p else 0)
  let ghost gave_step (f: flow) (v p: int) (m h: fmap int int) (n: int) : unit requires { twf f.f_g.topo } requires { okv f v } requires { gave f v p m h n } requires { 0 <= n < length (pget f.f_g.topo.outE v) }
    ensures { let e = get (pget f.f_g.topo.outE v) n in forall d x [madd (madd h e d) e x | madd h e x]. mhas m e -> x = mfind h e + prate f e p -> gave f v p m (madd h e x) (n + 1) }
  = among_step (pure { pget f.f_g.topo.outE v }) n
  predicate freed (f: flow) (v p: int) (m h: fmap int int) (n: int) = forall e [mhas h e | mfind h e]. (mhas h e <-> mhas m e) /\ mfind h e = mfind m e + (if among (pget f.f_g.topo.inE v) n e then crate f e p else 0)
  let ghost freed_step (f: flow) (v p: int) (m h: fmap int int) (n: int) : unit requires { twf f.f_g.topo } requires { okv f v } requires { freed f v p m h n } requires { 0 <= n < length (pget f.f_g.topo.inE v) }
    ensures { let e = get (pget f.f_g.topo.inE v) n in forall d x [madd (madd h e d) e x | madd h e x]. mhas m e -> x = mfind h e + crate f e p -> freed f v p m (madd h e x) (n + 1) }
  = among_step (pure { pget f.f_g.topo.inE v }) n
"""
BUILTINS = dict(D.BUILTINS)
FL = {}


def A(why, key, **kw):
    FL[why] = F(why, "Actor::" + key, "ac", cls="actor", filt="Actor::", **kw)


def S(why, key, **kw):
    FL[why] = F(why, "State::" + key, "st", cls="sstate", filt="State::", **kw)


UNCH = ("unchanged", "this = old this")
S("st_getPhase", "getPhase(", requires=["mhas this.st_ph a"], ensures=[("reads", "result = mfind this.st_ph a")])
S("st_getTokens", "getTokens(", requires=["mhas this.st_tok e"], ensures=[("reads", "result = mfind this.st_tok e")])
S("st_getBufferSize", "getBufferSize(", requires=["mhas this.st_cap e"], ensures=[("reads", "result = mfind this.st_cap e")])
S("st_getBufferSpace", "getBufferSpace(", requires=["mhas this.st_sp e"], ensures=[("reads", "result = mfind this.st_sp e")])
S("st_getRemExecTime", "getRemExecTime[", requires=["mhas this.st_q a"], ensures=[("reads", "result = mfind this.st_q a")])
S("st_getExecQueue", "getExecQueue[", ensures=[("reads", "result = this.st_q"), UNCH])
S("st_removeFrontExec", "removeFrontExec(", requires=["mhas this.st_q a", "length (mfind this.st_q a) > 0"], ensures=[("removes_the_first", "this = { (old this) with st_q = madd (old this).st_q a (vdrop (mfind (old this).st_q a) 1) }")])
S("st_getTimeElapsed", "getTimeElapsed(", ensures=[("reads", "result = this.st_t")])
S("st_setPhase", "setPhase(", ensures=[("sets", "this = { (old this) with st_ph = madd (old this).st_ph a newPhase }")])
S("st_setTokens", "setTokens(", ensures=[("sets", "this = { (old this) with st_tok = madd (old this).st_tok e newTokens }")])
S("st_setBufferSpace", "setBufferSpace(", ensures=[("sets", "this = { (old this) with st_sp = madd (old this).st_sp e newSpace }")])
S("st_addExecution", "addExecution(", ensures=[("appends", "this = { (old this) with st_q = madd (old this).st_q a (snoc (queue (old this) a) newExec) }")])
S("st_setTimeElapsed", "setTimeElapsed(", ensures=[("sets", "this = { (old this) with st_t = time }")])
S("st_hasBoundedBuffers", "hasBoundedBuffers(", ensures=[("reads", "result = this.st_b"), UNCH])
S("st_advanceRemExecTime", "advanceRemExecTime(",
  ensures=[("time_passes_for_its_firings", "mhas this.st_q a /\\ aged (queue (old this) a) (mfind this.st_q a) timeStep"),
           ("not_for_the_others", "forall v [mhas this.st_q v | mfind this.st_q v]. v <> a -> (mhas this.st_q v <-> mhas (old this).st_q v) /\\ mfind this.st_q v = mfind (old this).st_q v"),
           ("keys", "mhas (old this).st_q a -> keys this.st_q = keys (old this).st_q"),
           ("nothing_else", "this = { (old this) with st_q = this.st_q }")], entry=["let s0 = this in let q0 = pure { queue this a } in"],
  loops={1: dict(inv=[("aged so far", "mhas this.st_q a /\\ length (mfind this.st_q a) = length q0 /\\ forall i [get (mfind this.st_q a) i]. 0 <= i < length q0 -> (get (mfind this.st_q a) i).x_p = (get q0 i).x_p /\\ (get (mfind this.st_q a) i).x_t = (get q0 i).x_t -. (if i < idx1 then timeStep else 0.0)"),
                      ("list", "rng1 = q0"), ("keys", "mhas s0.st_q a -> keys this.st_q = keys s0.st_q"),
                      ("others", "(forall v [mhas this.st_q v | mfind this.st_q v]. v <> a -> (mhas this.st_q v <-> mhas s0.st_q v) /\\ mfind this.st_q v = mfind s0.st_q v) /\\ this = { s0 with st_q = this.st_q }")])})
VSQ, ESQ = "(vrange dataflow.f_g.topo.nv)", "dataflow.f_g.topo.edges"
S("st_updateState", "updateState(", requires=["twf dataflow.f_g.topo", "crew dataflow actorMap", "forall e. oke dataflow e -> mhas this.st_tok e"],
  ensures=[("phases_of_the_actors", "forall v [mfind this.st_ph v]. mfind this.st_ph v = if okv dataflow v then nextp (mfind actorMap (vertex_index2_ dataflow v)) else mfind (old this).st_ph v"),
           ("same_actors", "forall v [mhas this.st_ph v]. mhas this.st_ph v <-> mhas (old this).st_ph v \\/ okv dataflow v"),
           ("nothing_else", "this = { (old this) with st_ph = this.st_ph }"), ("graph", "dataflow = old dataflow")],
  entry=["let s0 = this in let m0 = actorMap in let f0 = dataflow in"],
  loops={1: dict(inv=D.each("t", VSQ) + [("same", "dataflow = f0 /\\ actorMap = m0 /\\ this = { s0 with st_ph = this.st_ph }"), ("phases so far", "forall v [mhas this.st_ph v | mfind this.st_ph v]. (mhas this.st_ph v <-> mhas s0.st_ph v \\/ 0 <= v < tcount.it_pos) /\\ mfind this.st_ph v = if 0 <= v < tcount.it_pos then nextp (mfind m0 (vertex_index2_ f0 v)) else mfind s0.st_ph v")], variant=D.evar("t", VSQ)),
         2: dict(inv=D.each("e", ESQ) + [("same", "dataflow = f0 /\\ this = s1")], before=["let s1 = this in"], variant=D.evar("e", ESQ))})
MAPACT = "State(models::Dataflow*, std::map<long, Actor, std::less<long>, std::allocator<std::pair<long const, Actor> > >"
def ctor(why, key, b, tok, extra_req=(), more=(), pre=""):
    g = "result"
    S(why, key, requires=["gok dataflow", "crew dataflow actorMap"] + list(extra_req),
      ensures=[("preloads", "forall e [mhas result.st_tok e | mfind result.st_tok e]. (mhas result.st_tok e <-> oke dataflow e) /\\ (oke dataflow e -> mfind result.st_tok e = edge_preload_ dataflow e)"),
               ("phases", "forall v [mhas result.st_ph v | mfind result.st_ph v]. (mhas result.st_ph v <-> okv dataflow v) /\\ (okv dataflow v -> mfind result.st_ph v = nextp (mfind actorMap (vertex_index2_ dataflow v)))"),
               ("actors", "result.st_act = vrange dataflow.f_g.topo.nv"), ("nothing_runs", "result.st_q = mempty /\\ result.st_t = 0.0"), ("bounded", "result.st_b <-> %s" % b), ("graph", "dataflow = old dataflow")] + list(more),
      entry=[pre + "let m0 = actorMap in let f0 = dataflow in"],
      loops={1: dict(inv=D.each("e", ESQ) + [("same", "dataflow = f0 /\\ actorMap = m0"), ] + [("%s so far" % n, x) for n, x in tok], variant=D.evar("e", ESQ), before=["among_none %s;" % ESQ, "among_all %s;" % ESQ], begin=["among_step (pure { %s }) ecount.it_pos;" % ESQ]),
             2: dict(inv=D.each("t", VSQ) + [("same", "dataflow = f0 /\\ actorMap = m0 /\\ this = { s1 with st_ph = this.st_ph; st_act = this.st_act }"),
                     ("phases so far", "forall v [mhas this.st_ph v | mfind this.st_ph v]. (mhas this.st_ph v <-> 0 <= v < tcount.it_pos) /\\ (0 <= v < tcount.it_pos -> mfind this.st_ph v = nextp (mfind m0 (vertex_index2_ f0 v)))"),
                     ("actors so far", "length this.st_act = tcount.it_pos /\\ forall i [get this.st_act i]. 0 <= i < tcount.it_pos -> get this.st_act i = i")], variant=D.evar("t", VSQ), before=["let s1 = this in"], after=["range_ext (pure { this.st_act }) (pure { dataflow.f_g.topo.nv });"])})
def upto(m, x):
    return [(m + " keys", "forall e [mhas this.%s e]. mhas this.%s e <-> among dataflow.f_g.topo.edges ecount.it_pos e" % (m, m)), (m + " values", "forall e [mfind this.%s e]. mhas this.%s e -> mfind this.%s e = %s" % (m, m, m, x))]
TOK = upto("st_tok", "edge_preload_ f0 e") + [("nothing else", "this.st_q = mempty /\\ this.st_ph = mempty /\\ this.st_act = vempty")]
ctor("st_ctor", MAPACT + ")", "false", TOK)
CAP = upto("st_cap", "mfind b0 e") + upto("st_sp", "mfind b0 e - edge_preload_ f0 e") + [("sizes", "bufferSizes = b0")]
ctor("st_ctor_bounded", MAPACT + ", std::map<Edge", "true", TOK + CAP, extra_req=["forall e [mhas bufferSizes e]. oke dataflow e -> mhas bufferSizes e"],
     more=[("capacities", "forall e [mhas result.st_cap e | mfind result.st_cap e]. (mhas result.st_cap e <-> oke dataflow e) /\\ (oke dataflow e -> mfind result.st_cap e = mfind bufferSizes e)"),
           ("space_left_by_the_preloads", "forall e [mhas result.st_sp e | mfind result.st_sp e]. (mhas result.st_sp e <-> oke dataflow e) /\\ (oke dataflow e -> mfind result.st_sp e = mfind bufferSizes e - edge_preload_ dataflow e)"), ("sizes", "bufferSizes = old bufferSizes")],
     pre="let b0 = bufferSizes in ")
IT = "it%s.it_seq = keys %s /\\ 0 <= it%s.it_pos <= length (keys %s)"
def cmpl(n, m, what):
    it = "it"
    return dict(inv=[("equal so far", "%s.it_seq = keys %s /\\ 0 <= %s.it_pos <= length (keys %s) /\\ forall i [get (keys %s) i]. 0 <= i < %s.it_pos -> %s" % (it, m, it, m, m, it, what))], variant="length (keys %s) - %s.it_pos" % (m, it))
S("st_eq", "operator==(", requires=["forall v [mhas this.st_ph v]. mhas this.st_ph v -> mhas s.st_ph v", "forall v [mhas this.st_tok v]. mhas this.st_tok v -> mhas s.st_tok v"],
  ensures=[("equal_exactly_when_time_phases_tokens_and_running_firings_are", "result <-> this.st_t = s.st_t /\\ (forall v [mhas this.st_ph v]. mhas this.st_ph v -> mfind this.st_ph v = mfind s.st_ph v) /\\ (forall e [mhas this.st_tok e]. mhas this.st_tok e -> mfind this.st_tok e = mfind s.st_tok e) /\\ forall v [queue this v | queue s v]. queue this v = queue s v"), UNCH],
  loops={1: cmpl(1, "this.st_ph", "mfind this.st_ph (get (keys this.st_ph) i) = mfind s.st_ph (get (keys this.st_ph) i)"),
         2: cmpl(2, "this.st_tok", "mfind this.st_tok (get (keys this.st_tok) i) = mfind s.st_tok (get (keys this.st_tok) i)"),
         3: cmpl(3, "this.st_q", "queue this (get (keys this.st_q) i) = queue s (get (keys this.st_q) i)"),
         4: cmpl(4, "s.st_q", "queue this (get (keys s.st_q) i) = queue s (get (keys s.st_q) i)")})
LMAX = "9223372036854775807.0"
FRONT = "(get (queue (old this) %s) 0).x_t"
S("st_advanceTime", "advanceTime(",
  requires=["forall v. mhas this.st_q v -> vmem v this.st_act"],
  ensures=[("not_more_than_any_remaining_time", "result <=. " + LMAX + " /\\ forall v. vmem v this.st_act -> length (queue (old this) v) > 0 -> result <=. (get (queue (old this) v) 0).x_t"),
           ("the_least_remaining_time", "result = " + LMAX + " \\/ exists v. vmem v this.st_act /\\ length (queue (old this) v) > 0 /\\ result = (get (queue (old this) v) 0).x_t"),
           ("no_time_passes_before_a_firing_ends_or_without_firing", "result = 0.0 \\/ result = " + LMAX + " -> this.st_t = (old this).st_t /\\ forall v. queue this v = queue (old this) v"),
           ("time_passes_for_every_firing", "result <> 0.0 -> result <> " + LMAX + " -> this.st_t = (old this).st_t +. result /\\ forall v. aged (queue (old this) v) (queue this v) result"),
           ("nothing_else", "this = { (old this) with st_q = this.st_q; st_t = this.st_t }")],
  entry=["let s0 = this in"],
  loops={1: dict(inv=[("least so far", "timeElapsed <=. %s /\\ (forall i [get rng1 i]. 0 <= i < idx1 -> length (queue s0 (get rng1 i)) > 0 -> timeElapsed <=. (get (queue s0 (get rng1 i)) 0).x_t) /\\ (timeElapsed = %s \\/ exists i. 0 <= i < idx1 /\\ length (queue s0 (get rng1 i)) > 0 /\\ timeElapsed = (get (queue s0 (get rng1 i)) 0).x_t)" % (LMAX, LMAX)),
                      ("same queues", "rng1 = s0.st_act /\\ this = { s0 with st_q = this.st_q } /\\ forall v [queue this v | mhas this.st_q v]. queue this v = queue s0 v")]),
         2: dict(inv=[("range", "rng2 = keys s1.st_q"), ("aged so far", "forall v [queue this v]. if among rng2 idx2 v then aged (queue s0 v) (queue this v) timeElapsed else queue this v = queue s0 v"),
                      ("keys", "keys this.st_q = keys s1.st_q /\\ (forall v [mhas this.st_q v]. mhas this.st_q v <-> mhas s1.st_q v) /\\ this = { s0 with st_q = this.st_q }")],
                 before=["let s1 = this in"], begin=["keys_step (pure { s1.st_q }) idx2; let i2 = idx2 in let sa = this in"], after=["keys_all (pure { s1.st_q });"])})
def knows(d, v, this, n):
    cp, cr, rate, l = ("this.ac_cp", "this.ac_cr", "crate", "(pget dataflow.f_g.topo.inE a)") if d == "in" else ("this.ac_pp", "this.ac_pr", "prate", "(pget dataflow.f_g.topo.outE a)")
    return [("%sput keys" % d, "forall e [mhas %s e]. mhas %s e <-> among %s %s e" % (cp, cp, l, n)), ("%sput rate keys" % d, "forall e [mhas %s e]. mhas %s e <-> among %s %s e" % (cr, cr, l, n)),
            ("%sput phases" % d, "forall e [mfind %s e]. mhas %s e -> mfind %s e = phi f0 a" % (cp, cp, cp)),
            ("%sput rates" % d, "rated f0 a %s (fun e p -> %s f0 e p)" % (cr, rate) if 0 else "%sd f0 a %s" % (rate, cr))]
IN0, OUT0 = "(pget dataflow.f_g.topo.inE a)", "(pget dataflow.f_g.topo.outE a)"
def inner(n, cr, rate, s0):
    return dict(inv=[("same", "this = { %s with %s = this.%s } /\\ dataflow = f0 /\\ 1 <= p <= phi f0 a + 1" % (s0, cr, cr)),
                     ("key", "p > 1 -> mhas this.%s e" % cr), ("rates so far", "forall q [mfind (mfind this.%s e) q]. 1 <= q < p -> mhas (mfind this.%s e) q /\\ mfind (mfind this.%s e) q = %s f0 e q" % (cr, cr, cr, rate)),
                     ("others", "forall x [mhas this.%s x | mfind this.%s x]. x <> e -> (mhas this.%s x <-> mhas %s.%s x) /\\ mfind this.%s x = mfind %s.%s x" % (cr, cr, cr, s0, cr, cr, s0, cr))],
                before=["let %s = this in" % s0], begin=["let c0 = pure { this.%s } in" % cr], end=["cell c0 (pure { this.%s }) e p (pure { %s f0 e p });" % (cr, rate)],
                after=["%sd_step f0 a (pure { %s.%s }) (pure { this.%s }) e;" % (rate, s0, cr, cr)], variant="phi f0 a + 1 - p")
A("ac_ctor", "Actor(models::Dataflow*", requires=["gok dataflow", "okv dataflow a", "dataflow.repetitionvectorisdone"],
  ensures=[("knows_its_rates", "aok dataflow result"), ("idle", "not result.ac_run /\\ result.ac_n = 0"), ("its_task", "result.ac_v = a /\\ result.ac_id = vertex_index2_ dataflow a /\\ result.ac_rep = vertex_Ni_ dataflow a"), ("graph", "dataflow = old dataflow")],
  entry=["let f0 = dataflow in among_none %s; among_none %s; among_in dataflow a; among_out dataflow a;" % (IN0, OUT0)],
  loops={1: dict(inv=D.each("e", IN0) + [("same", "dataflow = f0 /\\ this = { s0 with ac_cp = this.ac_cp; ac_cr = this.ac_cr }"), ] + knows("in", "a", "this", "ecount.it_pos"), before=["let s0 = this in"], variant=D.evar("e", IN0),
                 begin=["assert { isin f0 a e }; among_step %s (ecount.it_pos - 1);" % IN0.replace("dataflow", "f0").replace("(pget", "(pure { pget").replace(" a)", " a })")]),
         2: inner(2, "ac_cr", "crate", "s1"),
         3: dict(inv=D.each("e", OUT0) + [("same", "dataflow = f0 /\\ this = { s2 with ac_pp = this.ac_pp; ac_pr = this.ac_pr }"), ] + knows("out", "a", "this", "ecount.it_pos"), before=["let s2 = this in"], variant=D.evar("e", OUT0),
                 begin=["assert { isout f0 a e }; among_step %s (ecount.it_pos - 1);" % OUT0.replace("dataflow", "f0").replace("(pget", "(pure { pget").replace(" a)", " a })")]),
         4: inner(4, "ac_pr", "prate", "s3")}, hooks={("return",): ["aok_intro f0 this;"]})
A("ac_getRepFactor", "getRepFactor(", ensures=[("reads", "result = this.ac_rep"), UNCH])
A("ac_getId", "getId(", ensures=[("reads", "result = this.ac_id"), UNCH])
A("ac_getNumExecutions", "getNumExecutions(", ensures=[("reads", "result = this.ac_n"), UNCH])
P1 = "1 <= p"
A("ac_getPhaseCount", "getPhaseCount(", requires=["mhas this.ac_cp e \\/ mhas this.ac_pp e"], ensures=[("reads", "result = if mhas this.ac_cp e then mfind this.ac_cp e else mfind this.ac_pp e"), UNCH])
A("ac_getPhase_e", "getPhase(Edge)", name="getPhase", requires=["awf this", "mhas this.ac_cp e \\/ mhas this.ac_pp e"], ensures=[("phase", "result = nextp this"), ("range", "1 <= result <= this.ac_phi"), UNCH])
A("ac_getPhase", "getPhase()", name="getPhase", requires=["awf this"], ensures=[("phase", "result = nextp this"), ("range", "1 <= result <= this.ac_phi"), UNCH])
RQ = ["awf this", "mhas this.ac_cp e \\/ mhas this.ac_pp e"]
A("ac_getExecRate", "getExecRate(Edge)", name="getExecRate", requires=RQ, ensures=[("rate", "result = if mhas this.ac_pp e then pget2 this e (nextp this) else cget this e (nextp this)"), UNCH])
A("ac_getExecRate_p", "getExecRate(Edge, long)", name="getExecRate", requires=RQ + ["1 <= p <= this.ac_phi"], ensures=[("rate", "result = if mhas this.ac_pp e then pget2 this e p else cget this e p"), UNCH])
A("ac_getConsRate", "getConsRate(Edge)", name="getConsRate", requires=["awf this", "mhas this.ac_cp e"], ensures=[("rate", "result = cget this e (nextp this)"), UNCH])
A("ac_getConsRate_p", "getConsRate(Edge, long)", name="getConsRate", requires=["awf this", "mhas this.ac_cp e", "1 <= p <= this.ac_phi"], ensures=[("rate", "result = cget this e p"), UNCH])
A("ac_isReadyForExec", "isReadyForExec(", requires=["awf this", "sees this s"], ensures=[("ready_exactly_when_it_can_fire", "result <-> ready this s"), UNCH],
  entry=["let a0 = this in"],
  loops={1: dict(inv=[("enough tokens so far", "this = a0 /\\ (isExecutable <-> not a0.ac_run /\\ forall i [get rng1 i]. 0 <= i < idx1 -> mfind s.st_tok (get rng1 i) >= cget a0 (get rng1 i) (nextp a0))")]),
         2: dict(inv=[("enough space so far", "this = a0 /\\ (isExecutable <-> tokens_there /\\ forall i [get rng2 i]. 0 <= i < idx2 -> mfind s.st_sp (get rng2 i) >= pget2 a0 (get rng2 i) (nextp a0))")], before=["let tokens_there = isExecutable in"])})
A("ac_isReadyToEndExec", "isReadyToEndExec(", ensures=[("ready_exactly_when_its_oldest_firing_is_over", "result <-> length (queue s this.ac_v) > 0 /\\ (get (queue s this.ac_v) 0).x_t = 0.0"), UNCH])
INL, OUTL = "(pget dataflow.f_g.topo.inE a0.ac_v)", "(pget dataflow.f_g.topo.outE a0.ac_v)"
EXR = ["gok dataflow", "aok dataflow this", "holds dataflow s"]
A("ac_execStart", "execStart(", requires=EXR,
  ensures=[("consumes_its_inputs", "forall e [mfind s.st_tok e]. oke dataflow e -> mfind s.st_tok e = mfind (old s).st_tok e - (if dstof dataflow e = this.ac_v then crate dataflow e (nextp (old this)) else 0)"),
           ("reserves_the_space_of_its_outputs", "forall e [mfind s.st_sp e]. oke dataflow e -> mfind s.st_sp e = mfind (old s).st_sp e - (if s.st_b && srcof dataflow e = this.ac_v then prate dataflow e (nextp (old this)) else 0)"),
           ("channels", "holds dataflow s"),
           ("runs_for_the_duration_of_its_phase", "s.st_q = madd (old s).st_q this.ac_v (snoc (queue (old s) this.ac_v) { x_t = get (vertex_phaseduration_ dataflow this.ac_v) (nextp (old this) - 1); x_p = nextp (old this) })"),
           ("nothing_else", "s = { (old s) with st_tok = s.st_tok; st_sp = s.st_sp; st_q = s.st_q }"),
           ("one_more_execution", "this = { (old this) with ac_n = (old this).ac_n + 1; ac_run = true }"), ("actor", "aok dataflow this"), ("graph", "dataflow = old dataflow")],
  entry=["let a0 = this in let s0 = s in let f0 = dataflow in let p0 = pure { nextp this } in nextp_range this; cm_small (pure { nextp this - 1 }) (pure { this.ac_phi }); among_none %s; among_none %s; among_in dataflow (pure { this.ac_v }); among_out dataflow (pure { this.ac_v });" % (INL, OUTL)],
  loops={1: dict(inv=D.each("e", INL) + [("same", "this = a0 /\\ dataflow = f0"), ("tokens", "took f0 a0.ac_v p0 s0.st_tok s.st_tok ecount.it_pos"), ("others", "s = { s0 with st_tok = s.st_tok }")], variant=D.evar("e", INL),
                 begin=["assert { isin f0 a0.ac_v e }; took_step f0 a0.ac_v p0 (pure { s0.st_tok }) (pure { s.st_tok }) (ecount.it_pos - 1);"]),
         2: dict(inv=D.each("e", OUTL) + [("same", "this = a0 /\\ dataflow = f0"), ("space", "reserved f0 a0.ac_v p0 s0.st_sp s.st_sp ecount.it_pos"), ("others", "s = { s1 with st_sp = s.st_sp }")], variant=D.evar("e", OUTL), before=["let s1 = s in"],
                 begin=["assert { isout f0 a0.ac_v e }; reserved_step f0 a0.ac_v p0 (pure { s0.st_sp }) (pure { s.st_sp }) (ecount.it_pos - 1);"])})
A("ac_execEnd", "execEnd(", requires=EXR + ["running dataflow s this.ac_v"],
  ensures=[("produces_its_outputs", "forall e [mfind s.st_tok e]. oke dataflow e -> mfind s.st_tok e = mfind (old s).st_tok e + (if srcof dataflow e = this.ac_v then prate dataflow e (endp (old s) this.ac_v) else 0)"),
           ("frees_the_space_of_its_inputs", "forall e [mfind s.st_sp e]. oke dataflow e -> mfind s.st_sp e = mfind (old s).st_sp e + (if s.st_b && dstof dataflow e = this.ac_v then crate dataflow e (endp (old s) this.ac_v) else 0)"),
           ("channels", "holds dataflow s"),
           ("its_oldest_firing_is_over", "s.st_q = madd (old s).st_q this.ac_v (vdrop (queue (old s) this.ac_v) 1)"),
           ("nothing_else", "s = { (old s) with st_tok = s.st_tok; st_sp = s.st_sp; st_q = s.st_q }"),
           ("idle_again", "this = { (old this) with ac_run = false }"), ("actor", "aok dataflow this"), ("graph", "dataflow = old dataflow")],
  entry=["let a0 = this in let s0 = s in let f0 = dataflow in let p0 = pure { endp s this.ac_v } in among_none %s; among_none %s; among_in dataflow (pure { this.ac_v }); among_out dataflow (pure { this.ac_v });" % (INL, OUTL)],
  loops={1: dict(inv=D.each("e", OUTL) + [("same", "this = a0 /\\ dataflow = f0"), ("tokens", "gave f0 a0.ac_v p0 s0.st_tok s.st_tok ecount.it_pos"), ("others", "s = { s0 with st_tok = s.st_tok }")], variant=D.evar("e", OUTL),
                 begin=["assert { isout f0 a0.ac_v e }; gave_step f0 a0.ac_v p0 (pure { s0.st_tok }) (pure { s.st_tok }) (ecount.it_pos - 1);"]),
         2: dict(inv=D.each("e", INL) + [("same", "this = a0 /\\ dataflow = f0"), ("space", "freed f0 a0.ac_v p0 s0.st_sp s.st_sp ecount.it_pos"), ("others", "s = { s1 with st_sp = s.st_sp }")], variant=D.evar("e", INL), before=["let s1 = s in"],
                 begin=["assert { isin f0 a0.ac_v e }; freed_step f0 a0.ac_v p0 (pure { s0.st_sp }) (pure { s.st_sp }) (ecount.it_pos - 1);"])})
GET = ["getInputEdges", "getOutputEdges", "getVertexDurationK", "getEdgeId", "getVertexName", "getVertexId", "getNi", "getPhasesQuantity", "getEdgeInPhase", "getEdgeOutPhase", "getEdgeInPhasesCount", "getEdgeOutPhasesCount", "getPreload", "getEdges", "getVertices"]
FNS = assume([D.FL[k] for k in GET], "C03") + list(FL.values())
PROP = Prop("C09", TU, FNS, classes=CLASSES, records=RECORDS, theory=THEORY, uses=("Graph",), builtins=BUILTINS, drop_calls=D.DROP, defaults={"fraction": "{ fn = 0; fd = 1 }"})
THEORIES = ("prelude.mlw",)
from contracts import C05
HARNESS = dict(C05.HARNESS, src="C09.cpp", sources=C05.HARNESS["sources"] + ["algorithms/scc.cpp", "algorithms/throughput/actor.cpp", "algorithms/throughput/state.cpp", "algorithms/throughput/symbolic_execution.cpp", "algorithms/dse/abstract_dep_graph.cpp", "algorithms/dse/buffer_sizing.cpp"])
