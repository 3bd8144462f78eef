"""How K-Iter enlarges the periodicity vector along a critical circuit."""
from vt.gen import Prop, F, assume
from contracts import flow as D
from contracts import C05

THEORY = D.theory() + r"""
  let ghost divides_gcd_all (a b: int) : unit ensures { forall d. divides d a -> divides d b -> divides d (gcd a b) }
  = let lemma aux (d: int) requires { divides d a } requires { divides d b } ensures { divides d (gcd a b) } = gcd_great a b d in ()
  let ghost divides_up_all (a b: int) : unit requires { divides a b } ensures { forall c [divides b c | divides a c]. divides b c -> divides a c }
  = let lemma aux (c: int) requires { divides b c } ensures { divides a c } = divides_trans a b c in ()
  (* executions of a task in one iteration of the graph *)
  function qof (f: flow) (v: int) : int = cd (vertex_Ni_ f v) (vertex_phasecount_ f v)
  predicate qok (f: flow) = twf f.f_g.topo /\ f.repetitionvectorisdone /\ forall v [qof f v]. okv f v -> vertex_Ni_ f v > 0 /\ vertex_phasecount_ f v > 0 /\ divides (vertex_phasecount_ f v) (vertex_Ni_ f v)
  let ghost q_pos (f: flow) (v: int) : unit requires { qok f } requires { okv f v } ensures { qof f v > 0 }
  = assert { qof f v = cd (vertex_Ni_ f v) (vertex_phasecount_ f v) }; divides_elim (pure { vertex_phasecount_ f v }) (pure { vertex_Ni_ f v }); mul_sign (pure { vertex_phasecount_ f v }) (pure { - qof f v })
  (* every K divides the number of executions *)
  predicate kdiv (f: flow) (m: fmap int int) = forall v [mfind m v]. okv f v -> mhas m v /\ mfind m v > 0 /\ divides (mfind m v) (qof f v)
  predicate edges_ok (f: flow) (c: fset int) = forall e [shas c e]. shas c e -> oke f e
  predicate common (f: flow) (c: fset int) (n d: int) = forall i [get (elems c) i]. 0 <= i < n -> divides d (qof f (srcof f (get (elems c) i)))
  predicate isg (f: flow) (c: fset int) (n g: int) = g >= 0 /\ common f c n g /\ forall d [common f c n d]. common f c n d -> divides d g
  predicate seen (f: flow) (c: fset int) (n v: int) = exists i. 0 <= i < n /\ srcof f (get (elems c) i) = v
  predicate on_circuit (f: flow) (c: fset int) (v: int) = exists e. shas c e /\ srcof f e = v
  let ghost seen_all (f: flow) (c: fset int) : unit ensures { forall v. on_circuit f c v <-> seen f c (length (elems c)) v }
  = assert { forall v. on_circuit f c v -> seen f c (length (elems c)) v by exists e. shas c e /\ srcof f e = v /\ 0 <= sidx c e < length (elems c) /\ get (elems c) (sidx c e) = e };
    assert { forall v. seen f c (length (elems c)) v -> on_circuit f c v by exists i. 0 <= i < length (elems c) /\ srcof f (get (elems c) i) = v /\ shas c (get (elems c) i) }
  predicate isgcd (f: flow) (c: fset int) (g: int) = g >= 0 /\ (forall e [shas c e]. shas c e -> divides g (qof f (srcof f e))) /\ forall d. (forall e [shas c e]. shas c e -> divides d (qof f (srcof f e))) -> divides d g
  let ghost isg_all (f: flow) (c: fset int) (g: int) : unit requires { isg f c (length (elems c)) g } ensures { isgcd f c g }
  = assert { forall e. shas c e -> divides g (qof f (srcof f e)) by 0 <= sidx c e < length (elems c) /\ get (elems c) (sidx c e) = e };
    assert { forall d. (forall e. shas c e -> divides d (qof f (srcof f e))) -> common f c (length (elems c)) d }
  let ghost isg_step (f: flow) (c: fset int) (n g q: int) : unit requires { isg f c n g } requires { 0 <= n < length (elems c) } requires { q = qof f (srcof f (get (elems c) n)) } ensures { isg f c (n + 1) (gcd g q) }
  = gcd_div g q; divides_gcd_all g q; divides_up_all (pure { gcd g q }) g; assert { forall d. common f c (n + 1) d -> common f c n d /\ divides d q }
  let ghost isg_first (f: flow) (c: fset int) : unit ensures { isg f c 0 0 }
  = let lemma aux (d: int) ensures { divides d 0 } = divides_self d in assert { common f c 0 0 }
  let ghost le_div (a b: int) : unit requires { divides a b } requires { divides b a } requires { a > 0 } requires { b > 0 } ensures { a = b } = divides_le a b; divides_le b a
  let ghost lcm_absorb (a b: int) : unit requires { a > 0 } requires { b > 0 } ensures { lcm (lcm a b) b = lcm a b }
  = lcm_pos a b; let l = pure { lcm a b } in lcm_pos l b; divides_self l; lcm_least l b l; le_div l (pure { lcm l b })
  (* the part of the executions that the circuit needs *)
  function part (f: flow) (v g: int) : int = cd (qof f v) g
  let ghost part_pos (f: flow) (v g: int) : unit requires { qok f } requires { okv f v } requires { g >= 0 } requires { divides g (qof f v) }
    ensures { g > 0 /\ part f v g > 0 /\ divides (part f v g) (qof f v) }
  = q_pos f v; let q = pure { qof f v } in
    if g = 0 then begin divides_self (q + 1); divides_trans (q + 1) 0 q; divides_le (q + 1) q end;
    divides_elim g q; let p = pure { cd q g } in divides_intro p g; mul_sign g (- p)
  function newk (f: flow) (m: fmap int int) (g v: int) : int = lcm (mfind m v) (part f v g)
  let ghost newk_ok (f: flow) (m: fmap int int) (g v: int) : unit requires { qok f } requires { okv f v } requires { kdiv f m } requires { g >= 0 } requires { divides g (qof f v) }
    ensures { newk f m g v > 0 } ensures { divides (newk f m g v) (qof f v) } ensures { divides (mfind m v) (newk f m g v) } ensures { newk f m g v <= qof f v } ensures { lcm (newk f m g v) (part f v g) = newk f m g v }
  = part_pos f v g; let a = pure { mfind m v } in let b = pure { part f v g } in lcm_pos a b; lcm_least a b (pure { qof f v }); q_pos f v; divides_le (pure { newk f m g v }) (pure { qof f v }); lcm_absorb a b
  predicate state (f: flow) (c: fset int) (m h: fmap int int) (g n: int) = forall v [mfind h v]. okv f v -> mhas h v /\ mfind h v = if seen f c n v then newk f m g v else mfind m v
  predicate differ (f: flow) (m h: fmap int int) = exists v. okv f v /\ mfind h v <> mfind m v
  let ghost state_step (f: flow) (c: fset int) (m h h2: fmap int int) (g n v: int) : unit
    requires { state f c m h g n } requires { 0 <= n < length (elems c) } requires { v = srcof f (get (elems c) n) } requires { okv f v }
    requires { h2 = madd h v (newk f m g v) }
    ensures { state f c m h2 g (n + 1) }
    ensures { differ f m h2 <-> differ f m h \/ newk f m g v <> mfind h v }
  = assert { forall u. seen f c (n + 1) u <-> seen f c n u \/ u = v };
    assert { state f c m h2 g (n + 1) };
    assert { forall u. u <> v -> mfind h2 u = mfind h u }; assert { mfind h2 v = newk f m g v };
    assert { mfind h v = newk f m g v \/ mfind h v = mfind m v }
  let ghost k_le (f: flow) (c: fset int) (m h: fmap int int) (g n v: int) : unit requires { qok f } requires { okv f v } requires { kdiv f m } requires { edges_ok f c } requires { 0 <= n <= length (elems c) } requires { isgcd f c g } requires { state f c m h g n }
    ensures { mhas h v /\ mfind h v <= qof f v }
  = q_pos f v; divides_le (pure { mfind m v }) (pure { qof f v }); if pure { seen f c n v } then begin assert { on_circuit f c v by exists i. 0 <= i < n /\ srcof f (get (elems c) i) = v /\ shas c (get (elems c) i) }; newk_ok f m g v end
"""
CC = "elems cc"
FNS = assume([D.FL[k] for k in ("getEdgeSource", "getEdgeTarget", "getNi", "getPhasesQuantity", "getVertexName")], "C03") + [
    F("updateVectorWithLocalNi", "algorithms::updateVectorWithLocalNi(", "kp",
      requires=["qok dataflow", "edges_ok dataflow cc", "kdiv dataflow kvector"],
      ensures=[("least_common_multiples_on_the_circuit", "exists g. isgcd dataflow cc g /\\ forall v [mfind kvector v]. okv dataflow v -> mhas kvector v /\\ mfind kvector v = if on_circuit dataflow cc v then newk dataflow (old kvector) g v else mfind (old kvector) v"),
               ("answers_whether_something_changed", "result <-> differ dataflow (old kvector) kvector"), ("never_more_than_an_iteration", "kdiv dataflow kvector"), ("circuit_kept", "cc = old cc"),
               ("never_smaller", "forall v [mfind kvector v]. okv dataflow v -> divides (mfind (old kvector) v) (mfind kvector v)")],
      entry=["isg_first dataflow cc; let k0 = kvector in let c0 = cc in"],
      hooks={("decl", "Nj"): ["assert { get (elems c0) p1_ = get (elems cc) p1_ }; isg_all dataflow c0 gcdNi; newk_ok dataflow k0 gcdNi source; assert { v_Ni = qof dataflow source /\\ v_Nj = qof dataflow target }; part_pos dataflow source gcdNi; k_le dataflow c0 k0 kvector gcdNi p1_ source;"],
             ("decl", "newki"): ["assert { newki = newk dataflow k0 gcdNi source }; let h2 = pure { madd kvector source newki } in state_step dataflow c0 k0 kvector h2 gcdNi p1_ source; k_le dataflow c0 k0 h2 gcdNi (p1_ + 1) target;"],
             ("return",): ["seen_all dataflow c0; isg_all dataflow c0 gcdNi; let lemma old_div (v: int) requires { okv dataflow v } ensures { divides (mfind k0 v) (mfind kvector v) /\\ divides (mfind kvector v) (qof dataflow v) /\\ mfind kvector v > 0 } = divides_self (pure { mfind k0 v }); if pure { on_circuit dataflow c0 v } then newk_ok dataflow k0 gcdNi v in"]},
      loops={1: dict(inv=[("range", "cc = c0 /\\ kvector = k0 /\\ it.it_seq = elems c0 /\\ 0 <= it.it_pos <= length (elems c0)"), ("greatest common divisor", "isg dataflow c0 it.it_pos gcdNi")], variant="length (elems c0) - it.it_pos",
                     begin=["let p0_ = it.it_pos in assert { shas c0 (get (elems c0) p0_) }; q_pos dataflow (pure { srcof dataflow (get (elems c0) p0_) }); isg_step dataflow c0 p0_ gcdNi (pure { qof dataflow (srcof dataflow (get (elems c0) p0_)) });"]),
             2: dict(inv=[("range", "cc = c0 /\\ it.it_seq = elems c0 /\\ 0 <= it.it_pos <= length (elems c0)"), ("vector", "state dataflow c0 k0 kvector gcdNi it.it_pos"), ("changed", "changed <-> differ dataflow k0 kvector")], variant="length (elems c0) - it.it_pos",
                     begin=["let p1_ = it.it_pos in assert { shas c0 (get (elems c0) p1_) };"]),
             })]
PROP = Prop("C08", {"df": D.TU, "kp": C05.TU["kp"]}, FNS, classes=D.CLASSES | {"periodicity_vector_t": ("map", ("int",), ("int",)), "critical_circuit_t": ("set", ("int",))}, records=D.RECORDS, theory=THEORY, uses=("Graph",), builtins=D.BUILTINS, drop_calls=D.DROP,
    defaults={"fraction": "{ fn = 0; fd = 1 }"})
THEORIES = ("prelude.mlw",)
HARNESS = dict(C05.HARNESS, src="C08.cpp")
