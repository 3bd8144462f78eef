"""Start times of an event graph for a given period."""
from vt.gen import Prop, F
from contracts import flow as D
from contracts import event as E

POT = r"""
  use real.RealInfix
  predicate feas (t: topo) (f q: pmap real) = forall e [pget f e]. eok t e -> pget q (pget t.edst e) >=. pget q (pget t.esrc e) +. pget f e
  predicate nonneg (t: topo) (q: pmap real) = forall v [pget q v]. vok t v -> pget q v >=. 0.0
"""
THEORY = D.theory() + E.theory() + POT + r"""
  (* every value is below every non-negative solution *)
  predicate under (t: topo) (f d: pmap real) = forall q [feas t f q]. feas t f q -> nonneg t q -> forall v [pget d v | pget q v]. vok t v -> pget d v <=. pget q v
  (* a solution in which every value is 0 or comes from an event that has a smaller rank *)
  type grd = { gp : pmap real; gpos : pmap int; gat : pmap int; gsup : pmap int; gok : bool }
  predicate perm (t: topo) (pos ato: pmap int) = (forall v [pget pos v]. vok t v -> 0 <= pget pos v < t.nv /\ pget ato (pget pos v) = v) /\ (forall i [pget ato i]. vok t i -> vok t (pget ato i) /\ pget pos (pget ato i) = i)
  predicate supported (t: topo) (f: pmap real) (g: grd) (v: int) = pget g.gp v = 0.0 \/ (eok t (pget g.gsup v) /\ pget t.edst (pget g.gsup v) = v /\ pget g.gpos (pget t.esrc (pget g.gsup v)) < pget g.gpos v /\ pget g.gp v = pget g.gp (pget t.esrc (pget g.gsup v)) +. pget f (pget g.gsup v))
  predicate grounded (t: topo) (f: pmap real) (g: grd) = g.gok /\ feas t f g.gp /\ nonneg t g.gp /\ perm t g.gpos g.gat /\ (forall v [pget g.gpos v]. vok t v -> supported t f g v)
  val ghost edge_at (t: topo) (i: int) : int requires { 0 <= i < length t.edges } ensures { result = get t.edges i }
  val ghost pg (m: pmap real) (i: int) : real ensures { result = pget m i }
  val ghost pgi (m: pmap int) (i: int) : int ensures { result = pget m i }
  val ghost ps (m: pmap real) (i: int) (x: real) : pmap real ensures { result = pset m i x }
  val ghost psi (m: pmap int) (i: int) (x: int) : pmap int ensures { result = pset m i x }
  val ghost rle_ (a b: real) : bool ensures { result <-> a <=. b }
  val ghost rsub_ (a b: real) : real ensures { result = a -. b }
  val ghost rzero () : real ensures { result = 0.0 }
  val ghost anymap () : pmap int
  (* the same values, less x on the events of rank c or more *)
  let ghost lower (t: topo) (p: pmap real) (pos: pmap int) (c: int) (x: real) : pmap real requires { t.nv >= 0 }
    ensures { forall v [pget result v]. vok t v -> pget result v = if pget pos v < c then pget p v else pget p v -. x }
  = let ref r = p in
    let ref i = 0 in
    while i < t.nv do
      invariant { 0 <= i <= t.nv } invariant { forall v [pget r v]. vok t v -> pget r v = if v < i /\ pget pos v >= c then pget p v -. x else pget p v } variant { t.nv - i }
      if pgi pos i >= c then r <- ps r i (rsub_ (pg p i) x);
      i <- i + 1
    done;
    r
  let ghost ground (t: topo) (f q: pmap real) : grd requires { twf t } requires { feas t f q } requires { nonneg t q } ensures { grounded t f result }
  = let ref p = q in
    let ref pos = anymap () in
    let ref ato = anymap () in
    let ref sup = anymap () in
    let ref i = 0 in
    while i < t.nv do
      invariant { 0 <= i <= t.nv } invariant { forall v. 0 <= v < i -> pget pos v = v /\ pget ato v = v } variant { t.nv - i }
      pos <- psi pos i i; ato <- psi ato i i; i <- i + 1
    done;
    assert { perm t pos ato };
    let ref c = 0 in
    while c < t.nv do
      invariant { 0 <= c <= t.nv } invariant { feas t f p } invariant { nonneg t p } invariant { perm t pos ato }
      invariant { forall v [pget pos v]. vok t v -> pget pos v < c -> supported t f { gp = p; gpos = pos; gat = ato; gsup = sup; gok = true } v } variant { t.nv - c }
      let ref v = pgi ato c in
      let ref m = pg p v in
      let ref s = sup in
      let ref j = 0 in
      while j < t.nv do
        invariant { 0 <= j <= t.nv } invariant { vok t v /\ pget pos v >= c /\ m = pget p v } invariant { forall u [pget p u]. 0 <= u < j -> pget pos u >= c -> m <=. pget p u } variant { t.nv - j }
        if pgi pos j >= c then if rle_ (pg p j) m then begin v <- j; m <- pg p j end;
        j <- j + 1
      done;
      assert { m >=. 0.0 };
      j <- 0;
      while j < length t.edges do
        invariant { 0 <= j <= length t.edges } invariant { vok t v /\ pget pos v >= c } invariant { m >=. 0.0 } invariant { forall u [pget p u]. vok t u -> pget pos u >= c -> m <=. pget p u }
        invariant { forall i [get t.edges i]. 0 <= i < j -> pget pos (pget t.esrc (get t.edges i)) < c -> pget pos (pget t.edst (get t.edges i)) >= c -> m <=. pget p (pget t.edst (get t.edges i)) -. pget p (pget t.esrc (get t.edges i)) -. pget f (get t.edges i) }
        invariant { m = pget p v \/ (eok t (pget s v) /\ pget t.edst (pget s v) = v /\ pget pos (pget t.esrc (pget s v)) < c /\ m = pget p v -. pget p (pget t.esrc (pget s v)) -. pget f (pget s v)) }
        invariant { forall u [pget s u]. pget pos u < c -> pget s u = pget sup u }
        variant { length t.edges - j }
        let e = edge_at t j in
        assert { eok t e };
        let a = pgi t.esrc e in
        let b = pgi t.edst e in
        assert { vok t a /\ vok t b };
        assert { pget p b >=. pget p a +. pget f e };
        if pgi pos a < c then if pgi pos b >= c then begin
          let sl = rsub_ (rsub_ (pg p b) (pg p a)) (pg f e) in
          if rle_ sl m then begin v <- b; m <- sl; s <- psi s b e end
        end;
        j <- j + 1
      done;
      assert { forall e [pget f e]. eok t e -> pget pos (pget t.esrc e) < c -> pget pos (pget t.edst e) >= c -> m <=. pget p (pget t.edst e) -. pget p (pget t.esrc e) -. pget f e };
      let p2 = lower t p pos c m in
      let w = pgi ato c in
      let k = pgi pos v in
      let pos2 = psi (psi pos w k) v c in
      let at2 = psi (psi ato k w) c v in
      assert { feas t f p2 }; assert { nonneg t p2 }; assert { perm t pos2 at2 };
      assert { supported t f { gp = p2; gpos = pos2; gat = at2; gsup = s; gok = true } v };
      assert { forall u. vok t u -> pget pos u < c -> pget pos2 u = pget pos u /\ pget p2 u = pget p u /\ pget s u = pget sup u };
      assert { forall u. vok t u -> pget pos2 u < c + 1 -> u = v \/ pget pos u < c };
      assert { forall u. vok t u -> pget pos u < c -> supported t f { gp = p2; gpos = pos2; gat = at2; gsup = s; gok = true } u };
      p <- p2; pos <- pos2; ato <- at2; sup <- s;
      c <- c + 1
    done;
    { gp = p; gpos = pos; gat = ato; gsup = sup; gok = true }
  (* some non-negative solution, if there is any *)
  predicate solvable (t: topo) (f: pmap real) = exists q. feas t f q
  val ghost some_solution (t: topo) (f: pmap real) : pmap real requires { solvable t f } ensures { feas t f result }
  let ghost some_nonneg (t: topo) (f: pmap real) : pmap real requires { twf t } requires { solvable t f } ensures { feas t f result /\ nonneg t result }
  = let q = some_solution t f in
    let ref m = rzero () in
    let ref i = 0 in
    while i < t.nv do
      invariant { 0 <= i <= t.nv } invariant { forall v [pget q v]. 0 <= v < i -> m <=. pget q v } variant { t.nv - i }
      if rle_ (pg q i) m then m <- pg q i;
      i <- i + 1
    done;
    let ref r = q in
    i <- 0;
    while i < t.nv do
      invariant { 0 <= i <= t.nv } invariant { forall v [pget r v]. vok t v -> pget r v = if v < i then pget q v -. m else pget q v } variant { t.nv - i }
      r <- ps r i (rsub_ (pg q i) m);
      i <- i + 1
    done;
    assert { forall v. vok t v -> pget r v = pget q v -. m };
    r
  let ghost some_ground (t: topo) (f: pmap real) : grd requires { twf t } ensures { result.gok <-> solvable t f } ensures { result.gok -> grounded t f result }
  = if pure { solvable t f } then ground t f (some_nonneg t f) else { gp = pure { f }; gpos = anymap (); gat = anymap (); gsup = anymap (); gok = false }
  predicate reached (t: topo) (g: grd) (d: pmap real) (k: int) = forall v [pget d v]. vok t v -> pget g.gpos v <= k -> pget d v >=. pget g.gp v
  (* the constraint has been propagated in round k *)
  predicate donek (t: topo) (f: pmap real) (g: grd) (d: pmap real) (k e: int) = g.gok -> pget g.gpos (pget t.esrc e) <= k -> pget d (pget t.edst e) >=. pget g.gp (pget t.esrc e) +. pget f e
  predicate doneu (t: topo) (f d: pmap real) (e: int) = pget d (pget t.edst e) >=. pget d (pget t.esrc e) +. pget f e
  predicate events_before (t: topo) (f: pmap real) (g: grd) (d: pmap real) (k n: int) (u: bool) = forall v i [get (pget t.outE v) i]. 0 <= v < n -> 0 <= i < length (pget t.outE v) -> donek t f g d k (get (pget t.outE v) i) /\ (not u -> doneu t f d (get (pget t.outE v) i))
  predicate outs_before (t: topo) (f: pmap real) (g: grd) (d: pmap real) (k v n: int) (u: bool) = forall i [get (pget t.outE v) i]. 0 <= i < n -> donek t f g d k (get (pget t.outE v) i) /\ (not u -> doneu t f d (get (pget t.outE v) i))
"""

THEORY += r"""
  let ghost round_done (t: topo) (f: pmap real) (g: grd) (d: pmap real) (k: int) (u: bool) : unit
    requires { twf t } requires { g.gok -> grounded t f g } requires { events_before t f g d k t.nv u } requires { nonneg t d }
    ensures { g.gok -> reached t g d (k + 1) } ensures { not u -> feas t f d }
  = assert { forall e. eok t e -> donek t f g d k e /\ (not u -> doneu t f d e) by exists i. 0 <= i < length (pget t.outE (pget t.esrc e)) /\ get (pget t.outE (pget t.esrc e)) i = e };
    if pure { g.gok } then assert { forall v. vok t v -> pget g.gpos v <= k + 1 -> pget d v >=. pget g.gp v by supported t f g v }
  let ghost all_reached (t: topo) (f: pmap real) (g: grd) (d: pmap real) : unit requires { twf t } requires { grounded t f g } requires { reached t g d t.nv } requires { under t f d }
    ensures { forall v. vok t v -> pget d v = pget g.gp v } ensures { feas t f d } = ()
  let ghost zero_start (t: topo) (f: pmap real) (g: grd) (d: pmap real) : unit requires { twf t } requires { grounded t f g } requires { under t f d } requires { nonneg t d }
    ensures { t.nv > 0 -> vok t (pget g.gat 0) /\ pget d (pget g.gat 0) = 0.0 } = if t.nv > 0 then assert { pget g.gp (pget g.gat 0) = 0.0 by supported t f g (pget g.gat 0) /\ pget g.gpos (pget g.gat 0) = 0 }
  let ghost relax (t: topo) (f: pmap real) (g: grd) (d d2: pmap real) (k v n e: int) (u u2: bool) : unit
    requires { twf t } requires { vok t v } requires { 0 <= n < length (pget t.outE v) } requires { e = get (pget t.outE v) n }
    requires { under t f d } requires { nonneg t d } requires { events_before t f g d k v u } requires { outs_before t f g d k v n u } requires { g.gok -> reached t g d k }
    requires { (pget d (pget t.edst e) -. pget d v <. pget f e /\ u2 /\ d2 = pset d (pget t.edst e) (pget f e +. pget d v)) \/ (pget d (pget t.edst e) -. pget d v >=. pget f e /\ u2 = u /\ d2 = d) }
    ensures { under t f d2 } ensures { nonneg t d2 } ensures { g.gok -> reached t g d2 k }
    ensures { events_before t f g d2 k v u2 } ensures { outs_before t f g d2 k v (n + 1) u2 }
  = assert { eok t e /\ pget t.esrc e = v /\ vok t (pget t.edst e) };
    assert { forall w. pget d2 w >=. pget d w };
    assert { under t f d2 }
"""

T, X, S = "this.eg_g.etopo", "this.eg_g.x_edge_flow", "this.eg_g.x_vertex_discover_time"
VSE, ESE = "(vrange %s.nv)" % T, "%s.edges" % T
SCHED = r"""
  (* only the starting times and the flows of the constraints change *)
  predicate only_times (g h: egraph) = h = { g with eg_g = { g.eg_g with x_edge_flow = h.eg_g.x_edge_flow; x_vertex_discover_time = h.eg_g.x_vertex_discover_time } }
  predicate only_starts (g h: egraph) = h = { g with eg_g = { g.eg_g with x_vertex_discover_time = h.eg_g.x_vertex_discover_time } }
  function lagc (g: egraph) (omega: real) (e: int) : real
  axiom lagc_def : forall g omega e [lagc g omega e]. lagc g omega e = pget g.eg_g.x_edge_weight2 e -. omega *. pget g.eg_g.x_edge_weight e
  (* d is a schedule of the events for the period omega *)
  predicate schedule (g: egraph) (omega: real) (d: pmap real) = forall e [lagc g omega e]. eoke g e -> pget d (pget g.eg_g.etopo.edst e) >=. pget d (pget g.eg_g.etopo.esrc e) +. lagc g omega e
  let ghost sched_feas (g: egraph) (omega: real) (f: pmap real) : unit requires { forall e [pget f e | lagc g omega e]. eoke g e -> pget f e = lagc g omega e }
    ensures { forall d. schedule g omega d <-> feas g.eg_g.etopo f d } = ()
"""
THEORY += SCHED
FNS = [E.FL[k] for k in E.FL] + [
    F("computeStartingTimeWithOmega", "models::EventGraph::computeStartingTimeWithOmega(", "eg", cls="egraph", filt="models::EventGraph::",
      requires=["ewf this", "omega <=. rlim_inf"],
      ensures=[("meets_every_constraint", "omega <. rlim_inf -> (exists d. schedule (old this) omega d) -> schedule (old this) omega %s" % S),
               ("earliest", "omega <. rlim_inf -> (exists d. schedule (old this) omega d) -> forall d. schedule (old this) omega d -> nonneg %s d -> forall v. eokv this v -> 0.0 <=. pget %s v <=. pget d v" % (T, S)),
               ("starts_at_0", "omega <. rlim_inf -> (exists d. schedule (old this) omega d) -> %s.nv > 0 -> exists v. eokv this v /\\ pget %s v = 0.0" % (T, S)),
               ("all_0_without_period", "omega = rlim_inf -> forall v. eokv this v -> pget %s v = 0.0" % S),
               ("answers", "result <-> omega <. rlim_inf"), ("nothing_else", "only_times (old this) this")],
      entry=["let g0 = this in"],
      hooks={("decl", "first"): ["let t = pure { %s } in let f = pure { %s } in sched_feas g0 omega f; let gr = some_ground t f in let g1 = this in" % (T, X)],
             ("decl", "min_time"): ["let d1 = pure { %s } in if pure { gr.gok } then begin if pure { not feas t f d1 } then all_reached t f gr d1; zero_start t f gr d1 end; assert { gr.gok -> feas t f d1 };" % S]},
      loops={1: dict(inv=D.each("e", VSE) + [("only starts", "only_starts g0 this"), ("zero", "forall v [pget %s v]. 0 <= v < ecount.it_pos -> pget %s v = 0.0" % (S, S))], variant=D.evar("e", VSE)),
             2: dict(inv=D.each("e", ESE) + [("only flows", "only_times g0 this /\\ %s = g0.eg_g.x_vertex_discover_time" % S), ("flows", "forall i [get %s i]. 0 <= i < ecount.it_pos -> pget %s (get %s i) = lagc g0 omega (get %s i)" % (ESE, X, ESE, ESE))], variant=D.evar("e", ESE),
                     begin=["let e0_ = e in let p0_ = ecount.it_pos in assert { eoke this e };"], end=["assert { pget %s e0_ = lagc g0 omega e0_ }; assert { forall i [get %s i]. 0 <= i < p0_ + 1 -> pget %s (get %s i) = lagc g0 omega (get %s i) };" % (X, ESE, X, ESE, ESE)], last=["assert { ecount.it_pos = p0_ + 1 };"]),
             3: dict(inv=D.each("e", VSE) + [("only starts", "only_starts g1 this"), ("zero", "forall v [pget %s v]. 0 <= v < ecount.it_pos -> pget %s v = 0.0" % (S, S))], variant=D.evar("e", VSE)),
             4: dict(inv=[("range", "0 <= i <= t.nv"), ("only starts", "only_starts g1 this"), ("non negative", "nonneg t %s" % S), ("below every solution", "under t f %s" % S), ("reached", "gr.gok -> reached t gr %s i" % S)], variant="t.nv - i",
                     before=["assert { under t f %s };" % S]),
             5: dict(inv=D.each("event1", VSE) + [("only starts", "only_starts g1 this"), ("non negative", "nonneg t %s" % S), ("below every solution", "under t f %s" % S), ("reached", "gr.gok -> reached t gr %s i" % S),
                        ("propagated", "events_before t f gr %s i event1count.it_pos updated" % S)], variant=D.evar("event1", VSE),
                     after=["let d9 = pure { %s } in round_done t f gr d9 i updated;" % S]),
             6: dict(inv=D.each("constraint", "(pget t.outE event1)") + [("only starts", "only_starts g1 this"), ("non negative", "nonneg t %s" % S), ("below every solution", "under t f %s" % S), ("reached", "gr.gok -> reached t gr %s i" % S),
                        ("propagated", "events_before t f gr %s i event1 updated" % S), ("outputs propagated", "outs_before t f gr %s i event1 constraintcount.it_pos updated" % S)], variant=D.evar("constraint", "(pget t.outE event1)"),
                     begin=["let d0 = pure { %s } in let u0 = updated in" % S], end=["let d2 = pure { %s } in relax t f gr d0 d2 i event1 constraintcount.it_pos constraint u0 updated;" % S]),
             7: dict(inv=D.each("e", VSE) + [("only starts", "only_starts g1 this /\\ %s = d1" % S), ("ato least 0", "min_time >=. 0.0"), ("minimum", "forall v [pget d1 v]. 0 <= v < ecount.it_pos -> min_time <=. pget d1 v")], variant=D.evar("e", VSE)),
             8: dict(inv=D.each("e", VSE) + [("only starts", "only_starts g1 this"), ("zero shift", "gr.gok -> t.nv > 0 -> min_time = 0.0"), ("shifted", "forall v [pget %s v]. vok t v -> pget %s v = if v < ecount.it_pos then pget d1 v -. min_time else pget d1 v" % (S, S))], variant=D.evar("e", VSE)),
             }),
]
PROP = Prop("C06", {"eg": E.TU}, FNS, classes=D.CLASSES | E.CLASSES, records=D.RECORDS + E.RECORDS, theory=THEORY, uses=("Graph",), builtins=E.BUILTINS, drop_calls=D.DROP)
THEORIES = ("prelude.mlw",)
HARNESS = dict(src="C06.cpp", sources=["commons/verbose.cpp", "commons/commons.cpp", "models/Dataflow.cpp", "models/NoC.cpp", "models/repetition_vector.cpp", "models/EventGraph.cpp", "models/Scheduling.cpp"])
