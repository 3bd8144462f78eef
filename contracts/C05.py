"""K-periodic event graph."""
import copy
from vt.gen import Prop, F
from contracts import flow as D
from contracts import event as E
from contracts import C02

TU = {"commons": C02.TU["commons"], "df": D.TU, "eg": E.TU, "kp": """#include <boost/assert.hpp>
#include <algorithms/throughput/kperiodic.cpp>
"""}
GET = ["getVertices", "getEdges", "getEdgeSource", "getEdgeTarget", "getEdgeIn", "getEdgeOut", "getEdgeInPhasesCount", "getEdgeOutPhasesCount", "getEdgeInInitPhasesCount", "getEdgeOutInitPhasesCount",
       "getPhasesQuantity", "getInitPhasesQuantity", "has_repetition_vector", "getNi", "getEdgeId", "getVertexId", "getPreload", "getEdgeInPhase", "getEdgeOutPhase", "getEdgeInInitPhase", "getEdgeOutInitPhase",
       "getVertexInitDuration", "getVertexDurationK", "getVertexInitPhaseDuration", "getVertexPhaseDuration", "getReentrancyFactor", "getEdgeName", "getVertexName", "getEdgeType", "getEdgeInVector", "getEdgeOutVector", "getEdgeInitInVector", "getEdgeInitOutVector"]
THEORY = D.theory() + E.theory() + r"""
  use real.RealInfix
  (* ---- tokens *)
  (* rate of a phase: non-positive phases are the initial ones *)
  function rate (ini per: vec int) (p: int) : int = if p > 0 then get per (p - 1) else get ini (p + length ini - 1)
  (* tokens exchanged before phase p of the k-th execution *)
  function before (ini per: vec int) (tot k p: int) : int
  val ghost before_def (ini per: vec int) (tot k p: int) : unit ensures { before ini per tot k p = if p > 0 then vsum ini (length ini) + (k - 1) * tot + vsum per (p - 1) else vsum ini (length ini + p - 1) }
  function firstp (ini: vec int) (k: int) : int = if k = 1 then 1 - length ini else 1
  let ghost before_next (ini per: vec int) (tot k p: int) : unit requires { 1 <= k } requires { firstp ini k <= p }
    ensures { before ini per tot k (p + 1) = before ini per tot k p + rate ini per p } = before_def ini per tot k p; before_def ini per tot k (p + 1)
  let ghost before_wrap (ini per: vec int) (tot k: int) : unit requires { 1 <= k } requires { tot = vsum per (length per) }
    ensures { before ini per tot k (length per + 1) = before ini per tot (k + 1) (firstp ini (k + 1)) } = before_def ini per tot k (vlen per + 1); before_def ini per tot (k + 1) (pure { firstp ini (k + 1) })
  let ghost before_first (ini per: vec int) (tot: int) : unit ensures { before ini per tot 1 (firstp ini 1) = 0 } = before_def ini per tot 1 (pure { firstp ini 1 })

  let ghost mult_step (s a b: int) : unit requires { s > 0 } requires { divides s a } requires { divides s b } requires { a < b } ensures { a + s <= b }
  = divides_add s b a; divides_le s (b - a)
  (* with x tokens of difference between the iterations, the producing phase is the one that lets the consuming phase fire *)
  predicate depx (m0 wak vakp cin cout x: int) = max 0 (wak - vakp) <= m0 + cin + x - cout < wak
  (* a is the greatest such difference among the multiples of g *)
  predicate isdep (g m0 wak vakp cin cout a: int)
  val ghost isdep_def (g m0 wak vakp cin cout: int) : unit
    ensures { forall a. isdep g m0 wak vakp cin cout a <-> divides g a /\ depx m0 wak vakp cin cout a /\ forall b. divides g b -> depx m0 wak vakp cin cout b -> b <= a }
  let ghost max_mult (s a b: int) : unit requires { divides s a } requires { divides s b } ensures { divides s (max a b) } = ()
  let ghost dep_exists (s g m0 mp wak vakp cin cout amax: int) : unit
    requires { s > 0 } requires { g > 0 } requires { divides s g } requires { divides s wak } requires { divides s vakp } requires { divides s cin } requires { divides s cout } requires { divides s mp } requires { mp <= m0 < mp + s }
    requires { divides g amax } requires { amax <= - mp - (cin - wak) + cout - s } requires { max 0 (wak - vakp) - mp - cin + cout <= amax }
    ensures { depx m0 wak vakp cin cout amax } = ()
  let ghost dep_bound (s g m0 mp wak vakp cin cout x: int) : unit
    requires { s > 0 } requires { g > 0 } requires { divides s g } requires { divides s wak } requires { divides s vakp } requires { divides s cin } requires { divides s cout } requires { divides s mp } requires { mp <= m0 < mp + s }
    requires { divides g x } requires { depx m0 wak vakp cin cout x }
    ensures { x <= - mp - (cin - wak) + cout - s } ensures { max 0 (wak - vakp) - mp - cin + cout <= x }
  = divides_trans s g x; divides_add s mp cin; divides_add s (mp + cin) x; divides_add s (mp + cin + x) cout;
    divides_self s; divides_add s wak vakp; max_mult s 0 (wak - vakp);
    let y = mp + cin + x - cout in
    let m = pure { max 0 (wak - vakp) } in
    if y < m then mult_step s y m;
    mult_step s y wak
  let ghost dep_iff (s g m0 mp wak vakp cin cout amin amax: int) : unit
    requires { s > 0 } requires { g > 0 } requires { divides s g } requires { divides s wak } requires { divides s vakp } requires { divides s cin } requires { divides s cout } requires { divides s mp } requires { mp <= m0 < mp + s }
    requires { divides g amax } requires { divides g amin }
    requires { amax <= - mp - (cin - wak) + cout - s < amax + g } requires { amin - g < max 0 (wak - vakp) - mp - cin + cout <= amin }
    ensures { forall a [isdep g m0 wak vakp cin cout a]. isdep g m0 wak vakp cin cout a <-> amin <= amax /\ a = amax }
  = isdep_def g m0 wak vakp cin cout;
    if amin <= amax then dep_exists s g m0 mp wak vakp cin cout amax;
    let lemma ub (x: int) requires { divides g x } requires { depx m0 wak vakp cin cout x } ensures { x <= amax /\ amin <= x }
    = dep_bound s g m0 mp wak vakp cin cout x; if x > amax then mult_step g amax x; if x < amin then mult_step g x amin in ()
  let ghost floor_rem (l g: int) : unit requires { g > 0 }
    ensures { cm l g >= 0 -> divides g (l - cm l g) /\ l - cm l g <= l < l - cm l g + g } ensures { cm l g <= 0 -> divides g (l - cm l g) /\ l <= l - cm l g < l + g }
    ensures { cm l g < 0 -> divides g (l - cm l g - g) /\ l - cm l g - g <= l < l - cm l g } ensures { cm l g > 0 -> divides g (l - cm l g + g) /\ l <= l - cm l g + g < l + g }
  = divides_cm l g; divides_self g; divides_add g (pure { l - cm l g }) g

  (* ---- graphs on which the analysis is defined *)
  predicate kp_ok (f: flow) = twf f.f_g.topo /\ f.repetitionvectorisdone /\
    (forall v [vertex_phasecount_ f v]. okv f v -> vertex_phasecount_ f v > 0 /\ vertex_initphasecount_ f v >= 0) /\
    (forall v [vertex_Ni_ f v]. okv f v -> vertex_Ni_ f v > 0) /\
    (forall v [vertex_phaseduration_ f v]. okv f v -> length (vertex_phaseduration_ f v) > 0) /\
    (forall v [vertex_initphaseduration_ f v]. okv f v -> length (vertex_initphaseduration_ f v) = vertex_initphasecount_ f v) /\
    (forall e [edge_inputs_ f e]. oke f e -> length (edge_inputs_ f e) = vertex_phasecount_ f (srcof f e)) /\
    (forall e [edge_outputs_ f e]. oke f e -> length (edge_outputs_ f e) = vertex_phasecount_ f (dstof f e)) /\
    (forall e [edge_init_inputs_ f e]. oke f e -> length (edge_init_inputs_ f e) = vertex_initphasecount_ f (srcof f e)) /\
    (forall e [edge_init_outputs_ f e]. oke f e -> length (edge_init_outputs_ f e) = vertex_initphasecount_ f (dstof f e)) /\
    (forall e [edge_total_input_ f e]. oke f e -> edge_total_input_ f e > 0 /\ edge_total_input_ f e = vsum (edge_inputs_ f e) (length (edge_inputs_ f e))) /\
    (forall e [edge_total_output_ f e]. oke f e -> edge_total_output_ f e > 0 /\ edge_total_output_ f e = vsum (edge_outputs_ f e) (length (edge_outputs_ f e)))
  (* common divisor of all the rates of a channel *)
  predicate ratesd (d: int) (ini per: vec int) (k: int) = forall p [rate ini per p]. 1 - length ini <= p < k -> divides d (rate ini per p)
  predicate fined (f: flow) (e d: int) = ratesd d (edge_init_inputs_ f e) (edge_inputs_ f e) (length (edge_inputs_ f e) + 1) /\ ratesd d (edge_init_outputs_ f e) (edge_outputs_ f e) (length (edge_outputs_ f e) + 1)
  let rec ghost vsum_div (d: int) (v: vec int) (n: int) : unit requires { 0 <= n <= length v } requires { forall i. 0 <= i < n -> divides d (get v i) } ensures { divides d (vsum v n) } variant { n }
  = if n > 0 then begin vsum_div d v (n - 1); divides_add d (pure { vsum v (n - 1) }) (pure { get v (n - 1) }) end else divides_self d
  let ghost rates_split (d: int) (ini per: vec int) : unit requires { ratesd d ini per (length per + 1) }
    ensures { forall i. 0 <= i < length per -> divides d (get per i) } ensures { forall i. 0 <= i < length ini -> divides d (get ini i) }
  = assert { forall i. 0 <= i < length per -> get per i = rate ini per (i + 1) }; assert { forall i. 0 <= i < length ini -> get ini i = rate ini per (i + 1 - length ini) }
  let ghost before_div (d: int) (ini per: vec int) (tot k p: int) : unit requires { ratesd d ini per (length per + 1) } requires { tot = vsum per (length per) } requires { 1 - length ini <= p <= length per + 1 }
    ensures { divides d (before ini per tot k p) }
  = rates_split d ini per; before_def ini per tot k p;
    if p > 0 then begin vsum_div d ini (vlen ini); vsum_div d per (vlen per); vsum_div d per (p - 1); divides_mul d tot (k - 1);
        divides_add d (pure { vsum ini (length ini) }) ((k - 1) * tot); divides_add d (pure { vsum ini (length ini) + (k - 1) * tot }) (pure { vsum per (p - 1) }) end
    else vsum_div d ini (vlen ini + p - 1)
  let ghost zero_div (a: int) : unit requires { divides 0 a } ensures { a = 0 }
  = if a > 0 then begin divides_self (a + 1); divides_trans (a + 1) 0 a; divides_le (a + 1) a end;
    if a < 0 then begin divides_self (1 - a); divides_mul 0 a (-1); divides_trans (1 - a) 0 (a * (-1)); divides_le (1 - a) (a * (-1)) end
  let ghost fine_pos (ini per: vec int) (g: int) : unit requires { g >= 0 } requires { ratesd g ini per (length per + 1) } requires { vsum per (length per) > 0 } ensures { g > 0 }
  = rates_split g ini per; vsum_div g per (vlen per); if g = 0 then zero_div (pure { vsum per (length per) })
  let ghost divides_gcd_all (a b: int) : unit ensures { forall d. divides d a -> divides d b -> divides d (gcd a b) }
  = let lemma aux (d: int) requires { divides d a } requires { divides d b } ensures { divides d (gcd a b) } = gcd_great a b d in ()
  let ghost divides_up_all (a b: int) : unit requires { divides a b } ensures { forall c [divides b c | divides a c]. divides b c -> divides a c }
  = let lemma aux (c: int) requires { divides b c } ensures { divides a c } = divides_trans a b c in ()
  predicate isfine (f: flow) (e g: int) = g >= 0 /\ fined f e g /\ forall d. fined f e d -> divides d g
  predicate fine_cache (f: flow) = forall e [mhas f.channelGCDA (edge_index_ f e)]. oke f e -> mhas f.channelGCDA (edge_index_ f e) -> isfine f e (mfind f.channelGCDA (edge_index_ f e))
  predicate kvec (f: flow) (m: fmap int int) = forall v [mfind m v]. okv f v -> mhas m v /\ mfind m v > 0
  predicate has_events (f: flow) (m: fmap int int) (h: egraph) (v: int) = forall p k [hase h (vertex_index2_ f v) p k].
    1 <= k <= mfind m v -> (if k = 1 then 1 - vertex_initphasecount_ f v else 1) <= p <= vertex_phasecount_ f v -> hase h (vertex_index2_ f v) p k

  (* the vertex of an event *)
  function evm (m: fmap sevent int) (t p n: int) : int
  axiom evm_def : forall g t p n [evn g t p n]. evn g t p n = evm g.eg_map t p n
  (* ---- the precedence constraints of a channel *)
  function vdur (f: flow) (v p: int) : real = if p > 0 then get (vertex_phaseduration_ f v) (cm (p - 1) (length (vertex_phaseduration_ f v))) else get (vertex_initphaseduration_ f v) (p + vertex_initphasecount_ f v - 1)
  function inb (f: flow) (c k p: int) : int = before (edge_init_inputs_ f c) (edge_inputs_ f c) (edge_total_input_ f c) k p
  function outb (f: flow) (c k p: int) : int = before (edge_init_outputs_ f c) (edge_outputs_ f c) (edge_total_output_ f c) k p
  function rin (f: flow) (c p: int) : int = rate (edge_init_inputs_ f c) (edge_inputs_ f c) p
  function rout (f: flow) (c p: int) : int = rate (edge_init_outputs_ f c) (edge_outputs_ f c) p
  function fin (f: flow) (c k: int) : int = firstp (edge_init_inputs_ f c) k
  function fout (f: flow) (c k: int) : int = firstp (edge_init_outputs_ f c) k
  function wc (f: flow) (m: fmap int int) (c: int) : int = edge_total_input_ f c * mfind m (srcof f c)
  function rc (f: flow) (m: fmap int int) (c: int) : int = edge_total_output_ f c * mfind m (dstof f c)
  (* the distance of a constraint, in periods of the whole graph, for a difference of a tokens *)
  function wgt (a phi k w n: int) : real
  val ghost wgt_def (a phi k w n: int) : unit ensures { wgt a phi k w n = -. ((ri a *. ri phi *. ri k) /. (ri w *. ri n)) }
  function thecons (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj pj a: int) : cons =
    { c_s = evm h (vertex_index2_ f (srcof f c)) pi ki; c_t = evm h (vertex_index2_ f (dstof f c)) pj kj;
      c_w = wgt a (vertex_phasecount_ f (srcof f c)) (mfind m (srcof f c)) (wc f m c) (vertex_Ni_ f (srcof f c)); c_d = vdur f (srcof f c) pi; c_id = edge_index_ f c }
  (* x is the constraint between phase pi of execution ki and phase pj of execution kj *)
  predicate precc (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj pj: int) (x: cons)
  val ghost precc_def (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj pj: int) : unit
    ensures { forall x [precc f m h c ki pi kj pj x]. precc f m h c ki pi kj pj x <-> exists a. isdep (gcd (wc f m c) (rc f m c)) (edge_preload_ f c) (rin f c pi) (rout f c pj) (inb f c ki pi + rin f c pi) (outb f c kj pj + rout f c pj) a /\ x = thecons f m h c ki pi kj pj a }
  (* the constraints of the quadruples that come before, level by level *)
  predicate pc1 (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj pj: int) (x: cons)
  predicate pc2 (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj: int) (x: cons)
  predicate pc3 (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi: int) (x: cons)
  predicate pc4 (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki: int) (x: cons)
  val ghost pc1_def (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj pj: int) : unit
    ensures { forall x [pc1 f m h c ki pi kj pj x]. pc1 f m h c ki pi kj pj x <-> exists q. fout f c kj <= q < pj /\ precc f m h c ki pi kj q x }
  val ghost pc2_def (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj: int) : unit
    ensures { forall x [pc2 f m h c ki pi kj x]. pc2 f m h c ki pi kj x <-> exists q. 1 <= q < kj /\ pc1 f m h c ki pi q (length (edge_outputs_ f c) + 1) x }
  val ghost pc3_def (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi: int) : unit
    ensures { forall x [pc3 f m h c ki pi x]. pc3 f m h c ki pi x <-> exists q. fin f c ki <= q < pi /\ pc2 f m h c ki q (mfind m (dstof f c) + 1) x }
  val ghost pc4_def (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki: int) : unit
    ensures { forall x [pc4 f m h c ki x]. pc4 f m h c ki x <-> exists q. 1 <= q < ki /\ pc3 f m h c q (length (edge_inputs_ f c) + 1) x }
  (* all the constraints of a channel *)
  predicate chanc (f: flow) (m: fmap int int) (h: fmap sevent int) (c: int) (x: cons) = pc4 f m h c (mfind m (srcof f c) + 1) x
  let ghost pc1_step (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj pj: int) : unit requires { fout f c kj <= pj }
    ensures { forall x [pc1 f m h c ki pi kj (pj + 1) x]. pc1 f m h c ki pi kj (pj + 1) x <-> pc1 f m h c ki pi kj pj x \/ precc f m h c ki pi kj pj x } = pc1_def f m h c ki pi kj pj; pc1_def f m h c ki pi kj (pj + 1)
  let ghost pc2_step (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj: int) : unit requires { 1 <= kj }
    ensures { forall x [pc2 f m h c ki pi (kj + 1) x]. pc2 f m h c ki pi (kj + 1) x <-> pc2 f m h c ki pi kj x \/ pc1 f m h c ki pi kj (length (edge_outputs_ f c) + 1) x } = pc2_def f m h c ki pi kj; pc2_def f m h c ki pi (kj + 1)
  let ghost pc3_step (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi: int) : unit requires { fin f c ki <= pi }
    ensures { forall x [pc3 f m h c ki (pi + 1) x]. pc3 f m h c ki (pi + 1) x <-> pc3 f m h c ki pi x \/ pc2 f m h c ki pi (mfind m (dstof f c) + 1) x } = pc3_def f m h c ki pi; pc3_def f m h c ki (pi + 1)
  let ghost pc4_step (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki: int) : unit requires { 1 <= ki }
    ensures { forall x [pc4 f m h c (ki + 1) x]. pc4 f m h c (ki + 1) x <-> pc4 f m h c ki x \/ pc3 f m h c ki (length (edge_inputs_ f c) + 1) x } = pc4_def f m h c ki; pc4_def f m h c (ki + 1)
  let ghost pc1_first (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi kj: int) : unit ensures { forall x. not pc1 f m h c ki pi kj (fout f c kj) x } = pc1_def f m h c ki pi kj (pure { fout f c kj })
  let ghost pc2_first (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki pi: int) : unit ensures { forall x. not pc2 f m h c ki pi 1 x } = pc2_def f m h c ki pi 1
  let ghost pc3_first (f: flow) (m: fmap int int) (h: fmap sevent int) (c ki: int) : unit ensures { forall x. not pc3 f m h c ki (fin f c ki) x } = pc3_def f m h c ki (pure { fin f c ki })
  let ghost pc4_first (f: flow) (m: fmap int int) (h: fmap sevent int) (c: int) : unit ensures { forall x. not pc4 f m h c 1 x } = pc4_def f m h c 1
  let ghost chan_facts (f: flow) (m: fmap int int) (c g: int) : unit requires { kp_ok f } requires { kvec f m } requires { oke f c } requires { isfine f c g }
    ensures { g > 0 } ensures { wc f m c > 0 } ensures { rc f m c > 0 } ensures { gcd (wc f m c) (rc f m c) > 0 } ensures { divides g (gcd (wc f m c) (rc f m c)) }
  = fine_pos (pure { edge_init_inputs_ f c }) (pure { edge_inputs_ f c }) g;
    let a = pure { srcof f c } in let b = pure { dstof f c } in
    assert { okv f a /\ okv f b };
    let ti = pure { edge_total_input_ f c } in let to_ = pure { edge_total_output_ f c } in
    let ka = pure { mfind m a } in let kb = pure { mfind m b } in
    mul_sign ti ka; mul_sign to_ kb;
    rates_split g (pure { edge_init_inputs_ f c }) (pure { edge_inputs_ f c }); rates_split g (pure { edge_init_outputs_ f c }) (pure { edge_outputs_ f c });
    vsum_div g (pure { edge_inputs_ f c }) (pure { length (edge_inputs_ f c) }); vsum_div g (pure { edge_outputs_ f c }) (pure { length (edge_outputs_ f c) });
    divides_mul g ti ka; divides_mul g to_ kb; gcd_pos (ti * ka) (to_ * kb); gcd_great (ti * ka) (to_ * kb) g
  predicate tokens (f: flow) (m: fmap int int) (c g: int) = g > 0 /\ divides g (gcd (wc f m c) (rc f m c))
  (* the same facts for whatever number the real code computes as common divisor; that number is unique *)
  let ghost chan_tokens (f: flow) (m: fmap int int) (c: int) : unit requires { kp_ok f } requires { kvec f m } requires { oke f c }
    ensures { forall g [isfine f c g]. isfine f c g -> tokens f m c g } ensures { forall g h [isfine f c g, isfine f c h]. isfine f c g -> isfine f c h -> g = h }
    ensures { (exists g. isfine f c g) -> wc f m c > 0 /\ rc f m c > 0 /\ gcd (wc f m c) (rc f m c) > 0 }
  = let lemma aux (g: int) requires { isfine f c g } ensures { tokens f m c g } ensures { wc f m c > 0 /\ rc f m c > 0 /\ gcd (wc f m c) (rc f m c) > 0 } = chan_facts f m c g in
    let lemma uni (g h: int) requires { isfine f c g } requires { isfine f c h } ensures { g = h } = assert { divides g h /\ divides h g }; divides_le g h; divides_le h g in ()
  function lpmin (f: flow) (c ki pi kj pj mop: int) : int = max 0 (rin f c pi - rout f c pj) - mop - (inb f c ki pi + rin f c pi) + (outb f c kj pj + rout f c pj)
  let ghost prec_iff (f: flow) (m: fmap int int) (h: fmap sevent int) (c s ki pi kj pj mop amax: int) : unit
    requires { kp_ok f } requires { kvec f m } requires { oke f c } requires { isfine f c s } requires { 1 <= ki } requires { 1 <= kj }
    requires { fin f c ki <= pi <= length (edge_inputs_ f c) } requires { fout f c kj <= pj <= length (edge_outputs_ f c) }
    requires { divides s mop } requires { mop <= edge_preload_ f c < mop + s }
    requires { divides (gcd (wc f m c) (rc f m c)) amax } requires { amax <= - mop - inb f c ki pi + (outb f c kj pj + rout f c pj) - s < amax + gcd (wc f m c) (rc f m c) }
    ensures { lpmin f c ki pi kj pj mop <= amax -> forall x [precc f m h c ki pi kj pj x]. precc f m h c ki pi kj pj x <-> x = thecons f m h c ki pi kj pj amax }
    ensures { lpmin f c ki pi kj pj mop > amax -> forall x [precc f m h c ki pi kj pj x]. not precc f m h c ki pi kj pj x }
  = chan_facts f m c s; precc_def f m h c ki pi kj pj;
    let g = pure { gcd (wc f m c) (rc f m c) } in
    let ii = pure { edge_init_inputs_ f c } in let i = pure { edge_inputs_ f c } in let oi = pure { edge_init_outputs_ f c } in let o = pure { edge_outputs_ f c } in
    before_div s ii i (pure { edge_total_input_ f c }) ki pi; before_div s oi o (pure { edge_total_output_ f c }) kj pj;
    let wak = pure { rin f c pi } in let vakp = pure { rout f c pj } in
    assert { divides s wak /\ divides s vakp };
    divides_add s (pure { inb f c ki pi }) wak; divides_add s (pure { outb f c kj pj }) vakp;
    let l = pure { lpmin f c ki pi kj pj mop } in
    floor_rem l g;
    let r = pure { cm l g } in
    let amin = if r <= 0 then l - r else l - r + g in
    dep_iff s g (pure { edge_preload_ f c }) mop wak vakp (pure { inb f c ki pi + rin f c pi }) (pure { outb f c kj pj + rout f c pj }) amin amax;
    if amin > amax then mult_step g amax amin
  let ghost neg_div (a b: real) : unit requires { b <> 0.0 } ensures { -. ((-. a) /. b) = a /. b } = ()
  let ghost rnz (a b: int) : unit requires { a <> 0 } requires { b <> 0 } ensures { ri a *. ri b <> 0.0 } = assert { ri a <> 0.0 }; assert { ri b <> 0.0 }

  (* ---- the order of the phases of one task *)
  function fph (f: flow) (v k: int) : int = if k = 1 then 1 - vertex_initphasecount_ f v else 1
  function sdur (f: flow) (v p: int) : real = if vertex_reentrancy_ f v <= 0 then 0.0 else vdur f v p
  function prevp (f: flow) (v k p: int) : int = if p > fph f v k then p - 1 else vertex_phasecount_ f v
  function prevk (f: flow) (v k p: int) : int = if p > fph f v k then k else k - 1
  predicate phv (f: flow) (v n k p: int) = 1 <= k <= n /\ fph f v k <= p <= vertex_phasecount_ f v
  function linkc (f: flow) (h: fmap sevent int) (v k p: int) : cons = { c_s = evm h (vertex_index2_ f v) (prevp f v k p) (prevk f v k p); c_t = evm h (vertex_index2_ f v) p k; c_w = 0.0; c_d = sdur f v (prevp f v k p); c_id = 0 }
  function cwgt (phi k n: int) : real
  val ghost cwgt_def (phi k n: int) : unit ensures { cwgt phi k n = ri (phi * k) /. ri n }
  function closec (f: flow) (h: fmap sevent int) (v n: int) : cons = { c_s = evm h (vertex_index2_ f v) (vertex_phasecount_ f v) n; c_t = evm h (vertex_index2_ f v) 1 1; c_w = cwgt (vertex_phasecount_ f v) n (vertex_Ni_ f v); c_d = sdur f v (vertex_phasecount_ f v); c_id = 0 }
  predicate upto (k p k2 p2: int) = k < k2 \/ (k = k2 /\ p <= p2)
  (* the links up to phase p2 of execution k2 *)
  predicate linkset (f: flow) (h: fmap sevent int) (v n k2 p2: int) (x: cons)
  val ghost linkset_def (f: flow) (h: fmap sevent int) (v n k2 p2: int) : unit
    ensures { forall x [linkset f h v n k2 p2 x]. linkset f h v n k2 p2 x <-> exists k p. phv f v n k p /\ not (k = 1 /\ p = fph f v 1) /\ upto k p k2 p2 /\ x = linkc f h v k p }
  let ghost link_first (f: flow) (h: fmap sevent int) (v n: int) : unit requires { vertex_initphasecount_ f v >= 0 } ensures { forall x. not linkset f h v n 1 (fph f v 1) x } = linkset_def f h v n 1 (pure { fph f v 1 })
  let ghost link_next (f: flow) (h: fmap sevent int) (v n k p: int) : unit requires { phv f v n k p } requires { vertex_initphasecount_ f v >= 0 } requires { p < vertex_phasecount_ f v }
    ensures { forall x. linkset f h v n k (p + 1) x <-> linkset f h v n k p x \/ x = linkc f h v k (p + 1) } = linkset_def f h v n k p; linkset_def f h v n k (p + 1)
  let ghost link_wrap (f: flow) (h: fmap sevent int) (v n k: int) : unit requires { 1 <= k <= n } requires { vertex_initphasecount_ f v >= 0 } requires { vertex_phasecount_ f v > 0 }
    ensures { forall x. linkset f h v n (k + 1) 1 x <-> linkset f h v n k (vertex_phasecount_ f v) x \/ (k + 1 <= n /\ x = linkc f h v (k + 1) 1) } = linkset_def f h v n k (pure { vertex_phasecount_ f v }); linkset_def f h v n (k + 1) 1
  (* the constraints that order the phases of a task executed n times *)
  predicate selfc (f: flow) (h: fmap sevent int) (v n: int) (x: cons) = linkset f h v n (n + 1) 1 x \/ (vertex_reentrancy_ f v > 0 /\ x = closec f h v n)
  (* ---- all the events *)
  predicate ids_distinct (f: flow) = forall u v [vertex_index2_ f u, vertex_index2_ f v]. okv f u -> okv f v -> vertex_index2_ f u = vertex_index2_ f v -> u = v
  (* the executions of the phases of the first n tasks *)
  predicate evset (f: flow) (m: fmap int int) (n t p k: int)
  val ghost evset_def (f: flow) (m: fmap int int) (n: int) : unit ensures { forall t p k [evset f m n t p k]. evset f m n t p k <-> exists v. 0 <= v < n /\ t = vertex_index2_ f v /\ phv f v (mfind m v) k p }
  let ghost evset_first (f: flow) (m: fmap int int) : unit ensures { forall t p k. not evset f m 0 t p k } = evset_def f m 0
  let ghost evset_step (f: flow) (m: fmap int int) (v: int) : unit requires { 0 <= v }
    ensures { forall t p k [evset f m (v + 1) t p k]. evset f m (v + 1) t p k <-> evset f m v t p k \/ (t = vertex_index2_ f v /\ phv f v (mfind m v) k p) } = evset_def f m v; evset_def f m (v + 1)
  let ghost evset_new (f: flow) (m: fmap int int) (v: int) : unit requires { ids_distinct f } requires { okv f v }
    ensures { forall t p k [evset f m v t p k]. evset f m v t p k -> t <> vertex_index2_ f v } = evset_def f m v
  let ghost evset_has (f: flow) (m: fmap int int) (v: int) : unit requires { okv f v }
    ensures { forall p k [evset f m f.f_g.topo.nv (vertex_index2_ f v) p k]. phv f v (mfind m v) k p -> evset f m f.f_g.topo.nv (vertex_index2_ f v) p k } = evset_def f m (pure { f.f_g.topo.nv })
  (* every event of the graph is the execution of exactly one phase *)
  predicate allev (g: egraph) = forall u [evof g u]. eokv g u -> mhas g.eg_map (evof g u) /\ mfind g.eg_map (evof g u) = u
  let ghost add_event (g0 g: egraph) (t p k: int) : unit requires { ewf g0 } requires { allev g0 } requires { not hase g0 t p k }
    requires { g.eg_map = madd g0.eg_map { se_t = t; se_p = p; se_n = k } g0.eg_g.etopo.nv } requires { g.eg_g.etopo.nv = g0.eg_g.etopo.nv + 1 } requires { evof g g0.eg_g.etopo.nv = { se_t = t; se_p = p; se_n = k } }
    requires { forall v [evof g v]. v <> g0.eg_g.etopo.nv -> evof g v = evof g0 v }
    ensures { allev g } ensures { forall t2 p2 k2 [hase g t2 p2 k2]. hase g t2 p2 k2 <-> hase g0 t2 p2 k2 \/ (t2 = t /\ p2 = p /\ k2 = k) }
  = ()
  (* ---- all the constraints *)
  predicate selfs (f: flow) (m: fmap int int) (h: fmap sevent int) (n: int) (x: cons)
  val ghost selfs_def (f: flow) (m: fmap int int) (h: fmap sevent int) (n: int) : unit ensures { forall x [selfs f m h n x]. selfs f m h n x <-> exists v. 0 <= v < n /\ selfc f h v (mfind m v) x }
  predicate chans (f: flow) (m: fmap int int) (h: fmap sevent int) (n: int) (x: cons)
  val ghost chans_def (f: flow) (m: fmap int int) (h: fmap sevent int) (n: int) : unit ensures { forall x [chans f m h n x]. chans f m h n x <-> exists i. 0 <= i < n /\ chanc f m h (get f.f_g.topo.edges i) x }
  let ghost selfs_step (f: flow) (m: fmap int int) (h: fmap sevent int) (v: int) : unit requires { 0 <= v }
    ensures { forall x [selfs f m h (v + 1) x]. selfs f m h (v + 1) x <-> selfs f m h v x \/ selfc f h v (mfind m v) x } = selfs_def f m h v; selfs_def f m h (v + 1)
  let ghost chans_step (f: flow) (m: fmap int int) (h: fmap sevent int) (i: int) : unit requires { 0 <= i }
    ensures { forall x [chans f m h (i + 1) x]. chans f m h (i + 1) x <-> chans f m h i x \/ chanc f m h (get f.f_g.topo.edges i) x } = chans_def f m h i; chans_def f m h (i + 1)
  let ghost sums_first (f: flow) (m: fmap int int) (h: fmap sevent int) : unit ensures { forall x. not selfs f m h 0 x /\ not chans f m h 0 x } = selfs_def f m h 0; chans_def f m h 0
"""
VSD, ESD = "(vrange dataflow.f_g.topo.nv)", "dataflow.f_g.topo.edges"
FNS = [D.FL[k] for k in GET] + [E.FL[k] for k in E.BASE]
CF = copy.copy([f for f in C02.PROP.fns if f.why == 'cfloor'][0])
FNS += [CF,
    F("computeFineGCD", "models::Dataflow::computeFineGCD(", "df", cls="flow", filt="models::Dataflow::", requires=["oke this c", "length (edge_inputs_ this c) > 0"], ensures=[("greatest_common_divisor_of_all_rates", "isfine this c result")],
      loops={1: dict(inv=[("range", "1 - length (edge_init_inputs_ this c) <= k <= length (edge_inputs_ this c) + 1"), ("positive", "k > 1 - length (edge_init_inputs_ this c) -> channelGCD >= 0"), ("divides", "ratesd channelGCD (edge_init_inputs_ this c) (edge_inputs_ this c) k"),
                          ("greatest", "forall d. fined this c d -> divides d channelGCD")], variant="length (edge_inputs_ this c) + 1 - k",
                     begin=["let r = pure { rate (edge_init_inputs_ this c) (edge_inputs_ this c) k } in gcd_div channelGCD r; divides_gcd_all channelGCD r; divides_up_all (pure { gcd channelGCD r }) channelGCD;"]),
             2: dict(inv=[("range", "1 - length (edge_init_outputs_ this c) <= k <= length (edge_outputs_ this c) + 1"), ("positive", "channelGCD >= 0"), ("divides", "ratesd channelGCD (edge_init_outputs_ this c) (edge_outputs_ this c) k"),
                          ("divides inputs", "ratesd channelGCD (edge_init_inputs_ this c) (edge_inputs_ this c) (length (edge_inputs_ this c) + 1)"),
                          ("greatest", "forall d. fined this c d -> divides d channelGCD")], variant="length (edge_outputs_ this c) + 1 - k",
                     begin=["let r = pure { rate (edge_init_outputs_ this c) (edge_outputs_ this c) k } in gcd_div channelGCD r; divides_gcd_all channelGCD r; divides_up_all (pure { gcd channelGCD r }) channelGCD;"])},
      hooks={("decl", "channelGCD"): ["assert { channelGCD = rate (edge_init_inputs_ this c) (edge_inputs_ this c) 1 }; assert { forall d. fined this c d -> divides d (rate (edge_init_inputs_ this c) (edge_inputs_ this c) 1) };"]}),
    F("getFineGCD", "models::Dataflow::getFineGCD(Edge) const", "df", cls="flow", name="getFineGCD", filt="models::Dataflow::", requires=["oke this c", "length (edge_inputs_ this c) > 0", "fine_cache this"], ensures=[("greatest_common_divisor_of_all_rates", "isfine this c result")]),
    F("generateKPeriodicConstraint", "algorithms::generateKPeriodicConstraint(", "kp", 
      requires=["kp_ok dataflow", "fine_cache dataflow", "kvec dataflow kValues", "oke dataflow c", "ewf g", "has_events dataflow kValues g (srcof dataflow c)", "has_events dataflow kValues g (dstof dataflow c)"],
      ensures=[("exactly_the_precedence_constraints", "forall x [hasc g x]. hasc g x <-> hasc (old g) x \\/ chanc dataflow kValues (old g).eg_map c x"), ("same_events", "same_events (old g) g"), ("well_formed", "ewf g")],
      entry=["let g0 = g in let h0 = g.eg_map in chan_tokens dataflow kValues c; before_first (pure { edge_init_inputs_ dataflow c }) (pure { edge_inputs_ dataflow c }) (pure { edge_total_input_ dataflow c }); before_first (pure { edge_init_outputs_ dataflow c }) (pure { edge_outputs_ dataflow c }) (pure { edge_total_output_ dataflow c });",
             "pc4_first dataflow kValues h0 c;"],
      hooks={("decl", "lpimin"): ["floor_rem lpimax gcdz; prec_iff dataflow kValues h0 c stepa ki pi kj pj mop alphamax; rnz v_Wc (pure { vertex_Ni_ dataflow source });"],
             ("call", "addEventConstraint"): ["let gb = g in let th = pure { thecons dataflow kValues h0 c ki pi kj pj alphamax } in assert { source_event = th.c_s }; assert { target_event = th.c_t }; assert { d = th.c_d }; assert { id = th.c_id }; assert { v_Wc = wc dataflow kValues c };", "assert { w = (ri alphamax *. ri source_phase_count *. ri maxki) /. (ri v_Wc *. ri (vertex_Ni_ dataflow source)) }; assert { th.c_w = wgt alphamax source_phase_count maxki v_Wc (vertex_Ni_ dataflow source) };", "wgt_def alphamax source_phase_count maxki v_Wc (pure { vertex_Ni_ dataflow source }); assert { -. w = th.c_w };"], ("called", "addEventConstraint"): ["assert { plus_c gb g th };"],
             ("decl", "alphamin"): ["floor_rem lpimin gcdz; if alphamin > alphamax then mult_step gcdz alphamax alphamin;"]},
      loops={1: dict(inv=[("range", "1 <= ki <= maxki + 1"), ("events", "ewf g /\\ same_events g0 g"), ("tokens", "normdapk = inb dataflow c ki (fin dataflow c ki) /\\ normdapkm1 = normdapk"), ("constraints", "forall x [hasc g x]. hasc g x <-> hasc g0 x \\/ pc4 dataflow kValues h0 c ki x")], variant="maxki + 1 - ki",
                     begin=["pc3_first dataflow kValues h0 c ki; pc4_step dataflow kValues h0 c ki; before_wrap (pure { edge_init_inputs_ dataflow c }) (pure { edge_inputs_ dataflow c }) (pure { edge_total_input_ dataflow c }) ki; let g1 = g in"]),
             2: dict(inv=[("range", "fin dataflow c ki <= pi <= source_phase_count + 1"), ("events", "ewf g /\\ same_events g0 g"), ("tokens", "normdapk = inb dataflow c ki pi /\\ normdapkm1 = normdapk"), ("constraints", "forall x [hasc g x]. hasc g x <-> hasc g1 x \\/ pc3 dataflow kValues h0 c ki pi x")], variant="source_phase_count + 1 - pi",
                     begin=["pc2_first dataflow kValues h0 c ki pi; pc3_step dataflow kValues h0 c ki pi; before_next (pure { edge_init_inputs_ dataflow c }) (pure { edge_inputs_ dataflow c }) (pure { edge_total_input_ dataflow c }) ki pi; let g2 = g in"]),
             3: dict(inv=[("range", "1 <= kj <= maxkj + 1"), ("events", "ewf g /\\ same_events g0 g"), ("tokens", "normdamkp = outb dataflow c kj (fout dataflow c kj)"), ("constraints", "forall x [hasc g x]. hasc g x <-> hasc g2 x \\/ pc2 dataflow kValues h0 c ki pi kj x")], variant="maxkj + 1 - kj",
                     begin=["pc1_first dataflow kValues h0 c ki pi kj; pc2_step dataflow kValues h0 c ki pi kj; before_wrap (pure { edge_init_outputs_ dataflow c }) (pure { edge_outputs_ dataflow c }) (pure { edge_total_output_ dataflow c }) kj; let g3 = g in"]),
             4: dict(inv=[("range", "fout dataflow c kj <= pj <= target_phase_count + 1"), ("events", "ewf g /\\ same_events g0 g"), ("tokens", "normdamkp = outb dataflow c kj pj"), ("constraints", "forall x [hasc g x]. hasc g x <-> hasc g3 x \\/ pc1 dataflow kValues h0 c ki pi kj pj x")], variant="target_phase_count + 1 - pj",
                     begin=["pc1_step dataflow kValues h0 c ki pi kj pj; before_next (pure { edge_init_outputs_ dataflow c }) (pure { edge_outputs_ dataflow c }) (pure { edge_total_output_ dataflow c }) kj pj;"]),
             }),
    F("generateKperiodicSelfloop", "algorithms::generateKperiodicSelfloop(", "kp", inout=("g",),
      requires=["kp_ok dataflow", "okv dataflow t", "ewf g", "ki > 0", "forall p k. phv dataflow t ki k p -> hase g (vertex_index2_ dataflow t) p k"],
      ensures=[("exactly_the_phase_order", "forall x [hasc g x]. hasc g x <-> hasc (old g) x \\/ selfc dataflow (old g).eg_map t ki x"), ("same_events", "same_events (old g) g"), ("well_formed", "ewf g")],
      entry=["let g0 = g in let h0 = g.eg_map in assert { phv dataflow t ki 1 (fph dataflow t 1) }; link_first dataflow h0 t ki;"],
      hooks={("call", "addEventConstraint"): ["let gb = g in"],
             ("called", "addEventConstraint", 1): ["let th = pure { linkc dataflow h0 t i p } in assert { source_event = th.c_s /\\ target_event = th.c_t /\\ d = th.c_d /\\ w = th.c_w }; assert { plus_c gb g th };"],
             ("called", "addEventConstraint", 2): ["let th = pure { closec dataflow h0 t ki } in cwgt_def p__2 ki (pure { vertex_Ni_ dataflow t }); neg_div (pure { ri (p__2 * ki) }) (pure { ri (vertex_Ni_ dataflow t) }); assert { source_event__2 = th.c_s }; assert { target_event__2 = th.c_t }; assert { d = th.c_d }; assert { -. w = th.c_w }; assert { plus_c gb g th };"]},
      loops={1: dict(inv=[("range", "1 <= i <= ki + 1 /\\ (i <= ki -> phv dataflow t ki i p) /\\ (i = ki + 1 -> p = 1)"), ("events", "ewf g /\\ same_events g0 g"), ("last event", "i <= ki -> source_event = evn g0 task_id p i /\\ lti = sdur dataflow t p"),
                          ("links", "forall x [hasc g x]. hasc g x <-> hasc g0 x \\/ linkset dataflow h0 t ki i p x")], variant="ki + 1 - i, pq - p",
                     begin=["if p < pq then link_next dataflow h0 t ki i p; if p = pq then link_wrap dataflow h0 t ki i; let i0 = i in let p0 = p in"])}),
    F("generateKPeriodicEventGraph", "algorithms::generateKPeriodicEventGraph(", "kp",
      requires=["kp_ok dataflow", "ids_distinct dataflow", "fine_cache dataflow", "kvec dataflow kValues"],
      ensures=[("one_event_per_phase_execution", "(forall t p k [hase result t p k]. hase result t p k <-> evset dataflow kValues dataflow.f_g.topo.nv t p k) /\\ allev result /\\ ewf result"),
               ("exactly_the_constraints", "forall x [hasc result x]. hasc result x <-> selfs dataflow kValues result.eg_map dataflow.f_g.topo.nv x \\/ chans dataflow kValues result.eg_map (length dataflow.f_g.topo.edges) x")],
      hooks={("called", "generateKperiodicSelfloop"): ["assert { forall x [hasc g x]. hasc g x <-> selfs dataflow kValues h pTaskcount.it_pos x \\/ selfc dataflow h pTask (mfind kValues pTask) x };"],
             ("called", "generateKPeriodicConstraint"): ["assert { forall x [hasc g x]. hasc g x <-> selfs dataflow kValues h dataflow.f_g.topo.nv x \\/ chans dataflow kValues h ccount.it_pos x \\/ chanc dataflow kValues h c x };"],
             ("decl", "g"): ["evset_first dataflow kValues; assert { forall x. not hasc g x }; assert { forall t p k. not hase g t p k }; assert { allev g };"],
             ("decl", "pTask"): ["let hg = g in let h = g.eg_map in sums_first dataflow kValues h;"]},
      loops={1: dict(inv=D.each("t", VSD) + [("events", "ewf g /\\ allev g /\\ forall t p k [hase g t p k]. hase g t p k <-> evset dataflow kValues tcount.it_pos t p k"), ("no constraint", "forall x. not hasc g x")], variant=D.evar("t", VSD),
                     begin=["assert { okv dataflow t }; assert { vertex_phasecount_ dataflow t > 0 }; assert { mfind kValues t > 0 }; evset_step dataflow kValues t; evset_new dataflow kValues t; let g1 = g in let pos = tcount.it_pos in let t0_ = t in "],
                     end=["assert { forall q p k [hase g q p k]. hase g q p k <-> hase g1 q p k \\/ (q = tid /\\ phv dataflow t (mfind kValues t) k p) }; assert { forall q p k [hase g q p k]. hase g q p k <-> evset dataflow kValues (t + 1) q p k };"], last=["assert { tcount.it_pos = t0_ + 1 };"]),
             2: dict(inv=[("range", "1 <= i <= init_phase_count + 1"), ("events", "ewf g /\\ allev g /\\ forall t p k [hase g t p k]. hase g t p k <-> hase g1 t p k \\/ (t = tid /\\ k = 1 /\\ 2 - i <= p <= 0)"), ("no constraint", "forall x. not hasc g x")], variant="init_phase_count + 1 - i",
                     begin=["let gb = g in"], end=["add_event gb g tid (1 - i) 1;"]),
             3: dict(inv=[("range", "1 <= j <= mfind kValues t + 1"), ("events", "ewf g /\\ allev g /\\ forall t p k [hase g t p k]. hase g t p k <-> hase g1 t p k \\/ (t = tid /\\ k = 1 /\\ 1 - init_phase_count <= p <= 0) \\/ (t = tid /\\ 1 <= k < j /\\ 1 <= p <= periodic_phase_count)"), ("no constraint", "forall x. not hasc g x")], variant="mfind kValues t + 1 - j"),
             4: dict(inv=[("range", "1 <= i <= periodic_phase_count + 1"), ("events", "ewf g /\\ allev g /\\ forall t p k [hase g t p k]. hase g t p k <-> hase g1 t p k \\/ (t = tid /\\ k = 1 /\\ 1 - init_phase_count <= p <= 0) \\/ (t = tid /\\ 1 <= k < j /\\ 1 <= p <= periodic_phase_count) \\/ (t = tid /\\ k = j /\\ 1 <= p < i)"), ("no constraint", "forall x. not hasc g x")], variant="periodic_phase_count + 1 - i",
                     begin=["let gb = g in"], end=["add_event gb g tid i j;"]),
             5: dict(inv=D.each("pTask", VSD) + [("events", "ewf g /\\ same_events hg g"), ("constraints", "forall x [hasc g x]. hasc g x <-> selfs dataflow kValues h pTaskcount.it_pos x")], variant=D.evar("pTask", VSD),
                     begin=["assert { okv dataflow pTask }; assert { mfind kValues pTask > 0 }; selfs_step dataflow kValues h pTask; evset_has dataflow kValues pTask; let t0_ = pTask in "], end=["assert { pTaskcount.it_pos = pTask }; assert { forall x [hasc g x]. hasc g x <-> selfs dataflow kValues h (pTask + 1) x };"], last=["assert { pTaskcount.it_pos = t0_ + 1 };"]),
             6: dict(inv=D.each("c", ESD) + [("events", "ewf g /\\ same_events hg g"), ("constraints", "forall x [hasc g x]. hasc g x <-> selfs dataflow kValues h dataflow.f_g.topo.nv x \\/ chans dataflow kValues h ccount.it_pos x")], variant=D.evar("c", ESD),
                     begin=["let gb = g in chans_step dataflow kValues h ccount.it_pos; evset_has dataflow kValues (pure { srcof dataflow c }); evset_has dataflow kValues (pure { dstof dataflow c }); let p0_ = ccount.it_pos in"], end=["assert { forall x [hasc g x]. hasc g x <-> selfs dataflow kValues h dataflow.f_g.topo.nv x \\/ chans dataflow kValues h (p0_ + 1) x };"], last=["assert { ccount.it_pos = p0_ + 1 };"]),

             }),
]
PROP = Prop("C05", TU, FNS, classes=D.CLASSES | E.CLASSES | {"periodicity_vector_t": ("map", ("int",), ("int",)), "critical_circuit_t": ("set", ("int",))}, records=D.RECORDS + E.RECORDS, theory=THEORY, uses=("Graph",), builtins=E.BUILTINS, drop_calls=D.DROP,
   defaults={"fraction": "{ fn = 0; fd = 1 }"})
THEORIES = ("prelude.mlw",)
HARNESS = dict(src="C05.cpp", sources=["commons/verbose.cpp", "commons/commons.cpp", "models/Dataflow.cpp", "models/NoC.cpp", "models/repetition_vector.cpp", "models/EventGraph.cpp", "models/Scheduling.cpp", "algorithms/throughput/kperiodic.cpp", "algorithms/normalization.cpp"])
