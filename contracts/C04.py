"""Repetition vector."""
import copy
from vt.gen import Prop, F
from contracts import flow as D
from contracts import C01 as Q

TU = dict(Q.TU)
TU["df"] = D.TU
TU["rv"] = """#include <boost/assert.hpp>
#include <models/repetition_vector.cpp>
"""
GET = ["getEdges", "getVertices", "getEdgeSource", "getEdgeTarget", "getEdgeIn", "getEdgeOut", "getEdgeInPhasesCount", "getEdgeOutPhasesCount",
       "getPhasesQuantity", "has_repetition_vector", "set_read_only", "set_repetition_vector", "setNi"]
FRAC = ["fr_ctor", "fr_num", "fr_den", "fr_eq", "fr_mul", "op_ne", "op_mul"]
QF = {f.why: copy.copy(f) for f in Q.PROP.fns}


def restate(w, ens, hooks):
    """the C01 contract with its multiplications behind a name, proved again here for the same body"""
    f = QF[w]
    f.ensures = [e for e in f.ensures if e[0] == "normal"] + ens
    f.hooks = dict(f.hooks)
    f.hooks[("return",)] = list(f.hooks.get(("return",), [])) + hooks


restate("fr_ctor", [("value", "valq result.fn result.fd n d"), ("zero", "n = 0 -> result.fn = 0 /\\ result.fd = 1"), ("sign", "n > 0 -> d > 0 -> result.fn > 0")], ["if n = 0 then begin gcd_zero d; div_unique d d 1; div_unique 0 d 0 end; if n > 0 && d > 0 then pos_value this.fn this.fd n d; valq_def this.fn this.fd n d;"])
restate("fr_eq", [("exact", "result <-> this.fn = rhs.fn /\\ this.fd = rhs.fd")], [])
restate("op_ne", [("exact", "result <-> not (lhs.fn = rhs.fn /\\ lhs.fd = rhs.fd)")], [])
restate("fr_mul", [("value", "mulq this.fn this.fd (old this.fn) (old this.fd) rhs.fn rhs.fd")], ["mulq_def this.fn this.fd n0 d0 rhs.fn rhs.fd;"])
restate("op_mul", [("value", "mulq result.fn result.fd lhs.fn lhs.fd rhs.fn rhs.fd")], [])
OPQ = r"""
  (* equations between fractions, opaque so that they reach the solver only where a lemma needs them *)
  predicate valq (n d x y: int)
  val ghost valq_def (n d x y: int) : unit ensures { valq n d x y <-> n * y = x * d }
  predicate mulq (n d a b x y: int)
  val ghost mulq_def (n d a b x y: int) : unit ensures { mulq n d a b x y <-> n * (b * y) = (a * x) * d }
"""
THEORY = D.theory() + Q.PROP.theory + OPQ + r"""
  predicate rv_ok (f: flow) = twf f.f_g.topo /\ f.f_g.topo.nv > 0 /\
    (forall v [vertex_phasecount_ f v]. okv f v -> vertex_phasecount_ f v > 0) /\
    (forall e [edge_inputs_ f e]. oke f e -> length (edge_inputs_ f e) = vertex_phasecount_ f (srcof f e)) /\
    (forall e [edge_outputs_ f e]. oke f e -> length (edge_outputs_ f e) = vertex_phasecount_ f (dstof f e)) /\
    (forall e [edge_total_input_ f e]. oke f e -> edge_total_input_ f e >= 0) /\
    (forall e [edge_total_output_ f e]. oke f e -> edge_total_output_ f e >= 0)
  predicate phases (f: flow) (r: int) = forall v [vertex_phasecount_ f v]. okv f v -> divides (vertex_phasecount_ f v) r
  function frn (m: fmap int fraction) (v: int) : int
  function frd (m: fmap int fraction) (v: int) : int
  axiom frn_def : forall m v [frn m v]. frn m v = if mhas m v then (mfind m v).fn else 0
  axiom frd_def : forall m v [frd m v]. frd m v = if mhas m v then (mfind m v).fd else 1
  predicate fok (f: flow) (m: fmap int fraction) = (forall v [mfind m v]. mhas m v -> wf (mfind m v) /\ (mfind m v).fn >= 0) /\ (forall v [mhas m v]. mhas m v -> okv f v)
  predicate samer (m n: fmap int fraction) = forall v [frn n v | frn m v]. frn n v = frn m v /\ frd n v = frd m v
  lemma fok_add : forall f m k x [fok f (madd m k x)]. fok f m -> okv f k -> wf x -> x.fn >= 0 -> fok f (madd m k x)
  lemma fok_touch : forall f m k x [fok f (mtouch m k x)]. fok f m -> okv f k -> wf x -> x.fn >= 0 -> fok f (mtouch m k x)
  lemma touch_samer : forall m k x [mtouch m k x]. x.fn = 0 -> x.fd = 1 -> samer m (mtouch m k x)
  lemma touch_had : forall m: fmap int fraction, k x [mtouch m k x]. mhas m k -> mtouch m k x = m
  lemma samer_trans : forall m n p [samer m n, samer n p]. samer m n -> samer n p -> samer m p
  predicate onlyset (m p: fmap int fraction) (b: int) (q: fraction) = forall v [frn p v]. if v = b then frn p v = q.fn /\ frd p v = q.fd else frn p v = frn m v /\ frd p v = frd m v
  lemma add_onlyset : forall m n k x [samer m n, madd n k x]. samer m n -> onlyset m (madd n k x) k x
  lemma add_onlyset2 : forall m n k x [samer m n, madd n k x]. samer m n -> onlyset m (madd n k x) k (mfind (madd n k x) k)
  function rsrc (f: flow) (r e: int) : int = edge_total_input_ f e * cd r (length (edge_inputs_ f e))
  function rdst (f: flow) (r e: int) : int = edge_total_output_ f e * cd r (length (edge_outputs_ f e))
  predicate inc (f: flow) (e v: int) = srcof f e = v \/ dstof f e = v
  (* the relative firing rates known so far satisfy the balance equation of channel e *)
  predicate balq (an ad ra bn bd rb: int)
  val ghost balq_def (an ad ra bn bd rb: int) : unit ensures { balq an ad ra bn bd rb <-> (an * ra) * bd = (bn * rb) * ad }
  predicate ebal (f: flow) (r: int) (m: fmap int fraction) (e: int) =
    let a = srcof f e in let b = dstof f e in
    frn m a > 0 /\ frn m b > 0 /\ frd m a > 0 /\ frd m b > 0 /\ balq (frn m a) (frd m a) (rsrc f r e) (frn m b) (frd m b) (rdst f r e)
  predicate grows (m n: fmap int fraction) = forall v [frn n v | frd n v | frn m v]. frn m v > 0 -> frn n v = frn m v /\ frd n v = frd m v
  predicate closed (f: flow) (r: int) (m: fmap int fraction) (v: int) = forall e [srcof f e | dstof f e]. oke f e -> inc f e v -> ebal f r m e
  (* the vertices first reached between m and n have all their channels balanced *)
  predicate newclosed (f: flow) (r: int) (m n: fmap int fraction) = forall v [frn n v]. frn m v = 0 -> frn n v > 0 -> closed f r n v
  lemma onlyset_grows : forall m n k x [onlyset m n k x]. onlyset m n k x -> frn m k <= 0 -> grows m n
  lemma samer_grows : forall m n p [grows m n, samer n p]. grows m n -> samer n p -> grows m p
  lemma grows_bal : forall f r m n e [grows m n, ebal f r m e]. grows m n -> ebal f r m e -> ebal f r n e
  lemma grows_closed : forall f r m n v [grows m n, closed f r m v]. grows m n -> closed f r m v -> closed f r n v

  (* number of the first n vertices whose rate is not known *)
  function unk (m: fmap int fraction) (n: int) : int
  axiom unk_0 : forall m n. n <= 0 -> unk m n = 0
  axiom unk_s : forall m n. n > 0 -> unk m n = unk m (n-1) + (if frn m (n-1) > 0 then 0 else 1)
  let rec ghost unk_pos (m: fmap int fraction) (n: int) : unit ensures { unk m n >= 0 } variant { n } = if n > 0 then unk_pos m (n-1)
  let rec ghost unk_le (m p: fmap int fraction) (n: int) : unit requires { grows m p } ensures { unk p n <= unk m n } variant { n } = if n > 0 then unk_le m p (n-1)
  let rec ghost unk_lt (m p: fmap int fraction) (n v: int) : unit requires { grows m p } requires { 0 <= v < n } requires { frn m v <= 0 } requires { frn p v > 0 }
    ensures { unk p n < unk m n } variant { n }
  = if v = n - 1 then unk_le m p (n-1) else unk_lt m p (n-1) v

  let ghost pos_value (n d m e: int) : unit requires { d > 0 } requires { e > 0 } requires { m > 0 } requires { n * e = m * d } ensures { n > 0 }
  = mul_sign m d; if n <= 0 then mul_le n 0 e
  let ghost pos_value2 (n d an ad bn bd: int) : unit requires { d > 0 } requires { an > 0 } requires { ad > 0 } requires { bn > 0 } requires { bd > 0 } requires { n * (ad * bd) = (an * bn) * d } ensures { n > 0 }
  = mul_sign an bn; mul_sign ad bd; pos_value n d (an * bn) (ad * bd)
  (* the relative rates satisfy the balance equation when one end is computed from the other *)
  let ghost bal_fwd (an ad bn bd ra rb rn rd: int) : unit
    requires { an > 0 } requires { ad > 0 } requires { bd > 0 } requires { ra > 0 } requires { rb > 0 } requires { rd > 0 }
    requires { valq rn rd ra rb } requires { mulq bn bd an ad rn rd }
    ensures { bn > 0 } ensures { balq an ad ra bn bd rb } ensures { balq bn bd rb an ad ra }
  = valq_def rn rd ra rb; mulq_def bn bd an ad rn rd;
    pos_value rn rd ra rb; pos_value2 bn bd an ad rn rd;
    balq_def an ad ra bn bd rb; balq_def bn bd rb an ad ra; assert { (bn * (ad * rd)) * rb = ((an * rn) * bd) * rb };
    assert { ((an * rn) * bd) * rb = (an * bd) * (ra * rd) };
    assert { ((bn * rb) * ad) * rd = ((an * ra) * bd) * rd };
    mul_lt_cancel ((bn * rb) * ad) ((an * ra) * bd) rd

  let ghost divides_trans_all (b c: int) : unit requires { divides b c } ensures { forall a [divides a b]. divides a b -> divides a c }
  = let lemma aux (a: int) requires { divides a b } ensures { divides a c } = divides_trans a b c in ()
  let ghost divides_up_all (a b: int) : unit requires { divides a b } ensures { forall c [divides b c | divides a c]. divides b c -> divides a c }
  = let lemma aux (c: int) requires { divides b c } ensures { divides a c } = divides_trans a b c in ()
  let ghost divides_gcd_all (a b: int) : unit ensures { forall d. divides d a -> divides d b -> divides d (gcd a b) }
  = let lemma aux (d: int) requires { divides d a } requires { divides d b } ensures { divides d (gcd a b) } = gcd_great a b d in ()
  function rvq (f: flow) (x: int) (v: int) : int = cd x (vertex_phasecount_ f v)
  (* a * x = b * y *)
  predicate prodeq (a x b y: int)
  val ghost prodeq_def (a x b y: int) : unit ensures { prodeq a x b y <-> a * x = b * y }
  predicate rdivn (f: flow) (d: int) = forall v [vertex_Ni_ f v]. okv f v -> divides d (rvq f (vertex_Ni_ f v) v)
  predicate rdiv (f: flow) (m: fmap int int) (d: int) = forall v [mfind m v]. okv f v -> divides d (rvq f (mfind m v) v)
  (* the repetition vector: positive multiples of the phase counts that balance every channel, without common factor *)
  predicate rvec (f: flow) =
    (forall v. okv f v -> vertex_Ni_ f v > 0 /\ divides (vertex_phasecount_ f v) (vertex_Ni_ f v)) /\
    (forall e. oke f e -> prodeq (edge_total_input_ f e) (rvq f (vertex_Ni_ f (srcof f e)) (srcof f e)) (edge_total_output_ f e) (rvq f (vertex_Ni_ f (dstof f e)) (dstof f e))) /\
    (forall d [rdivn f d]. d > 0 -> rdivn f d -> d = 1)
  predicate scq (r d n l: int)
  val ghost scq_def (r d n l: int) : unit ensures { scq r d n l <-> r * d = n * l }
  predicate mulq3 (a b c: int)
  val ghost mulq3_def (a b c: int) : unit ensures { mulq3 a b c <-> a = b * c }
  let ghost scale_rate (n d l: int) : unit requires { n > 0 } requires { d > 0 } requires { l > 0 } requires { divides d l }
    ensures { scq (cd (n * l) d) d n l } ensures { cd (n * l) d > 0 }
  = divides_elim d l; let k = pure { cd l d } in
    scq_def (pure { cd (n * l) d }) d n l;
    assert { n * l = (n * k) * d }; div_unique (n * l) d (n * k);
    if k <= 0 then mul_le k 0 d; mul_sign n k
  let ghost divide_exact (x g: int) : unit requires { x > 0 } requires { g > 0 } requires { divides g x } ensures { mulq3 x (cd x g) g } ensures { cd x g > 0 }
  = divides_elim g x; mulq3_def x (pure { cd x g }) g; if pure { cd x g <= 0 } then mul_le (pure { cd x g }) 0 g
  let ghost sub_exact (x p s: int) : unit requires { x > 0 } requires { p > 0 } requires { s > 0 } requires { divides p x } requires { divides s (cd x p) }
    ensures { mulq3 x (cd x s) s } ensures { cd x s > 0 } ensures { divides p (cd x s) } ensures { mulq3 (cd x p) (cd (cd x s) p) s } ensures { cd (cd x s) p > 0 }
  = divide_exact x p; let y = pure { cd x p } in divide_exact y s; let z = pure { cd y s } in
    mulq3_def x y p; mulq3_def y z s;
    assert { x = (z * p) * s by y * p = (z * s) * p }; div_unique x s (z * p); divides_intro p z; div_unique (z * p) p z;
    mulq3_def x (z * p) s; mul_sign z p
  (* from the scaled rates to a balanced vector *)
  let ghost bal_scaled (an ad ra bn bd rb l xa xb: int) : unit requires { ad > 0 } requires { bd > 0 } requires { balq an ad ra bn bd rb } requires { scq xa ad an l } requires { scq xb bd bn l }
    ensures { xa * ra = xb * rb }
  = balq_def an ad ra bn bd rb; scq_def xa ad an l; scq_def xb bd bn l; mul_sign ad bd;
    assert { (xa * ra) * (ad * bd) = (xa * ad) * (ra * bd) = (an * l) * (ra * bd) = l * ((an * ra) * bd) };
    assert { (xb * rb) * (ad * bd) = (xb * bd) * (rb * ad) = (bn * l) * (rb * ad) = l * ((bn * rb) * ad) };
    mul_lt_cancel (xa * ra) (xb * rb) (ad * bd)
  let ghost bal_div (xa ra xb rb g ya yb: int) : unit requires { g > 0 } requires { xa * ra = xb * rb } requires { mulq3 xa ya g } requires { mulq3 xb yb g } ensures { ya * ra = yb * rb }
  = mulq3_def xa ya g; mulq3_def xb yb g; assert { (ya * ra) * g = xa * ra }; assert { (yb * rb) * g = xb * rb }; mul_lt_cancel (ya * ra) (yb * rb) g
  let ghost cd_mul (y r p: int) : unit requires { p > 0 } requires { divides p r } ensures { cd (y * r) p = y * cd r p }
  = divides_elim p r; let k = pure { cd r p } in assert { y * r = (y * k) * p }; div_unique (y * r) p (y * k)
  let ghost bal_edge (i o ka kb ya yb x3a x3b s wa wb: int) : unit requires { s > 0 } requires { ya * (i * ka) = yb * (o * kb) } requires { x3a = ya * ka } requires { x3b = yb * kb }
    requires { mulq3 x3a wa s } requires { mulq3 x3b wb s } ensures { i * wa = o * wb }
  = mulq3_def x3a wa s; mulq3_def x3b wb s; assert { (i * wa) * s = i * x3a = ya * (i * ka) }; assert { (o * wb) * s = o * x3b = yb * (o * kb) }; mul_lt_cancel (i * wa) (o * wb) s
  let ghost mul_unit (h q: int) : unit requires { h > 0 } requires { h * q = h } ensures { q = 1 } = mul_lt_cancel q 1 h
  predicate common (n: int) (x: int -> int) (d: int) = forall u. 0 <= u < n -> divides d (x u)
  (* m divides x * r for every x of a family without common divisor: it divides r *)
  let ghost family (m r n: int) (x: int -> int) : unit requires { m > 0 } requires { r > 0 } requires { forall u. 0 <= u < n -> divides m (x u * r) }
    requires { forall d [common n x d]. d > 0 -> common n x d -> d = 1 } ensures { divides m r }
  = gcd_pos m r; gcd_div m r; let h = pure { gcd m r } in divides_elim h m; divides_elim h r; let m1 = pure { cd m h } in let r1 = pure { cd r h } in
    gcd_scale h m1 r1; mul_unit h (pure { gcd m1 r1 }); assert { gcd m1 r1 = 1 };
    if m1 <= 0 then mul_le m1 0 h; 
    let lemma aux (u: int) requires { 0 <= u < n } ensures { divides m1 (x u) }
    = divides_elim m (pure { x u * r }); let q = pure { cd (x u * r) m } in
      assert { (x u * r1) * h = (q * m1) * h by (x u * r1) * h = x u * r = m * q = (h * m1) * q }; mul_lt_cancel (pure { x u * r1 }) (q * m1) h; divides_intro m1 q; assert { divides m1 (r1 * x u) };
      gauss m1 r1 (x u) in
    assert { m1 > 0 }; assert { common n x m1 }; assert { m1 = 1 }; assert { m = h }
  let ghost d_scale (d x g y: int) : unit requires { d > 0 } requires { g > 0 } requires { divides d x } requires { mulq3 y x g } ensures { divides (d * g) y } ensures { d * g > 0 }
  = mulq3_def y x g; mul_sign d g; divides_elim d x; let k = pure { cd x d } in assert { y = k * (d * g) }; divides_intro (d * g) k
  let ghost d_one (d g: int) : unit requires { d > 0 } requires { g > 0 } requires { divides (d * g) g } ensures { d = 1 }
  = divides_le (d * g) g; mul_lt_cancel d 1 g
  let ghost d_mul (d x2 r x3 p y3: int) : unit requires { p > 0 } requires { divides p x3 } requires { y3 = cd x3 p } requires { divides d y3 } requires { mulq3 x3 x2 r } ensures { divides d (x2 * r) }
  = mulq3_def x3 x2 r; divides_elim p x3; divides_mul d y3 p
  predicate rvm (f: flow) (m: fmap int int) =
    (forall v [mfind m v]. okv f v -> mfind m v > 0 /\ divides (vertex_phasecount_ f v) (mfind m v)) /\
    (forall e [edge_total_input_ f e]. oke f e -> prodeq (edge_total_input_ f e) (rvq f (mfind m (srcof f e)) (srcof f e)) (edge_total_output_ f e) (rvq f (mfind m (dstof f e)) (dstof f e))) /\
    (forall d [rdiv f m d]. d > 0 -> rdiv f m d -> d = 1)
  function fnd (m: fmap int int) : int -> int
  axiom fnd_def : forall m u [fnd m u]. fnd m u = mfind m u
  let ghost rv_common (f: flow) (g: int) (a1 a2: fmap int int) (d: int) : unit requires { g > 0 } requires { d > 0 } requires { common f.f_g.topo.nv (fnd a2) d }
    requires { forall u. okv f u -> mulq3 (mfind a1 u) (mfind a2 u) g } requires { forall d. (forall u. okv f u -> divides d (mfind a1 u)) -> divides d g } ensures { d = 1 }
  = let lemma aux (u: int) requires { okv f u } ensures { divides (d * g) (mfind a1 u) } = assert { divides d (fnd a2 u) }; d_scale d (pure { mfind a2 u }) g (pure { mfind a1 u }) in
    d_one d g
  let ghost rv_min (f: flow) (r g s: int) (a1 a2 a3 a4: fmap int int) (d: int) : unit
    requires { rv_ok f } requires { r > 0 } requires { g > 0 } requires { s > 0 } requires { d > 0 }
    requires { forall u. okv f u -> mulq3 (mfind a1 u) (mfind a2 u) g } requires { forall u. okv f u -> mulq3 (mfind a3 u) (mfind a2 u) r }
    requires { forall u. okv f u -> divides (vertex_phasecount_ f u) (mfind a3 u) /\ mulq3 (rvq f (mfind a3 u) u) (rvq f (mfind a4 u) u) s }
    requires { forall d. (forall u. okv f u -> divides d (mfind a1 u)) -> divides d g }
    requires { forall d. divides d r -> (forall u. okv f u -> divides d (rvq f (mfind a3 u) u)) -> divides d s }
    requires { forall u. okv f u -> divides d (rvq f (mfind a4 u) u) } ensures { d = 1 }
  = let lemma com (c: int) requires { c > 0 } requires { common f.f_g.topo.nv (fnd a2) c } ensures { c = 1 } = rv_common f g a1 a2 c in
    mul_sign d s;
    let lemma dv (u: int) requires { okv f u } ensures { divides (d * s) (rvq f (mfind a3 u) u) } ensures { divides (d * s) (fnd a2 u * r) }
    = d_scale d (pure { rvq f (mfind a4 u) u }) s (pure { rvq f (mfind a3 u) u });
      d_mul (d * s) (pure { mfind a2 u }) r (pure { mfind a3 u }) (pure { vertex_phasecount_ f u }) (pure { rvq f (mfind a3 u) u }) in
    family (d * s) r (pure { f.f_g.topo.nv }) (pure { fnd a2 });
    d_one d s
  let ghost rv_final (f: flow) (r l g s: int) (fr: fmap int fraction) (a1 a2 a3 a4: fmap int int) : unit
    requires { rv_ok f } requires { r > 0 } requires { g > 0 } requires { s > 0 } requires { phases f r }
    requires { forall e. oke f e -> ebal f r fr e } requires { forall u. okv f u -> scq (mfind a1 u) (frd fr u) (frn fr u) l }
    requires { forall u. okv f u -> mulq3 (mfind a1 u) (mfind a2 u) g } requires { forall u. okv f u -> mulq3 (mfind a3 u) (mfind a2 u) r }
    requires { forall u. okv f u -> mfind a4 u > 0 /\ divides (vertex_phasecount_ f u) (mfind a4 u) /\ mulq3 (rvq f (mfind a3 u) u) (rvq f (mfind a4 u) u) s }
    requires { forall d. (forall u. okv f u -> divides d (mfind a1 u)) -> divides d g }
    requires { forall d. divides d r -> (forall u. okv f u -> divides d (rvq f (mfind a3 u) u)) -> divides d s }
    ensures { rvm f a4 }
  = let lemma q3 (u: int) requires { okv f u } ensures { divides (vertex_phasecount_ f u) (mfind a3 u) } ensures { rvq f (mfind a3 u) u = mfind a2 u * cd r (vertex_phasecount_ f u) }
    = let p = pure { vertex_phasecount_ f u } in mulq3_def (pure { mfind a3 u }) (pure { mfind a2 u }) r; divides_mul p r (pure { mfind a2 u }); cd_mul (pure { mfind a2 u }) r p in
    let lemma bal (e: int) requires { oke f e } ensures { prodeq (edge_total_input_ f e) (rvq f (mfind a4 (srcof f e)) (srcof f e)) (edge_total_output_ f e) (rvq f (mfind a4 (dstof f e)) (dstof f e)) }
    = let a = pure { srcof f e } in let b = pure { dstof f e } in let ka = pure { cd r (vertex_phasecount_ f a) } in let kb = pure { cd r (vertex_phasecount_ f b) } in
      let i = pure { edge_total_input_ f e } in let o = pure { edge_total_output_ f e } in
      assert { okv f a }; assert { okv f b }; assert { ebal f r fr e };
      assert { length (edge_inputs_ f e) = vertex_phasecount_ f a }; assert { length (edge_outputs_ f e) = vertex_phasecount_ f b };
      assert { rsrc f r e = i * ka }; assert { rdst f r e = o * kb };
      bal_scaled (pure { frn fr a }) (pure { frd fr a }) (pure { rsrc f r e }) (pure { frn fr b }) (pure { frd fr b }) (pure { rdst f r e }) l (pure { mfind a1 a }) (pure { mfind a1 b });
      bal_div (pure { mfind a1 a }) (pure { rsrc f r e }) (pure { mfind a1 b }) (pure { rdst f r e }) g (pure { mfind a2 a }) (pure { mfind a2 b });
      bal_edge i o ka kb (pure { mfind a2 a }) (pure { mfind a2 b }) (pure { rvq f (mfind a3 a) a }) (pure { rvq f (mfind a3 b) b }) s (pure { rvq f (mfind a4 a) a }) (pure { rvq f (mfind a4 b) b });
      prodeq_def i (pure { rvq f (mfind a4 a) a }) o (pure { rvq f (mfind a4 b) b }) in
    let lemma mini (d: int) requires { d > 0 } requires { rdiv f a4 d } ensures { d = 1 } = rv_min f r g s a1 a2 a3 a4 d in
    assert { forall v [mfind a4 v]. okv f v -> mfind a4 v > 0 /\ divides (vertex_phasecount_ f v) (mfind a4 v) }
  let ghost rvec_of (f0 f: flow) (m: fmap int int) : unit requires { rvm f0 m } requires { exists n. f = { f0 with f_g = { f0.f_g with vertex_Ni = n } } } requires { forall u. okv f0 u -> vertex_Ni_ f u = mfind m u }
    requires { rv_ok f0 } ensures { rvec f } ensures { rv_ok f }
  = assert { forall u. okv f u <-> okv f0 u }; assert { forall u [vertex_phasecount_ f u]. vertex_phasecount_ f u = vertex_phasecount_ f0 u };
    assert { forall e. oke f e <-> oke f0 e }; assert { forall e. srcof f e = srcof f0 e /\ dstof f e = dstof f0 e };
    assert { forall e [edge_total_input_ f e]. edge_total_input_ f e = edge_total_input_ f0 e }; assert { forall e [edge_total_output_ f e]. edge_total_output_ f e = edge_total_output_ f0 e };
    assert { forall v. okv f v -> rvq f (vertex_Ni_ f v) v = rvq f0 (mfind m v) v };
    assert { forall v. okv f v -> vertex_Ni_ f v > 0 /\ divides (vertex_phasecount_ f v) (vertex_Ni_ f v) };
    assert { forall e [edge_inputs_ f e]. edge_inputs_ f e = edge_inputs_ f0 e }; assert { forall e [edge_outputs_ f e]. edge_outputs_ f e = edge_outputs_ f0 e };
    let lemma bal (e: int) requires { oke f e } ensures { prodeq (edge_total_input_ f e) (rvq f (vertex_Ni_ f (srcof f e)) (srcof f e)) (edge_total_output_ f e) (rvq f (vertex_Ni_ f (dstof f e)) (dstof f e)) }
    = assert { okv f (srcof f e) /\ okv f (dstof f e) } in
    let lemma mini (d: int) requires { d > 0 } requires { rdivn f d } ensures { d = 1 }
    = assert { forall v [mfind m v]. okv f0 v -> divides d (rvq f0 (mfind m v) v) by vertex_Ni_ f v = mfind m v /\ okv f v }; assert { rdiv f0 m d } in ()
  (* sol: any vector of numbers of iterations (no axiom restricts it); does it balance the graph? *)
  function sol (v: int) : int
  predicate consistent (f: flow) = (forall v [sol v]. okv f v -> sol v > 0) /\
    (forall e [edge_total_input_ f e]. oke f e -> edge_total_input_ f e > 0 /\ edge_total_output_ f e > 0 /\ prodeq (edge_total_input_ f e) (sol (srcof f e)) (edge_total_output_ f e) (sol (dstof f e)))
  predicate agreeq (an ad na bn bd nb: int)
  val ghost agreeq_def (an ad na bn bd nb: int) : unit ensures { agreeq an ad na bn bd nb <-> (an * nb) * bd = (bn * na) * ad }
  function nn (f: flow) (v: int) : int = sol v * vertex_phasecount_ f v
  predicate agree (f: flow) (m: fmap int fraction) (v a: int) = agreeq (frn m v) (frd m v) (nn f v) (frn m a) (frd m a) (nn f a)
  predicate settled (f: flow) (r: int) (m: fmap int fraction) (a: int) = forall v [frn m v]. frn m v > 0 -> closed f r m v \/ agree f m v a
  (* the rate of the other end, computed over a channel, agrees with every balanced vector *)
  let ghost agree_edge (an ad bn bd i o ka kb pa pb r sa sb: int) : unit requires { ad > 0 } requires { bd > 0 } requires { o > 0 } requires { kb > 0 }
    requires { balq an ad (i * ka) bn bd (o * kb) } requires { r = ka * pa } requires { r = kb * pb } requires { prodeq i sa o sb }
    ensures { agreeq bn bd (sb * pb) an ad (sa * pa) }
  = balq_def an ad (i * ka) bn bd (o * kb); prodeq_def i sa o sb; agreeq_def bn bd (sb * pb) an ad (sa * pa); mul_sign o kb;
    assert { ((bn * (sa * pa)) * ad) * (o * kb) = ((bn * (o * kb)) * ad) * (sa * pa) };
    assert { ((bn * (o * kb)) * ad) * (sa * pa) = ((an * (i * ka)) * bd) * (sa * pa) };
    assert { ((an * (i * ka)) * bd) * (sa * pa) = (an * bd) * ((i * sa) * (ka * pa)) };
    assert { (i * sa) * (ka * pa) = (o * sb) * (kb * pb) };
    assert { (an * bd) * ((o * sb) * (kb * pb)) = ((an * (sb * pb)) * bd) * (o * kb) };
    mul_lt_cancel ((bn * (sa * pa)) * ad) ((an * (sb * pb)) * bd) (o * kb)
  let ghost agree_refl (an ad na: int) : unit ensures { agreeq an ad na an ad na } = agreeq_def an ad na an ad na
  let ghost agree_trans (an ad na bn bd nb cn cdn nc: int) : unit requires { an > 0 } requires { ad > 0 } requires { na > 0 } requires { cn > 0 }
    requires { agreeq bn bd nb an ad na } requires { agreeq cn cdn nc an ad na } ensures { agreeq cn cdn nc bn bd nb }
  = agreeq_def bn bd nb an ad na; agreeq_def cn cdn nc an ad na; agreeq_def cn cdn nc bn bd nb; mul_sign an ad; mul_sign (an * ad) na;
    assert { ((cn * nb) * bd) * ((an * ad) * na) = ((cn * na) * ad) * ((an * nb) * bd) };
    assert { ((cn * na) * ad) * ((an * nb) * bd) = ((an * nc) * cdn) * ((bn * na) * ad) };
    assert { ((an * nc) * cdn) * ((bn * na) * ad) = ((bn * nc) * cdn) * ((an * ad) * na) };
    mul_lt_cancel ((cn * nb) * bd) ((bn * nc) * cdn) ((an * ad) * na)
  let ghost agree_same (an ad na bn bd nb cn cdn: int) : unit requires { ad > 0 } requires { na > 0 } requires { agreeq bn bd nb an ad na } requires { agreeq cn cdn nb an ad na } ensures { bn * cdn = cn * bd }
  = agreeq_def bn bd nb an ad na; agreeq_def cn cdn nb an ad na; mul_sign na ad;
    assert { (bn * cdn) * (na * ad) = ((bn * na) * ad) * cdn = ((an * nb) * bd) * cdn };
    assert { (cn * bd) * (na * ad) = ((cn * na) * ad) * bd = ((an * nb) * cdn) * bd };
    mul_lt_cancel (bn * cdn) (cn * bd) (na * ad)
  let ghost bal_same (an ad ra bn bd rb cn cdn: int) : unit requires { ad > 0 } requires { rb > 0 } requires { balq an ad ra bn bd rb } requires { balq an ad ra cn cdn rb } ensures { bn * cdn = cn * bd }
  = balq_def an ad ra bn bd rb; balq_def an ad ra cn cdn rb; mul_sign rb ad;
    assert { (bn * cdn) * (rb * ad) = ((bn * rb) * ad) * cdn = ((an * ra) * bd) * cdn };
    assert { (cn * bd) * (rb * ad) = ((cn * rb) * ad) * bd = ((an * ra) * cdn) * bd };
    mul_lt_cancel (bn * cdn) (cn * bd) (rb * ad)
  let ghost balq_sym (an ad ra bn bd rb: int) : unit ensures { balq an ad ra bn bd rb <-> balq bn bd rb an ad ra } = balq_def an ad ra bn bd rb; balq_def bn bd rb an ad ra
  function otherend (f: flow) (c a: int) : int = if dstof f c = a then srcof f c else dstof f c
  function rhere (f: flow) (r c a: int) : int = if dstof f c = a then rdst f r c else rsrc f r c
  function rthere (f: flow) (r c a: int) : int = if dstof f c = a then rsrc f r c else rdst f r c
  let ghost rh_def (f: flow) (r a c: int) : unit requires { rv_ok f } requires { oke f c } requires { inc f c a }
    ensures { dstof f c = a -> rhere f r c a = edge_total_output_ f c * cd r (vertex_phasecount_ f a) /\ rthere f r c a = edge_total_input_ f c * cd r (vertex_phasecount_ f (otherend f c a)) }
    ensures { dstof f c <> a -> rhere f r c a = edge_total_input_ f c * cd r (vertex_phasecount_ f a) /\ rthere f r c a = edge_total_output_ f c * cd r (vertex_phasecount_ f (otherend f c a)) }
  = assert { length (edge_inputs_ f c) = vertex_phasecount_ f (srcof f c) }; assert { length (edge_outputs_ f c) = vertex_phasecount_ f (dstof f c) };
    if pure { dstof f c <> a } then begin assert { srcof f c = a }; assert { otherend f c a = dstof f c }; assert { rhere f r c a = rsrc f r c }; assert { rthere f r c a = rdst f r c } end
    else begin assert { otherend f c a = srcof f c }; assert { rhere f r c a = rdst f r c }; assert { rthere f r c a = rsrc f r c } end
  let ghost edge_agrees (f: flow) (r: int) (m: fmap int fraction) (a c bn bd: int) : unit
    requires { rv_ok f } requires { phases f r } requires { r > 0 } requires { oke f c } requires { inc f c a } requires { consistent f } requires { bd > 0 } requires { frd m a > 0 }
    requires { balq (frn m a) (frd m a) (rhere f r c a) bn bd (rthere f r c a) }
    ensures { agreeq bn bd (nn f (otherend f c a)) (frn m a) (frd m a) (nn f a) }
  = let b = pure { otherend f c a } in let pa = pure { vertex_phasecount_ f a } in let pb = pure { vertex_phasecount_ f b } in
    let s = pure { srcof f c } in let d = pure { dstof f c } in assert { okv f s /\ okv f d }; 
    assert { length (edge_inputs_ f c) = vertex_phasecount_ f s }; assert { length (edge_outputs_ f c) = vertex_phasecount_ f d };
    rh_def f r a c; assert { divides pa r /\ divides pb r /\ pa > 0 /\ pb > 0 };
    divides_elim pa r; divides_elim pb r; let ka = pure { cd r pa } in let kb = pure { cd r pb } in
    if kb <= 0 then mul_le kb 0 pb;
    let i = pure { edge_total_input_ f c } in let o = pure { edge_total_output_ f c } in
    prodeq_def i (pure { sol s }) o (pure { sol d }); prodeq_def o (pure { sol d }) i (pure { sol s });
    if pure { dstof f c = a } then begin
      assert { rhere f r c a = o * ka }; assert { rthere f r c a = i * kb };
      agree_edge (pure { frn m a }) (pure { frd m a }) bn bd o i ka kb pa pb r (pure { sol a }) (pure { sol b })
    end else begin
      assert { rhere f r c a = i * ka }; assert { rthere f r c a = o * kb };
      agree_edge (pure { frn m a }) (pure { frd m a }) bn bd i o ka kb pa pb r (pure { sol a }) (pure { sol b })
    end
  let ghost nn_pos (f: flow) (v: int) : unit requires { rv_ok f } requires { consistent f } requires { okv f v } ensures { nn f v > 0 } = mul_sign (pure { sol v }) (pure { vertex_phasecount_ f v })
  (* a known rate that is settled is the one computed over the channel *)
  let ghost same_rate (f: flow) (r: int) (m: fmap int fraction) (a c bn bd: int) : unit
    requires { rv_ok f } requires { phases f r } requires { r > 0 } requires { okv f a } requires { oke f c } requires { inc f c a } requires { bd > 0 } requires { gcd bn bd = 1 } requires { frd m a > 0 } requires { rthere f r c a > 0 }
    requires { fok f m } requires { frn m a > 0 } requires { frn m (otherend f c a) > 0 }
    requires { balq (frn m a) (frd m a) (rhere f r c a) bn bd (rthere f r c a) }
    ensures { consistent f -> settled f r m a -> frn m (otherend f c a) = bn /\ frd m (otherend f c a) = bd }
  = let b = pure { otherend f c a } in
    if pure { consistent f /\ settled f r m a } then begin
      assert { frd m b > 0 /\ wf (mfind m b) /\ okv f b };
      if pure { closed f r m b } then begin
        assert { ebal f r m c };
        balq_sym (pure { frn m a }) (pure { frd m a }) (pure { rhere f r c a }) (pure { frn m b }) (pure { frd m b }) (pure { rthere f r c a });
        assert { balq (frn m a) (frd m a) (rhere f r c a) (frn m b) (frd m b) (rthere f r c a) };
        bal_same (pure { frn m a }) (pure { frd m a }) (pure { rhere f r c a }) (pure { frn m b }) (pure { frd m b }) (pure { rthere f r c a }) bn bd
      end else begin
        assert { agree f m b a };
        nn_pos f a; edge_agrees f r m a c bn bd;
        agree_same (pure { frn m a }) (pure { frd m a }) (pure { nn f a }) (pure { frn m b }) (pure { frd m b }) (pure { nn f b }) bn bd
      end;
      wf_unique (pure { frn m b }) (pure { frd m b }) bn bd
    end
  (* the new rate settles its task, and all known ones with respect to it *)
  let ghost new_rate (f: flow) (r: int) (m p: fmap int fraction) (a c: int) : unit
    requires { rv_ok f } requires { phases f r } requires { r > 0 } requires { okv f a } requires { oke f c } requires { inc f c a } requires { fok f m } requires { fok f p } requires { grows m p }
    requires { frn m a > 0 } requires { frn m (otherend f c a) <= 0 } requires { frn p (otherend f c a) > 0 } requires { forall v [frn p v]. v <> otherend f c a -> frn p v = frn m v /\ frd p v = frd m v }
    requires { balq (frn m a) (frd m a) (rhere f r c a) (frn p (otherend f c a)) (frd p (otherend f c a)) (rthere f r c a) }
    ensures { consistent f -> settled f r m a -> settled f r p (otherend f c a) }
    ensures { consistent f -> settled f r m a -> settled f r p a }
  = let b = pure { otherend f c a } in
    if pure { consistent f /\ settled f r m a } then begin
      assert { frd m a > 0 }; assert { okv f b }; assert { a <> b }; assert { frn p a = frn m a /\ frd p a = frd m a };
      edge_agrees f r m a c (pure { frn p b }) (pure { frd p b }); assert { agree f p b a };
      nn_pos f a; nn_pos f b; agree_refl (pure { frn p b }) (pure { frd p b }) (pure { nn f b });
      let lemma each (v: int) requires { frn p v > 0 } ensures { closed f r p v \/ agree f p v a } ensures { closed f r p v \/ agree f p v b }
      = if pure { v <> b } then begin
          assert { frn m v > 0 }; assert { closed f r m v \/ agree f m v a };
          if pure { closed f r m v } then assert { closed f r p v }
          else begin assert { agree f p v a };
            agree_trans (pure { frn p a }) (pure { frd p a }) (pure { nn f a }) (pure { frn p b }) (pure { frd p b }) (pure { nn f b }) (pure { frn p v }) (pure { frd p v }) (pure { nn f v }) end
        end in ()
    end
  let ghost settled_grows (f: flow) (r: int) (m p: fmap int fraction) (a: int) : unit requires { grows m p } requires { newclosed f r m p } requires { frn m a > 0 } requires { forall v [frn m v]. frn m v >= 0 }
    ensures { settled f r m a -> settled f r p a }
  = if pure { settled f r m a } then begin
      let lemma each (v: int) requires { frn p v > 0 } ensures { closed f r p v \/ agree f p v a }
      = if pure { frn m v > 0 } then begin assert { closed f r m v \/ agree f m v a }; if pure { closed f r m v } then assert { closed f r p v } else assert { agree f p v a } end
        else assert { closed f r p v } in ()
    end
  let ghost rv_ok_flags (f g: flow) : unit requires { f.f_g = g.f_g } requires { rv_ok f } ensures { rv_ok g } ensures { rvec f -> rvec g }
  = assert { forall u. okv f u <-> okv g u }; assert { forall u [vertex_phasecount_ g u]. vertex_phasecount_ f u = vertex_phasecount_ g u };
    assert { forall e. oke f e <-> oke g e }; assert { forall e [srcof g e]. srcof f e = srcof g e }; assert { forall e [dstof g e]. dstof f e = dstof g e };
    assert { forall e [edge_total_input_ g e]. edge_total_input_ f e = edge_total_input_ g e }; assert { forall e [edge_total_output_ g e]. edge_total_output_ f e = edge_total_output_ g e };
    assert { forall e [edge_inputs_ g e]. edge_inputs_ f e = edge_inputs_ g e }; assert { forall e [edge_outputs_ g e]. edge_outputs_ f e = edge_outputs_ g e };
    assert { forall v x [rvq g x v]. rvq f x v = rvq g x v }; assert { forall v [vertex_Ni_ g v]. vertex_Ni_ f v = vertex_Ni_ g v };
    assert { forall d [rdivn g d]. rdivn g d -> rdivn f d }
  let ghost same_all (f: flow) (r: int) (frs m n: fmap int fraction) (a: int) : unit requires { samer m n } requires { grows frs m } requires { newclosed f r frs m } requires { frn m a > 0 } requires { forall v [frn m v]. frn m v >= 0 }
    ensures { grows m n } ensures { grows frs n } ensures { newclosed f r frs n } ensures { settled f r m a -> settled f r n a }
  = assert { grows m n }; assert { newclosed f r m n }; settled_grows f r m n a;
    let lemma each (v: int) requires { frn frs v = 0 } requires { frn n v > 0 } ensures { closed f r n v } = assert { closed f r m v } in ()
  let ghost rates_positive (f: flow) (r c: int) : unit requires { rv_ok f } requires { phases f r } requires { r > 0 } requires { oke f c }
    ensures { rsrc f r c >= 0 } ensures { rdst f r c >= 0 } ensures { consistent f -> rsrc f r c > 0 /\ rdst f r c > 0 }
  = assert { okv f (srcof f c) /\ okv f (dstof f c) }; divide_exact r (pure { length (edge_inputs_ f c) }); divide_exact r (pure { length (edge_outputs_ f c) });
    mul_sign (pure { edge_total_input_ f c }) (pure { cd r (length (edge_inputs_ f c)) }); mul_sign (pure { edge_total_output_ f c }) (pure { cd r (length (edge_outputs_ f c)) })
  (* a channel whose far end is known with the computed rate is balanced *)
  let ghost bal_known (f: flow) (r: int) (m: fmap int fraction) (a c bn bd: int) : unit requires { oke f c } requires { inc f c a } requires { frn m a > 0 } requires { frd m a > 0 } requires { bn > 0 } requires { bd > 0 }
    requires { balq (frn m a) (frd m a) (rhere f r c a) bn bd (rthere f r c a) }
    ensures { forall p [grows m p]. grows m p -> frn p (otherend f c a) = bn -> frd p (otherend f c a) = bd -> ebal f r p c }
  = balq_sym (pure { frn m a }) (pure { frd m a }) (pure { rhere f r c a }) bn bd (pure { rthere f r c a })
  let ghost set_rate (f: flow) (r: int) (frs m p: fmap int fraction) (a c: int) (q: fraction) : unit
    requires { rv_ok f } requires { phases f r } requires { r > 0 } requires { okv f a } requires { oke f c } requires { inc f c a } requires { fok f m } requires { fok f p }
    requires { onlyset m p (otherend f c a) q } requires { grows frs m } requires { q.fn > 0 }
    requires { frn m a > 0 } requires { frn m (otherend f c a) = 0 }
    requires { balq (frn m a) (frd m a) (rhere f r c a) q.fn q.fd (rthere f r c a) }
    ensures { grows m p } ensures { grows frs p } ensures { frn p (otherend f c a) = q.fn } ensures { frd p (otherend f c a) = q.fd } ensures { frn frs (otherend f c a) <= 0 }
    ensures { consistent f -> settled f r m a -> settled f r p (otherend f c a) }
    ensures { consistent f -> settled f r m a -> settled f r p a }
  = assert { grows m p }; new_rate f r m p a c
  let ghost after_call (f: flow) (r: int) (frs m p q: fmap int fraction) (a b: int) : unit
    requires { grows frs m } requires { newclosed f r frs m } requires { grows m p } requires { frn m a > 0 } requires { forall v [frn m v]. frn m v >= 0 } requires { forall v [frn p v]. frn p v >= 0 } requires { forall v [frn p v]. v <> b -> frn p v = frn m v }
    ensures { grows p q -> newclosed f r p q -> closed f r q b -> grows m q /\ grows frs q /\ newclosed f r frs q }
    ensures { grows p q -> newclosed f r p q -> settled f r p a -> settled f r q a }
  = if pure { grows p q /\ newclosed f r p q } then begin
      settled_grows f r p q a; assert { grows m q }; assert { grows frs q };
      if pure { closed f r q b } then
      let lemma each (v: int) requires { frn frs v = 0 } requires { frn q v > 0 } ensures { closed f r q v }
      = if pure { v <> b } then begin if pure { frn p v > 0 } then begin assert { frn m v > 0 }; assert { closed f r m v } end else assert { closed f r q v } end in ()
    end
  predicate dom (f: flow) (m: fmap int int) = forall v [mhas m v]. mhas m v -> okv f v
  predicate has (m: fmap int int) (n: int) = forall u [mhas m u]. 0 <= u < n -> mhas m u
"""
ES = "from.f_g.topo.edges"
VS = "(vrange from.f_g.topo.nv)"
PROP = Prop("C04", TU, [D.FL[x] for x in GET] + [QF[x] for x in FRAC] + [
    F("calcFractions", "calcFractionsConnectedActors(", "rv",
      requires=["rv_ok from", "okv from a", "ratePeriod > 0", "phases from ratePeriod", "fok from fractions", "frn fractions a > 0"],
      ensures=[("normal_forms", "fok from fractions"),
               ("known_rates_kept", "result -> grows (old fractions) fractions"),
               ("channels_of_task_balanced", "result -> closed from ratePeriod fractions a"),
               ("channels_of_reached_tasks_balanced", "result -> newclosed from ratePeriod (old fractions) fractions"),
               ("consistent_graph_not_refused", "consistent from -> settled from ratePeriod (old fractions) a -> result"),
               ("refusal_is_visible", "not result -> forall v. frn fractions v = 0")],
      variant="unk fractions from.f_g.topo.nv",
      entry=["unk_pos fractions from.f_g.topo.nv; gcd_one 0; let frs = fractions in"],
      hooks={("decl", "fractionB"): ["bal_fwd fractionA.fn fractionA.fd fractionB.fn fractionB.fd rateA rateB ratioAB.fn ratioAB.fd; let fr00 = fractions in assert { samer frb fr00 };"],
             ("decl", "knownFractionB"): ["let fr0 = fractions in assert { samer frb fr0 }; same_all from ratePeriod frs frb fr0 a; assert { frn fr0 b = knownFractionB.fn /\\ frd fr0 b = knownFractionB.fd };",
                 "assert { b = otherend from c a /\\ rateA = rhere from ratePeriod c a /\\ rateB = rthere from ratePeriod c a }; assert { frn fr0 a = fractionA.fn /\\ frd fr0 a = fractionA.fd };",
                 "gcd_zero (pure { frd fr0 b }); if pure { frn fr0 b > 0 } then same_rate from ratePeriod fr0 a c fractionB.fn fractionB.fd;",
                 "bal_known from ratePeriod fr0 a c fractionB.fn fractionB.fd;"],
             ("call", "calcFractions"): ["let fr1 = fractions in assert { fok from fr1 }; assert { onlyset fr0 fr1 b fractionB };",
                 "set_rate from ratePeriod frs fr0 fr1 a c fractionB; unk_lt frs fr1 from.f_g.topo.nv b;"],
             ("called", "calcFractions"): ["gcd_zero (pure { frd fractions b }); let fr2 = fractions in assert { (forall v. frn fr2 v = 0) \\/ (grows fr1 fr2 /\\ closed from ratePeriod fr2 b /\\ newclosed from ratePeriod fr1 fr2) };",
                 "assert { consistent from -> settled from ratePeriod frs a -> grows fr1 fr2 }; after_call from ratePeriod frs fr0 fr1 fr2 a b;"]},
      loops={1: dict(inv=D.each("c", ES) + [
          ("normal forms", "fok from fractions"), ("known rates kept", "grows (old fractions) fractions"),
          ("channels seen are balanced", "forall i. 0 <= i < ccount.it_pos -> inc from (get from.f_g.topo.edges i) a -> ebal from ratePeriod fractions (get from.f_g.topo.edges i)"),
          ("rates agree with a balanced vector", "consistent from -> settled from ratePeriod frs a -> settled from ratePeriod fractions a"),
          ("reached tasks", "newclosed from ratePeriod (old fractions) fractions"),
          ], variant=D.evar("c", ES),
          end=["let fre = fractions in assert { grows frb fre }; assert { inc from c a -> ebal from ratePeriod fre c };"],
          begin=["let frb = fractions in assert { oke from c }; rates_positive from ratePeriod c;"])}),
    F("calcRepetitionVector", "calcRepetitionVector(", "rv", fail="stop",
      requires=["rv_ok from", "not from.repetitionvectorisdone", "ratePeriod > 0", "phases from ratePeriod",
                "fok from fractions", "forall v. okv from v -> frn fractions v > 0", "forall e. oke from e -> ebal from ratePeriod fractions e"],
      ensures=[("always_succeeds", "result"), ("repetition_vector", "rvec from"), ("well_formed", "rv_ok from"), ("only_the_counts_change", "exists m. from = { (old from) with f_g = { (old from).f_g with vertex_Ni = m } }")],
      loops={1: dict(inv=D.each("v", VS) + [("fractions kept", "fractions = old fractions"), ("positive", "l > 0"), ("multiple of the denominators seen", "forall u. 0 <= u < vcount.it_pos -> divides (frd fractions u) l")], variant=D.evar("v", VS),
                     begin=["lcm_pos l (pure { frd fractions v }); divides_trans_all l (pure { lcm l (frd fractions v) });"], before=["assert { forall v. okv from v -> mhas fractions v };"]),
             2: dict(inv=D.each("v", VS) + [("fractions kept", "fractions = old fractions"), ("domain", "dom from repetitionVector /\\ has repetitionVector vcount.it_pos"),
                        ("scaled rates", "forall u. 0 <= u < vcount.it_pos -> scq (mfind repetitionVector u) (frd fractions u) (frn fractions u) l /\\ mfind repetitionVector u > 0")], variant=D.evar("v", VS),
                     begin=["scale_rate (pure { frn fractions v }) (pure { frd fractions v }) l;"], after=["assert { mhas repetitionVector 0 };"]),
             3: dict(inv=D.each("v", VS) + [("same vector", "repetitionVector = rv1"), ("positive", "g > 0"), ("divides the counts seen", "forall u. 0 <= u < vcount.it_pos -> divides g (mfind rv1 u)"),
                        ("greatest", "forall d. (forall u. okv from u -> divides d (mfind rv1 u)) -> divides d g")], variant=D.evar("v", VS),
                     before=["let rv1 = repetitionVector in assert { has rv1 from.f_g.topo.nv /\\ dom from rv1 };"],
                     begin=["gcd_pos g (pure { mfind rv1 v }); gcd_div g (pure { mfind rv1 v }); divides_up_all (pure { gcd g (mfind rv1 v) }) g; divides_gcd_all g (pure { mfind rv1 v }); let g0 = g in"],
                     end=["assert { g = gcd g0 (mfind rv1 v) }; assert { forall u. 0 <= u < vcount.it_pos -> divides g (mfind rv1 u) by divides g0 (mfind rv1 u) /\\ divides g g0 };"]),
             4: dict(inv=D.each("v", VS) + [("domain", "dom from repetitionVector /\\ has repetitionVector from.f_g.topo.nv"),
                        ("divided", "forall u. 0 <= u < vcount.it_pos -> mulq3 (mfind rv1 u) (mfind repetitionVector u) g /\\ mfind repetitionVector u > 0"),
                        ("to come", "forall u. vcount.it_pos <= u < from.f_g.topo.nv -> mfind repetitionVector u = mfind rv1 u")], variant=D.evar("v", VS),
                     begin=["divide_exact (pure { mfind rv1 v }) g;"]),
             5: dict(inv=D.each("v", VS) + [("domain", "dom from repetitionVector /\\ has repetitionVector from.f_g.topo.nv"),
                        ("multiplied", "forall u. 0 <= u < vcount.it_pos -> mulq3 (mfind repetitionVector u) (mfind rv2 u) ratePeriod /\\ mfind repetitionVector u > 0"),
                        ("to come", "forall u. vcount.it_pos <= u < from.f_g.topo.nv -> mfind repetitionVector u = mfind rv2 u")], variant=D.evar("v", VS),
                     before=["let rv2 = repetitionVector in"],
                     begin=["mul_sign (pure { mfind rv2 v }) ratePeriod; mulq3_def (pure { mfind rv2 v * ratePeriod }) (pure { mfind rv2 v }) ratePeriod;"]),
             6: dict(inv=D.each("v", VS) + [("same vector", "repetitionVector = rv3"), ("positive", "subrate > 0"), ("divides the period", "divides subrate ratePeriod"),
                        ("divides the counts seen", "forall u. 0 <= u < vcount.it_pos -> divides subrate (rvq from (mfind rv3 u) u)"),
                        ("greatest", "forall d. divides d ratePeriod -> (forall u. okv from u -> divides d (rvq from (mfind rv3 u) u)) -> divides d subrate")], variant=D.evar("v", VS),
                     before=["let rv3 = repetitionVector in divides_self ratePeriod;"],
                     begin=["let q = pure { rvq from (mfind rv3 v) v } in gcd_pos subrate q; gcd_div subrate q; divides_up_all (pure { gcd subrate q }) subrate; divides_gcd_all subrate q; let g0 = subrate in"],
                     end=["assert { subrate = gcd g0 q }; assert { forall u. 0 <= u < vcount.it_pos -> divides subrate (rvq from (mfind rv3 u) u) by divides g0 (rvq from (mfind rv3 u) u) /\\ divides subrate g0 };"]),
             7: dict(inv=D.each("v", VS) + [("domain", "dom from repetitionVector /\\ has repetitionVector from.f_g.topo.nv"),
                        ("divided", "forall u. 0 <= u < vcount.it_pos -> mulq3 (mfind rv3 u) (mfind repetitionVector u) subrate /\\ mfind repetitionVector u > 0 /\\ divides (vertex_phasecount_ from u) (mfind repetitionVector u) /\\ mulq3 (rvq from (mfind rv3 u) u) (rvq from (mfind repetitionVector u) u) subrate"),
                        ("to come", "forall u. vcount.it_pos <= u < from.f_g.topo.nv -> mfind repetitionVector u = mfind rv3 u")], variant=D.evar("v", VS),
                     begin=["divides_iff (pure { vertex_phasecount_ from v }) ratePeriod; mulq3_def (pure { mfind rv3 v }) (pure { mfind rv2 v }) ratePeriod; divides_mul (pure { vertex_phasecount_ from v }) ratePeriod (pure { mfind rv2 v }); sub_exact (pure { mfind rv3 v }) (pure { vertex_phasecount_ from v }) subrate;"]),
             8: dict(inv=D.each("v", VS) + [("vector kept", "repetitionVector = rv4"), ("only the counts change", "exists m. from = { (old from) with f_g = { (old from).f_g with vertex_Ni = m } }"),
                        ("counts set", "forall u. 0 <= u < vcount.it_pos -> vertex_Ni_ from u = mfind rv4 u")], variant=D.evar("v", VS),
                     before=["let rv4 = repetitionVector in let f0 = from in rv_final from ratePeriod l g subrate fractions rv1 rv2 rv3 rv4; assert { rvm f0 rv4 };"],
                     after=["assert { forall u. okv f0 u -> vertex_Ni_ from u = mfind rv4 u }; rvec_of f0 from rv4;"]),
             }),
    F("computeRepetitionVector", "computeRepetitionVector(", "rv",
      requires=["rv_ok from", "from.repetitionvectorisdone -> rvec from",
                "forall v. okv from v -> vertex_phasecount_ from v = 1 \\/ exists e. oke from e /\\ inc from e v"],
      ensures=[("balanced_and_minimal", "result -> rvec from"), ("marked_as_computed", "result -> from.repetitionvectorisdone"),
               ("consistent_graph_accepted", "consistent (old from) -> result"),
               ("only_the_counts_change", "exists m r d. from = { (old from) with f_g = { (old from).f_g with vertex_Ni = m }; readonly = r; repetitionvectorisdone = d }")],
      entry=["let f00 = from in gcd_one 0; gcd_one 1;"],
      loops={1: dict(inv=D.each("v", VS) + [("same graph", "from = f0"), ("domain", "forall u. mhas fractions u -> okv from u"), ("zero", "forall u. mhas fractions u -> mfind fractions u = { fn = 0; fd = 1 }")], variant=D.evar("v", VS),
                     before=["let f0 = from in rv_ok_flags f00 f0;"]),
             2: dict(inv=D.each("c", ES) + [("same graph", "from = f0"), ("positive", "ratePeriod > 0"), ("multiple of the phases seen", "forall i. 0 <= i < ccount.it_pos -> divides (vertex_phasecount_ from (srcof from (get from.f_g.topo.edges i))) ratePeriod /\\ divides (vertex_phasecount_ from (dstof from (get from.f_g.topo.edges i))) ratePeriod")], variant=D.evar("c", ES),
                     begin=["let r0 = ratePeriod in let p1 = pure { length (edge_inputs_ from c) } in let p2 = pure { length (edge_outputs_ from c) } in assert { oke from c }; assert { p1 > 0 /\\ p2 > 0 };",
                            "lcm_pos r0 p1; lcm_pos (pure { lcm r0 p1 }) p2; divides_trans_all r0 (pure { lcm r0 p1 }); divides_trans_all (pure { lcm r0 p1 }) (pure { lcm (lcm r0 p1) p2 });"],
                     after=["assert { forall e. oke from e -> divides (vertex_phasecount_ from (srcof from e)) ratePeriod /\\ divides (vertex_phasecount_ from (dstof from e)) ratePeriod }; divides_self ratePeriod;",
                            "assert { forall v. okv from v -> vertex_phasecount_ from v = 1 \\/ exists e. oke from e /\\ inc from e v }; assert { phases from ratePeriod };"]),
             3: dict(begin=["let frb = fractions in"], end=["let fre = fractions in assert { fok from fre }; gcd_zero (pure { frd frb v }); assert { frn frb v = 0 \\/ samer frb fre }; assert { grows frb fre }; assert { frn fre v > 0 };"], inv=D.each("v", VS) + [("same graph", "from = f0"), ("normal forms", "fok from fractions"), ("known rates are balanced", "forall u [frn fractions u]. frn fractions u > 0 -> closed from ratePeriod fractions u"),
                        ("known so far", "forall u. 0 <= u < vcount.it_pos -> frn fractions u > 0")], variant=D.evar("v", VS),
                     after=["assert { forall e. oke from e -> ebal from ratePeriod fractions e by okv from (srcof from e) /\\ inc from e (srcof from e) /\\ closed from ratePeriod fractions (srcof from e) };"])},
      hooks={("call", "set_repetition_vector"): ["let f1 = from in"], ("called", "set_repetition_vector"): ["rv_ok_flags f1 from;"], ("call", "calcFractions"): ["let fr1 = fractions in agree_refl (pure { frn fr1 v }) (pure { frd fr1 v }) (pure { nn from v }); assert { fok from fr1 }; assert { onlyset frb fr1 v (mfind fr1 v) }; valq_def (pure { frn fr1 v }) (pure { frd fr1 v }) 1 1; assert { frn fr1 v > 0 }; assert { grows frb fr1 }; assert { forall u [frn fr1 u]. frn fr1 u > 0 -> u = v \\/ closed from ratePeriod fr1 u }; assert { settled from ratePeriod fr1 v };"],
             }),
], classes=D.CLASSES | {"Fraction": "fraction", "Fraction<V>": "fraction"}, records=Q.REC + D.RECORDS[1:], theory=THEORY, uses=("Graph",), builtins=D.BUILTINS, drop_calls=D.DROP,
   defaults={"fraction": "{ fn = 0; fd = 1 }"})
HARNESS = dict(src="C04.cpp", sources=["commons/verbose.cpp", "models/Dataflow.cpp", "models/NoC.cpp", "models/repetition_vector.cpp"])
THEORIES = ("prelude.mlw",)
