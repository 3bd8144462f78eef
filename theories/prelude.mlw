(* Trusted model of the C++ base types and of the std:: containers.          *)
(* Pure values; a C++ object is a WhyML reference holding such a value.       *)

module NumSpec
  (* Integer facts used by the contracts.  Everything stated here is proved in
     numproof.mlw, for the standard definitions of division, divisibility and gcd,
     through a clone that discharges each axiom and each lemma function.          *)
  use export int.Int
  use export int.Abs
  use export int.MinMax
  use real.Real as R
  use real.FromInt as RI
  use real.Truncate as RT

  (* C++ integer division and remainder: truncated *)
  function cd (a b: int) : int
  function cm (a b: int) : int
  axiom cd_def : forall a b [cd a b | cm a b]. b <> 0 -> a = b * cd a b + cm a b
  axiom cm_pos : forall a b [cm a b]. b > 0 -> a >= 0 -> 0 <= cm a b < b
  axiom cm_neg : forall a b [cm a b]. b > 0 -> a <= 0 -> - b < cm a b <= 0
  axiom cm_gen : forall a b [cm a b]. b <> 0 -> - (abs b) < cm a b < abs b
  axiom cd_pos : forall a b [cd a b]. b > 0 -> a >= 0 -> 0 <= cd a b <= a

  predicate divides (d n: int)
  function gcd (a b: int) : int
  axiom gcd_nonneg : forall a b [gcd a b]. gcd a b >= 0
  function lcm (a b: int) : int
  axiom lcm_def : forall a b [lcm a b]. lcm a b = if gcd a b = 0 then 0 else cd (abs a) (gcd a b) * abs b

  val ghost divides_intro (d q: int) : unit ensures { divides d (q * d) }
  val ghost divides_elim (d n: int) : unit requires { divides d n } requires { d <> 0 } ensures { n = d * cd n d } ensures { cm n d = 0 }
  val ghost divides_iff (d n: int) : unit requires { d <> 0 } ensures { divides d n <-> cm n d = 0 }
  val ghost divides_cm (a b: int) : unit requires { b <> 0 } ensures { divides b (a - cm a b) }
  val ghost divides_add (d a b: int) : unit requires { divides d a } requires { divides d b } ensures { divides d (a + b) } ensures { divides d (a - b) }
  val ghost divides_mul (d a k: int) : unit requires { divides d a } ensures { divides d (a * k) } ensures { divides d (k * a) }
  val ghost divides_self (d: int) : unit ensures { divides d d } ensures { divides d 0 } ensures { divides 1 d }
  val ghost divides_trans (a b c: int) : unit requires { divides a b } requires { divides b c } ensures { divides a c }
  val ghost divides_le (a b: int) : unit requires { divides a b } requires { b > 0 } ensures { a <= b }
  val ghost div_unique (a b q: int) : unit requires { b <> 0 } requires { a = q * b } ensures { cd a b = q } ensures { cm a b = 0 }
  val ghost gcd_step (a b q: int) : unit ensures { gcd a (b - q * a) = gcd a b }
  val ghost gcd_comm (a b: int) : unit ensures { gcd a b = gcd b a }
  val ghost gcd_assoc (a b c: int) : unit ensures { gcd (gcd a b) c = gcd a (gcd b c) }
  val ghost gcd_zero (a: int) : unit ensures { gcd a 0 = abs a } ensures { gcd 0 a = abs a }
  val ghost gcd_one (a: int) : unit ensures { gcd a 1 = 1 } ensures { gcd 1 a = 1 }
  val ghost gcd_abs (a b: int) : unit ensures { gcd (abs a) b = gcd a b } ensures { gcd a (abs b) = gcd a b } ensures { gcd (-a) b = gcd a b } ensures { gcd a (-b) = gcd a b }
  val ghost gcd_pos (a b: int) : unit requires { a <> 0 \/ b <> 0 } ensures { gcd a b > 0 }
  val ghost gcd_div (a b: int) : unit ensures { divides (gcd a b) a } ensures { divides (gcd a b) b }
  val ghost gcd_great (a b d: int) : unit requires { divides d a } requires { divides d b } ensures { divides d (gcd a b) }
  val ghost gcd_scale (c a b: int) : unit requires { c >= 0 } ensures { gcd (c * a) (c * b) = c * gcd a b }
  val ghost gcd_norm (a b: int) : unit requires { a <> 0 \/ b <> 0 }
    ensures { gcd a b > 0 } ensures { gcd (cd a (gcd a b)) (cd b (gcd a b)) = 1 }
    ensures { a = gcd a b * cd a (gcd a b) } ensures { b = gcd a b * cd b (gcd a b) }
  val ghost gauss (a b c: int) : unit requires { gcd a b = 1 } requires { divides a (b * c) } ensures { divides a c }
  val ghost coprime_mul (a b c: int) : unit requires { gcd a b = 1 } requires { gcd a c = 1 } ensures { gcd a (b * c) = 1 }
  val ghost lcm_pos (a b: int) : unit requires { a > 0 } requires { b > 0 } ensures { lcm a b > 0 } ensures { divides a (lcm a b) } ensures { divides b (lcm a b) }
  val ghost lcm_least (a b m: int) : unit requires { a > 0 } requires { b > 0 } requires { divides a m } requires { divides b m } ensures { divides (lcm a b) m }
  val ghost mul_sign (a b: int) : unit ensures { a > 0 -> b > 0 -> a * b > 0 } ensures { a >= 0 -> b >= 0 -> a * b >= 0 } ensures { a <> 0 -> b <> 0 -> a * b <> 0 }
  val ghost mul_le (a b c: int) : unit requires { c >= 0 } requires { a <= b } ensures { a * c <= b * c } ensures { c * a <= c * b }
  val ghost mul_lt_cancel (a b c: int) : unit requires { c > 0 } ensures { a * c < b * c <-> a < b } ensures { a * c <= b * c <-> a <= b } ensures { a * c = b * c <-> a = b }
  val ghost floor_div (v c: int) : unit requires { c > 0 }
    ensures { let q = RT.floor (R.(/) (RI.from_int v) (RI.from_int c)) in q * c <= v < q * c + c }
  val ghost ceil_div (v c: int) : unit requires { c > 0 }
    ensures { let q = RT.ceil (R.(/) (RI.from_int v) (RI.from_int c)) in q * c - c < v <= q * c }
end

module Arith
  use export NumSpec
  use export ref.Ref
  use real.Real as R
  use real.FromInt as RI
  use real.Truncate as RT

  val cdiv (a b: int) : int  requires { [@expl:division by zero] b <> 0 } ensures { result = cd a b }
  val cmod (a b: int) : int  requires { [@expl:division by zero] b <> 0 } ensures { result = cm a b }
  val std_gcd (a b: int) : int ensures { result = gcd a b }
  val std_lcm (a b: int) : int ensures { result = lcm a b }
  val std_min (a b: int) : int ensures { result = min a b } ensures { result <= a /\ result <= b /\ (result = a \/ result = b) }
  val std_max (a b: int) : int ensures { result = max a b } ensures { result >= a /\ result >= b /\ (result = a \/ result = b) }
  val std_abs (a: int) : int ensures { result = abs a }
  val any_int () : int
  val any_bool () : bool
  val any_real () : real

  val bxor (a b: int) : int
    ensures { a = 0 -> result = b } ensures { b = 0 -> result = a } ensures { a = b -> result = 0 }

  (* long double is modelled by mathematical reals *)
  function ri (a: int) : real = RI.from_int a
  function rfloor (x: real) : int = RT.floor x
  function rceil (x: real) : int = RT.ceil x
  val radd (a b: real) : real ensures { result = R.(+) a b }
  val rsub (a b: real) : real ensures { result = R.(-) a b }
  (* std::numeric_limits of the floating type: no value is assumed to be below them *)
  val constant rlim_inf : real
  val constant rlim_max : real
  axiom rlimits : R.(<=) 0.0 rlim_max /\ R.(<) rlim_max rlim_inf
  val rmul (a b: real) : real ensures { result = R.(*) a b }
  val rdiv (a b: real) : real requires { [@expl:division by zero] b <> 0.0 } ensures { result = R.(/) a b }
  val rneg (a: real) : real ensures { result = R.(-_) a }
  val rlt (a b: real) : bool ensures { result <-> R.(<) a b }
  val rle (a b: real) : bool ensures { result <-> R.(<=) a b }
  val req (a b: real) : bool ensures { result <-> a = b }
  val real_of_int (a: int) : real ensures { result = RI.from_int a }
  val int_of_real (a: real) : int ensures { result = RT.truncate a }
  val std_floor (x: real) : real ensures { result = RI.from_int (RT.floor x) }
  val std_ceil (x: real) : real ensures { result = RI.from_int (RT.ceil x) }
  val rmax (a b: real) : real ensures { result = a \/ result = b } ensures { R.(>=) result a } ensures { R.(>=) result b }
  val rmin (a b: real) : real ensures { result = a \/ result = b } ensures { R.(<=) result a } ensures { R.(<=) result b }
  val poly_eq (a b: 'a) : bool ensures { result <-> a = b }
  val beq (a b: bool) : bool ensures { result <-> (a = b) }

  (* exit(), abort(): the path ends, nothing after it is observable *)
  val terminate () : unit ensures { false }
  exception Out_of_range
  val constant str_empty : int
  constant null_vertex : int
  constant null_edge : int
  val null_vertex_ () : int ensures { result = null_vertex }
  val null_edge_ () : int ensures { result = null_edge }
end

module Pair
  type pair 'a 'b = { first : 'a; second : 'b }
  type tup3 'a 'b 'c = { t0 : 'a; t1 : 'b; t2 : 'c }
end

module Vec
  use export Arith
  type vec 'a
  function length (v: vec 'a) : int
  axiom length_nonneg : forall v: vec 'a. length v >= 0
  function get (v: vec 'a) (i: int) : 'a
  function ([]) (v: vec 'a) (i: int) : 'a = get v i
  predicate vec_eq (a b: vec 'a) = length a = length b /\ forall i. 0 <= i < length a -> get a i = get b i
  axiom vec_ext : forall a b: vec 'a [vec_eq a b]. vec_eq a b -> a = b
  val vlen (v: vec 'a) : int ensures { result = length v } ensures { result >= 0 }
  val vget (v: vec 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < length v } ensures { result = get v i }
  function vupd (v: vec 'a) (i: int) (x: 'a) : vec 'a
  axiom vupd_len : forall v: vec 'a, i x. length (vupd v i x) = length v
  axiom vupd_get : forall v: vec 'a, i x j [get (vupd v i x) j].
    0 <= i < length v -> 0 <= j < length v -> get (vupd v i x) j = if j = i then x else get v j
  val vset (v: vec 'a) (i: int) (x: 'a) : vec 'a
    requires { [@expl:index in bounds] 0 <= i < length v } ensures { result = vupd v i x }
  constant vempty : vec 'a
  axiom vempty_len : length (vempty : vec 'a) = 0
  val vempty_ () : vec 'a ensures { result = vempty }
  function snoc (v: vec 'a) (x: 'a) : vec 'a
  axiom snoc_len : forall v: vec 'a, x. length (snoc v x) = length v + 1
  axiom snoc_get : forall v: vec 'a, x i [get (snoc v x) i].
    0 <= i <= length v -> get (snoc v x) i = if i = length v then x else get v i
  val vpush (v: vec 'a) (x: 'a) : vec 'a ensures { result = snoc v x }
  function cons (x: 'a) (v: vec 'a) : vec 'a
  axiom cons_len : forall v: vec 'a, x. length (cons x v) = length v + 1
  axiom cons_get : forall v: vec 'a, x i [get (cons x v) i].
    0 <= i <= length v -> get (cons x v) i = if i = 0 then x else get v (i-1)
  val vpush_front (v: vec 'a) (x: 'a) : vec 'a ensures { result = cons x v }
  function vmake (n: int) (x: 'a) : vec 'a
  axiom vmake_len : forall n, x: 'a. n >= 0 -> length (vmake n x) = n
  axiom vmake_get : forall n, x: 'a, i [get (vmake n x) i]. 0 <= i < n -> get (vmake n x) i = x
  val vmake_ (n: int) (x: 'a) : vec 'a requires { n >= 0 } ensures { result = vmake n x }
  function vtake (v: vec 'a) (n: int) : vec 'a
  axiom vtake_len : forall v: vec 'a, n. 0 <= n <= length v -> length (vtake v n) = n
  axiom vtake_get : forall v: vec 'a, n i [get (vtake v n) i]. 0 <= i < n <= length v -> get (vtake v n) i = get v i
  val vpop (v: vec 'a) : vec 'a requires { [@expl:pop on non-empty] length v > 0 } ensures { result = vtake v (length v - 1) }
  function vdrop (v: vec 'a) (n: int) : vec 'a
  axiom vdrop_len : forall v: vec 'a, n. 0 <= n <= length v -> length (vdrop v n) = length v - n
  axiom vdrop_get : forall v: vec 'a, n i [get (vdrop v n) i]. 0 <= i -> 0 <= n -> i + n < length v -> get (vdrop v n) i = get v (i+n)
  val vpop_front (v: vec 'a) : vec 'a requires { [@expl:pop on non-empty] length v > 0 } ensures { result = vdrop v 1 }
  predicate vmem (x: 'a) (v: vec 'a) = exists i. 0 <= i < length v /\ get v i = x
  predicate distinct (v: vec 'a) = forall i j. 0 <= i < length v -> 0 <= j < length v -> i <> j -> get v i <> get v j

  (* iterators: a sequence and a position in it *)
  type iter 'a = { it_seq : vec 'a; it_pos : int }
  val it_none () : iter 'a
  val it_begin (v: vec 'a) : iter 'a ensures { result.it_seq = v /\ result.it_pos = 0 }
  val it_end (v: vec 'a) : iter 'a ensures { result.it_seq = v /\ result.it_pos = length v }
  val it_get (i: iter 'a) : 'a
    ensures { [@expl:deref] 0 <= i.it_pos < length i.it_seq -> result = get i.it_seq i.it_pos }
  val it_get_in (i: iter 'a) : 'a requires { [@expl:iterator in range] 0 <= i.it_pos < length i.it_seq } ensures { result = get i.it_seq i.it_pos }
  val it_add (i: iter 'a) (n: int) : iter 'a ensures { result.it_seq = i.it_seq /\ result.it_pos = i.it_pos + n }
  val it_eq (i j: iter 'a) : bool ensures { result <-> i.it_pos = j.it_pos }

end

module FSet
  use export Vec
  type fset 'a
  predicate shas (s: fset 'a) (x: 'a)
  constant sempty : fset 'a
  axiom sempty_has : forall x: 'a. not shas sempty x
  function sadd (s: fset 'a) (x: 'a) : fset 'a
  axiom sadd_has : forall s, x y: 'a [shas (sadd s x) y]. shas (sadd s x) y <-> (x = y \/ shas s y)
  function srem (s: fset 'a) (x: 'a) : fset 'a
  axiom srem_has : forall s, x y: 'a [shas (srem s x) y]. shas (srem s x) y <-> (x <> y /\ shas s y)
  function elems (s: fset 'a) : vec 'a
  function sidx (s: fset 'a) (x: 'a) : int
  axiom elems_has : forall s: fset 'a, i [get (elems s) i]. 0 <= i < length (elems s) -> shas s (get (elems s) i) /\ sidx s (get (elems s) i) = i
  axiom sidx_has : forall s, x: 'a [shas s x]. shas s x -> 0 <= sidx s x < length (elems s) /\ get (elems s) (sidx s x) = x
  axiom sidx_not : forall s, x: 'a [sidx s x]. not shas s x -> sidx s x = length (elems s)
  function ssize (s: fset 'a) : int = length (elems s)
  axiom sadd_size : forall s, x: 'a [elems (sadd s x)]. length (elems (sadd s x)) = length (elems s) + (if shas s x then 0 else 1)
  axiom srem_size : forall s, x: 'a [elems (srem s x)]. length (elems (srem s x)) = length (elems s) - (if shas s x then 1 else 0)
  axiom sempty_size : length (elems (sempty : fset 'a)) = 0
  predicate set_eq (a b: fset 'a) = forall x. shas a x <-> shas b x
  axiom set_ext : forall a b: fset 'a [set_eq a b]. set_eq a b -> a = b
  val s_has (s: fset 'a) (x: 'a) : bool ensures { result <-> shas s x }
  val s_add (s: fset 'a) (x: 'a) : fset 'a ensures { result = sadd s x }
  val s_rem (s: fset 'a) (x: 'a) : fset 'a ensures { result = srem s x }
  val s_empty () : fset 'a ensures { result = sempty }
  val s_elems (s: fset 'a) : vec 'a ensures { result = elems s }
  val s_find (s: fset 'a) (x: 'a) : iter 'a ensures { result.it_seq = elems s /\ result.it_pos = sidx s x }
end

module FMap
  use export FSet
  type fmap 'k 'v
  predicate mhas (m: fmap 'k 'v) (k: 'k)
  function mfind (m: fmap 'k 'v) (k: 'k) : 'v
  constant mempty : fmap 'k 'v
  axiom mempty_has : forall k: 'k. not mhas (mempty : fmap 'k 'v) k
  function madd (m: fmap 'k 'v) (k: 'k) (x: 'v) : fmap 'k 'v
  axiom madd_has : forall m: fmap 'k 'v, k j x [mhas (madd m k x) j]. mhas (madd m k x) j <-> (j = k \/ mhas m j)
  axiom madd_find : forall m: fmap 'k 'v, k j x [mfind (madd m k x) j]. mfind (madd m k x) j = if j = k then x else mfind m j
  function mrem (m: fmap 'k 'v) (k: 'k) : fmap 'k 'v
  axiom mrem_has : forall m: fmap 'k 'v, k j [mhas (mrem m k) j]. mhas (mrem m k) j <-> (j <> k /\ mhas m j)
  axiom mrem_find : forall m: fmap 'k 'v, k j [mfind (mrem m k) j]. j <> k -> mfind (mrem m k) j = mfind m j
  function keys (m: fmap 'k 'v) : vec 'k
  function kidx (m: fmap 'k 'v) (k: 'k) : int
  axiom keys_has : forall m: fmap 'k 'v, i [get (keys m) i]. 0 <= i < length (keys m) -> mhas m (get (keys m) i) /\ kidx m (get (keys m) i) = i
  axiom kidx_has : forall m: fmap 'k 'v, k [mhas m k]. mhas m k -> 0 <= kidx m k < length (keys m) /\ get (keys m) (kidx m k) = k
  axiom kidx_not : forall m: fmap 'k 'v, k [kidx m k]. not mhas m k -> kidx m k = length (keys m)
  axiom madd_keys : forall m: fmap 'k 'v, k x [keys (madd m k x)]. length (keys (madd m k x)) = length (keys m) + (if mhas m k then 0 else 1)
  axiom madd_same : forall m: fmap 'k 'v, k x [keys (madd m k x)]. mhas m k -> keys (madd m k x) = keys m
  axiom mempty_keys : length (keys (mempty : fmap 'k 'v)) = 0
  predicate map_eq (a b: fmap 'k 'v) = (forall k. mhas a k <-> mhas b k) /\ (forall k. mhas a k -> mfind a k = mfind b k)
  axiom map_ext : forall a b: fmap 'k 'v [map_eq a b]. map_eq a b -> a = b
  val m_has (m: fmap 'k 'v) (k: 'k) : bool ensures { result <-> mhas m k }
  val m_at (m: fmap 'k 'v) (k: 'k) : 'v requires { [@expl:key present] mhas m k } ensures { result = mfind m k }
  val m_get (m: fmap 'k 'v) (k: 'k) : 'v ensures { mhas m k -> result = mfind m k }
  val m_add (m: fmap 'k 'v) (k: 'k) (x: 'v) : fmap 'k 'v ensures { result = madd m k x }
  val m_insert (m: fmap 'k 'v) (k: 'k) (x: 'v) : fmap 'k 'v ensures { result = if mhas m k then m else madd m k x }
  (* operator[]: inserts the value-initialised element when the key is absent *)
  function mtouch (m: fmap 'k 'v) (k: 'k) (d: 'v) : fmap 'k 'v = if mhas m k then m else madd m k d
  val m_touch (m: fmap 'k 'v) (k: 'k) (d: 'v) : fmap 'k 'v ensures { result = mtouch m k d } ensures { mhas result k }
  val m_rem (m: fmap 'k 'v) (k: 'k) : fmap 'k 'v ensures { result = mrem m k }
  val m_empty () : fmap 'k 'v ensures { result = mempty }
  val m_keys (m: fmap 'k 'v) : vec 'k ensures { result = keys m }
  val m_find (m: fmap 'k 'v) (k: 'k) : iter 'k ensures { result.it_seq = keys m /\ result.it_pos = kidx m k }
end

module Sum
  use export FMap
  use real.Real as R
  (* sum of the first n elements *)
  function vsum (v: vec int) (n: int) : int
  axiom vsum_0 : forall v: vec int, n. n <= 0 -> vsum v n = 0
  axiom vsum_s : forall v: vec int, n. n > 0 -> vsum v n = vsum v (n-1) + get v (n-1)
  function vtotal (v: vec int) : int = vsum v (length v)
  function vsumr (v: vec real) (n: int) : real
  axiom vsumr_0 : forall v: vec real, n. n <= 0 -> vsumr v n = 0.0
  axiom vsumr_s : forall v: vec real, n. n > 0 -> vsumr v n = R.(+) (vsumr v (n-1)) (get v (n-1))
  (* std::accumulate over a whole vector; the accumulator has the type of the initial value *)
  val vsum_from (v: vec int) (x: int) : int ensures { result = x + vtotal v }
  val vsumr_from (v: vec real) (x: real) : real ensures { result = R.(+) x (vsumr v (length v)) }
  val vsum_trunc (v: vec real) (x: int) : int
end

module Graph
  (* Trusted model of boost::adjacency_list<vecS, vecS, bidirectionalS, ...>.
     Vertices are 0..n-1; edge descriptors are opaque distinct values; every
     property is a total map from descriptors to values.                        *)
  use export Sum
  use Pair
  type pmap 'a
  function pget (m: pmap 'a) (k: int) : 'a
  function pset (m: pmap 'a) (k: int) (x: 'a) : pmap 'a
  axiom pset_get : forall m: pmap 'a, k x j [pget (pset m k x) j]. pget (pset m k x) j = if j = k then x else pget m j
  function pshift (m: pmap 'a) (v: int) : pmap 'a
  axiom pshift_get : forall m: pmap 'a, v j [pget (pshift m v) j]. pget (pshift m v) j = if j < v then pget m j else pget m (j + 1)
  function prenum (m: pmap int) (v: int) : pmap int
  axiom prenum_get : forall m, v j [pget (prenum m v) j]. pget (prenum m v) j = if pget m j > v then pget m j - 1 else pget m j
  function vrange (n: int) : vec int
  axiom vrange_len : forall n. n >= 0 -> length (vrange n) = n
  axiom vrange_get : forall n i [get (vrange n) i]. 0 <= i < n -> get (vrange n) i = i
  function vwithout (v: vec 'a) (x: 'a) : vec 'a
  axiom vwithout_mem : forall v: vec 'a, x y [vmem y (vwithout v x)]. vmem y (vwithout v x) <-> (y <> x /\ vmem y v)
  axiom vwithout_len : forall v: vec 'a, x [vwithout v x]. distinct v -> distinct (vwithout v x) /\ length (vwithout v x) = length v - (if vmem x v then 1 else 0)
  lemma vmem_get : forall v: vec 'a, i [get v i]. 0 <= i < length v -> vmem (get v i) v
  val it_range (a b: iter 'a) : vec 'a
    requires { [@expl:iterator range] a.it_pos = 0 /\ a.it_seq = b.it_seq /\ b.it_pos = length b.it_seq } ensures { result = a.it_seq }
  (* topology *)
  type topo = { nv : int; edges : vec int; esrc : pmap int; edst : pmap int; inE : pmap (vec int); outE : pmap (vec int) }
  predicate vok (t: topo) (v: int) = 0 <= v < t.nv
  predicate eok (t: topo) (e: int) = vmem e t.edges
  predicate twf (t: topo) = t.nv >= 0 /\ distinct t.edges /\
    (forall i [get t.edges i]. 0 <= i < length t.edges -> vok t (pget t.esrc (get t.edges i)) /\ vok t (pget t.edst (get t.edges i)) /\ get t.edges i <> null_edge) /\
    (forall v [pget t.inE v]. vok t v -> distinct (pget t.inE v)) /\ (forall v [pget t.outE v]. vok t v -> distinct (pget t.outE v)) /\
    (forall v e [vmem e (pget t.inE v)]. vok t v -> (vmem e (pget t.inE v) <-> (vmem e t.edges /\ pget t.edst e = v))) /\
    (forall v e [vmem e (pget t.outE v)]. vok t v -> (vmem e (pget t.outE v) <-> (vmem e t.edges /\ pget t.esrc e = v)))
  lemma twf_ends : forall t, e [twf t, eok t e]. twf t -> eok t e ->
    vok t (pget t.esrc e) /\ vok t (pget t.edst e) /\ e <> null_edge /\ vmem e (pget t.inE (pget t.edst e)) /\ vmem e (pget t.outE (pget t.esrc e)) /\
    distinct (pget t.inE (pget t.edst e)) /\ distinct (pget t.outE (pget t.esrc e)) /\ length (pget t.inE (pget t.edst e)) > 0 /\ length (pget t.outE (pget t.esrc e)) > 0
  lemma twf_in : forall t, v i [twf t, get (pget t.inE v) i]. twf t -> vok t v -> 0 <= i < length (pget t.inE v) ->
    eok t (get (pget t.inE v) i) /\ pget t.edst (get (pget t.inE v) i) = v
  lemma twf_out : forall t, v i [twf t, get (pget t.outE v) i]. twf t -> vok t v -> 0 <= i < length (pget t.outE v) ->
    eok t (get (pget t.outE v) i) /\ pget t.esrc (get (pget t.outE v) i) = v
  (* monomorphic copies: nested polymorphic terms defeat the solvers' trigger matching *)
  function vwo (v: vec int) (x: int) : vec int
  axiom vwo_def : forall v x [vwo v x]. vwo v x = vwithout v x
  function snoci (v: vec int) (x: int) : vec int
  axiom snoci_def : forall v x [snoci v x]. snoci v x = snoc v x
  predicate edge_added (a b: topo) (e s t: int) = not (eok a e) /\ e <> null_edge /\ b.nv = a.nv /\ b.edges = snoci a.edges e /\ b.esrc = pset a.esrc e s /\ b.edst = pset a.edst e t /\ b.inE = pset a.inE t (snoci (pget a.inE t) e) /\ b.outE = pset a.outE s (snoci (pget a.outE s) e)
  predicate edge_removed (a b: topo) (e: int) = b.nv = a.nv /\ b.edges = vwo a.edges e /\ b.esrc = a.esrc /\ b.edst = a.edst /\ b.inE = pset a.inE (pget a.edst e) (vwo (pget a.inE (pget a.edst e)) e) /\ b.outE = pset a.outE (pget a.esrc e) (vwo (pget a.outE (pget a.esrc e)) e)
  predicate vertex_removed (a b: topo) (v: int) = b.nv = a.nv - 1 /\ b.edges = a.edges /\ b.esrc = prenum a.esrc v /\ b.edst = prenum a.edst v /\ b.inE = pshift a.inE v /\ b.outE = pshift a.outE v
  lemma edge_removed_degrees : forall a b: topo, e: int [edge_removed a b e]. twf a -> eok a e -> edge_removed a b e ->
    length (pget b.inE (pget a.edst e)) = length (pget a.inE (pget a.edst e)) - 1 /\ length (pget b.outE (pget a.esrc e)) = length (pget a.outE (pget a.esrc e)) - 1 /\
    (forall v. v <> pget a.edst e -> pget b.inE v = pget a.inE v) /\ (forall v. length (pget b.inE v) <= length (pget a.inE v))
end
