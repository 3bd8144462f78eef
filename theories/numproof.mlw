(* Proofs of the integer facts assumed by prelude.NumSpec. *)
module P1
  use int.Int
  use int.Abs
  use int.ComputerDivision as CD
  use number.Divisibility as D
  use number.Gcd as G
  use number.Coprime as C
  use real.RealInfix
  use real.FromInt as RI
  use real.Truncate as RT

  let ghost divides_intro (d q: int) : unit ensures { D.divides d (q * d) } = ()
  let ghost divides_iff (d n: int) : unit requires { d <> 0 } ensures { D.divides d n <-> CD.mod n d = 0 } = ()
  let ghost divides_elim (d n: int) : unit requires { D.divides d n } requires { d <> 0 } ensures { n = d * CD.div n d } ensures { CD.mod n d = 0 }
  = divides_iff d n
  let ghost divides_cm (a b: int) : unit requires { b <> 0 } ensures { D.divides b (a - CD.mod a b) }
  = assert { a - CD.mod a b = CD.div a b * b }; divides_intro b (CD.div a b)
  let ghost divides_add (d a b: int) : unit requires { D.divides d a } requires { D.divides d b } ensures { D.divides d (a + b) } ensures { D.divides d (a - b) } = ()
  let ghost divides_mul (d a k: int) : unit requires { D.divides d a } ensures { D.divides d (a * k) } ensures { D.divides d (k * a) } = ()
  let ghost divides_self (d: int) : unit ensures { D.divides d d } ensures { D.divides d 0 } ensures { D.divides 1 d } = ()
  let ghost divides_trans (a b c: int) : unit requires { D.divides a b } requires { D.divides b c } ensures { D.divides a c } = ()
  let ghost divides_le (a b: int) : unit requires { D.divides a b } requires { b > 0 } ensures { a <= b } = assert { abs a <= abs b }
  let ghost gcd_comm (a b: int) : unit ensures { G.gcd a b = G.gcd b a } = ()
  let ghost gcd_step (a b q: int) : unit ensures { G.gcd a (b - q * a) = G.gcd a b } = ()
  let ghost gcd_assoc (a b c: int) : unit ensures { G.gcd (G.gcd a b) c = G.gcd a (G.gcd b c) } = ()
  let ghost gcd_zero (a: int) : unit ensures { G.gcd a 0 = abs a } ensures { G.gcd 0 a = abs a } = gcd_comm a 0
  let ghost gcd_one (a: int) : unit ensures { G.gcd a 1 = 1 } ensures { G.gcd 1 a = 1 }
  = gcd_comm a 1; assert { D.divides (G.gcd a 1) 1 }; assert { G.gcd a 1 >= 0 }
  let ghost gcd_abs (a b: int) : unit ensures { G.gcd (abs a) b = G.gcd a b } ensures { G.gcd a (abs b) = G.gcd a b }
    ensures { G.gcd (-a) b = G.gcd a b } ensures { G.gcd a (-b) = G.gcd a b }
  = gcd_comm a b; gcd_comm a (-b); gcd_comm b (abs a); gcd_comm a (abs b); assert { G.gcd b a = G.gcd (-b) a }; assert { G.gcd a b = G.gcd (-a) b }
  let ghost gcd_pos (a b: int) : unit requires { a <> 0 \/ b <> 0 } ensures { G.gcd a b > 0 }
  = assert { G.gcd a b >= 0 };
    assert { G.gcd a b = 0 -> (D.divides 0 a /\ D.divides 0 b) }
  let ghost gcd_div (a b: int) : unit ensures { D.divides (G.gcd a b) a } ensures { D.divides (G.gcd a b) b } = ()
  let ghost gcd_great (a b d: int) : unit requires { D.divides d a } requires { D.divides d b } ensures { D.divides d (G.gcd a b) } = ()
end

module PA
  use int.Int
  use int.Abs
  let ghost step1 (c a d a2 e: int) : unit requires { c <> 0 } requires { c * a = d * a2 } requires { d = c * e } ensures { a = a2 * e }
  = assert { c * (a - a2 * e) = 0 }
  let ghost step2 (c g d e k: int) : unit requires { g = e * k } requires { d = c * e } ensures { c * g = k * d } = ()
  let ghost step3 (g a1 b1 x y m: int) : unit requires { g <> 0 } requires { m = (g * a1) * x } requires { m = (g * b1) * y } ensures { a1 * x = b1 * y }
  = assert { g * (a1 * x - b1 * y) = 0 }
  let ghost step4 (g a1 b1 a b: int) : unit requires { a = g * a1 } requires { b = g * b1 } ensures { a1 * b = b1 * a } = ()
  let ghost pos_cancel (g a1: int) : unit requires { g > 0 } requires { g * a1 > 0 } ensures { a1 > 0 } = ()
end
module PB
  use int.Int
  use int.Abs
  use int.ComputerDivision as CD
  let ghost div_uniq (a g q: int) : unit requires { g > 0 } requires { a = g * q } ensures { CD.div a g = q } ensures { CD.mod a g = 0 }
  = let d = pure { CD.div a g } in
    assert { g * (q - d) = CD.mod a g };
    assert { - g < CD.mod a g < g };
    assert { q - d >= 1 -> g * (q - d) >= g };
    assert { q - d <= -1 -> g * (q - d) <= - g }
end
module PR
  use real.RealInfix
  use real.FromInt as RI
  let ghost rmul_le (x y c: real) : unit requires { x <=. y } requires { c >=. 0.0 } ensures { x *. c <=. y *. c } = ()
  let ghost rmul_lt (x y c: real) : unit requires { x <. y } requires { c >. 0.0 } ensures { x *. c <. y *. c } = ()
end
module P2
  use int.Int
  use int.Abs
  use int.ComputerDivision as CD
  use number.Divisibility as D
  use number.Gcd as G
  use number.Coprime as C
  use PA
  use PB
  let ghost dv (d n: int) : int requires { D.divides d n } ensures { n = d * result }
  = assert { exists q. n = q * d };
    any int ensures { n = d * result }
  let ghost dvi (d n q: int) : unit requires { n = q * d } ensures { D.divides d n } = assert { D.divides d (q * d) }
  let ghost anti (a b: int) : unit requires { a >= 0 } requires { b >= 0 } requires { D.divides a b } requires { D.divides b a } ensures { a = b }
  = if a = 0 then (let k = dv a b in assert { b = 0 })
    else if b = 0 then (let k = dv b a in assert { a = 0 })
    else begin assert { abs a <= abs b }; assert { abs b <= abs a } end
  let ghost gcd_scale (c a b: int) : unit requires { c >= 0 } ensures { G.gcd (c * a) (c * b) = c * G.gcd a b }
  = let g = pure { G.gcd a b } in
    let d = pure { G.gcd (c * a) (c * b) } in
    let a1 = dv g a in let b1 = dv g b in
    dvi (c * g) (c * a) a1; dvi (c * g) (c * b) b1;
    assert { D.divides (c * g) d };
    if c = 0 then begin let k = dv (c * g) d in assert { d = 0 } end
    else begin
    dvi c (c * a) a; dvi c (c * b) b;
    assert { D.divides c d };
    let e = dv c d in
    let a2 = dv d (c * a) in let b2 = dv d (c * b) in
    step1 c a d a2 e; step1 c b d b2 e;
    dvi e a a2; dvi e b b2;
    assert { D.divides e g };
    let k = dv e g in
    step2 c g d e k; dvi d (c * g) k;
    assert { c * g >= 0 by g >= 0 };
    anti d (c * g) end
  let ghost gauss (a b c: int) : unit requires { G.gcd a b = 1 } requires { D.divides a (b * c) } ensures { D.divides a c }
  = assert { C.coprime a b }
  let ghost coprime_mul (a b c: int) : unit requires { G.gcd a b = 1 } requires { G.gcd a c = 1 } ensures { G.gcd a (b * c) = 1 }
  = assert { C.coprime a b }; assert { G.gcd a (b * c) = G.gcd a c }
  function lcm (a b: int) : int = if G.gcd a b = 0 then 0 else CD.div (abs a) (G.gcd a b) * abs b
  let ghost lcm_pos (a b: int) : unit requires { a > 0 } requires { b > 0 } ensures { lcm a b > 0 } ensures { D.divides a (lcm a b) } ensures { D.divides b (lcm a b) }
  = let g = pure { G.gcd a b } in
    let a1 = dv g a in let b1 = dv g b in
    assert { g >= 0 };
    assert { g > 0 by g <> 0 };
    pos_cancel g a1; pos_cancel g b1;
    div_uniq a g a1;
    assert { abs a = a }; assert { abs b = b };
    assert { lcm a b = CD.div a g * b };
    assert { lcm a b = a1 * b };
    dvi b (a1 * b) a1;
    step4 g a1 b1 a b;
    dvi a (a1 * b) b1
  let ghost lcm_least (a b m: int) : unit requires { a > 0 } requires { b > 0 } requires { D.divides a m } requires { D.divides b m } ensures { D.divides (lcm a b) m }
  = let g = pure { G.gcd a b } in
    let a1 = dv g a in let b1 = dv g b in
    assert { g > 0 by g <> 0 };
    div_uniq a g a1;
    assert { abs a = a }; assert { abs b = b };
    assert { lcm a b = CD.div a g * b };
    assert { lcm a b = a1 * b };
    let x = dv a m in let y = dv b m in
    assert { m = a * x }; assert { m = b * y };
    assert { a * x = (g * a1) * x };  assert { b * y = (g * b1) * y };
    step3 g a1 b1 x y m;
    gcd_scale g a1 b1;
    assert { g * G.gcd a1 b1 = g };
    assert { G.gcd a1 b1 = 1 by (g * (G.gcd a1 b1 - 1) = 0) };
    dvi a1 (b1 * y) x;
    gauss a1 b1 y;
    let z = dv a1 y in
    assert { m = b * (a1 * z) };
    assert { m = z * (a1 * b) };
    dvi (a1 * b) m z
end

module P3
  use int.Int
  use int.Abs
  function cd (a b: int) : int
  function cm (a b: int) : int
  axiom cd_def : forall a b [cd a b | cm a b]. b <> 0 -> a = b * cd a b + cm a b
  axiom cm_pos : forall a b [cm a b]. b > 0 -> a >= 0 -> 0 <= cm a b < b
  axiom cm_gen : forall a b [cm a b]. b <> 0 -> - (abs b) < cm a b < abs b
  axiom cd_pos : forall a b [cd a b]. b > 0 -> a >= 0 -> 0 <= cd a b <= a
  predicate divides (d n: int)
  function gcd (a b: int) : int
  val ghost divides_elim (d n: int) : unit requires { divides d n } requires { d <> 0 } ensures { n = d * cd n d } ensures { cm n d = 0 }
  val ghost divides_intro (d q: int) : unit ensures { divides d (q * d) }
  val ghost gcd_pos (a b: int) : unit requires { a <> 0 \/ b <> 0 } ensures { gcd a b > 0 }
  val ghost gcd_div (a b: int) : unit ensures { divides (gcd a b) a } ensures { divides (gcd a b) b }
  val ghost gcd_scale (c a b: int) : unit requires { c >= 0 } ensures { gcd (c * a) (c * b) = c * gcd a b }
  let ghost gcd_norm (a b: int) : unit requires { a <> 0 \/ b <> 0 }
    ensures { gcd a b > 0 } ensures { gcd (cd a (gcd a b)) (cd b (gcd a b)) = 1 }
    ensures { a = gcd a b * cd a (gcd a b) } ensures { b = gcd a b * cd b (gcd a b) }
  = gcd_pos a b; gcd_div a b; 
    let g = pure { gcd a b } in
    divides_elim g a; divides_elim g b;
    gcd_scale g (pure { cd a g }) (pure { cd b g });
    assert { g = g * gcd (cd a g) (cd b g) }
  let ghost div_unique (a b q: int) : unit requires { b <> 0 } requires { a = q * b } ensures { cd a b = q } ensures { cm a b = 0 }
  = assert { b * (cd a b - q) + cm a b = 0 };
    assert { abs (b * (cd a b - q)) < abs b };
    assert { abs (b * (cd a b - q)) = abs b * abs (cd a b - q) };
    assert { abs (cd a b - q) >= 1 -> abs b * abs (cd a b - q) >= abs b }
  let ghost mul_sign (a b: int) : unit ensures { a > 0 -> b > 0 -> a * b > 0 } ensures { a >= 0 -> b >= 0 -> a * b >= 0 } ensures { a <> 0 -> b <> 0 -> a * b <> 0 } = ()
  let ghost mul_le (a b c: int) : unit requires { c >= 0 } requires { a <= b } ensures { a * c <= b * c } ensures { c * a <= c * b } = ()
  let ghost mul_lt_cancel (a b c: int) : unit requires { c > 0 } ensures { a * c < b * c <-> a < b } ensures { a * c <= b * c <-> a <= b } ensures { a * c = b * c <-> a = b }
  = ()
end

module P3inst
  use int.Int
  use int.Abs
  use int.ComputerDivision as CD
  use number.Divisibility as D
  use number.Gcd as G
  use P1
  use P2
  clone export P3 with function cd = CD.div, function cm = CD.mod, predicate divides = D.divides, function gcd = G.gcd,
    val divides_elim = P1.divides_elim, val divides_intro = P1.divides_intro, val gcd_pos = P1.gcd_pos, val gcd_div = P1.gcd_div,
    val gcd_scale = P2.gcd_scale, goal .
end

module P4
  use int.Int
  use real.RealInfix
  use real.FromInt as RI
  use real.Truncate as RT
  use PR
  let ghost floor_div (v c: int) : unit
    requires { c > 0 }
    ensures { let q = RT.floor (RI.from_int v /. RI.from_int c) in q * c <= v < q * c + c }
  = let ghost q = pure { RT.floor (RI.from_int v /. RI.from_int c) } in
    assert { (RI.from_int v /. RI.from_int c) *. RI.from_int c = RI.from_int v };
    rmul_le (pure { RI.from_int q }) (pure { RI.from_int v /. RI.from_int c }) (pure { RI.from_int c });
    assert { RI.from_int (q * c) <=. RI.from_int v };
    rmul_lt (pure { RI.from_int v /. RI.from_int c }) (pure { RI.from_int q +. 1.0 }) (pure { RI.from_int c });
    assert { RI.from_int ((q+1) * c) = (RI.from_int q +. 1.0) *. RI.from_int c };
    assert { v < (q+1) * c }
  let ghost ceil_div (v c: int) : unit
    requires { c > 0 }
    ensures { let q = RT.ceil (RI.from_int v /. RI.from_int c) in q * c - c < v <= q * c }
  = let ghost q = pure { RT.ceil (RI.from_int v /. RI.from_int c) } in
    assert { (RI.from_int v /. RI.from_int c) *. RI.from_int c = RI.from_int v };
    rmul_le (pure { RI.from_int v /. RI.from_int c }) (pure { RI.from_int q }) (pure { RI.from_int c });
    assert { RI.from_int v <=. RI.from_int (q * c) };
    rmul_lt (pure { RI.from_int q -. 1.0 }) (pure { RI.from_int v /. RI.from_int c }) (pure { RI.from_int c });
    assert { RI.from_int ((q-1) * c) = (RI.from_int q -. 1.0) *. RI.from_int c };
    assert { (q-1) * c < v }
end

(* every axiom and every lemma function of prelude.NumSpec, for the standard definitions *)
module Check
  use int.Int
  use int.Abs
  use int.ComputerDivision as CD
  use number.Divisibility as D
  use number.Gcd as G
  use P1
  use P2
  use P3inst
  use P4
  clone prelude.NumSpec with
    function cd = CD.div, function cm = CD.mod, predicate divides = D.divides, function gcd = G.gcd, function lcm = P2.lcm,
    val divides_intro = P1.divides_intro, val divides_elim = P1.divides_elim, val divides_iff = P1.divides_iff, val divides_cm = P1.divides_cm,
    val divides_add = P1.divides_add, val divides_mul = P1.divides_mul, val divides_self = P1.divides_self, val divides_trans = P1.divides_trans,
    val divides_le = P1.divides_le, val gcd_step = P1.gcd_step, val gcd_comm = P1.gcd_comm, val gcd_assoc = P1.gcd_assoc, val gcd_zero = P1.gcd_zero,
    val gcd_one = P1.gcd_one, val gcd_abs = P1.gcd_abs, val gcd_pos = P1.gcd_pos, val gcd_div = P1.gcd_div, val gcd_great = P1.gcd_great,
    val gcd_scale = P2.gcd_scale, val gauss = P2.gauss, val coprime_mul = P2.coprime_mul, val lcm_pos = P2.lcm_pos, val lcm_least = P2.lcm_least,
    val gcd_norm = P3inst.gcd_norm, val div_unique = P3inst.div_unique, val mul_sign = P3inst.mul_sign, val mul_le = P3inst.mul_le,
    val mul_lt_cancel = P3inst.mul_lt_cancel, val floor_div = P4.floor_div, val ceil_div = P4.ceil_div,
    goal .
end
