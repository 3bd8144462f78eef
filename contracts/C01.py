from vt.gen import Prop, F

TU = {"commons": """#include <boost/assert.hpp>
#include <commons/commons.h>
template class Fraction<long>;
template bool operator<=<long>(const Fraction<long>&, const Fraction<long>&);
template bool operator!=<long>(const Fraction<long>&, const Fraction<long>&);
template bool operator!=<long>(const Fraction<long>&, const long&);
template bool operator<=<long>(const Fraction<long>&, const long&);
template Fraction<long> operator/<long>(Fraction<long>, const Fraction<long>&);
template Fraction<long> operator*<long>(Fraction<long>, const Fraction<long>&);
template Fraction<long> operator*<long>(Fraction<long>, const long&);
"""}

THEORY = """
  (* normal form: positive denominator, numerator and denominator without common factor *)
  predicate wf (f: fraction) = f.fd > 0 /\\ gcd f.fn f.fd = 1

  (* one step of the continued-fraction comparison *)
  let ghost cf (q1 d1 r1 q2 d2 r2: int) : unit
    requires { 0 <= r1 < d1 } requires { 0 <= r2 < d2 }
    ensures { q1 < q2 -> (q1*d1 + r1) * d2 < (q2*d2 + r2) * d1 }
    ensures { q2 < q1 -> (q2*d2 + r2) * d1 < (q1*d1 + r1) * d2 }
    ensures { q1 = q2 -> ((q1*d1 + r1) * d2 < (q2*d2 + r2) * d1 <-> r1 * d2 < r2 * d1) }
    ensures { q1 = q2 -> ((q2*d2 + r2) * d1 < (q1*d1 + r1) * d2 <-> r2 * d1 < r1 * d2) }
  = mul_sign d1 d2;
    let p = d1 * d2 in
    assert { (q1*d1 + r1) * d2 = q1 * p + r1 * d2 };
    assert { (q2*d2 + r2) * d1 = q2 * p + r2 * d1 };
    mul_lt_cancel r1 d1 d2; mul_lt_cancel r2 d2 d1;
    assert { r1 * d2 < p }; assert { r2 * d1 < p };
    mul_sign r1 d2; mul_sign r2 d1;
    if q1 < q2 then begin mul_le (q1 + 1) q2 p; assert { q1 * p + p <= q2 * p } end;
    if q2 < q1 then begin mul_le (q2 + 1) q1 p; assert { q2 * p + p <= q1 * p } end

  (* two normal forms of equal value are the same pair *)
  let ghost wf_unique (n1 d1 n2 d2: int) : unit
    requires { d1 > 0 } requires { d2 > 0 } requires { gcd n1 d1 = 1 } requires { gcd n2 d2 = 1 }
    ensures { n1 * d2 = n2 * d1 <-> n1 = n2 /\\ d1 = d2 }
  = if n1 * d2 = n2 * d1 then begin
      gcd_comm n1 d1; gcd_comm n2 d2;
      divides_intro d1 n2; divides_intro d2 n1;
      gauss d1 n1 d2; gauss d2 n2 d1;
      divides_le d1 d2; divides_le d2 d1;
      assert { d1 = d2 };
      mul_lt_cancel n1 n2 d1
    end

  (* a/b reduced by cross-cancellation stays reduced *)
  let ghost cross (n d m e: int) : unit
    requires { gcd n d = 1 } requires { gcd m e = 1 } requires { d > 0 } requires { e > 0 } requires { n <> 0 } requires { m <> 0 }
    ensures { let g1 = gcd n m in let g2 = gcd e d in
              gcd (cd n g1 * cd e g2) (cd d g2 * cd m g1) = 1
              /\\ (cd n g1 * cd e g2) * (d * m) = (n * e) * (cd d g2 * cd m g1)
              /\\ cd d g2 > 0 /\\ cd e g2 > 0 /\\ cd n g1 <> 0 /\\ cd m g1 <> 0 }
  = gcd_norm n m; gcd_norm e d;
    let g1 = pure { gcd n m } in let g2 = pure { gcd e d } in
    let n1 = pure { cd n g1 } in let m1 = pure { cd m g1 } in let e1 = pure { cd e g2 } in let d1 = pure { cd d g2 } in
    pos_factor e g2 e1; pos_factor d g2 d1;
    assert { n1 <> 0 }; assert { m1 <> 0 };
    sub_coprime n d n1 d1 g1 g2;
    sub_coprime m e m1 e1 g1 g2;
    gcd_comm m1 e1; gcd_comm d1 n1; gcd_comm m1 n1;
    coprime_mul n1 d1 m1; gcd_comm e1 m1;
    coprime_mul e1 d1 m1;
    gcd_comm n1 (d1 * m1); gcd_comm e1 (d1 * m1);
    coprime_mul (d1 * m1) n1 e1;
    gcd_comm (d1 * m1) (n1 * e1);
    assert { (n1 * e1) * (d * m) = (n * e) * (d1 * m1)
             by (n1 * e1) * (d * m) = (n1 * e1) * ((g2 * d1) * (g1 * m1))
             /\\ (n * e) * (d1 * m1) = ((g1 * n1) * (g2 * e1)) * (d1 * m1) }
"""
PRE = """
  let ghost pos_factor (a g q: int) : unit
    requires { a > 0 } requires { g > 0 } requires { a = g * q } ensures { q > 0 } = ()
  let ghost sub_coprime (n d n1 d1 g1 g2: int) : unit
    requires { gcd n d = 1 } requires { n = g1 * n1 } requires { d = g2 * d1 } requires { d > 0 }
    ensures { gcd n1 d1 = 1 }
  = let h = pure { gcd n1 d1 } in
    gcd_div n1 d1; divides_intro n1 g1; divides_intro d1 g2;
    divides_trans h n1 n; divides_trans h d1 d;
    gcd_great n d h;
    gcd_pos n1 d1;
    divides_le h 1
"""
THEORY = THEORY.replace("  (* a/b reduced", PRE + "  (* a/b reduced")

REC = [("fraction", [("n", "fn", "long"), ("d", "fd", "long")])]
LT = "this.fn * r.fd < r.fn * this.fd"
T1 = "(ts.anon1_q * ts.anon1_d + ts.anon1_r) * rs.anon1_d"
R1 = "(rs.anon1_q * rs.anon1_d + rs.anon1_r) * ts.anon1_d"

def K(sig):
    return "Fraction<long>::" + sig

PROP = Prop("C01", TU, [
    F("fr_ctor", K("Fraction(long, long)"), "commons", cls="fraction", filt="Fraction",
      
      requires=["d > 0"],
      ensures=[("normal", "wf result"), ("value", "result.fn * d = n * result.fd")],
      entry=["gcd_norm n d; gcd_pos n d;"],
      hooks={("return",): ["assert { this.fn = cd n (gcd n d) /\\ this.fd = cd d (gcd n d) };", "c01_ctor n d;"]}),
    F("fr_num", K("numerator() const"), "commons", cls="fraction", filt="Fraction", ensures=["result = this.fn"]),
    F("fr_den", K("denominator() const"), "commons", cls="fraction", filt="Fraction", ensures=["result = this.fd"]),
    F("fr_eq", K("operator==(Fraction<long> const&) const"), "commons", cls="fraction", filt="Fraction",
      requires=["wf this", "wf rhs"],
      ensures=[("exact", "result <-> this.fn * rhs.fd = rhs.fn * this.fd")],
      entry=["wf_unique this.fn this.fd rhs.fn rhs.fd;"]),
    F("fr_lt", K("operator<(Fraction<long> const&) const"), "commons", cls="fraction", filt="Fraction",
      requires=["this.fd > 0", "r.fd > 0"],
      ensures=[("exact", "result <-> " + LT)],
      loops={1: dict(inv=["ts.anon1_q * ts.anon1_d + ts.anon1_r = this.fn", "ts.anon1_r < ts.anon1_d", "ts.anon1_d = this.fd"], variant="- ts.anon1_r"),
             2: dict(inv=["rs.anon1_q * rs.anon1_d + rs.anon1_r = r.fn", "rs.anon1_r < rs.anon1_d", "rs.anon1_d = r.fd"], variant="- rs.anon1_r"),
             3: dict(inv=["0 <= ts.anon1_r < ts.anon1_d", "0 <= rs.anon1_r < rs.anon1_d",
                          "reverse = 0 \\/ reverse = 1",
                          "reverse = 0 -> (%s <-> %s < %s)" % (LT, T1, R1),
                          "reverse = 1 -> (%s <-> %s < %s)" % (LT, R1, T1)],
                     begin=["cf ts.anon1_q ts.anon1_d ts.anon1_r rs.anon1_q rs.anon1_d rs.anon1_r;",
                            "mul_sign ts.anon1_r rs.anon1_d; mul_sign rs.anon1_r ts.anon1_d;"],
                     variant="ts.anon1_d")}),
    F("fr_gt", K("operator>(Fraction<long> const&) const"), "commons", cls="fraction", filt="Fraction",
      requires=["wf this", "wf rhs"],
      ensures=[("exact", "result <-> this.fn * rhs.fd > rhs.fn * this.fd")]),
    F("fr_eqv", K("operator==(long const&) const"), "commons", cls="fraction", filt="Fraction",
      requires=["wf this"],
      ensures=[("exact", "result <-> this.fn = i * this.fd")],
      entry=["gcd_one i; wf_unique this.fn this.fd i 1;"]),
    F("fr_ltv", K("operator<(long const&) const"), "commons", cls="fraction", filt="Fraction",
      requires=["this.fd > 0"],
      ensures=[("exact", "result <-> this.fn < i * this.fd")],
      loops={1: dict(inv=["q * this.fd + r = this.fn", "r < this.fd"], variant="- r")},
      hooks={("return",): ["if q < i then mul_le (q+1) i this.fd else mul_le i q this.fd;"]}),
    F("fr_gtv", K("operator>(long const&) const"), "commons", cls="fraction", filt="Fraction",
      requires=["wf this"],
      ensures=[("exact", "result <-> this.fn > rhs * this.fd")]),
    F("fr_mul", K("operator*=(Fraction<long> const&)"), "commons", cls="fraction", filt="Fraction",
      requires=["wf this", "wf rhs"],
      entry=["let n0 = this.fn in let d0 = this.fd in mul_sign d0 rhs.fd; gcd_norm (n0 * rhs.fn) (d0 * rhs.fd); c01_ctor (n0 * rhs.fn) (d0 * rhs.fd);"],
      ensures=[("normal", "wf this"), ("value", "this.fn * ((old this.fd) * rhs.fd) = ((old this.fn) * rhs.fn) * this.fd")]),
    F("fr_div", K("operator/=(Fraction<long> const&)"), "commons", cls="fraction", filt="Fraction",
      requires=["wf this", "wf r", "r.fn <> 0"],
      entry=["let n0 = this.fn in let d0 = this.fd in if n0 <> 0 then c01_div n0 d0 r.fn r.fd;"],
      ensures=[("normal", "wf this"), ("value", "this.fn * ((old this.fd) * r.fn) = ((old this.fn) * r.fd) * this.fd")]),
    F("fr_divv", K("operator/=(long const&)"), "commons", cls="fraction", filt="Fraction",
      requires=["wf this", "i <> 0"],
      entry=["let n0 = this.fn in let d0 = this.fd in gcd_one i; if n0 <> 0 then c01_divv n0 d0 i;"],
      hooks={("return",): ["assert { n0 <> 0 -> let g = gcd n0 i in (this.fn = cd n0 g /\\ this.fd = d0 * cd i g) \\/ (this.fn = - (cd n0 g) /\\ this.fd = - (d0 * cd i g)) };",
                             "assert { this.fn * (d0 * i) = n0 * this.fd };"]},
      ensures=[("normal", "wf this"), ("value", "this.fn * ((old this.fd) * i) = (old this.fn) * this.fd")]),
    F("op_le", "bool operator<=<long>(Fraction<long> const&, Fraction<long> const&)", "commons", filt="operator<=", name="operator<=",
      requires=["wf lhs", "wf rhs"],
      ensures=[("exact", "result <-> lhs.fn * rhs.fd <= rhs.fn * lhs.fd")]),
    F("op_lev", "bool operator<=<long>(Fraction<long> const&, long const&)", "commons", filt="operator<=", name="operator<=",
      requires=["wf lhs"],
      ensures=[("exact", "result <-> lhs.fn <= rhs * lhs.fd")]),
    F("op_ne", "bool operator!=<long>(Fraction<long> const&, Fraction<long> const&)", "commons", filt="operator!=", name="operator!=",
      requires=["wf lhs", "wf rhs"],
      entry=["wf_unique lhs.fn lhs.fd rhs.fn rhs.fd;"],
      ensures=[("exact", "result <-> lhs.fn * rhs.fd <> rhs.fn * lhs.fd")]),
    F("op_nev", "bool operator!=<long>(Fraction<long> const&, long const&)", "commons", filt="operator!=", name="operator!=",
      requires=["wf lhs"],
      entry=["gcd_one rhs; wf_unique lhs.fn lhs.fd rhs 1;"],
      ensures=[("exact", "result <-> lhs.fn <> rhs * lhs.fd")]),
    F("op_div", "operator/<long>(Fraction<long>, Fraction<long> const&)", "commons", filt="operator/", name="operator/",
      requires=["wf lhs", "wf rhs", "rhs.fn <> 0"],
      ensures=[("normal", "wf result"), ("value", "result.fn * (lhs.fd * rhs.fn) = (lhs.fn * rhs.fd) * result.fd")]),
    F("op_mul", "operator*<long>(Fraction<long>, Fraction<long> const&)", "commons", filt="operator*", name="operator*",
      requires=["wf lhs", "wf rhs"],
      ensures=[("normal", "wf result"), ("value", "result.fn * (lhs.fd * rhs.fd) = (lhs.fn * rhs.fn) * result.fd")]),
    F("op_mulv", "operator*<long>(Fraction<long>, long const&)", "commons", filt="operator*", name="operator*",
      requires=["wf lhs"],
      ensures=[("normal", "wf result"), ("value", "result.fn * lhs.fd = (lhs.fn * rhs) * result.fd")]),
], classes={"Fraction<long>": "fraction", "Fraction": "fraction", "Fraction<V>": "fraction"}, records=REC,
   defaults={}, theory=THEORY + """
  let ghost c01_ctor (n d: int) : unit requires { d > 0 }
    ensures { cd n (gcd n d) * d = n * cd d (gcd n d) } ensures { cd d (gcd n d) > 0 } ensures { gcd n d > 0 }
    ensures { gcd (cd n (gcd n d)) (cd d (gcd n d)) = 1 }
  = gcd_norm n d;
    let g = pure { gcd n d } in let n1 = pure { cd n g } in let d1 = pure { cd d g } in
    pos_factor d g d1;
    assert { n1 * d = n * d1 by n1 * d = n1 * (g * d1) /\\ n * d1 = (g * n1) * d1 }
  let ghost c01_div (n d m e: int) : unit
    requires { gcd n d = 1 } requires { gcd m e = 1 } requires { d > 0 } requires { e > 0 } requires { n <> 0 } requires { m <> 0 }
    ensures { let g1 = gcd n m in let g2 = gcd e d in
              let a = cd n g1 * cd e g2 in let b = cd d g2 * cd m g1 in
              g1 > 0 /\\ g2 > 0 /\\ b <> 0 /\\ gcd a b = 1 /\\ gcd (-a) (-b) = 1 /\\ a * (d * m) = (n * e) * b /\\ (-a) * (d * m) = (n * e) * (-b) }
  = gcd_pos n m; gcd_pos e d; cross n d m e;
    let g1 = pure { gcd n m } in let g2 = pure { gcd e d } in
    let a = pure { cd n g1 * cd e g2 } in let b = pure { cd d g2 * cd m g1 } in
    mul_sign (pure { cd d g2 }) (pure { cd m g1 });
    gcd_abs a b; gcd_abs a (-b);
    assert { (-a) * (d * m) = - (a * (d * m)) }; assert { (n * e) * (-b) = - ((n * e) * b) }
  let ghost c01_divv (n d i: int) : unit
    requires { gcd n d = 1 } requires { d > 0 } requires { n <> 0 } requires { i <> 0 }
    ensures { let g = gcd n i in let a = cd n g in let b = d * cd i g in
              g > 0 /\\ b <> 0 /\\ gcd a b = 1 /\\ gcd (-a) (-b) = 1 /\\ a * (d * i) = n * b /\\ (-a) * (d * i) = n * (-b) }
  = gcd_norm n i;
    let g = pure { gcd n i } in let a = pure { cd n g } in let k = pure { cd i g } in let b = d * k in
    assert { k <> 0 }; mul_sign d k;
    sub_coprime n d a d g 1;
    coprime_mul a d k;
    gcd_abs a b; gcd_abs a (-b);
    assert { a * (d * i) = n * b by a * (d * i) = a * (d * (g * k)) /\\ n * b = (g * a) * (d * k) };
    assert { (-a) * (d * i) = - (a * (d * i)) }; assert { n * (-b) = - (n * b) }
""")
HARNESS = dict(src="C01.cpp", sources=["commons/verbose.cpp"])
