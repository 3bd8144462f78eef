from vt.gen import Prop, F

TU = {"commons": """#include <boost/assert.hpp>
#include <commons/commons.h>
template long commons::modulo<long>(long,long);
template std::pair<long,long> commons::extended_euclide<long>(long,long,long);
template const long commons::floor<long>(long,long);
template long commons::ceil<long>(long,long);
template long commons::flooru<long>(long,long);
template long commons::ceilu<long>(long,long);
template long commons::floord<long>(long,long);
template long commons::ceild<long>(long,long);
template bool commons::findInVector<long>(const std::vector<long>&, long);
template long double commons::division<long,long>(long,long);
"""}

THEORY = ""

PROP = Prop("C02", TU, [
    F("modulo", "commons::modulo<long>(", "commons",
      requires=["b > 0"],
      ensures=[("range", "0 <= result < b"), ("congruent", "divides b (a - result)")],
      entry=["let a0 = a in"],
      hooks={("return",): ["divides_cm a0 b; divides_self b; divides_add b (pure { a0 - cm a0 b }) b;"]}),
    F("cfloor", "commons::floor<long>(", "commons",
      requires=["c > 0"],
      ensures=[("multiple", "divides c result"), ("greatest", "result <= v < result + c")],
      entry=["floor_div v c; divides_intro c (pure { rfloor (R.(/) (ri v) (ri c)) });"]),
    F("cceil", "commons::ceil<long>(", "commons",
      requires=["c > 0"],
      ensures=[("multiple", "divides c result"), ("least", "result - c < v <= result")],
      entry=["ceil_div v c; divides_intro c (pure { rceil (R.(/) (ri v) (ri c)) });"]),
    F("flooru", "commons::flooru<long>(", "commons", requires=["c > 0"],
      ensures=[("multiple", "divides c result"), ("greatest", "result <= v < result + c")],
      entry=["floor_div v c; divides_intro c (pure { rfloor (R.(/) (ri v) (ri c)) });"]),
    F("ceilu", "commons::ceilu<long>(", "commons", requires=["c > 0"],
      ensures=[("multiple", "divides c result"), ("least", "result - c < v <= result")],
      entry=["ceil_div v c; divides_intro c (pure { rceil (R.(/) (ri v) (ri c)) });"]),
    F("floord", "commons::floord<long>(", "commons", requires=["c > 0"],
      ensures=[("multiple", "divides c result"), ("greatest_below", "result < v <= result + c")],
      entry=["divides_cm v c; divides_self c; if pure { divides c v } then divides_elim c v;"], hooks={("return",): ["if pure { cm v c = 0 } then begin divides_elim c v; assert { v = c * cd v c /\\ v - c = c * (cd v c - 1) }; divides_intro c (pure { cd v c - 1 }) end;"]}),
    F("ceild", "commons::ceild<long>(", "commons", requires=["c > 0"],
      ensures=[("multiple", "divides c result"), ("least_above", "result - c <= v < result")],
      entry=["divides_cm v c; divides_self c; if pure { divides c v } then divides_elim c v;"], hooks={("return",): ["if pure { cm v c = 0 } then begin divides_elim c v; assert { v = c * cd v c /\\ v + c = c * (cd v c + 1) }; divides_intro c (pure { cd v c + 1 }) end;"]}),
    F("extended_euclide", "commons::extended_euclide<long>(", "commons",
      requires=["_a > 0", "_b > 0", "divides (gcd _a _b) _c"],
      ensures=[("bezout", "_a * result.first + _b * result.second = _c")],
      loops={1: dict(inv=["r.first >= 0", "r.second >= 0",
                          "a * s.first + b * t.first = r.first",
                          "a * s.second + b * t.second = r.second",
                          "gcd r.first r.second = 1",
                          "r.first > 0 \\/ r.second > 0"], variant="r.second")},
      hooks={("decl", "quotient"): ["gcd_step r.second r.first quotient; gcd_comm r.first r.second; gcd_comm r.second (pure { r.first - quotient * r.second });"],
             ("decl", "gcdab"): ["gcd_norm _a _b; divides_elim gcdab _c;"],
             ("return",): ["gcd_zero r.first; assert { r.first = 1 };", "assert { _a = gcdab * a /\\ _b = gcdab * b /\\ _c = gcdab * c };",
                           "assert { a * (c * s.first) + b * (c * t.first) = c * (a * s.first + b * t.first) };",
                           "assert { a * (c * s.first) + b * (c * t.first) = c };"]}),
    F("findInVector", "commons::findInVector<long>(", "commons",
      ensures=[("iff_member", "result <-> vmem v vect")],
      loops={1: dict(inv=["forall j. 0 <= j < idx1 -> get vect j <> v"])}),
], theory="  use real.Real as R")
HARNESS = dict(src="C02.cpp", sources=["commons/verbose.cpp", "commons/commons.cpp"])
THEORIES = ("numproof.mlw",)
