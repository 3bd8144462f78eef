// bounded search: Fraction<long> against exact rationals in __int128
#include "h.h"
#include <boost/assert.hpp>
#include <commons/commons.h>
using namespace vt;
typedef Fraction<long> Fr;
typedef __int128 I;
static I g(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
struct Q { I n, d; };
static Q mk(I n, I d) { if (d < 0) { n = -n; d = -d; } I k = g(n, d); return Q{n / k, d / k}; }
static bool same(const Fr& f, const Q& q) { return (I)f.numerator() == q.n && (I)f.denominator() == q.d; }
static std::string S(const Fr& f) { return std::to_string(f.numerator()) + "/" + std::to_string(f.denominator()); }
static bool fits(const Q& q) { return q.n < 2000000000 && q.n > -2000000000 && q.d < 2000000000; }
static void one(long a, long b, long c, long d) {
    begin("a=" + std::to_string(a) + "/" + std::to_string(b) + " b=" + std::to_string(c) + "/" + std::to_string(d));
    Fr x(a, b), y(c, d);
    Q p = mk(a, b), q = mk(c, d);
    VT_REQ(same(x, p), "construction reduces and keeps the value", S(x));
    VT_REQ(same(y, q), "construction reduces and keeps the value", S(y));
    I l = p.n * q.d, r = q.n * p.d;
    VT_REQ((x < y) == (l < r), "less-than is exact", S(x) << " < " << S(y) << " gave " << (x < y));
    VT_REQ((x > y) == (l > r), "greater-than is exact", S(x) << " > " << S(y));
    VT_REQ((x == y) == (l == r), "equality is exact", S(x) << " == " << S(y));
    VT_REQ((x != y) == (l != r), "inequality is exact", S(x) << " != " << S(y));
    VT_REQ((x <= y) == (l <= r), "less-or-equal is exact", S(x) << " <= " << S(y));
    VT_REQ((x < c) == (p.n < (I)c * p.d), "less-than integer is exact", S(x) << " < " << c);
    VT_REQ((x > c) == (p.n > (I)c * p.d), "greater-than integer is exact", S(x) << " > " << c);
    VT_REQ((x == c) == (p.n == (I)c * p.d), "equality with integer is exact", S(x) << " == " << c);
    VT_REQ((x != c) == (p.n != (I)c * p.d), "inequality with integer is exact", S(x) << " != " << c);
    VT_REQ((x <= c) == (p.n <= (I)c * p.d), "less-or-equal integer is exact", S(x) << " <= " << c);
    VT_REQ(same(x * y, mk(p.n * q.n, p.d * q.d)), "product", S(x) << " * " << S(y) << " = " << S(x * y));
    VT_REQ(same(x * c, mk(p.n * c, p.d)), "product with integer", S(x) << " * " << c << " = " << S(x * c));
    { Fr z = x; z *= z; if (fits(p)) VT_REQ(same(z, mk(p.n * p.n, p.d * p.d)), "product with itself", S(x) << " gave " << S(z)); }
    if (q.n != 0) {
        VT_REQ(same(x / y, mk(p.n * q.d, p.d * q.n)), "quotient", S(x) << " / " << S(y) << " = " << S(x / y));
    }
    if (p.n != 0) { Fr z = x; z /= z; VT_REQ(same(z, Q{1, 1}), "quotient by itself", S(x) << " gave " << S(z)); }
    if (c != 0) {
        Fr z = x; z /= c;
        VT_REQ(same(z, mk(p.n, p.d * c)), "quotient by integer", S(x) << " / " << c << " = " << S(z));
    }
    VT_REQ(same(x, p) && same(y, q), "operands unchanged", S(x) << " " << S(y));
}
void vt_run(unsigned long seed, int effort) {
    Rng R(seed);
    long N = 12;
    for (long a = -N; a <= N; a++) for (long b = 1; b <= N; b++) for (long c = -N; c <= N; c++) for (long d = 1; d <= N; d += (effort > 1 ? 1 : 2)) one(a, b, c, d);
    for (long i = 0; i < 150000L * effort && more(); i++) {
        long m = R.p(50) ? 60 : R.p(50) ? 5000 : 40000;
        one(R.in(-m, m), R.in(1, m), R.in(-m, m), R.in(1, m));
        long k = R.in(1, 60), l = R.in(1, 60);
        one(R.in(-60, 60) * k, l * R.in(1, 60), R.in(-60, 60) * l, k * R.in(1, 60));
    }
}
