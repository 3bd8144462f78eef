// bounded search: integer helpers against definitions
#include "h.h"
#include <boost/assert.hpp>
#include <commons/commons.h>
using namespace vt;
typedef __int128 I;
static void one(long a, long c) {
    begin("v=" + std::to_string(a) + " c=" + std::to_string(c));
    long m = commons::modulo<long>(a, c);
    VT_REQ(m >= 0 && m < c && ((I)a - m) % c == 0, "remainder in range and congruent", "modulo=" << m);
    long f = commons::floor<long>(a, c), e = commons::ceil<long>(a, c);
    VT_REQ(f % c == 0 && (I)f <= a && (I)a < (I)f + c, "round down to a multiple", "floor=" << f);
    VT_REQ(e % c == 0 && (I)e >= a && (I)e - c < a, "round up to a multiple", "ceil=" << e);
    f = commons::flooru<long>(a, c); e = commons::ceilu<long>(a, c);
    VT_REQ(f % c == 0 && (I)f <= a && (I)a < (I)f + c, "round down to a multiple", "flooru=" << f);
    VT_REQ(e % c == 0 && (I)e >= a && (I)e - c < a, "round up to a multiple", "ceilu=" << e);
    f = commons::floord<long>(a, c); e = commons::ceild<long>(a, c);
    VT_REQ(f % c == 0 && (I)f < a && (I)a <= (I)f + c, "round down to a smaller multiple", "floord=" << f);
    VT_REQ(e % c == 0 && (I)e > a && (I)e - c <= a, "round up to a greater multiple", "ceild=" << e);
}
static void bez(long a, long b, long c) {
    begin("a=" + std::to_string(a) + " b=" + std::to_string(b) + " c=" + std::to_string(c));
    auto r = commons::extended_euclide<long>(a, b, c);
    VT_REQ((I)a * r.first + (I)b * r.second == (I)c, "Bezout identity", r.first << "," << r.second);
}
void vt_run(unsigned long seed, int effort) {
    Rng R(seed);
    for (long a = -60; a <= 60; a++) for (long c = 1; c <= 40; c++) one(a, c);
    for (long a = 1; a <= 30; a++) for (long b = 1; b <= 30; b++) for (long k = -3; k <= 3; k++) bez(a, b, k * std::gcd(a, b));
    for (long i = 0; i < 200000L * effort && more(); i++) {
        long m = R.p(50) ? 1000 : 1000000000L;
        one(R.in(-m, m), R.in(1, R.p(50) ? 50 : m));
        long a = R.in(1, 100000), b = R.in(1, 100000), k = R.in(1, 200);
        a *= k; b *= k;
        bez(a, b, R.in(-100000, 100000) * std::gcd(a, b));
        std::vector<long> v;
        for (long n = R.in(0, 8); n > 0; n--) v.push_back(R.in(-5, 5));
        long x = R.in(-6, 6);
        begin("findInVector " + str(v) + " " + std::to_string(x));
        bool in = false; for (long y : v) if (y == x) in = true;
        VT_REQ(commons::findInVector<long>(v, x) == in, "membership", "");
    }
}
