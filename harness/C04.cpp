// bounded search: repetition vectors of random (in)consistent CSDF graphs against exact rational propagation
#include "graph.h"
#include <models/repetition_vector.h>
using namespace vt;
static bool consistent(const GSpec& g) {
    size_t n = g.phi.size();
    std::vector<__int128> num(n, 0), den(n, 1);
    for (auto& e : g.e) { long a = 0, b = 0; for (long x : e.in) a += x; for (long x : e.out) b += x; if (!a || !b) return false; }
    for (size_t r = 0; r < n; r++) {
        if (num[r]) continue;
        num[r] = 1;
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto& e : g.e) {
                long a = 0, b = 0; for (long x : e.in) a += x; for (long x : e.out) b += x;
                for (int k = 0; k < 2; k++) {
                    int u = k ? e.v : e.u, v = k ? e.u : e.v; long ru = k ? b : a, rv = k ? a : b;
                    if (!num[u]) continue;
                    __int128 p = num[u] * ru, q = den[u] * rv, x = p, y = q;
                    while (y) { __int128 t = x % y; x = y; y = t; }
                    p /= x; q /= x;
                    if (!num[v]) { num[v] = p; den[v] = q; ch = true; }
                    else if (num[v] != p || den[v] != q) return false;
                }
            }
        }
    }
    return true;
}
static void one(Rng& R) {
    GOpt o;
    o.maxv = (int)R.in(1, 6); o.maxq = (int)R.in(1, 7); o.maxphi = (int)R.in(1, 5); o.extra = (int)R.in(0, 5); o.maxmul = (int)R.in(1, 3); o.connected = R.p(60);
    GSpec g = random_graph(R, o);
    if (!g.e.empty() && R.p(45)) {
        int k = (int)R.in(1, 2);
        for (int i = 0; i < k; i++) { auto& e = g.e[R.in(0, (long)g.e.size() - 1)]; auto& v = R.p(50) ? e.in : e.out; long& x = v[R.in(0, (long)v.size() - 1)]; x = R.p(12) ? 0 : x + R.in(1, 3); }
    }
    std::vector<char> con(g.phi.size(), 0);
    for (auto& e : g.e) con[e.u] = con[e.v] = 1;
    bool iso = false;
    for (size_t i = 0; i < con.size(); i++) if (!con[i]) { if (R.p(50)) { g.phi[i] = 1; g.dur[i].resize(1); } else if (g.phi[i] > 1) iso = true; }
    g_case = g.text();
    if (iso) return;   // known finding: a task without channels and with several phases
    bool want = consistent(g);
    ++g_evals;
    models::Dataflow d;
    build(d, g);
    bool got = computeRepetitionVector(&d);
    VT_REQ(got == want, "a graph is accepted exactly when it has a positive balanced vector", "accepted=" << got << " expected " << want);
    VT_REQ(d.has_repetition_vector() == want, "marked as computed exactly when accepted", "");
    if (!got) return;
    long gg = 0;
    auto vs = verts(d);
    for (auto v : vs) {
        long n = d.getNi(v), p = d.getPhasesQuantity(v);
        VT_REQ(n > 0 && n % p == 0, "counts are positive multiples of the phase count", "task " << v.v << " has " << n);
        gg = std::gcd(gg, n / p);
    }
    VT_REQ(gg == 1, "no smaller vector", "common divisor " << gg);
    for (auto e : edgesof(d)) {
        Vertex a = d.getEdgeSource(e), b = d.getEdgeTarget(e);
        VT_REQ(d.getEdgeIn(e) * (d.getNi(a) / d.getPhasesQuantity(a)) == d.getEdgeOut(e) * (d.getNi(b) / d.getPhasesQuantity(b)), "every channel is balanced", "channel " << d.getEdgeName(e) << " Ni " << d.getNi(a) << " and " << d.getNi(b));
    }
    std::vector<long> ni; for (auto v : vs) ni.push_back(d.getNi(v));
    VT_REQ(computeRepetitionVector(&d), "computing it again keeps it", "");
    for (auto v : vs) VT_REQ(d.getNi(v) == ni[v.v], "computing it again keeps it", v.v);
    g_nontrivial += g.phi.size() > 1;
}
void vt_run(unsigned long seed, int effort) {
    for (long i = 0; i < 60000L * effort && more(); i++) {
        Rng R(seed * 1000003UL + i);
        one(R);
    }
}
