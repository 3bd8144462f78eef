// bounded search: the real enlargement of the periodicity vector on random consistent graphs and channel sets, repeated until nothing changes
#include "graph.h"
#include <models/repetition_vector.h>
#include <algorithms/throughput/kperiodic.h>
using namespace vt;
static void one(Rng& R) {
    GOpt o;
    o.maxv = (int)R.in(1, 6); o.maxq = (int)R.in(1, 60); o.maxphi = (int)R.in(1, 3); o.extra = (int)R.in(0, 4); o.maxmul = 2;
    GSpec g = random_graph(R, o);
    size_t n = g.phi.size();
    std::ostringstream t;
    t << g.text();
    std::vector<std::vector<int>> ccs;
    for (int r = 0; r < 3; r++) { std::vector<int> c; for (size_t k = 0; k < g.e.size(); k++) if (R.p(r == 0 ? 50 : 30)) c.push_back((int)k); ccs.push_back(c); t << " circuit" << str(c); }
    models::Dataflow d;
    build(d, g);
    auto vs = verts(d);
    auto es = edgesof(d);
    if (!computeRepetitionVector(&d)) return;
    std::vector<long> q(n), K(n);
    periodicity_vector_t kv;
    for (size_t i = 0; i < n; i++) {
        q[i] = d.getNi(vs[i]) / g.phi[i];
        std::vector<long> dv; for (long x = 1; x <= q[i]; x++) if (q[i] % x == 0) dv.push_back(x);
        K[i] = R.p(50) ? 1 : R.pick(dv);
        kv[vs[i]] = K[i];
    }
    t << " q=" << str(q) << " K=" << str(K);
    begin(t.str(), n > 1);
    for (auto& c : ccs) {
        critical_circuit_t cc;
        long gg = 0;
        for (int k : c) { cc.insert(es[k]); gg = std::gcd(gg, q[g.e[k].u]); }
        auto want = K; bool ch = false;
        for (int k : c) { int u = g.e[k].u; want[u] = std::lcm(K[u], q[u] / gg); }
        for (size_t i = 0; i < n; i++) if (want[i] != K[i]) ch = true;
        bool r = algorithms::updateVectorWithLocalNi(&d, &kv, &cc);
        VT_REQ(r == ch, "answers whether something changed", r);
        for (size_t i = 0; i < n; i++) VT_REQ(kv.at(vs[i]) == want[i], "least common multiples on the circuit", "task " << i << " K=" << kv.at(vs[i]) << " expected " << want[i]);
        VT_REQ(kv.size() == n && cc.size() == std::set<int>(c.begin(), c.end()).size(), "nothing else changes", kv.size());
        K = want;
    }
}
void vt_run(unsigned long seed, int effort) {
    for (long i = 0; i < 200000L * effort && more(); i++) {
        Rng R(seed * 1000003UL + i);
        one(R);
    }
}
