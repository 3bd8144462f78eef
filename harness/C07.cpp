// bounded search: the real schedules read off the event graphs of random CSDF graphs, executed token by token, and against the earliest start times
#include "graph.h"
#include <models/repetition_vector.h>
#include <models/EventGraph.h>
#include <models/Scheduling.h>
#include <algorithms/throughput/kperiodic.h>
scheduling_t period2scheduling(const models::Dataflow* const dataflow, const periodicity_vector_t& kvector, TIME_UNIT throughput);
using namespace vt;
static void one(Rng& R) {
    GOpt o;
    o.maxv = (int)R.in(1, 4); o.maxq = (int)R.in(1, 4); o.maxphi = (int)R.in(1, 3); o.extra = (int)R.in(0, 3); o.maxmul = (int)R.in(1, 3); o.preload = (int)R.in(0, 12); o.maxdur = 9; o.live = R.p(70);
    GSpec g = random_graph(R, o);
    size_t n = g.phi.size();
    for (size_t i = 0; i < n; i++) g.reent[i] = R.in(0, 1);
    std::vector<long> ip(n, 0), K(n);
    std::vector<std::vector<long double>> idur;
    bool init = R.p(40);
    for (size_t i = 0; i < n; i++) { if (init && R.p(40)) ip[i] = R.in(1, 3); idur.push_back({}); for (long k = 0; k < ip[i]; k++) idur[i].push_back(R.in(0, 9)); K[i] = R.p(50) ? 1 : R.in(1, 3); }
    std::vector<std::vector<long>> iin, iout;
    std::ostringstream t;
    t << g.text() << " K=" << str(K) << " init=" << str(ip);
    for (auto& e : g.e) {
        std::vector<long> a, b;
        for (long k = 0; k < ip[e.u]; k++) a.push_back(R.in(0, 4));
        for (long k = 0; k < ip[e.v]; k++) b.push_back(R.in(0, 4));
        iin.push_back(a); iout.push_back(b);
        t << " i" << str(a) << str(b);
    }
    int pickom = (int)R.in(0, 2);
    t << " period choice " << pickom;
    begin(t.str(), n > 1);
    models::Dataflow d;
    build(d, g);
    auto vs = verts(d);
    auto es = edgesof(d);
    for (size_t i = 0; i < n; i++) if (ip[i]) { d.setInitPhasesQuantity(vs[i], ip[i]); d.setVertexInitDuration(vs[i], idur[i]); }
    for (size_t k = 0; k < es.size(); k++) { if (ip[g.e[k].u]) d.setEdgeInInitPhases(es[k], iin[k]); if (ip[g.e[k].v]) d.setEdgeOutInitPhases(es[k], iout[k]); }
    if (!computeRepetitionVector(&d)) return;
    periodicity_vector_t kv;
    for (size_t i = 0; i < n; i++) kv[vs[i]] = K[i];
    models::EventGraph* eg = algorithms::generateKPeriodicEventGraph(&d, &kv);
    std::map<models::EventGraphVertex, long double> best;
    long double om = -1;
    int left = pickom;
    for (long c = 1; c <= 3000 && om < 0; c += 1 + c / 4) {
        best.clear();
        { ForEachEvent(eg, x) best[x] = 0; }
        bool up = true;
        for (size_t r = 0; up && r <= best.size(); r++) {
            up = false;
            ForEachConstraint(eg, x) { long double y = best[eg->getSource(x)] + eg->getDuration(x) - c * eg->getWeight(x); if (y > best[eg->getTarget(x)] + 1e-13L) { best[eg->getTarget(x)] = y; up = true; } }
        }
        if (!up && left-- == 0) om = c;
    }
    if (om < 0) { delete eg; return; }
    scheduling_t s = period2scheduling(&d, kv, 1 / om);
    VT_REQ((size_t)std::distance(s.begin(), s.end()) == n, "one entry per task", std::distance(s.begin(), s.end()));
    std::vector<std::vector<long double>> st(n);
    std::vector<long double> per(n);
    for (size_t i = 0; i < n; i++) {
        long id = d.getVertexId(vs[i]);
        auto& e = s[id];
        per[i] = K[i] * g.phi[i] * om / d.getNi(vs[i]);
        VT_REQ(std::abs(e.periodic_starts.first - per[i]) < 1e-9L, "period of a task", "task " << i << " " << (double)e.periodic_starts.first << " expected " << (double)per[i]);
        VT_REQ((long)e.initial_starts.size() == ip[i], "one start time per initial phase", "task " << i << " has " << e.initial_starts.size());
        VT_REQ((long)e.periodic_starts.second.size() == K[i] * g.phi[i], "one start time per phase and execution", "task " << i << " has " << e.periodic_starts.second.size());
        for (long p = 1 - ip[i]; p < 1; p++) { auto x = eg->getEventGraphVertex(id, p, 1); VT_REQ(std::abs(best[x] - e.initial_starts[p + ip[i] - 1]) < 1e-9L, "earliest start", "task " << i << " initial phase " << p << " starts at " << (double)e.initial_starts[p + ip[i] - 1] << ", can start at " << (double)best[x]); }
        for (long k = 1; k <= K[i]; k++) for (long p = 1; p <= g.phi[i]; p++) { auto x = eg->getEventGraphVertex(id, p, k); auto y = e.periodic_starts.second[(k - 1) * g.phi[i] + p - 1]; VT_REQ(std::abs(best[x] - y) < 1e-9L, "earliest start", "task " << i << " phase " << p << " of execution " << k << " starts at " << (double)y << ", can start at " << (double)best[x]); }
    }
    // execute it
    const long REP = 4;
    for (size_t c = 0; c < es.size(); c++) {
        auto& e = g.e[c];
        if (!g.reent[e.u] || !g.reent[e.v]) continue;    // the phases of a task that overlaps itself may go out of order
        std::vector<std::pair<long double, long>> ev;   // time, tokens
        long double horizon = 1e30L;
        auto run = [&](size_t i, bool prod) {
            auto& x = s[d.getVertexId(vs[i])];
            for (long p = 0; p < ip[i]; p++) ev.push_back({x.initial_starts[p] + (prod ? idur[i][p] : 0), prod ? iin[c][p] : -iout[c][p]});
            for (long r = 0; r < REP * K[e.u == (int)i ? e.v : e.u] * 4; r++) for (long k = 0; k < K[i] * g.phi[i]; k++) ev.push_back({x.periodic_starts.second[k] + r * per[i] + (prod ? g.dur[i][k % g.phi[i]] : 0), prod ? e.in[k % g.phi[i]] : -e.out[k % g.phi[i]]});
            horizon = std::min(horizon, per[i] * (REP * K[e.u == (int)i ? e.v : e.u] * 4));
        };
        run(e.u, true); run(e.v, false);
        std::sort(ev.begin(), ev.end(), [](auto& a, auto& b) { if (std::abs(a.first - b.first) > 1e-9L) return a.first < b.first; return a.second > b.second; });
        long tok = e.preload;
        for (auto& x : ev) { if (x.first >= horizon) break; tok += x.second; VT_REQ(tok >= 0, "no phase starts before its tokens are there", "period " << (double)om << " channel " << c << " has " << tok << " tokens at " << (double)x.first); }
    }
    delete eg;
}
void vt_run(unsigned long seed, int effort) {
    for (long i = 0; i < 120000L * effort && more(); i++) {
        Rng R(seed * 1000003UL + i);
        one(R);
    }
}
