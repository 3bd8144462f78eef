// bounded search: the real actors, states and symbolic execution of random CSDF graphs against a plain token-by-token simulation
#include "graph.h"
#include <models/repetition_vector.h>
#include <algorithms/throughput/symbolic_execution.h>
#include <algorithms/throughput/actor.h>
#include <algorithms/throughput/state.h>
using namespace vt;
typedef std::vector<std::list<std::pair<long, long>>> Queues;
struct Ref {          // the firing rule, with whole times
    const GSpec& g; bool bounded;
    std::vector<long> tok, sp, n; Queues q; long t = 0;
    Ref(const GSpec& g_, bool b, const std::vector<long>& cap) : g(g_), bounded(b), n(g_.phi.size(), 0), q(g_.phi.size()) { for (size_t k = 0; k < g.e.size(); k++) { tok.push_back(g.e[k].preload); sp.push_back(b ? cap[k] - g.e[k].preload : 0); } }
    long ph(size_t i) const { return n[i] % g.phi[i]; }
    bool can(size_t i) const {
        if (!q[i].empty()) return false;
        for (size_t k = 0; k < g.e.size(); k++) { if (g.e[k].v == (int)i && tok[k] < g.e[k].out[ph(i)]) return false; if (bounded && g.e[k].u == (int)i && sp[k] < g.e[k].in[ph(i)]) return false; }
        return true;
    }
    void start(size_t i) { for (size_t k = 0; k < g.e.size(); k++) { if (g.e[k].v == (int)i) tok[k] -= g.e[k].out[ph(i)]; if (bounded && g.e[k].u == (int)i) sp[k] -= g.e[k].in[ph(i)]; }
        q[i].push_back({(long)g.dur[i][ph(i)], ph(i) + 1}); n[i]++; }
    bool over(size_t i) const { return !q[i].empty() && q[i].front().first == 0; }
    void end(size_t i) { long p = q[i].front().second - 1; q[i].pop_front(); for (size_t k = 0; k < g.e.size(); k++) { if (g.e[k].u == (int)i) tok[k] += g.e[k].in[p]; if (bounded && g.e[k].v == (int)i) sp[k] += g.e[k].out[p]; } }
    long step() { long m = -1; for (auto& l : q) if (!l.empty() && (m < 0 || l.front().first < m)) m = l.front().first; if (m > 0) { for (auto& l : q) for (auto& x : l) x.first -= m; t += m; } return m; }
    std::vector<long> phases() const { std::vector<long> r; for (size_t i = 0; i < n.size(); i++) r.push_back(ph(i)); return r; }
    bool operator==(const Ref& o) const { return tok == o.tok && phases() == o.phases() && q == o.q && t == o.t; }
};
static void check(models::Dataflow& d, const GSpec& g, const Ref& r, State& s, std::vector<Actor>& as, const std::vector<Vertex>& vs, const std::vector<Edge>& es, const char* when) {
    for (size_t k = 0; k < es.size(); k++) {
        VT_REQ(s.getTokens(es[k]) == r.tok[k], "tokens follow the rates", when << ": channel " << k << " has " << s.getTokens(es[k]) << " tokens, expected " << r.tok[k]);
        if (r.bounded) VT_REQ(s.getBufferSpace(es[k]) == r.sp[k], "space follows the rates", when << ": channel " << k << " has space " << s.getBufferSpace(es[k]) << ", expected " << r.sp[k]);
    }
    auto q = s.getExecQueue();
    for (size_t i = 0; i < vs.size(); i++) {
        VT_REQ(s.getPhase(vs[i]) == r.ph(i) + 1 && as[i].getPhase() == r.ph(i) + 1, "phases in turn", when << ": task " << i << " next phase " << s.getPhase(vs[i]) << " expected " << r.ph(i) + 1);
        VT_REQ(as[i].getNumExecutions() == r.n[i], "number of executions", when << ": task " << i);
        auto it = q.find(vs[i]);
        std::list<std::pair<long, long>> got;
        if (it != q.end()) for (auto& x : it->second) got.push_back({(long)x.first, (long)x.second});
        VT_REQ(got == r.q[i], "firings last their duration", when << ": task " << i << " runs " << got.size() << " firings, expected " << r.q[i].size() << (got.size() && r.q[i].size() ? " or other times" : ""));
        VT_REQ(as[i].isReadyForExec(s) == r.can(i), "a task may start exactly when it can fire", when << ": task " << i << " ready=" << as[i].isReadyForExec(s));
        VT_REQ(as[i].isReadyToEndExec(s) == r.over(i), "a firing ends exactly when its time is over", when << ": task " << i);
    }
    VT_REQ((long)s.getTimeElapsed() == r.t, "time", when << ": " << (double)s.getTimeElapsed() << " expected " << r.t);
    (void)d;
}
static void steps(Rng& R) {
    GOpt o;
    o.maxv = (int)R.in(1, 4); o.maxq = (int)R.in(1, 4); o.maxphi = (int)R.in(1, 4); o.extra = (int)R.in(0, 3); o.preload = (int)R.in(0, 12); o.maxdur = (int)R.in(0, 4); o.connected = R.p(80);
    GSpec g = random_graph(R, o);
    bool b = R.p(50);
    std::vector<long> cap;
    for (auto& x : g.e) cap.push_back(x.preload + R.in(0, 12));
    begin("steps " + g.text() + (b ? " capacities=" + str(cap) : ""), g.phi.size() > 1);
    models::Dataflow d;
    build(d, g);
    auto vs = verts(d); auto es = edgesof(d);
    if (!computeRepetitionVector(&d)) return;
    std::map<ARRAY_INDEX, Actor> am;
    std::vector<Actor> as;
    for (auto v : vs) { Actor a(&d, v); VT_REQ(a.getRepFactor() == d.getNi(v) && a.getId() == d.getVertexId(v), "actor of its task", "task " << d.getVertexId(v)); am[d.getVertexId(v)] = a; as.push_back(a); }
    std::map<Edge, TOKEN_UNIT> bs;
    std::map<Edge, std::pair<TOKEN_UNIT, TOKEN_UNIT>> cq;
    for (size_t k = 0; k < es.size(); k++) { bs[es[k]] = cap[k]; cq[es[k]] = {g.e[k].preload, cap[k]}; }
    StorageDistribution sd(es.size(), 0, cq, 0);
    State s = !b ? State(&d, am) : R.p(50) ? State(&d, am, bs) : State(&d, am, sd);
    if (b) for (size_t k = 0; k < es.size(); k++) VT_REQ(s.getBufferSize(es[k]) == cap[k], "capacities", "channel " << k << " capacity " << s.getBufferSize(es[k]));
    VT_REQ(s.hasBoundedBuffers() == b, "bounded", "");
    Ref r(g, b, cap);
    std::vector<std::pair<State, Ref>> seen;
    check(d, g, r, s, as, vs, es, "initial state");
    for (int k = 0; k < 60; k++) {
        size_t i = R.in(0, (long)vs.size() - 1);
        long w = R.in(0, 9);
        if (R.p(20)) {
            for (auto& x : seen) { bool e1 = x.first == s, e2 = s == x.first; VT_REQ(e1 == (x.second.tok == r.tok && x.second.phases() == r.phases() && x.second.q == r.q && x.second.t == r.t) && e1 == e2, "states are equal exactly when time, phases, tokens and running firings are", "step " << k << " equal=" << e1 << e2); }
            if (seen.size() < 6) seen.push_back({s, r});
        }
        if (w < 5 && r.can(i)) { as[i].execStart(&d, s); r.start(i); }
        else if (w < 8 && r.over(i)) { as[i].execEnd(&d, s); r.end(i); }
        else if (w == 8 || R.p(30)) { long m = r.step(); TIME_UNIT x = s.advanceTime(); VT_REQ(m < 0 ? x == (TIME_UNIT)LONG_MAX : x == (TIME_UNIT)m, "time passes up to the end of the next firing", "step " << k << " advanced " << (double)x << " expected " << m); }
        else if (R.p(10)) { s.setTimeElapsed(0); r.t = 0; }
        else continue;
        for (size_t j = 0; j < vs.size(); j++) am[d.getVertexId(vs[j])] = as[j];
        s.updateState(&d, am);
        check(d, g, r, s, as, vs, es, ("step " + std::to_string(k)).c_str());
    }
}
// throughput (graph iterations per unit of time) of the as-soon-as-possible execution; -1: no answer within the limit
static double reference(const GSpec& g, bool b, const std::vector<long>& cap, const std::vector<long>& N) {
    Ref r(g, b, cap);
    std::map<std::vector<long>, std::pair<long, long>> seen;
    for (long steps = 0; steps < 20000; steps++) {
        bool any = true;
        while (any) { any = false; for (size_t i = 0; i < g.phi.size(); i++) { while (r.over(i)) { r.end(i); any = true; if (++steps > 20000) return -1; } } for (size_t i = 0; i < g.phi.size(); i++) while (r.can(i)) { r.start(i); any = true; } }
        std::vector<long> key = r.tok;
        for (long x : r.phases()) key.push_back(x);
        for (auto& l : r.q) { key.push_back(-1); for (auto& x : l) { key.push_back(x.first); key.push_back(x.second); } }
        auto it = seen.find(key);
        if (it != seen.end()) { long dn = r.n[0] - it->second.first, dt = r.t - it->second.second; return dn == 0 ? 0 : (double)dn / N[0] / dt; }
        seen[key] = {r.n[0], r.t};
        if (r.step() < 0) return 0;
    }
    return -1;
}
static void engine(Rng& R) {
    GOpt o;
    o.maxv = (int)R.in(1, 4); o.maxq = (int)R.in(1, 3); o.maxphi = (int)R.in(1, 3); o.extra = (int)R.in(0, 2); o.maxdur = (int)R.in(1, 6); o.strong = true; o.maxmul = 1;
    if (R.p(60)) o.live = true; else o.preload = (int)R.in(0, 8);
    GSpec g = random_graph(R, o);
    if (g.phi.size() == 1 && g.e.empty()) return;
    if (R.p(30)) { for (size_t i = 1; i < g.phi.size(); i++) for (auto& x : g.dur[i]) if (R.p(40)) x = 0; }
    bool b = R.p(40);
    std::vector<long> cap;
    for (auto& x : g.e) { long a = 0, c = 0; for (long y : x.in) a += y; for (long y : x.out) c += y; cap.push_back(x.preload + R.in(0, a + c)); }
    begin("throughput " + g.text() + (b ? " capacities=" + str(cap) : ""), g.phi.size() > 1);
    models::Dataflow d;
    build(d, g);
    auto vs = verts(d); auto es = edgesof(d);
    if (!computeRepetitionVector(&d)) return;
    std::vector<long> N;
    for (auto v : vs) N.push_back(d.getNi(v));
    double want = reference(g, b, cap, N);
    if (want < 0) return;
    double got;
    if (!b) got = (double)algorithms::compute_asap_throughput(&d, parameters_list_t());
    else {
        std::map<Edge, std::pair<TOKEN_UNIT, TOKEN_UNIT>> cq;
        TOKEN_UNIT z = 0;
        for (size_t k = 0; k < es.size(); k++) { cq[es[k]] = {g.e[k].preload, cap[k]}; z += cap[k]; }
        StorageDistribution sd(es.size(), 0, cq, z);
        got = (double)algorithms::compute_asap_throughput_and_cycles(&d, parameters_list_t(), sd).throughput;
    }
    VT_REQ(want == 0 ? got == 0 : std::abs(got - want) <= 1e-9 * want, want == 0 ? "a deadlock is reported as no throughput" : "the throughput of the execution", "got " << got << " expected " << want);
}
void vt_run(unsigned long seed, int effort) {
    for (long i = 0; i < 60000L * effort && more(); i++) {
        Rng R(seed * 1000003UL + i);
        if (i % 2) steps(R); else engine(R);
    }
}
