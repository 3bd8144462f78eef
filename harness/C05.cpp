// bounded search: the real event graph of random live CSDF graphs (with initial phases) against the constraints enumerated from their definition
#include "graph.h"
#include <models/repetition_vector.h>
#include <models/EventGraph.h>
#include <algorithms/throughput/kperiodic.h>
using namespace vt;
typedef std::tuple<long, long, long> Ev;
typedef std::tuple<Ev, Ev, long> Key;
typedef std::multiset<std::pair<long double, long double>> WD;
struct Init { std::vector<std::vector<long>> in, out; std::vector<std::vector<long double>> dur; };
static long fdivl(long a, long b) { long q = a / b; return (a % b != 0 && (a < 0)) ? q - 1 : q; }
static void one(Rng& R) {
    GOpt o;
    o.maxv = (int)R.in(1, 4); o.maxq = (int)R.in(1, 5); o.maxphi = (int)R.in(1, 4); o.extra = (int)R.in(0, 3); o.maxmul = (int)R.in(1, 3); o.preload = (int)R.in(0, 12); o.maxdur = 9;
    GSpec g = random_graph(R, o);
    size_t n = g.phi.size();
    for (size_t i = 0; i < n; i++) g.reent[i] = R.in(0, 2);
    std::vector<long> ip(n, 0), K(n);
    Init I;
    for (size_t i = 0; i < n; i++) { if (R.p(35)) ip[i] = R.in(1, 3); I.dur.push_back({}); for (long k = 0; k < ip[i]; k++) I.dur[i].push_back(R.in(0, 9)); K[i] = R.p(50) ? 1 : R.in(1, 4); }
    if (R.p(30)) for (auto& e : g.e) { long f = R.in(1, 3); for (auto& x : e.in) x *= f; for (auto& x : e.out) x *= f; }
    std::ostringstream t;
    t << g.text() << " K=" << str(K) << " init=" << str(ip);
    for (auto& e : g.e) {
        std::vector<long> a, b;
        for (long k = 0; k < ip[e.u]; k++) a.push_back(R.in(0, 4));
        for (long k = 0; k < ip[e.v]; k++) b.push_back(R.in(0, 4));
        I.in.push_back(a); I.out.push_back(b);
        t << " i" << str(a) << str(b);
    }
    begin(t.str(), n > 1);
    models::Dataflow d;
    build(d, g);
    auto vs = verts(d);
    auto es = edgesof(d);
    for (size_t i = 0; i < n; i++) if (ip[i]) { d.setInitPhasesQuantity(vs[i], ip[i]); d.setVertexInitDuration(vs[i], I.dur[i]); }
    for (size_t k = 0; k < es.size(); k++) { if (ip[g.e[k].u]) d.setEdgeInInitPhases(es[k], I.in[k]); if (ip[g.e[k].v]) d.setEdgeOutInitPhases(es[k], I.out[k]); }
    if (!computeRepetitionVector(&d)) return;
    periodicity_vector_t kv;
    for (size_t i = 0; i < n; i++) kv[vs[i]] = K[i];
    if (R.p(50)) for (auto e : es) { if (R.p(50)) d.getFineGCD(e); }
    models::EventGraph* eg = algorithms::generateKPeriodicEventGraph(&d, &kv);
    // the executions of phases
    std::set<Ev> wantev, gotev;
    for (size_t i = 0; i < n; i++) for (long k = 1; k <= K[i]; k++) for (long p = (k == 1 ? 1 - ip[i] : 1); p <= g.phi[i]; p++) wantev.insert(Ev(d.getVertexId(vs[i]), p, k));
    long cnt = 0;
    { ForEachEvent(eg, x) { auto s = eg->getEvent(x); gotev.insert(Ev(s.getTaskId(), s.getTaskPhase(), s.getTaskOc())); ++cnt;
        VT_REQ(eg->getEventGraphVertex(s.getTaskId(), s.getTaskPhase(), s.getTaskOc()) == x, "every event is reached through its task, phase and execution", "task " << s.getTaskId() << " phase " << s.getTaskPhase() << " execution " << s.getTaskOc()); } }
    VT_REQ(cnt == (long)wantev.size() && gotev == wantev, "one event per execution of a phase", cnt << " events, expected " << wantev.size());
    std::map<Key, WD> want, got;
    auto dur = [&](size_t i, long p) { return p > 0 ? g.dur[i][(p - 1) % g.dur[i].size()] : I.dur[i][p + ip[i] - 1]; };
    for (size_t i = 0; i < n; i++) {
        long id = d.getVertexId(vs[i]);
        Ev prev; long pp = 0; bool first = true;
        for (long k = 1; k <= K[i]; k++) for (long p = (k == 1 ? 1 - ip[i] : 1); p <= g.phi[i]; p++) {
            Ev e(id, p, k);
            if (!first) want[Key(prev, e, 0)].insert({0.0L, g.reent[i] > 0 ? dur(i, pp) : 0.0L});
            first = false; prev = e; pp = p;
        }
        if (g.reent[i] > 0) want[Key(Ev(id, g.phi[i], K[i]), Ev(id, 1, 1), 0)].insert({(long double)(g.phi[i] * K[i]) / d.getNi(vs[i]), dur(i, g.phi[i])});
    }
    for (size_t c = 0; c < es.size(); c++) {
        auto& e = g.e[c];
        long ti = 0, to = 0; for (long x : e.in) ti += x; for (long x : e.out) to += x;
        long G = std::gcd(ti * K[e.u], to * K[e.v]);
        long before = 0;
        for (long ki = 1; ki <= K[e.u]; ki++) for (long pi = (ki == 1 ? 1 - ip[e.u] : 1); pi <= g.phi[e.u]; pi++) {
            long w = pi > 0 ? e.in[pi - 1] : I.in[c][pi + ip[e.u] - 1];
            before += w;
            long cons = 0;
            for (long kj = 1; kj <= K[e.v]; kj++) for (long pj = (kj == 1 ? 1 - ip[e.v] : 1); pj <= g.phi[e.v]; pj++) {
                long v = pj > 0 ? e.out[pj - 1] : I.out[c][pj + ip[e.v] - 1];
                cons += v;
                // greatest a = G * y such that max(0, w - v) <= preload + before + a - cons < w
                long hi = w - 1 - e.preload - before + cons, lo = std::max(0L, w - v) - e.preload - before + cons;
                long a = fdivl(hi, G) * G;
                if (a < lo) continue;
                long double wt = -((long double)a * g.phi[e.u] * K[e.u]) / ((long double)(ti * K[e.u]) * d.getNi(vs[e.u]));
                want[Key(Ev(d.getVertexId(vs[e.u]), pi, ki), Ev(d.getVertexId(vs[e.v]), pj, kj), d.getEdgeId(es[c]))].insert({wt, dur(e.u, pi)});
            }
        }
    }
    { ForEachConstraint(eg, x) { auto k = eg->getConstraint(x);
        got[Key(Ev(k._s.getTaskId(), k._s.getTaskPhase(), k._s.getTaskOc()), Ev(k._t.getTaskId(), k._t.getTaskPhase(), k._t.getTaskOc()), eg->getChannelId(x))].insert({k._w, k._d}); } }
    auto show = [](const Key& k) { std::ostringstream s; auto& [a, b, id] = k; s << "from task " << std::get<0>(a) << " phase " << std::get<1>(a) << " execution " << std::get<2>(a) << " to task " << std::get<0>(b) << " phase " << std::get<1>(b) << " execution " << std::get<2>(b) << " channel " << id; return s.str(); };
    // equal constraints may be recorded once or several times
    auto same = [](const WD& a, const WD& b) { for (auto& x : a) { bool f = false; for (auto& y : b) if (std::abs(x.first - y.first) < 1e-10L && std::abs(x.second - y.second) < 1e-10L) f = true; if (!f) return false; } return true; };
    for (auto& k : want) { auto it = got.find(k.first); VT_REQ(it != got.end() && same(k.second, it->second), "every precedence is a constraint", show(k.first) << " w=" << (double)k.second.begin()->first << " d=" << (double)k.second.begin()->second << (it == got.end() ? " is missing" : " differs, got w=") << (it == got.end() ? 0 : (double)it->second.begin()->first)); }
    for (auto& k : got) { auto it = want.find(k.first); VT_REQ(it != want.end() && same(k.second, it->second), "every constraint is a precedence", show(k.first) << " w=" << (double)k.second.begin()->first << " d=" << (double)k.second.begin()->second << " is not implied"); }
    delete eg;
}
void vt_run(unsigned long seed, int effort) {
    for (long i = 0; i < 120000L * effort && more(); i++) {
        Rng R(seed * 1000003UL + i);
        one(R);
    }
}
