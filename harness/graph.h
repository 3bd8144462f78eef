// random consistent CSDF graphs for the bounded harnesses
#pragma once
#include "h.h"
#include <boost/assert.hpp>
#include <models/Dataflow.h>
namespace vt {
struct ESpec { int u, v; std::vector<long> in, out; long preload; };
struct GSpec {
    std::vector<long> q;                       // cycles per iteration (minimal when gcd is 1 and the graph connected)
    std::vector<int> phi;
    std::vector<std::vector<long double>> dur;
    std::vector<long> reent;
    std::vector<ESpec> e;
    std::string text() const {
        std::ostringstream o;
        o << "tasks[";
        for (size_t i = 0; i < phi.size(); i++) { o << (i ? " " : "") << i << ":q=" << q[i] << ",dur="; for (size_t k = 0; k < dur[i].size(); k++) o << (k ? "," : "") << (double)dur[i][k]; if (reent[i]) o << ",reent=" << reent[i]; }
        o << "] edges[";
        for (auto& x : e) { o << " " << x.u << "->" << x.v << " in=" << str(x.in) << " out=" << str(x.out) << " p=" << x.preload; }
        o << " ]";
        return o.str();
    }
};
inline std::vector<long> split(Rng& R, long total, int n, bool pos = false) {
    std::vector<long> v(n, pos ? 1 : 0);
    long left = total - (pos ? n : 0);
    for (int i = 0; i < n && left > 0; i++) { long x = i == n - 1 ? left : R.in(0, left); v[i] += x; left -= x; }
    for (int i = n - 1; i > 0; i--) std::swap(v[i], v[R.in(0, i)]);
    return v;
}
struct GOpt { int maxv = 5; int maxq = 4; int maxphi = 3; int extra = 3; bool selfloops = true; bool connected = true; int maxmul = 2; bool live = false; int maxdur = 5; bool acyclic = false; bool multi = true; int preload = 0; bool strong = false; };
inline ESpec mkedge(Rng& R, const GSpec& g, int u, int v, const GOpt& o) {
    long gg = std::gcd(g.q[u], g.q[v]);
    long m = R.in(1, o.maxmul);
    ESpec e;
    e.u = u; e.v = v;
    long ti = m * g.q[v] / gg, to = m * g.q[u] / gg;
    e.in = split(R, ti, g.phi[u]);
    e.out = split(R, to, g.phi[v]);
    e.preload = o.preload ? R.in(0, o.preload) : 0;
    return e;
}
inline GSpec random_graph(Rng& R, const GOpt& o) {
    GSpec g;
    int n = (int)R.in(1, o.maxv);
    for (int i = 0; i < n; i++) {
        g.q.push_back(R.in(1, o.maxq));
        g.phi.push_back((int)R.in(1, o.maxphi));
        std::vector<long double> d;
        for (int k = 0; k < g.phi[i]; k++) d.push_back(R.in(o.maxdur > 0 ? 1 : 0, o.maxdur));
        g.dur.push_back(d);
        g.reent.push_back(0);
    }
    long gg = 0;
    for (long x : g.q) gg = std::gcd(gg, x);
    for (long& x : g.q) x /= gg;
    for (int i = 1; i < n; i++) if (o.connected || R.p(70)) {
        int j = (int)R.in(0, i - 1);
        bool fw = o.acyclic || o.live || R.p(50);
        g.e.push_back(fw ? mkedge(R, g, j, i, o) : mkedge(R, g, i, j, o));
    }
    int ex = (int)R.in(0, o.extra);
    for (int k = 0; k < ex; k++) {
        int a = (int)R.in(0, n - 1), b = (int)R.in(0, n - 1);
        if (a == b && !o.selfloops) continue;
        if (o.acyclic && a >= b) continue;
        g.e.push_back(mkedge(R, g, a, b, o));
    }
    if (o.strong) for (int i = 0; n > 1 && i < n; i++) g.e.push_back(mkedge(R, g, i, (i + 1) % n, o));
    if (n == 1 && g.e.empty() && o.connected) g.e.push_back(mkedge(R, g, 0, 0, o));
    if (o.live) for (auto& x : g.e) if (x.u >= x.v) {
        long so = 0; for (long t : x.out) so += t;
        x.preload += so * g.q[x.v] * R.in(1, 2) + R.in(0, 2);
    }
    return g;
}
inline void build(models::Dataflow& d, const GSpec& g, bool durations = true) {
    std::vector<Vertex> vs;
    for (size_t i = 0; i < g.phi.size(); i++) {
        Vertex v = d.addVertex();
        d.setVertexName(v, "t" + std::to_string(i));
        d.setPhasesQuantity(v, g.phi[i]);
        if (durations) d.setVertexDuration(v, g.dur[i]);
        d.setReentrancyFactor(v, g.reent[i]);
        vs.push_back(v);
    }
    int k = 0;
    for (auto& x : g.e) {
        Edge e = d.addEdge(vs[x.u], vs[x.v]);
        d.setEdgeName(e, "e" + std::to_string(k++));
        d.setEdgeInPhases(e, x.in);
        d.setEdgeOutPhases(e, x.out);
        d.setPreload(e, x.preload);
        d.setTokenSize(e, 1);
    }
}
inline std::vector<Vertex> verts(models::Dataflow& d) { std::vector<Vertex> r; for (long i = 0; i < d.getVerticesCount(); i++) r.push_back(Vertex(i)); return r; }
inline std::vector<Edge> edgesof(models::Dataflow& d) { std::vector<Edge> r; auto p = d.getEdges(); for (auto it = p.first; it != p.second; ++it) r.push_back(Edge(*it)); return r; }
}
