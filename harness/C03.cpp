// bounded search: random histories of construction/edition operations on a Dataflow against a plain reference model
#include "graph.h"
using namespace vt;
struct MV { long id; std::string name; long phi = 0, initphi = 0, reent = 0, mapping = -1; std::vector<long double> dur; std::string type; };
struct ME { int u, v; long id; std::string name; std::vector<long> in, out; long preload = 0, ts = 0; std::string ip, op; Edge d; };
struct Model {
    std::vector<MV> v; std::vector<ME> e;
};
static std::string T;
static void check(models::Dataflow& g, Model& m) {
    auto es = edgesof(g);
    VT_REQ(g.getVerticesCount() == (long)m.v.size(), "vertex count", g.getVerticesCount() << " expected " << m.v.size());
    VT_REQ(g.getEdgesCount() == (long)m.e.size() && es.size() == m.e.size(), "edge count", g.getEdgesCount() << " expected " << m.e.size());
    std::set<long> ids;
    std::set<std::string> nm;
    for (size_t i = 0; i < m.v.size(); i++) {
        Vertex v(i);
        VT_REQ(g.getVertexId(v) == m.v[i].id, "vertex id", "vertex " << i << " has " << g.getVertexId(v) << " expected " << m.v[i].id);
        VT_REQ(ids.insert(g.getVertexId(v)).second, "vertex ids are unique", g.getVertexId(v));
        VT_REQ(g.getVertexName(v) == m.v[i].name, "vertex name", g.getVertexName(v));
        if (m.v[i].name != "") VT_REQ(nm.insert(m.v[i].name).second && g.getVertexByName(m.v[i].name) == v, "vertex names are unique and found", m.v[i].name);
        VT_REQ(g.getVertexById(m.v[i].id) == v, "vertex found by id", m.v[i].id);
        VT_REQ(g.getPhasesQuantity(v) == m.v[i].phi && g.getInitPhasesQuantity(v) == m.v[i].initphi, "phase count", g.getPhasesQuantity(v) << " expected " << m.v[i].phi);
        VT_REQ(g.getReentrancyFactor(v) == m.v[i].reent && g.getMapping(v) == m.v[i].mapping && g.getVertexType(v) == m.v[i].type, "vertex attributes", i);
        long double tot = 0;
        for (size_t k = 0; k < m.v[i].dur.size(); k++) tot += m.v[i].dur[k];
        if ((long)m.v[i].dur.size() == m.v[i].phi && m.v[i].phi > 0) {
            VT_REQ(g.getVertexTotalDuration(v) == tot, "total duration is the sum of the phases", (double)g.getVertexTotalDuration(v) << " expected " << (double)tot);
            for (size_t k = 0; k < m.v[i].dur.size(); k++) VT_REQ(g.getVertexDuration(v, (long)k + 1) == m.v[i].dur[k], "phase duration", i);
        }
        unsigned in = 0, out = 0;
        std::set<long> wi, wo;
        for (auto& e : m.e) { if (e.v == (int)i) { in++; wi.insert(e.id); } if (e.u == (int)i) { out++; wo.insert(e.id); } }
        VT_REQ(g.getVertexInDegree(v) == in && g.getVertexOutDegree(v) == out && g.getVertexDegree(v) == in + out, "degrees", i);
        std::set<long> gi, go;
        { ForInputEdges((&g), v, x) gi.insert(g.getEdgeId(x)); }
        { ForOutputEdges((&g), v, x) go.insert(g.getEdgeId(x)); }
        VT_REQ(gi == wi && go == wo, "incident edges", i);
        std::set<long> g2;
        for (auto x : g.in_edges(v)) g2.insert(g.getEdgeId(Edge(*x)));
        VT_REQ(g2 == wi, "incident edges", i);
        g2.clear();
        for (auto x : g.out_edges(v)) g2.insert(g.getEdgeId(Edge(*x)));
        VT_REQ(g2 == wo, "incident edges", i);
    }
    ids.clear(); nm.clear();
    for (auto& e : m.e) {
        Edge x = g.getEdgeById(e.id);
        VT_REQ(x == e.d, "edge found by id", e.id);
        VT_REQ(g.getEdgeId(x) == e.id && ids.insert(e.id).second, "edge ids are unique", e.id);
        VT_REQ(g.getEdgeName(x) == e.name, "edge name", g.getEdgeName(x));
        if (e.name != "") VT_REQ(nm.insert(e.name).second && g.getEdgeByName(e.name) == x, "edge names are unique and found", e.name);
        VT_REQ(g.getEdgeSource(x) == Vertex(e.u) && g.getEdgeTarget(x) == Vertex(e.v), "edge ends", e.id);
        VT_REQ(g.edgeExist(Vertex(e.u), Vertex(e.v)), "edge exists", e.id);
        long si = 0, so = 0;
        for (long t : e.in) si += t;
        for (long t : e.out) so += t;
        VT_REQ(g.getEdgeInVector(x) == e.in && g.getEdgeOutVector(x) == e.out, "rates", e.id);
        VT_REQ(g.getEdgeIn(x) == si && g.getEdgeOut(x) == so, "total rate is the sum of the phases", g.getEdgeIn(x) << "," << g.getEdgeOut(x) << " expected " << si << "," << so);
        for (size_t k = 0; k < e.in.size(); k++) VT_REQ(g.getEdgeInPhase(x, (long)k + 1) == e.in[k], "phase rate", e.id);
        for (size_t k = 0; k < e.out.size(); k++) VT_REQ(g.getEdgeOutPhase(x, (long)k + 1) == e.out[k], "phase rate", e.id);
        VT_REQ(g.getEdgeInPhasesCount(x) == (long)e.in.size() && g.getEdgeOutPhasesCount(x) == (long)e.out.size(), "phase rate", e.id);
        VT_REQ(g.getPreload(x) == e.preload && g.getTokenSize(x) == e.ts, "edge attributes", e.id);
        VT_REQ(g.getEdgeInputPortName(x) == e.ip && g.getEdgeOutputPortName(x) == e.op, "edge attributes", e.id);
        VT_REQ(g.getEdgeType(x) == EDGE_TYPE::NORMAL_EDGE, "edge attributes", e.id);
        if (e.op != "") { Edge y = g.getInputEdgeByPortName(Vertex(e.v), e.op); VT_REQ(g.getEdgeTarget(y) == Vertex(e.v) && g.getEdgeOutputPortName(y) == e.op, "edge by port", e.op); }
        if (e.ip != "") { Edge y = g.getOutputEdgeByPortName(Vertex(e.u), e.ip); VT_REQ(g.getEdgeSource(y) == Vertex(e.u) && g.getEdgeInputPortName(y) == e.ip, "edge by port", e.ip); }
    }
    for (long i = 0; i < (long)m.v.size(); i++) for (long j = 0; j < (long)m.v.size(); j++) {
        bool w = false;
        for (auto& e : m.e) if (e.u == i && e.v == j) w = true;
        VT_REQ(g.edgeExist(Vertex(i), Vertex(j)) == w, "edge exists", i << "," << j);
    }
}
static std::vector<long> rates(Rng& R, int n) {
    std::vector<long> r;
    for (int i = 0; i < n; i++) r.push_back(R.p(5) ? R.in(0, 4000000000L) : R.in(0, 9));
    return r;
}
static void history(Rng& R, unsigned long s, int len) {
    models::Dataflow g;
    Model m;
    std::string h = "history seed=" + std::to_string(s) + ":";
    begin(h, true);
    long lastid = 0;
    for (int step = 0; step < len; step++) {
        int op = (int)R.in(0, 19);
        int nv = (int)m.v.size(), ne = (int)m.e.size();
        std::ostringstream o;
        g.reset_computation();
        bool mut = true, wasflag = R.p(30);
        if (wasflag) { g.set_normalize(); g.set_repetition_vector(); }
        bool ro = R.p(8) && nv > 0;
        if (ro) g.set_read_only();
        int rc = 0;
        bool expect_fail = ro;
        Model before = m;
        if (op <= 3 || nv == 0) {
            int k = (int)R.in(0, 3);
            MV x;
            if (k == 0) { o << " addVertex()"; g_case += o.str(); Vertex v; rc = guarded([&] { v = g.addVertex(); }); if (!rc) { x.id = g.getVertexId(v); for (auto& w : m.v) VT_REQ(w.id != x.id, "a new vertex has a fresh id", x.id); } }
            else if (k == 1) { long mx = 0; for (auto& w : m.v) mx = std::max(mx, w.id); long id = mx + R.in(0, 3); bool bad = false; for (auto& w : m.v) if (w.id >= id) bad = true; o << " addVertex(" << id << ")"; g_case += o.str(); expect_fail |= bad; rc = guarded([&] { g.addVertex(id); }); x.id = id; }
            else if (k == 2) { std::string n = "v" + std::to_string(R.in(0, 12)); bool dup = false; for (auto& w : m.v) if (w.name == n) dup = true; if (dup) continue; o << " addVertex(" << n << ")"; g_case += o.str(); Vertex v; rc = guarded([&] { v = g.addVertex(n); }); if (!rc) { x.id = g.getVertexId(v); x.name = n; } }
            else { long id = R.in(1, 40); bool bad = false; for (auto& w : m.v) if (w.id == id) bad = true; if (bad) continue; o << " addUnsafeVertex(" << id << ")"; g_case += o.str(); rc = guarded([&] { g.addUnsafeVertex(id); }); x.id = id; }
            if (!rc) m.v.push_back(x);
        } else if (op <= 6) {
            int a = (int)R.in(0, nv - 1), b = (int)R.in(0, nv - 1);
            ME x; x.u = a; x.v = b;
            int k = (int)R.in(0, 2);
            Edge d;
            if (k == 0) { o << " addEdge(" << a << "," << b << ")"; g_case += o.str(); rc = guarded([&] { d = g.addEdge(Vertex(a), Vertex(b)); }); if (!rc) { x.id = g.getEdgeId(d); for (auto& w : m.e) VT_REQ(w.id != x.id, "a new edge has a fresh id", x.id); } }
            else if (k == 1) { long id = R.in(1, 60); bool bad = false; for (auto& w : m.e) if (w.id == id) bad = true; if (bad) continue; o << " addEdge(" << a << "," << b << "," << id << ")"; g_case += o.str(); rc = guarded([&] { d = g.addEdge(Vertex(a), Vertex(b), id); }); x.id = id; }
            else { std::string n = "e" + std::to_string(R.in(0, 30)); bool dup = false; for (auto& w : m.e) if (w.name == n) dup = true; if (dup) continue; o << " addEdge(" << a << "," << b << "," << n << ")"; g_case += o.str(); rc = guarded([&] { d = g.addEdge(Vertex(a), Vertex(b), n); }); if (!rc) { x.id = g.getEdgeId(d); x.name = n; } }
            x.d = d;
            if (!rc) m.e.push_back(x);
        } else if (op == 7) {
            int a = (int)R.in(0, nv - 1);
            o << " removeVertex(" << a << ")"; g_case += o.str();
            rc = guarded([&] { g.removeVertex(Vertex(a)); });
            if (!rc) {
                std::vector<ME> k;
                for (auto e : m.e) if (e.u != a && e.v != a) { if (e.u > a) e.u--; if (e.v > a) e.v--; k.push_back(e); }
                m.e = k;
                m.v.erase(m.v.begin() + a);
                // descriptors of edges are invalidated: fetch them again
                for (auto& e : m.e) e.d = g.getEdgeById(e.id);
            }
        } else if (op == 8) {
            if (!ne) continue;
            int a = (int)R.in(0, ne - 1);
            o << " removeEdge(id " << m.e[a].id << ")"; g_case += o.str();
            rc = guarded([&] { g.removeEdge(m.e[a].d); });
            if (!rc) m.e.erase(m.e.begin() + a);
        } else if (op <= 11) {
            int a = (int)R.in(0, nv - 1);
            int k = (int)R.in(0, 6);
            if (k == 0) { long p = R.in(1, 4); if (m.v[a].phi) continue; o << " setPhasesQuantity(" << a << "," << p << ")"; g_case += o.str(); rc = guarded([&] { g.setPhasesQuantity(Vertex(a), p); }); if (!rc) m.v[a].phi = p; }
            else if (k == 1) { int n = m.v[a].phi ? (R.p(90) ? (int)m.v[a].phi : (int)R.in(0, 5)) : 0; std::vector<long double> d; for (int i = 0; i < n; i++) d.push_back(R.in(0, 20) / 4.0L); expect_fail |= n != m.v[a].phi; o << " setVertexDuration(" << a << ",n=" << n << ")"; g_case += o.str(); rc = guarded([&] { g.setVertexDuration(Vertex(a), d); }); if (!rc) m.v[a].dur = d; }
            else if (k == 2) { long p = R.in(0, 4); o << " setReentrancyFactor(" << a << "," << p << ")"; g_case += o.str(); rc = guarded([&] { g.setReentrancyFactor(Vertex(a), p); }); if (!rc) m.v[a].reent = p; }
            else if (k == 3) { long p = R.in(0, 4); o << " setMapping(" << a << "," << p << ")"; g_case += o.str(); rc = guarded([&] { g.setMapping(Vertex(a), p); }); if (!rc) m.v[a].mapping = p; }
            else if (k == 4) { std::string n = "v" + std::to_string(R.in(0, 12)); bool dup = false; for (int i = 0; i < nv; i++) if (i != a && m.v[i].name == n) dup = true; if (R.p(5)) { n = ""; dup = true; } expect_fail |= dup; o << " setVertexName(" << a << "," << n << ")"; g_case += o.str(); rc = guarded([&] { g.setVertexName(Vertex(a), n); }); if (!rc) m.v[a].name = n; }
            else if (k == 5) { long id = R.in(0, 12); bool dup = false; for (int i = 0; i < nv; i++) if (i != a && m.v[i].id == id) dup = true; expect_fail |= dup; o << " setVertexId(" << a << "," << id << ")"; g_case += o.str(); rc = guarded([&] { g.setVertexId(Vertex(a), id); }); if (!rc) m.v[a].id = id; }
            else { o << " setVertexType(" << a << ")"; g_case += o.str(); rc = guarded([&] { g.setVertexType(Vertex(a), "ty"); }); if (!rc) m.v[a].type = "ty"; }
        } else if (op <= 18) {
            if (!ne) continue;
            int a = (int)R.in(0, ne - 1);
            ME& e = m.e[a];
            int k = (int)R.in(0, 8);
            if (k <= 3) {
                bool in = k % 2;
                long q = m.v[in ? e.u : e.v].phi;
                int n = q > 0 ? (R.p(93) ? (int)q : (int)R.in(1, 5)) : (int)R.in(1, 4);
                auto r = rates(R, n);
                bool bad = q > 0 && n != q;
                if (bad && !ro) continue;   // a refused call may leave the rates behind; the contract only promises refusal
                o << (in ? " setEdgeInPhases(" : " setEdgeOutPhases(") << e.id << "," << str(r) << ")"; g_case += o.str();
                rc = guarded([&] { if (in) g.setEdgeInPhases(e.d, r); else g.setEdgeOutPhases(e.d, r); });
                if (!rc) { (in ? e.in : e.out) = r; m.v[in ? e.u : e.v].phi = n; }
            } else if (k == 4) { long p = R.in(0, 50); mut = false; o << " setPreload(" << e.id << "," << p << ")"; g_case += o.str(); rc = guarded([&] { g.setPreload(e.d, p); }); if (!rc) e.preload = p; }
            else if (k == 5) { long p = R.in(0, 50); o << " setTokenSize(" << e.id << "," << p << ")"; g_case += o.str(); rc = guarded([&] { g.setTokenSize(e.d, p); }); if (!rc) e.ts = p; }
            else if (k == 6) { std::string n = "e" + std::to_string(R.in(0, 30)); bool dup = false; for (int i = 0; i < ne; i++) if (i != a && m.e[i].name == n) dup = true; if (R.p(5)) { n = ""; dup = true; } expect_fail |= dup; o << " setEdgeName(" << e.id << "," << n << ")"; g_case += o.str(); rc = guarded([&] { g.setEdgeName(e.d, n); }); if (!rc) e.name = n; }
            else if (k == 7) { long id = R.in(0, 40); bool dup = id <= 0; for (int i = 0; i < ne; i++) if (i != a && m.e[i].id == id) dup = true; expect_fail |= dup; o << " setEdgeId(" << e.id << "," << id << ")"; g_case += o.str(); rc = guarded([&] { g.setEdgeId(e.d, id); }); if (!rc) e.id = id; }
            else { std::string n = "p" + std::to_string(R.in(0, 9)); bool ip = R.p(50); o << (ip ? " setEdgeInputPortName(" : " setEdgeOutputPortName(") << e.id << "," << n << ")"; g_case += o.str(); rc = guarded([&] { if (ip) g.setEdgeInputPortName(e.d, n); else g.setEdgeOutputPortName(e.d, n); }); if (!rc) (ip ? e.ip : e.op) = n; }
        } else {
            models::Dataflow h2(g);
            g_case += " copy";
            Model m2 = m;
            for (auto& e : m2.e) e.d = h2.getEdgeById(e.id);
            check(h2, m2);
            mut = false;
            expect_fail = false;
            if (ro) g.reset_computation();
            check(g, m);
            g.reset_computation();
            continue;
        }
        VT_REQ((rc != 0) == expect_fail, "an edit is refused exactly when the graph is read-only or the identity is already taken", "rc=" << rc << " expected refusal " << expect_fail);
        if (rc == 0 && mut) VT_REQ(!g.is_read_only() && !g.is_normalized() && !g.has_repetition_vector(), "an edit drops the computed results", "");
        if (rc != 0) { m = before; }
        g.reset_computation();
        check(g, m);
    }
}
void vt_run(unsigned long seed, int effort) {
    for (long i = 0; i < 12000L * effort && more(); i++) {
        unsigned long s = seed * 1000003UL + i;
        Rng R(s);
        history(R, s, i < 300 ? 12 : (int)R.in(5, 60));
    }
}
