// bounded search: the real start times of random event graphs against the longest paths computed by their definition
#include "graph.h"
#include <models/EventGraph.h>
using namespace vt;
static long double S = 16;
struct Arc { int u, v; long d, w; };   // d and w in units of 1/S
static void one(Rng& R) {
    int n = (int)R.in(1, 7), m = (int)R.in(0, 14);
    std::vector<Arc> a;
    bool dag = R.p(20);
    for (int i = 0; i < m; i++) {
        Arc x; x.u = (int)R.in(0, n - 1); x.v = (int)R.in(0, n - 1);
        if (dag) { if (x.u == x.v) continue; if (x.u > x.v) std::swap(x.u, x.v); }
        x.d = R.p(50) ? R.in(0, 6) * 16 : R.in(0, 99); x.w = R.in(-8, 24);
        if (R.p(30)) x.w = 0;
        a.push_back(x);
    }
    std::vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[R.in(0, i)]);
    for (auto& x : a) { x.u = perm[x.u]; x.v = perm[x.v]; }
    long om = R.p(15) ? -1 : R.in(0, 40);   // -1: no period
    S = R.pick(std::vector<long>{1, 16, 16, 1000, 1000000});
    std::ostringstream t;
    t << "omega=" << om << " events=" << n << " constraints(from,to,duration,weight, both divided by " << (long)S << ")=";
    for (auto& x : a) t << "(" << x.u << "," << x.v << "," << x.d << "," << x.w << ")";
    begin(t.str(), !a.empty());
    models::EventGraph eg;
    std::vector<models::EventGraphVertex> ev;
    for (int i = 0; i < n; i++) ev.push_back(eg.addEvent(models::SchedulingEvent(i + 1, 1, 1)));
    for (auto& x : a) eg.addEventConstraint(ev[x.u], ev[x.v], x.w / S, x.d / S, 0);
    // longest walks from anywhere, or a cycle of positive length
    std::vector<long> best(n, 0);
    bool feasible = true;
    for (int r = 0; r <= n && om >= 0; r++) {
        bool up = false;
        for (auto& x : a) { long y = best[x.u] + x.d - om * x.w; if (y > best[x.v]) { best[x.v] = y; up = true; } }
        if (up && r == n) feasible = false;
    }
    for (int rep = 0; rep < 2; rep++) {
        bool r = eg.computeStartingTimeWithOmega(om < 0 ? std::numeric_limits<TIME_UNIT>::infinity() : (TIME_UNIT)om);
        VT_REQ(r == (om >= 0), "answers whether there is a period", r);
        if (om < 0) { for (int i = 0; i < n; i++) VT_REQ(eg.getStartingTime(ev[i]) == 0, "all 0 without a period", "event " << i << " starts at " << (double)eg.getStartingTime(ev[i])); }
        else if (feasible) {
            long double mn = 1e30L;
            for (auto& x : a) VT_REQ(eg.getStartingTime(ev[x.v]) >= eg.getStartingTime(ev[x.u]) + (x.d - (long double)om * x.w) / S - 1e-12L, "every constraint is met",
                                     "from event " << x.u << " at " << (double)eg.getStartingTime(ev[x.u]) << " to event " << x.v << " at " << (double)eg.getStartingTime(ev[x.v]) << " with duration " << (double)(x.d / S) << " weight " << (double)(x.w / S));
            for (int i = 0; i < n; i++) {
                mn = std::min(mn, (long double)eg.getStartingTime(ev[i]));
                VT_REQ(std::abs(eg.getStartingTime(ev[i]) - best[i] / S) < 1e-12L, "earliest start", "event " << i << " starts at " << (double)eg.getStartingTime(ev[i]) << ", can start at " << (double)(best[i] / S));
            }
            VT_REQ(mn == 0, "some event starts at 0", "first start " << (double)mn);
        }
        for (size_t k = 0; k < a.size(); k++) {}
    }
    { size_t k = 0; ForEachConstraint((&eg), x) { VT_REQ(k < a.size() && eg.getWeight(x) == a[k].w / S && eg.getDuration(x) == a[k].d / S && eg.getSource(x) == ev[a[k].u] && eg.getTarget(x) == ev[a[k].v], "constraints are kept", "constraint " << k); k++; } VT_REQ(k == a.size(), "constraints are kept", k); }
}
void vt_run(unsigned long seed, int effort) {
    for (long i = 0; i < 400000L * effort && more(); i++) {
        Rng R(seed * 1000003UL + i);
        one(R);
    }
}
