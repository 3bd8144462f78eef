// common part of the bounded harnesses
#pragma once
#include <csignal>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <vector>
#include <unistd.h>
#include <chrono>
namespace vt {
struct Rng {
    unsigned long s;
    explicit Rng(unsigned long x) : s(x * 0x9E3779B97F4A7C15UL + 0x1234567) { next(); next(); }
    unsigned long next() { unsigned long z = (s += 0x9E3779B97F4A7C15UL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9UL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBUL; return z ^ (z >> 31); }
    long in(long a, long b) { return a + (long)(next() % (unsigned long)(b - a + 1)); }
    bool p(int percent) { return in(1, 100) <= percent; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};
inline std::string g_case;
inline std::string g_clause = "no crash, no hang";
inline long g_evals = 0, g_nontrivial = 0;
inline std::map<std::string, long> g_clauses;
inline std::vector<std::string> g_samples;
inline std::set<std::string> g_seen;
inline double g_limit = 1e9;
inline std::chrono::steady_clock::time_point g_t0 = std::chrono::steady_clock::now();
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
inline bool more() { return elapsed() < g_limit; }
inline void raw(const char* s) { if (write(1, s, strlen(s))) {} }
inline void on_signal(int sig) {
    raw("\nFAIL clause=");
    raw(sig == SIGALRM ? "termination (no answer within the time limit)" : "no crash");
    raw(" input=");
    raw(g_case.c_str());
    raw("\n");
    _exit(3);
}
[[noreturn]] inline void fail(const std::string& clause, const std::string& detail) {
    std::cout << "\nFAIL clause=" << clause << " input=" << g_case << " detail=" << detail << std::endl;
    _exit(3);
}
// start of a case: its text must be enough to rebuild the input
inline void begin(const std::string& c, bool nontrivial = true) {
    g_case = c;
    ++g_evals;
    if (nontrivial && g_seen.size() < 2000000 && g_seen.insert(c.size() > 400 ? std::to_string(std::hash<std::string>()(c)) : c).second) ++g_nontrivial;
    if (g_samples.size() < 4 && (g_evals % 7 == 1)) g_samples.push_back(c.substr(0, 400));
    alarm(120);
}
#define VT_REQ(cond, clause, detail) do { ++vt::g_clauses[clause]; if (!(cond)) { std::ostringstream vt_os; vt_os << detail; vt::fail(clause, vt_os.str()); } } while (0)
inline std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
inline void finish() {
    alarm(0);
    std::cout << "\nDONE {\"evaluations\":" << g_evals << ",\"distinct_nontrivial\":" << g_nontrivial << ",\"clauses\":{";
    bool f = true;
    for (auto& c : g_clauses) { std::cout << (f ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; f = false; }
    std::cout << "},\"samples\":[";
    f = true;
    for (auto& s : g_samples) { std::cout << (f ? "" : ",") << "\"" << esc(s) << "\""; f = false; }
    std::cout << "]}" << std::endl;
    _exit(0);
}
// 0: returned, 1: exit() or an exception was reached
template <class Fn> int guarded(Fn f) {
    try { f(); return 0; }
    catch (const Exit&) { return 1; }
    catch (std::runtime_error*) { return 1; }
    catch (const std::exception&) { return 2; }
}
template <class T> std::string str(const std::vector<T>& v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
}
void vt_run(unsigned long seed, int effort);   // effort 1 quick, 10 thorough
#ifndef VT_NO_MAIN
int main(int argc, char** argv) {
    unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1;
    int effort = argc > 2 ? atoi(argv[2]) : 1;
    vt::g_limit = argc > 3 ? atof(argv[3]) : 1e9;
    // a stack of its own for the reports of stack overflows
    static char vt_stack[1 << 16];
    stack_t vt_ss; memset(&vt_ss, 0, sizeof vt_ss); vt_ss.ss_sp = vt_stack; vt_ss.ss_size = sizeof vt_stack; sigaltstack(&vt_ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGALRM, SIGBUS, SIGILL}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = vt::on_signal; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
    try { vt_run(seed, effort); }
    catch (const vt::Exit& e) { vt::fail("no abnormal termination on a valid input", "exit reached"); }
    catch (std::runtime_error* e) { vt::fail("no abnormal termination on a valid input", e->what()); }
    catch (const std::exception& e) { vt::fail("no abnormal termination on a valid input", e.what()); }
    vt::finish();
}
#endif
