// Native runtime of the contract language: random search for failing inputs, and replay of given ones, on the real code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <random>
#include <stdexcept>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
#include <chrono>
#define VC_NATIVE
#include "vc.hpp"

namespace {
struct reject {};
struct assert_failed { std::string what; };
std::mt19937_64 rng;
std::map<std::string, double> given;
bool replay = false;
std::map<std::string, int> occ;
std::vector<std::pair<std::string, double>> draws;
std::vector<std::string> failed;
double tol = 1e-3;
int style = 0;
double jitter = 0;
std::set<std::string> covered;

std::string uniq(const std::string &base) {
    int n = occ[base]++;
    return n == 0 ? base : base + "#" + std::to_string(n);
}
double rnd(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
unsigned pick(unsigned n) { return (unsigned)(rng() % n); }

double draw_real(const std::string &name) {
    if (replay) {
        auto it = given.find(name);
        double v = it == given.end() ? 0 : it->second;
        return jitter > 0 ? v * (1 + jitter * rnd(-1, 1)) + jitter * rnd(-1, 1) : v;
    }
    // component-wise relation with an earlier vector (parallel, equal, opposite)
    auto dot = name.rfind('.');
    if (dot != std::string::npos && !draws.empty()) {
        static std::map<std::string, std::pair<std::string, double>> rel;
        static unsigned long gen = 0;
        (void)gen;
        std::string base = name.substr(0, dot), comp = name.substr(dot);
        if (comp == ".x") {
            rel.erase(base);
            if (pick(5) == 0) {
                std::vector<std::string> bases;
                for (auto &d : draws) { auto p = d.first.rfind(".x"); if (p != std::string::npos && p + 2 == d.first.size()) bases.push_back(d.first.substr(0, p)); }
                if (!bases.empty()) {
                    static const double ks[] = {1, 1, -1, 0.5, 2};
                    rel[base] = {bases[pick(bases.size())], ks[pick(5)]};
                }
            }
        }
        auto it = rel.find(base);
        if (it != rel.end()) {
            for (auto &d : draws) if (d.first == it->second.first + comp) {
                double v = d.second * it->second.second;
                if (pick(8) == 0) v += rnd(-1, 1);
                return (float)v;
            }
        }
    }
    static const double small[] = {0, 0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 1.5, 0.25, -0.25};
    switch (style) {
    case 0: return small[pick(13)];
    case 1: return (float)rnd(-3, 3);
    case 2: return pick(3) == 0 ? small[pick(13)] : (float)rnd(-2, 2);
    case 3: return (float)(std::round(rnd(-8, 8)) * 0.25);
    case 4: { if (!draws.empty() && pick(4) == 0) return draws[pick(draws.size())].second;
              return pick(2) ? small[pick(13)] : (float)rnd(-1, 1); }
    case 5: return (float)(rnd(-1, 1) * std::pow(10.0, (int)pick(7) - 4));
    default: return (float)rnd(0, 2);
    }
}
}

extern "C" {
vc_scalar vc_real(const char *n, int c) {
    std::string name = n;
    if (c >= 0) { name += '.'; if (c < 4) name += "xyzw"[c]; else name += std::to_string(c); }
    name = uniq(name);
    double v = draw_real(name);
    draws.emplace_back(name, v);
    return (vc_scalar)v;
}
unsigned long vc_int(const char *n, unsigned long lo, unsigned long hi) {
    std::string name = uniq(n);
    unsigned long v;
    if (replay) { auto it = given.find(name); v = it == given.end() ? lo : (unsigned long)it->second; if (v < lo || v > hi) throw reject{}; }
    else {
        unsigned long span = hi - lo;
        if (span > 64 && pick(2)) { v = pick(2) ? lo + pick(9) : hi - pick(9); }
        else v = span == ~0ul ? rng() : lo + rng() % (span + 1);
    }
    draws.emplace_back(name, (double)v);
    return v;
}
bool vc_bool(const char *n) {
    std::string name = uniq(n);
    bool v = replay ? given.count(name) && given[name] != 0 : pick(2);
    draws.emplace_back(name, v);
    return v;
}
void vc_assume(bool c) { if (!c) throw reject{}; }
void vc_check(bool c, const char *label) { if (!c) failed.push_back(label); }
void vc_lemma(bool c, const char *label) { if (!c) failed.push_back(label); }
void vc_cover(const char *l) { covered.insert(l); }
void vc_hint(vc_scalar) {}
vc_scalar vc_name(vc_scalar v, const char *) { return v; }
vc_scalar vc_rewrite(vc_scalar, vc_scalar v, const char *) { return v; }
void vc_opt(const char *, const char *) {}
void vc_replace(void *, void *) {}
static double tl(double a, double b) { return tol * (1 + std::max(std::abs(a), std::abs(b))); }
bool vc_eq(vc_scalar a, vc_scalar b) { return std::abs((double)a - b) <= tl(a, b); }
bool vc_le(vc_scalar a, vc_scalar b) { return a <= b + tl(a, b); }
bool vc_lt(vc_scalar a, vc_scalar b) { return a < b + tl(a, b); }
bool vc_pre_le(vc_scalar a, vc_scalar b) { return a <= b; }
bool vc_and(bool a, bool b) { return a && b; }
bool vc_or(bool a, bool b) { return a || b; }
bool vc_not(bool a) { return !a; }
bool vc_implies(bool a, bool b) { return !a || b; }
vc_scalar vc_sel(bool c, vc_scalar a, vc_scalar b) { return c ? a : b; }
unsigned long vc_sel_int(bool c, unsigned long a, unsigned long b) { return c ? a : b; }
bool vc_symbolic() { return false; }
void vc_unit(vc_scalar *p, int n) {
    double s = 0;
    for (int i = 0; i < n; ++i) s += (double)p[i] * p[i];
    if (s < 1e-12) { for (int i = 0; i < n; ++i) p[i] = i == n - 1; return; }
    s = 1 / std::sqrt(s);
    for (int i = 0; i < n; ++i) p[i] = (vc_scalar)(p[i] * s);
}
void vc_assert_fail(const char *e, const char *f, unsigned l, const char *) __asm__("__assert_fail");
__attribute__((used)) void vc_assert_fail(const char *e, const char *f, unsigned l, const char *) {
    throw assert_failed{std::string("assert(") + e + ") at " + f + ":" + std::to_string(l)};
}
}

static volatile bool in_run = false;
static void dump(const char *what) {
    std::printf("FAIL %s\n", what);
    for (auto &d : draws) std::printf("INPUT %s %.17g\n", d.first.c_str(), d.second);
    std::printf("END\n");
    std::fflush(stdout);
}
static void on_signal(int s) {
    dump(s == SIGFPE ? "signal SIGFPE" : s == SIGSEGV ? "signal SIGSEGV" : "signal abort");
    _exit(3);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_on_error() { dump("AddressSanitizer report"); }
#endif

int main(int argc, char **argv) {
    std::string name;
    unsigned long seed = 1, n = 100000;
    double secs = 10;
    const char *file = nullptr;
    int maxfail = 20;
    bool cover = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoul(argv[++i], 0, 10);
        else if (a == "--n") n = strtoul(argv[++i], 0, 10);
        else if (a == "--secs") secs = atof(argv[++i]);
        else if (a == "--tol") tol = atof(argv[++i]);
        else if (a == "--maxfail") maxfail = atoi(argv[++i]);
        else if (a == "--jitter") jitter = atof(argv[++i]);
        else if (a == "--cover") cover = true;
        else if (a == "--replay") file = argv[++i];
        else name = a;
    }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, ("vc_contract_" + name).c_str());
    if (!fn) { std::fprintf(stderr, "no contract %s\n", name.c_str()); return 2; }
    signal(SIGSEGV, on_signal); signal(SIGFPE, on_signal); signal(SIGABRT, on_signal);
    if (file) {
        replay = true; if (jitter == 0) n = 1;
        FILE *f = fopen(file, "r");
        char nm[256]; double v; char line[1024];
        while (f && fgets(line, sizeof line, f)) if (sscanf(line, "INPUT %255s %lf", nm, &v) == 2) given[nm] = v;
        if (f) fclose(f);
    }
    auto t0 = std::chrono::steady_clock::now();
    unsigned long runs = 0, rejected = 0, fails = 0;
    for (unsigned long i = 0; i < n; ++i) {
        if ((i & 255) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        rng.seed(seed * 1000003 + i);
        style = pick(7);
        occ.clear(); draws.clear(); failed.clear();
        try { ++runs; fn(); }
        catch (reject &) { ++rejected; if (failed.empty()) { if (replay && jitter == 0) std::printf("REJECTED precondition not met\n"); continue; } }
        catch (assert_failed &a) { failed.push_back(a.what); }
        catch (std::exception &e) { failed.push_back(std::string("exception ") + e.what()); }
        if (cover) continue;
        if (!failed.empty()) {
            if (jitter > 0) { ++fails; continue; }
            for (auto &f : failed) dump(f.c_str());
            if (++fails >= (unsigned long)maxfail) break;
        }
    }
    if (cover) for (auto &c : covered) std::printf("COVER %s\n", c.c_str());
    std::printf("RUNS %lu REJECTED %lu FAILS %lu\n", runs, rejected, fails);
    return fails ? 1 : 0;
}
