// Native replay runtime: runs one harness case on the compiled real code with the solver's values.
#include "../harness/vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <utility>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
static std::vector<std::pair<std::string, unsigned __int128>> g_in;
static size_t g_pos = 0;
static int g_fail = 0;
static bool next(const char* n, unsigned __int128& v)
{
    v = 0;
    if (g_pos >= g_in.size()) return false;
    if (g_in[g_pos].first != n) { fprintf(stderr, "replay: input order differs: %s vs %s\n", g_in[g_pos].first.c_str(), n); _exit(3); }
    v = g_in[g_pos++].second;
    return true;
}
static void report(const char* kind, const char* msg) { fprintf(stdout, "REPLAY-FAIL %s: %s\n", kind, msg); fflush(stdout); g_fail = 1; }
extern "C" {
uint64_t vp_u64(const char* n, uint64_t lo, uint64_t hi) { unsigned __int128 v; if (!next(n, v)) v = lo; (void)hi; return (uint64_t)v; }
uint64_t vp_choose(const char* n, uint64_t) { unsigned __int128 v; next(n, v); return (uint64_t)v; }
uint64_t vp_concrete(uint64_t x) { return x; }
float vp_f32(const char* n, float lo, float) { unsigned __int128 v; if (!next(n, v)) return lo; uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
double vp_f64(const char* n, double lo, double) { unsigned __int128 v; if (!next(n, v)) return lo; uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
float vp_rand_f32() { return vp_f32("rnd", 0, 1); }
double vp_rand_f64() { return vp_f64("rnd", 0, 1); }
void vp_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(g_fail ? 1 : 4); } }
void vp_assert(bool c, const char* m) { if (!c) report("assert", m); }
void vp_close(double a, double b, double t, const char* m) { if (!(std::fabs(a - b) <= t)) { char s[600]; snprintf(s, sizeof s, "%s (%.9g vs %.9g)", m, a, b); report("assert", s); } }
void vp_cover(const char*) {}
void vp_fail(const char* m) { report("assert", m); _exit(1); }
void vp_skip() { _exit(g_fail); }
void vp_limit(uint64_t) {}
void vp_threads(uint64_t, uint64_t, uint64_t) {}
void vp_debug(const char* l, double v) { fprintf(stderr, "[debug] %s = %.9g\n", l, v); }
bool vp_is_sym(uint64_t) { return false; }
}
static void onTerm() { const char* w = ""; try { std::rethrow_exception(std::current_exception()); } catch (std::exception& e) { w = e.what(); } catch (...) { } report("exception", w); _exit(1); }
int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r");
    char line[2048], nm[1024], hx[80];
    while (f && fgets(line, sizeof line, f)) {
        if (sscanf(line, "%1023s %79s", nm, hx) != 2) continue;
        unsigned __int128 v = 0;
        for (char* p = hx; *p; p++) v = v * 16 + (*p <= '9' ? *p - '0' : *p - 'a' + 10);
        g_in.push_back({ nm, v });
    }
    std::set_terminate(onTerm);
    alarm(argc > 3 ? atoi(argv[3]) : 20);
    void* h = dlopen(nullptr, RTLD_NOW);
    void (*fn)() = (void (*)())dlsym(h, (std::string("vpcase_") + argv[1]).c_str());
    if (!fn) { fprintf(stderr, "no such case\n"); return 2; }
    fn();
    fflush(stdout);
    _exit(g_fail);
}
