// qse -- bounded symbolic execution of LLVM bitcode (machine + exploration).
#include "vm.hpp"
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/InlineCost.h>
#include <llvm/Transforms/IPO/ModuleInliner.h>
#include <llvm/Transforms/IPO/Inliner.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SCCP.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Utils/Cloning.h>
using namespace llvm;

// ------------------------------------------------------------------ globals
static LLVMContext* g_ctx;
static Module* g_mod;
static const DataLayout* g_dl;
static DenseMap<const Function*, FuncInfo*> g_fi;
static std::vector<FuncInfo*> g_fns;
static DenseMap<const GlobalVariable*, u64> g_gaddr;
static Solver S;
static std::unordered_map<u64, SymByte> g_sym;
static std::unordered_map<u64, u64> g_allocs; // heap block -> size (freed: size | 1<<63)
static std::vector<Thread*> g_threads;
static Thread* T;
static std::vector<ExcInfo> g_exc;
static std::map<u64, int> g_tids;
static std::unordered_map<u64, int> g_mtx; // mutex addr -> owner+1
static std::unordered_map<u64, int> g_once;
static u64 g_heap, g_heapEnd, g_glob;
static u64 g_insns = 0, g_maxInsns = 400000000ull, g_maxDepth = 4000;
static bool g_isRoot = true, g_hasToken = true;
static std::vector<pid_t> g_kids;
static sem_t* g_sem;
static int g_logFd = -1;
static std::string g_case, g_outDir = ".";
static u64 g_deadline = 0;
static bool g_explSched = false;
static int g_preemptLeft = 0;
static int g_schedNo = 0, g_hw = 4;
static sigjmp_buf g_segv;
static volatile u64 g_segvAddr;
static volatile bool g_segvArmed = false;
static u64 g_pathForks = 0;
static bool g_quiet = false;
struct ShTab { volatile u64 h[8192]; volatile u64 n[8192]; };
static ShTab* g_tab; // labels: covers, violations
static volatile u64* g_fnHit; // per function executed flag (shared)
static std::map<std::string, u128> g_fixed; // concrete replay inputs
static bool g_concrete = false;
static std::vector<std::pair<std::string, u128>> g_fixedSeq;
static size_t g_fixedPos = 0;

struct PathEnd { };
[[noreturn]] static void endPath() { throw PathEnd(); }

static std::string jsonEsc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void logLine(const std::string& s)
{
    std::string l = s + "\n";
    if (write(g_logFd, l.data(), l.size()) < 0) { }
}
static u64 fnv(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h ? h : 1; }
static u64 tabBump(const std::string& key)
{ // returns previous count
    u64 h = fnv(key);
    size_t i = h % 8192;
    for (int k = 0; k < 8192; k++, i = (i + 1) % 8192) {
        u64 cur = g_tab->h[i];
        if (cur == 0) { if (__sync_bool_compare_and_swap(&g_tab->h[i], 0, h)) cur = h; else cur = g_tab->h[i]; }
        if (cur == h) return __sync_fetch_and_add(&g_tab->n[i], 1);
    }
    return 1000000;
}
static std::string demangle(const std::string& n)
{
    int st;
    char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    if (!d) return n;
    std::string r = d;
    free(d);
    return r;
}
static std::string shortFn(const std::string& n)
{
    std::string d = demangle(n);
    size_t p = d.find('(');
    if (p != std::string::npos && p > 0) d = d.substr(0, p);
    if (d.size() > 120) d = d.substr(0, 120);
    return d;
}
static std::string stackStr()
{
    std::string r;
    int n = 0;
    if (!T) return r;
    for (int i = (int)T->st.size() - 1; i >= 0 && n < 24; i--, n++) { if (n) r += " <- "; r += shortFn(T->st[i].f->name); }
    return r;
}
static void unsupported(const std::string& why)
{
    __sync_fetch_and_add(&g_st->unsupported, 1);
    if (tabBump("unsup:" + g_case + why) < 2)
        logLine("{\"t\":\"unsupported\",\"case\":\"" + jsonEsc(g_case) + "\",\"why\":\"" + jsonEsc(why) + "\",\"stack\":\"" + jsonEsc(stackStr()) + "\"}");
    endPath();
}
static std::string hex128(u128 v) { char b[40]; snprintf(b, sizeof b, "%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }

static void writeInputs(const std::string& path, const Model& m)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    Eval ev(m);
    for (auto& i : g_inputs) {
        u128 v = 0;
        if (i.kind == 0) { auto it = m.bv.find(i.id); v = it != m.bv.end() ? it->second : 0; }
        else if (i.kind == 1) {
            double d = ev.atom(i.id);
            if (i.w == 32) { float x = (float)d; if (x > (float)i.hi) x = std::nextafterf((float)i.hi, -INFINITY); if ((double)x < i.lo) x = std::nextafterf((float)i.lo, INFINITY); d = x; if ((float)i.hi < d) d = (float)i.hi; }
            v = dToBits(d, i.w);
        } else v = i.conc;
        fprintf(f, "%s %s", i.name.c_str(), hex128(v).c_str());
        if (i.kind == 1) fprintf(f, " # %.9g", bitsToD(v, i.w));
        fprintf(f, "\n");
    }
    fclose(f);
}
static void violation(const char* kind, const std::string& msg, const Model* m)
{
    std::string key = std::string("viol:") + g_case + ":" + kind + ":" + msg;
    u64 n = tabBump(key);
    if (n >= 4) return;
    std::string file = g_outDir + "/" + g_case + "." + std::to_string(getpid()) + "." + std::to_string(n) + ".in";
    Model full = m ? *m : S.model;
    writeInputs(file, full);
    logLine("{\"t\":\"violation\",\"case\":\"" + jsonEsc(g_case) + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jsonEsc(msg) + "\",\"stack\":\"" +
        jsonEsc(stackStr()) + "\",\"inputs\":\"" + jsonEsc(file) + "\"}");
}

// ------------------------------------------------------------------ forking
static void reapKids(bool block)
{
    for (size_t i = 0; i < g_kids.size();) {
        int st;
        pid_t r = waitpid(g_kids[i], &st, block ? 0 : WNOHANG);
        if (r == g_kids[i]) {
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                __sync_fetch_and_add(&g_st->crashed, 1);
                logLine("{\"t\":\"crash\",\"case\":\"" + jsonEsc(g_case) + "\",\"status\":" + std::to_string(st) + "}");
                sem_post(g_sem); // its token may be lost; harmless over-count
            }
            g_kids.erase(g_kids.begin() + i);
        } else i++;
    }
}
static bool g_inChild = false;
static u64 g_insBase = 0, g_cnt0 = 0;
// returns true in the child
static bool doFork()
{
    __sync_fetch_and_add(&g_st->forks, 1);
    g_pathForks++;
    
    
    reapKids(false);
    bool tok = sem_trywait(g_sem) == 0;
    pid_t p = fork();
    if (p < 0) { if (tok) sem_post(g_sem); unsupported("fork failed"); }
    if (p == 0) {
        g_kids.clear();
        g_isRoot = false;
        g_hasToken = tok; // otherwise the parent's token is lent and goes back to it at exit
        g_inChild = true;
        g_cnt0 = g_insns;
        S.rng ^= (u64)g_st->forks * 0x9E3779B97F4A7C15ull;
        if (!S.rng) S.rng = 1;
        return true;
    }
    if (tok) g_kids.push_back(p);
    else {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { __sync_fetch_and_add(&g_st->crashed, 1); logLine("{\"t\":\"crash\",\"case\":\"" + jsonEsc(g_case) + "\",\"status\":" + std::to_string(st) + "}"); }
    }
    return false;
}

[[noreturn]] static void finishProcess()
{
    if (g_hasToken) { sem_post(g_sem); g_hasToken = false; }
    reapKids(true);
    _exit(0);
}
static void checkDeadline()
{
    if (g_deadline && nowUs() > g_deadline) {
        if (tabBump("deadline:" + g_case) == 0) logLine("{\"t\":\"deadline\",\"case\":\"" + jsonEsc(g_case) + "\"}");
        endPath();
    }
}

// ------------------------------------------------------------------ branching
static void addPC(Expr* c)
{
    if (isC(c)) return;
    S.pc.push_back(c);
}
// Decide a symbolic boolean; forks when both outcomes are feasible.
static bool branch(Expr* c)
{
    if (isC(c)) return c->cv != 0;
    if (c->k == E_XOR && isC(c->b)) return !branch(c->a);
    // syntactic: already decided?
    for (auto p : S.pc) {
        if (p == c) return true;
        if (p->k == E_XOR && isC(p->b) && p->a == c) return false;
    }
    checkDeadline();
    __sync_fetch_and_add(&g_st->branches, 1);
    Expr* nc = mkNot(c);
    bool mv, known = false;
    Eval ev(S.model);
    mv = ev.bv(c) != 0;
    known = S.modelOk && !ev.ambiguous;
    Model mt, mf;
    SRes rt, rf;
    if (known && mv) { rt = S_SAT; mt = S.model; rf = S.check(nc, &mf); }
    else if (known) { rf = S_SAT; mf = S.model; rt = S.check(c, &mt); }
    else { rt = S.check(c, &mt); rf = S.check(nc, &mf); }
    if (rt == S_UNSAT && rf == S_UNSAT) { __sync_fetch_and_add(&g_st->infeasible, 1); endPath(); }
    if (rf == S_UNSAT) { if (rt == S_SAT) { S.model = mt; } return true; }
    if (rt == S_UNSAT) { if (rf == S_SAT) { S.model = mf; } return false; }
    if (doFork()) {
        addPC(nc);
        if (rf == S_SAT) { S.model = mf; S.modelOk = true; } else S.modelOk = false;
        return false;
    }
    addPC(c);
    if (rt == S_SAT) { S.model = mt; S.modelOk = true; } else S.modelOk = false;
    return true;
}
static void ensureModel()
{
    if (S.modelOk) return;
    Model m;
    if (S.check(nullptr, &m) == S_SAT) { S.model = m; S.modelOk = true; }
}
// Concretise an integer expression by forking over all its feasible values.
static u128 concretize(Expr* e, int cap = 4096)
{
    if (isC(e)) return e->cv;
    if (e->k == E_FP) unsupported("bits of a symbolic float used as an integer");
    for (int i = 0; i < cap; i++) {
        ensureModel();
        Eval ev(S.model);
        u128 v = ev.bv(e);
        __sync_fetch_and_add(&g_st->concretized, 1);
        Expr* eq = mkBin(E_EQ, e, mkConst(v, e->w));
        if (branch(eq)) return v;
        if (isC(e)) return e->cv;
    }
    unsupported("too many values while concretizing");
    return 0;
}
static u64 cv64(const Val& v) { return v.s ? (u64)concretize(v.s) : v.lo; }

static Expr* toFP(Expr* e);
// Coerce a value to something fp.hpp understands (E_CONST / E_FP), forking on ites.
static Expr* toFP(Expr* e)
{
    for (;;) {
        if (e->k == E_CONST || e->k == E_FP) return e;
        if (e->k == E_ITE) { e = branch(e->a) ? e->b : e->c; continue; }
        unsigned w = e->w;
        u128 sgn = (u128)1 << (w - 1);
        if (e->k == E_XOR && isC(e->b) && e->b->cv == sgn) return fpNeg(toFP(e->a));
        if (e->k == E_AND && isC(e->b) && e->b->cv == (sgn - 1)) {
            Expr* x = toFP(e->a);
            if (isC(x)) return mkConst(x->cv & (sgn - 1), w);
            return branch(fpCmp(x, mkConst(0, w), 0)) ? fpNeg(x) : x;
        }
        if (e->k == E_OR && isC(e->b) && e->b->cv == sgn) {
            Expr* x = toFP(e->a);
            if (isC(x)) return mkConst(x->cv | sgn, w);
            return branch(fpCmp(x, mkConst(0, w), 0)) ? x : fpNeg(x);
        }
        // plain bit-vector used as a float
        return mkConst(concretize(e), w);
    }
}
static Expr* fpAbsE(Expr* x)
{
    x = toFP(x);
    if (isC(x)) return mkConst(x->cv & ~((u128)1 << (x->w - 1)), x->w);
    return branch(fpCmp(x, mkConst(0, x->w), 0)) ? fpNeg(x) : x;
}
static Expr* fpSqrtE(Expr* x)
{
    x = toFP(x);
    if (isC(x)) { double d = bitsToD(x->cv, x->w); return mkConst(dToBits(x->w == 32 ? (double)sqrtf((float)d) : sqrt(d), x->w), x->w); }
    // perfect square with undetermined sign: split on the sign of the root
    if (x->fp->p.t.size() == 1 && x->fp->p.t[0].second > 0) {
        auto at = g_monos[x->fp->p.t[0].first].at;
        bool even = at.size() % 2 == 0 && !at.empty();
        std::vector<uint32_t> h;
        for (size_t i = 0; even && i < at.size(); i += 2) { if (at[i] != at[i + 1]) even = false; else h.push_back(at[i]); }
        if (even) {
            uint32_t m = monoOf(h);
            if (g_monos[m].lo < 0 && g_monos[m].hi > 0) {
                static std::map<uint32_t, Expr*> memo;
                Expr*& r = memo[m];
                if (!r) r = mkFP(pMono(m), 0, 64);
                bool neg = branch(mkRcmp(r->fp, 0, 0));
                double c = std::sqrt(x->fp->p.t[0].second);
                double lo = x->fp->lo;
                if (g_refineAbsLo && x->fp->err > 0) lo = g_refineAbsLo(x, false);
                double e = x->fp->err == 0 ? 0 : (lo > 4 * x->fp->err ? x->fp->err / std::sqrt(lo) : std::sqrt(2 * x->fp->err));
                Poly p = pMono(m, neg ? -c : c);
                return mkFP(p, roundErr(p, e, x->w), x->w);
            }
        }
    }
    return fpSqrt(x);
}

// ------------------------------------------------------------------ memory
static void memViolation(const char* what, u64 a, u64 n)
{
    ensureModel();
    std::string fn;
    for (int i = (int)T->st.size() - 1; i >= 0; i--) {
        std::string d = shortFn(T->st[i].f->name);
        if (d.find("Qrack::") != std::string::npos) { fn = d; break; }
    }
    violation("memory", std::string("invalid ") + what + " in " + fn, nullptr);
    endPath();
}
static bool memValid(u64 a, u64 n)
{
    if (!inArena(a)) return true;
    for (u64 i = 0; i < n; i++) if (!*sh(a + i)) return false;
    return true;
}
static u64 heapAlloc(u64 n)
{
    if (n > (1ull << 32)) return 0;
    u64 a = (g_heap + 32 + 15) & ~15ull;
    u64 e = a + n + 32;
    if (e > g_heapEnd) { unsupported("VM heap exhausted"); }
    g_heap = a + n;
    memset(sh(a), 1, n);
    g_allocs[a] = n;
    return a;
}
static bool g_inVM = false;
static void heapFree(u64 a)
{
    if (!a) return;
    auto it = g_allocs.find(a);
    if (it == g_allocs.end()) {
        if (inArena(a)) memViolation("free", a, 0);
        free((void*)a);
        return;
    }
    memset(sh(a), 0, it->second);
    g_allocs.erase(it);
}
static inline bool shAll1(u64 a, unsigned n)
{
    uint8_t* s = sh(a);
    switch (n) {
    case 1: return *s == 1;
    case 2: return *(uint16_t*)s == 0x0101;
    case 4: return *(uint32_t*)s == 0x01010101u;
    case 8: return *(u64*)s == 0x0101010101010101ull;
    case 16: return *(u64*)s == 0x0101010101010101ull && *(u64*)(s + 8) == 0x0101010101010101ull;
    default: for (unsigned i = 0; i < n; i++) if (s[i] != 1) return false; return true;
    }
}
static Expr* byteE(u64 a)
{
    if (inArena(a) && *sh(a) == 2) {
        SymByte& b = g_sym[a];
        return mkExtract(b.e, b.off * 8, 8);
    }
    return mkConst(*(uint8_t*)a, 8);
}
static Val loadC(u64 a, unsigned w)
{
    unsigned n = (w + 7) / 8;
    if (inArena(a)) {
        if (!shAll1(a, n)) {
            if (!memValid(a, n)) memViolation("read", a, n);
            // symbolic bytes
            if (*sh(a) == 2) {
                SymByte b0 = g_sym[a];
                bool same = b0.off == 0 && b0.e->w == n * 8;
                for (unsigned i = 1; same && i < n; i++) {
                    if (*sh(a + i) != 2) { same = false; break; }
                    SymByte& b = g_sym[a + i];
                    if (b.e != b0.e || b.off != i) same = false;
                }
                if (same) { Expr* r = b0.e; if (w < r->w) r = mkExtract(r, 0, w); return fromE(r); }
            }
            // group runs belonging to the same expression
            Expr* r = nullptr;
            for (unsigned i = 0; i < n;) {
                Expr* part;
                unsigned len = 1;
                if (*sh(a + i) == 2) {
                    SymByte b = g_sym[a + i];
                    while (i + len < n && *sh(a + i + len) == 2) {
                        SymByte& q = g_sym[a + i + len];
                        if (q.e != b.e || q.off != b.off + len) break;
                        len++;
                    }
                    part = mkExtract(b.e, b.off * 8, len * 8);
                } else {
                    while (i + len < n && *sh(a + i + len) != 2) len++;
                    u128 v = 0;
                    memcpy(&v, (void*)(a + i), len);
                    part = mkConst(v, len * 8);
                }
                r = r ? mkConcat(part, r) : part;
                i += len;
            }
            if (w < r->w) r = mkExtract(r, 0, w);
            return fromE(r);
        }
    }
    Val v{ 0, 0, nullptr };
    switch (n) {
    case 1: v.lo = *(uint8_t*)a; break;
    case 2: v.lo = *(uint16_t*)a; break;
    case 4: v.lo = *(uint32_t*)a; break;
    case 8: v.lo = *(u64*)a; break;
    default: memcpy(&v.lo, (void*)a, n); break;
    }
    if (w < 64 && (w & 7)) v.lo &= (1ull << w) - 1;
    return v;
}
static void storeC(u64 a, unsigned w, const Val& v)
{
    unsigned n = (w + 7) / 8;
    if (inArena(a)) {
        if (!v.s && shAll1(a, n)) goto fast;
        if (!memValid(a, n)) memViolation("write", a, n);
        if (v.s) {
            Expr* e = v.s;
            if (e->w != n * 8) e = mkZext(e, n * 8);
            for (unsigned i = 0; i < n; i++) { g_sym[a + i] = { e, (uint8_t)i }; *sh(a + i) = 2; }
            return;
        }
        for (unsigned i = 0; i < n; i++) if (*sh(a + i) == 2) { *sh(a + i) = 1; g_sym.erase(a + i); }
    } else if (v.s) {
        u128 c = concretize(v.s);
        memcpy((void*)a, &c, n);
        return;
    }
fast:
    switch (n) {
    case 1: *(uint8_t*)a = (uint8_t)v.lo; break;
    case 2: *(uint16_t*)a = (uint16_t)v.lo; break;
    case 4: *(uint32_t*)a = (uint32_t)v.lo; break;
    case 8: *(u64*)a = v.lo; break;
    default: memcpy((void*)a, &v.lo, n); break;
    }
}
static Val loadMem(const Val& p, unsigned w, bool fpOrPtr)
{
    if (!p.s) return loadC(p.lo, w);
    Expr* pe = p.s;
    if (fpOrPtr) { u64 a = (u64)concretize(pe); return loadC(a, w); }
    // enumerate feasible addresses
    std::vector<u64> as;
    Expr* excl = mkBool(true);
    for (;;) {
        Model m;
        SRes r = S.check(excl, &m);
        if (r == S_UNSAT) break;
        if (r == S_UNK || as.size() >= 72) { u64 a = (u64)concretize(pe); return loadC(a, w); }
        Eval ev(m);
        u64 a = (u64)ev.bv(pe);
        if (!memValid(a, (w + 7) / 8)) {
            S.model = m;
            memViolation("read", a, (w + 7) / 8);
        }
        as.push_back(a);
        excl = mkAnd(excl, mkNot(mkBin(E_EQ, pe, mkConst(a, 64))));
    }
    if (as.empty()) endPath();
    std::sort(as.begin(), as.end());
    // a symbolic float among the candidates -> fork instead
    for (u64 a : as) { Val v = loadC(a, w); if (v.s && v.s->k == E_FP) { u64 x = (u64)concretize(pe); return loadC(x, w); } }
    Expr* r = toE(loadC(as[0], w), w);
    for (size_t i = 1; i < as.size(); i++) r = mkIte(mkBin(E_EQ, pe, mkConst(as[i], 64)), toE(loadC(as[i], w), w), r);
    return fromE(r);
}
static void storeMem(const Val& p, unsigned w, const Val& v, bool fpOrPtr)
{
    if (!p.s) { storeC(p.lo, w, v); return; }
    Expr* pe = p.s;
    if (fpOrPtr || (v.s && v.s->k == E_FP)) { u64 a = (u64)concretize(pe); storeC(a, w, v); return; }
    std::vector<u64> as;
    Expr* excl = mkBool(true);
    for (;;) {
        Model m;
        SRes r = S.check(excl, &m);
        if (r == S_UNSAT) break;
        if (r == S_UNK || as.size() >= 40) { u64 a = (u64)concretize(pe); storeC(a, w, v); return; }
        Eval ev(m);
        u64 a = (u64)ev.bv(pe);
        if (!memValid(a, (w + 7) / 8)) { S.model = m; memViolation("write", a, (w + 7) / 8); }
        as.push_back(a);
        excl = mkAnd(excl, mkNot(mkBin(E_EQ, pe, mkConst(a, 64))));
    }
    if (as.empty()) endPath();
    for (u64 a : as) {
        Expr* n = mkIte(mkBin(E_EQ, pe, mkConst(a, 64)), toE(v, w), toE(loadC(a, w), w));
        storeC(a, w, fromE(n));
    }
}
static void memCopy(u64 d, u64 s, u64 n)
{
    if (!n) return;
    if (inArena(d) && !memValid(d, n)) memViolation("write", d, n);
    if (inArena(s) && !memValid(s, n)) memViolation("read", s, n);
    bool sym = false;
    if (inArena(s)) sym = memchr(sh(s), 2, n) != nullptr;
    bool dsym = inArena(d) && memchr(sh(d), 2, n) != nullptr;
    if (!sym && !dsym) { memmove((void*)d, (void*)s, n); return; }
    std::vector<std::pair<u64, SymByte>> sb;
    if (sym) for (u64 i = 0; i < n; i++) if (*sh(s + i) == 2) sb.push_back({ i, g_sym[s + i] });
    memmove((void*)d, (void*)s, n);
    if (dsym) for (u64 i = 0; i < n; i++) if (*sh(d + i) == 2) { *sh(d + i) = 1; g_sym.erase(d + i); }
    if (sym) {
        if (!inArena(d)) unsupported("symbolic data copied to native memory");
        for (auto& x : sb) { *sh(d + x.first) = 2; g_sym[d + x.first] = x.second; }
    }
}
static void memFill(u64 d, const Val& v, u64 n)
{
    if (!n) return;
    if (inArena(d) && !memValid(d, n)) memViolation("write", d, n);
    if (v.s) { for (u64 i = 0; i < n; i++) storeC(d + i, 8, v); return; }
    if (inArena(d) && memchr(sh(d), 2, n)) for (u64 i = 0; i < n; i++) if (*sh(d + i) == 2) { *sh(d + i) = 1; g_sym.erase(d + i); }
    memset((void*)d, (int)(v.lo & 255), n);
}
static std::string readStr(u64 a)
{
    std::string r;
    for (; *(char*)a && r.size() < 4000; a++) r += *(char*)a;
    return r;
}

// native code that releases VM memory must come back to the VM heap
void operator delete(void* p) noexcept { if (inArena((u64)p)) { if (g_inVM) { auto it = g_allocs.find((u64)p); if (it != g_allocs.end()) heapFree((u64)p); } return; } free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }

#include "decode.inc"
#include "exec.inc"
#include "hooks.inc"
#include "main.inc"
