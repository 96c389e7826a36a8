// qse: decision procedures (Z3) over path conditions.
#pragma once
#include "fp.hpp"
#include <z3++.h>
#include <sys/time.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>

struct Model {
    std::unordered_map<uint32_t, u128> bv;      // BV var -> value
    std::unordered_map<uint32_t, double> in;    // input atom -> value
};
struct InputRec { std::string name; int kind; int w; uint32_t id; double lo, hi; u128 conc; }; // kind 0 bv 1 fp atom 2 concrete
static std::vector<InputRec> g_inputs;

enum SRes { S_UNSAT = 0, S_SAT = 1, S_UNK = 2 };

struct Stats {
    volatile u64 paths, forks, insns, queries, qUnsat, qSat, qUnk, solverUs, asserts, assertsUnsat, assertsUnk, assertsTrivial, concretized, crashed, infeasible, unsupported, lraUnsat, bvq, nraq, sampled, live, hangs, branches;
};
static Stats* g_st; // shared

static u64 nowUs() { timeval tv; gettimeofday(&tv, nullptr); return (u64)tv.tv_sec * 1000000ull + tv.tv_usec; }

static std::string showPoly(const Poly& p)
{
    std::string s; char b[64];
    for (auto& t : p.t) { snprintf(b, sizeof b, "%+.6g", t.second); s += b; for (auto a : g_monos[t.first].at) { snprintf(b, sizeof b, "*%s%u", g_atoms[a].kind == AK_COS ? "c" : g_atoms[a].kind == AK_SIN ? "s" : g_atoms[a].kind == AK_SQRT ? "q" : g_atoms[a].kind == AK_RECIP ? "r" : g_atoms[a].kind == AK_MISC ? "m" : "a", a); s += b; } if (s.size() > 3000) return s + "..."; }
    return s;
}
static std::string show(Expr* e, int d = 0)
{
    char b[96];
    if (e->k == E_CONST) { snprintf(b, sizeof b, "%llu", (unsigned long long)e->cv); return b; }
    if (e->k == E_VAR) { snprintf(b, sizeof b, "x%u", e->name); return b; }
    if (e->k == E_RCMP) { snprintf(b, sizeof b, " %+.6g (err %.2g) %s 0", bitsToD(e->cv, 64), e->fp->err, e->aux == 0 ? "<" : e->aux == 1 ? "<=" : "=="); return "[" + showPoly(e->fp->p) + b + "]"; }
    if (d > 8) return "...";
    snprintf(b, sizeof b, "(op%d", (int)e->k);
    std::string s = b;
    for (Expr* x : { e->a, e->b, e->c }) if (x) s += " " + show(x, d + 1);
    return s + ")";
}
// ---- numeric evaluation under a model of the inputs
struct Eval {
    const Model& m;
    std::unordered_map<uint32_t, double> av;
    std::unordered_map<Expr*, u128> ev;
    bool ambiguous = false;
    Eval(const Model& mm) : m(mm) {}
    double poly(const Poly& p)
    {
        double s = 0;
        for (auto& t : p.t) {
            double x = t.second;
            const std::vector<uint32_t> at = g_monos[t.first].at;
            for (auto a : at) x *= atom(a);
            s += x;
        }
        return s;
    }
    double atom(uint32_t a)
    {
        auto it = av.find(a);
        if (it != av.end()) return it->second;
        const Atom A = g_atoms[a];
        double v = 0;
        switch (A.kind) {
        case AK_INPUT: { auto f = m.in.find(a); v = f != m.in.end() ? f->second : (A.lo + A.hi) / 2; break; }
        case AK_COS: v = std::cos(poly(A.arg)); break;
        case AK_SIN: v = std::sin(poly(A.arg)); break;
        case AK_SQRT: v = std::sqrt(std::max(0.0, poly(A.arg))); break;
        case AK_RECIP: { double d = poly(A.arg); v = d == 0 ? 1e9 : 1 / d; break; }
        case AK_MISC: v = 0; ambiguous = true; break;
        }
        av[a] = v;
        return v;
    }
    u128 bv(Expr* e)
    {
        if (e->k == E_CONST) return e->cv;
        auto it = ev.find(e);
        if (it != ev.end()) return it->second;
        u128 r = 0;
        bool ok;
        switch (e->k) {
        case E_VAR: { auto f = m.bv.find(e->name); r = f != m.bv.end() ? f->second : 0; break; }
        case E_ZEXT: r = bv(e->a); break;
        case E_SEXT: r = (u128)sextW(bv(e->a), e->a->w) & maskW(e->w); break;
        case E_EXTRACT: r = (bv(e->a) >> e->aux) & maskW(e->w); break;
        case E_CONCAT: r = (bv(e->a) << e->b->w) | bv(e->b); break;
        case E_ITE: r = bv(e->a) ? bv(e->b) : bv(e->c); break;
        case E_RCMP: {
            double v = poly(e->fp->p) + bitsToD(e->cv, 64);
            double er = e->fp->err, pv = std::fabs(v - bitsToD(e->cv, 64));
            if (std::isfinite(e->fp->rel)) er = std::min(er, e->fp->rel * pv + e->fp->ab);
            if (std::fabs(v) <= er) ambiguous = true;
            r = e->aux == 0 ? v < 0 : e->aux == 1 ? v <= 0 : v == 0;
            break;
        }
        case E_FP: { double v = poly(e->fp->p); r = dToBits(v, e->w); ambiguous = true; break; }
        default: r = foldBin(e->k, bv(e->a), bv(e->b), e->a->w, ok);
        }
        ev[e] = r;
        return r;
    }
};

struct Solver {
    std::vector<Expr*> pc;
    Model model;       // satisfies pc (best effort)
    bool modelOk = true;
    z3::context* ctx = nullptr;
    std::unordered_map<Expr*, z3::expr*> tr;
    unsigned rlimBV = 20000000, rlimNRA = 3000000;
    double nraSecs = 4;
    u64 rng = 0x12345678abcdefull;
    std::unordered_map<uint32_t, Model> dummy;

    void init() { if (!ctx) { z3::set_param("memory_max_size", "3000"); ctx = new z3::context(); } }
    double rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (rng >> 11) * (1.0 / 9007199254740992.0); }

    z3::expr num(double d)
    {
        if (d == 0) return ctx->real_val(0);
        int ex;
        double m = std::frexp(d, &ex);
        i64 n = (i64)std::ldexp(m, 53);
        ex -= 53;
        while (n != 0 && !(n & 1)) { n >>= 1; ex++; }
        z3::expr r = ctx->real_val(std::to_string(n).c_str());
        if (ex > 0 && ex < 62) return ctx->real_val(std::to_string((long long)((__int128)n << ex > LLONG_MAX ? 0 : n << ex)).c_str());
        if (ex == 0) return r;
        // n / 2^-ex
        std::string den = "1";
        { // decimal power of two
            std::vector<int> dg{ 1 };
            for (int i = 0; i < -ex; i++) { int c = 0; for (auto& x : dg) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) dg.push_back(c); }
            den.clear();
            for (auto it = dg.rbegin(); it != dg.rend(); ++it) den += char('0' + *it);
        }
        return ctx->real_val((std::to_string(n) + "/" + den).c_str());
    }
    // mode: linear => monomials are variables
    struct RCtx { bool linear; std::set<uint32_t> atoms, monos; std::set<FPVal*> fps; std::vector<z3::expr> side; };
    RCtx* rc = nullptr;
    z3::expr atomVar(uint32_t a) { if (rc) rc->atoms.insert(a); return ctx->real_const(("a" + std::to_string(a)).c_str()); }
    z3::expr monoVar(uint32_t m)
    {
        if (m == 0) return ctx->real_val(1);
        if (rc->linear) { rc->monos.insert(m); for (auto a : g_monos[m].at) rc->atoms.insert(a); return ctx->real_const(("m" + std::to_string(m)).c_str()); }
        z3::expr r = atomVar(g_monos[m].at[0]);
        for (size_t i = 1; i < g_monos[m].at.size(); i++) r = r * atomVar(g_monos[m].at[i]);
        return r;
    }
    z3::expr polyExpr(const Poly& p)
    {
        z3::expr_vector v(*ctx);
        for (auto& t : p.t) v.push_back(t.first == 0 ? num(t.second) : num(t.second) * monoVar(t.first));
        if (v.size() == 0) return ctx->real_val(0);
        if (v.size() == 1) return v[0];
        return z3::sum(v);
    }
    z3::expr fpVar(FPVal* f)
    {
        if (f->err == 0) return polyExpr(f->p);
        z3::expr v = ctx->real_const(("v" + std::to_string(f->e->id)).c_str());
        if (rc->fps.insert(f).second) {
            z3::expr p = polyExpr(f->p);
            double er = f->err * 1.0000001;
            // round error up to a short numeral
            { int ex; double m = std::frexp(er, &ex); m = std::ceil(m * 1024) / 1024; er = std::ldexp(m, ex); }
            z3::expr e = num(er);
            rc->side.push_back(v <= p + e);
            rc->side.push_back(v >= p - e);
            if (f->nn && std::isfinite(f->rel) && f->rel < 0.01) {
                z3::expr r = num(std::ldexp(std::ceil(std::ldexp(f->rel, 40)), -40)), ab = num(f->ab * 1.001);
                rc->side.push_back(p >= 0);
                rc->side.push_back(v <= p + r * p + ab);
                rc->side.push_back(v >= p - r * p - ab);
            }
        }
        return v;
    }
    z3::expr t(Expr* e)
    {
        bool cacheable = e->k != E_RCMP;
        if (cacheable) { auto it = tr.find(e); if (it != tr.end() && !hasFP(e)) return *it->second; }
        z3::expr r(*ctx);
        auto B = [&](z3::expr b) { return z3::ite(b, ctx->bv_val(1, 1), ctx->bv_val(0, 1)); };
        switch (e->k) {
        case E_CONST: {
            if (e->w <= 64) r = ctx->bv_val((uint64_t)e->cv, e->w);
            else r = z3::concat(ctx->bv_val((uint64_t)(e->cv >> 64), e->w - 64), ctx->bv_val((uint64_t)e->cv, 64));
            break;
        }
        case E_VAR: r = ctx->bv_const(("x" + std::to_string(e->name)).c_str(), e->w); break;
        case E_FP: r = ctx->bv_const(("f" + std::to_string(e->id)).c_str(), e->w); break;
        case E_ADD: r = t(e->a) + t(e->b); break;
        case E_MUL: r = t(e->a) * t(e->b); break;
        case E_UDIV: r = z3::udiv(t(e->a), t(e->b)); break;
        case E_SDIV: r = t(e->a) / t(e->b); break;
        case E_UREM: r = z3::urem(t(e->a), t(e->b)); break;
        case E_SREM: r = z3::srem(t(e->a), t(e->b)); break;
        case E_AND: r = t(e->a) & t(e->b); break;
        case E_OR: r = t(e->a) | t(e->b); break;
        case E_XOR: r = t(e->a) ^ t(e->b); break;
        case E_SHL: r = z3::shl(t(e->a), t(e->b)); break;
        case E_LSHR: r = z3::lshr(t(e->a), t(e->b)); break;
        case E_ASHR: r = z3::ashr(t(e->a), t(e->b)); break;
        case E_ZEXT: r = z3::zext(t(e->a), e->w - e->a->w); break;
        case E_SEXT: r = z3::sext(t(e->a), e->w - e->a->w); break;
        case E_EXTRACT: r = t(e->a).extract(e->aux + e->w - 1, e->aux); break;
        case E_CONCAT: r = z3::concat(t(e->a), t(e->b)); break;
        case E_ITE: r = z3::ite(tb(e->a), t(e->b), t(e->c)); break;
        default: r = B(tb(e)); break;
        }
        if (cacheable && !hasFP(e)) tr[e] = new z3::expr(r);
        return r;
    }
    std::unordered_map<Expr*, char> fpFlag;
    bool hasFP(Expr* e)
    {
        if (!e) return false;
        if (e->k == E_RCMP) return true;
        if (e->k == E_CONST || e->k == E_VAR || e->k == E_FP) return false;
        auto it = fpFlag.find(e);
        if (it != fpFlag.end()) return it->second;
        bool r = hasFP(e->a) || hasFP(e->b) || hasFP(e->c);
        fpFlag[e] = r;
        return r;
    }
    z3::expr tb(Expr* e)
    { // as boolean
        switch (e->k) {
        case E_CONST: return ctx->bool_val(e->cv != 0);
        case E_EQ: if (e->a->w == 1) return tb(e->a) == tb(e->b); return t(e->a) == t(e->b);
        case E_ULT: return z3::ult(t(e->a), t(e->b));
        case E_ULE: return z3::ule(t(e->a), t(e->b));
        case E_SLT: return z3::slt(t(e->a), t(e->b));
        case E_SLE: return z3::sle(t(e->a), t(e->b));
        case E_AND: return tb(e->a) && tb(e->b);
        case E_OR: return tb(e->a) || tb(e->b);
        case E_XOR: if (isC(e->b)) return e->b->cv ? !tb(e->a) : tb(e->a); return tb(e->a) != tb(e->b);
        case E_ITE: return z3::ite(tb(e->a), tb(e->b), tb(e->c));
        case E_RCMP: {
            z3::expr v = fpVar(e->fp);
            z3::expr c = num(-bitsToD(e->cv, 64));
            double ub, lb;
            if (e->aux != 2 && rc && sosBound(e, ub, lb)) {
                z3::expr lit = e->aux == 0 ? v < c : v <= c, pe = polyExpr(e->fp->p);
                if (std::isfinite(ub)) rc->side.push_back(z3::implies(lit, pe <= num(ub)));
                rc->side.push_back(z3::implies(!lit, pe >= num(lb)));
                return lit;
            }
            return e->aux == 0 ? v < c : e->aux == 1 ? v <= c : v == c;
        }
        default: return t(e) == ctx->bv_val(1, 1);
        }
    }
    // v = sum (L_i + d_i)^2 (1 + rel) + ab:  v <= t implies p = sum L_i^2 <= ub, v > t implies p >= lb
    static bool sosBound(Expr* e, double& ub, double& lb)
    {
        if (!e->fp->sos || e->fp->srel > 0.01) return false;
        double t = -bitsToD(e->cv, 64), n2 = 0;
        for (auto& L : *e->fp->sos) n2 += L.second * L.second;
        double n = std::sqrt(n2) * 1.0001;
        double hi = (t + e->fp->sab) / (1 - e->fp->srel * 1.001), lo = (t - e->fp->sab) / (1 + e->fp->srel * 1.001);
        if (hi < 0) ub = -1;
        else { double r = std::sqrt(hi) + n; ub = r * r * (1 + 1e-12); }
        double r = lo > 0 ? std::sqrt(lo) - n : -1;
        lb = r > 0 ? r * r * (1 - 1e-12) : 0;
        return true;
    }
    void atomSide(z3::solver& s, const std::set<uint32_t>& depAtoms)
    {
        // close over atoms
        std::set<uint32_t> done;
        std::set<uint32_t> doneM;
        for (auto a : depAtoms) rc->atoms.insert(a);
        bool ch = true;
        while (ch) {
            ch = false;
            std::set<uint32_t> cur = rc->atoms;
            for (auto a : cur) {
                if (!done.insert(a).second) continue;
                ch = true;
                Atom A = g_atoms[a];
                if (!rc->linear) {
                    IB b = aB(a); s.add(atomVar(a) >= num(b.lo) && atomVar(a) <= num(b.hi));
                    if (A.hasSq && (A.kind == AK_SIN || A.kind == AK_SQRT)) s.add(atomVar(a) * atomVar(a) == polyExpr(A.sq));
                    if (A.kind == AK_RECIP && A.recip >= 0) s.add(atomVar(a) * atomVar(A.recip) == 1);
                }
                for (auto& d : A.defs) {
                    // in linear mode only use definitions all of whose monomials already occur (keeps queries small)
                    z3::expr p = polyExpr(d.first);
                    s.add(d.second == 2 ? p == 0 : p <= 0);
                }
            }
            if (rc->linear) {
                std::set<uint32_t> ms = rc->monos;
                for (auto m : ms) {
                    if (!doneM.insert(m).second) continue;
                    ch = true;
                    z3::expr v = monoVar(m);
                    IB b = mB(m); s.add(v >= num(b.lo) && v <= num(b.hi));
                }
            }
        }
    }
    void slice(Expr* extra, std::vector<Expr*>& out)
    {
        std::vector<uint32_t> deps;
        if (extra) deps = extra->deps;
        std::vector<char> used(pc.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) {
                if (used[i]) continue;
                bool inter = !extra;
                if (!inter) {
                    auto a = deps.begin(), b = pc[i]->deps.begin();
                    while (a != deps.end() && b != pc[i]->deps.end()) { if (*a < *b) ++a; else if (*b < *a) ++b; else { inter = true; break; } }
                }
                if (inter) { used[i] = 1; out.push_back(pc[i]); mergeDeps(deps, pc[i]->deps); ch = true; }
            }
        }
    }
    static bool evalAll(const std::vector<Expr*>& cs, const Model& m, bool strict)
    {
        Eval ev(m);
        for (auto c : cs) {
            ev.ambiguous = false;
            if (!ev.bv(c)) {
                if (strict || !ev.ambiguous) return false;
                // ambiguity may come from a cached sub-evaluation; be conservative
            }
        }
        return true;
    }
    void fromZ3(z3::model& zm, const std::set<uint32_t>& bvs, const std::set<uint32_t>& atoms, Model& out)
    {
        for (auto v : bvs) {
            z3::expr x = zm.eval(ctx->bv_const(("x" + std::to_string(v)).c_str(), g_vars[v].w), true);
            std::string s = Z3_get_numeral_string(*ctx, x);
            u128 r = 0;
            for (char c : s) if (c >= '0' && c <= '9') r = r * 10 + (c - '0');
            out.bv[v] = r;
        }
        std::map<uint32_t, double> av;
        for (auto a : atoms) {
            z3::expr x = zm.eval(atomVar(a), true);
            double d = 0;
            try {
                std::string s = x.get_decimal_string(17);
                d = atof(s.c_str());
            } catch (z3::exception&) {}
            av[a] = d;
        }
        for (auto& kv : av)
            if (g_atoms[kv.first].kind == AK_INPUT) out.in[kv.first] = kv.second;
        for (auto& b : g_trig) {
            if (!av.count(b.c) && !av.count(b.s)) continue;
            const Mono m = g_monos[b.mono];
            if (m.at.size() != 1 || g_atoms[m.at[0]].kind != AK_INPUT) continue;
            uint32_t a = m.at[0];
            double c = av.count(b.c) ? av[b.c] : 0, s = av.count(b.s) ? av[b.s] : std::sqrt(std::max(0.0, 1 - c * c));
            double th = std::atan2(s, c) / b.scale, per = 2 * M_PI / b.scale;
            double best = th; bool in = false;
            double cur = av.count(a) ? av[a] : th;
            for (int k = -3; k <= 3; k++) {
                double x = th + k * per;
                if (x < g_atoms[a].lo - 1e-9 || x > g_atoms[a].hi + 1e-9) continue;
                if (!in || std::fabs(x - cur) < std::fabs(best - cur)) { best = x; in = true; }
            }
            out.in[a] = std::min(std::max(best, g_atoms[a].lo), g_atoms[a].hi);
        }
    }
    // ---- interval propagation over the real atoms (sound pre-check; also sharpens the linear abstraction and the sampler)
    struct IB { double lo, hi; };
    std::unordered_map<uint32_t, IB> abnd, mbnd;
    IB aB(uint32_t a) { auto it = abnd.find(a); if (it != abnd.end()) return it->second; return { g_atoms[a].lo, g_atoms[a].hi }; }
    static IB imul(IB x, IB y) { double a = x.lo * y.lo, b = x.lo * y.hi, c = x.hi * y.lo, d = x.hi * y.hi; return { std::min(std::min(a, b), std::min(c, d)), std::max(std::max(a, b), std::max(c, d)) }; }
    IB mB(uint32_t m)
    {
        const Mono& M = g_monos[m];
        IB r{ 1, 1 };
        for (size_t i = 0; i < M.at.size();) {
            size_t j = i;
            while (j < M.at.size() && M.at[j] == M.at[i]) j++;
            IB A = aB(M.at[i]), q{ 1, 1 };
            if (((j - i) & 1) == 0) {
                double mx = std::max(std::fabs(A.lo), std::fabs(A.hi)), mn = (A.lo <= 0 && A.hi >= 0) ? 0 : std::min(std::fabs(A.lo), std::fabs(A.hi));
                for (size_t k = i; k < j; k++) { q.lo *= mn; q.hi *= mx; }
            } else for (size_t k = i; k < j; k++) q = imul(q, A);
            r = imul(r, q);
            i = j;
        }
        auto it = mbnd.find(m);
        if (it != mbnd.end()) { r.lo = std::max(r.lo, it->second.lo); r.hi = std::min(r.hi, it->second.hi); }
        r.lo = std::max(r.lo, M.lo); r.hi = std::min(r.hi, M.hi);
        return r;
    }
    void lits(Expr* c, bool pos, std::vector<std::pair<Expr*, bool>>& out)
    {
        if (c->k == E_XOR && c->w == 1 && isC(c->b)) { lits(c->a, c->b->cv ? !pos : pos, out); return; }
        if (c->w == 1 && c->k == E_AND && pos) { lits(c->a, pos, out); lits(c->b, pos, out); return; }
        if (c->w == 1 && c->k == E_OR && !pos) { lits(c->a, pos, out); lits(c->b, pos, out); return; }
        if (c->k == E_RCMP) out.push_back({ c, pos });
    }
    bool tightA(uint32_t a, double lo, double hi, bool& ch, bool& bad)
    {
        IB b = aB(a);
        double sl = 1e-12 * (1 + std::fabs(lo) * 0 + std::fabs(b.hi - b.lo) * 0) * 1e-3;
        lo -= std::fabs(lo) * 1e-12 + sl * 1e-3; hi += std::fabs(hi) * 1e-12 + sl * 1e-3;
        double nl = std::max(b.lo, lo), nh = std::min(b.hi, hi);
        if (nl > nh) { bad = true; return false; }
        double w = b.hi - b.lo;
        if (nl > b.lo + 0.01 * w || nh < b.hi - 0.01 * w || ((nh < 0.5 * b.hi || nl > 0.5 * b.lo) && (nh - nl) < 0.95 * w)) { abnd[a] = { nl, nh }; ch = true; }
        return true;
    }
    struct Tight { Poly L; double d; };
    std::vector<Tight> tight, sosSide;
    typedef std::map<std::pair<uint32_t, uint32_t>, Poly> Subst; // eliminated atom (a, NOA) or product of two atoms (a, b) -> polynomial
    static constexpr uint32_t NOA = 0xffffffffu;
    Subst subst;
    std::vector<uint32_t> pool;
    static Poly substPoly(const Poly& p, const Subst& sb, double& err)
    {
        Poly r;
        for (auto& t : p.t) {
            const std::vector<uint32_t> at = g_monos[t.first].at;
            std::vector<const Poly*> rep;
            std::vector<uint32_t> rest;
            std::vector<char> used(at.size(), 0);
            for (size_t i = 0; i < at.size(); i++) {
                if (used[i]) continue;
                auto i1 = sb.find({ at[i], NOA });
                if (i1 != sb.end()) { rep.push_back(&i1->second); used[i] = 1; continue; }
                for (size_t j = i + 1; j < at.size() && !used[i]; j++) {
                    if (used[j]) continue;
                    auto i2 = sb.find({ at[i], at[j] });
                    if (i2 != sb.end()) { rep.push_back(&i2->second); used[i] = used[j] = 1; }
                }
                if (!used[i]) rest.push_back(at[i]);
            }
            Poly q;
            if (rep.empty()) { q.t.push_back(t); r = pAdd(r, q, 1, err); continue; }
            q = rest.empty() ? pConst(t.second) : pMono(monoOf(rest), t.second);
            for (auto x : rep) q = pMul(q, *x, err);
            r = pAdd(r, q, 1, err);
        }
        return r;
    }
    void eliminate()
    {
        subst.clear();
        std::sort(tight.begin(), tight.end(), [](const Tight& a, const Tight& b) { return a.d < b.d; });
        size_t np = 0;
        for (auto& t : tight) {
            if (np >= 24) break;
            double e = 0;
            Poly L = substPoly(t.L, subst, e);
            if (L.t.size() > 40) continue;
            // pick the atom (or product of two atoms) with the largest coefficient which occurs nowhere else in L
            std::pair<uint32_t, uint32_t> x; bool have = false; double k = 0;
            for (auto& q : L.t) {
                if (q.first == 0) continue;
                const std::vector<uint32_t> at = g_monos[q.first].at;
                if (at.size() > 2) continue;
                std::pair<uint32_t, uint32_t> key{ at[0], at.size() == 2 ? at[1] : NOA };
                bool bad = false;
                for (auto a : at) {
                    if (g_atoms[a].kind == AK_RECIP || g_atoms[a].recip >= 0 || std::find(pool.begin(), pool.end(), a) != pool.end()) bad = true;
                    if (at.size() == 1) for (auto& sb : subst) if (sb.first.first == a || sb.first.second == a) bad = true;
                    for (auto& z : L.t) if (z.first != q.first) for (auto b : g_monos[z.first].at) if (b == a) bad = true;
                }
                if (bad || subst.count(key)) continue;
                if (std::fabs(q.second) > std::fabs(k)) { k = q.second; x = key; have = true; }
            }
            if (!have || std::fabs(k) < 0.05 || e > 1e-9) continue;
            if (np >= pool.size()) pool.push_back(newAtom("delta", -0.25, 0.25, AK_INPUT));
            uint32_t d = pool[np++];
            abnd[d] = { -t.d - e, t.d + e };
            Poly rest;
            uint32_t km = x.second == NOA ? monoOf({ x.first }) : monoOf({ x.first, x.second });
            for (auto& z : L.t) if (z.first != km) rest.t.push_back(z);
            Poly ex = pScale(pAdd(pMono(monoOf({ d })), rest, -1, e), 1 / k, e);
            Subst one{ { x, ex } };
            for (auto& s : subst) s.second = substPoly(s.second, one, e);
            subst[x] = ex;
        }
    }
    bool refuted(Expr* c, bool pos)
    {
        if (c->k == E_XOR && c->w == 1 && isC(c->b)) return refuted(c->a, c->b->cv ? !pos : pos);
        if (c->w == 1 && (c->k == E_OR || c->k == E_AND)) {
            bool all = (c->k == E_OR) == pos;
            return all ? refuted(c->a, pos) && refuted(c->b, pos) : refuted(c->a, pos) || refuted(c->b, pos);
        }
        if (c->k != E_RCMP) return false;
        if (c->fp->p.t.size() > 400) return false;
        double e = c->fp->err, cst = bitsToD(c->cv, 64), lo = 0, hi = 0, mag = std::fabs(cst);
        Poly p = subst.empty() ? c->fp->p : substPoly(c->fp->p, subst, e);
        for (auto& t : p.t) {
            IB m = mB(t.first);
            double a = t.second * m.lo, b = t.second * m.hi;
            lo += std::min(a, b); hi += std::max(a, b); mag += std::max(std::fabs(a), std::fabs(b));
        }
        e = e * 1.000001 + mag * 1e-14;
        if (pos) {
            if (c->aux == 2) return lo - e + cst > 0 || hi + e + cst < 0;
            return lo - e + cst > 0;
        }
        if (c->aux == 2) return false;
        return hi + e + cst < 0;
    }
    void quadPin(const Poly& P, double pub)
    {
        double A = 0, B = 0, C = 0;
        int64_t ca = -1;
        for (auto& t : P.t) {
            if (t.first == 0) { A = t.second; continue; }
            const auto at = g_monos[t.first].at;
            if (at.size() != 2) return;
            for (auto a : at) {
                if (g_atoms[a].kind != AK_COS && g_atoms[a].kind != AK_SIN) return;
                int64_t c = g_atoms[a].kind == AK_COS ? (int64_t)a : (int64_t)g_atoms[a].buddy;
                if (c < 0 || (ca >= 0 && c != ca)) return;
                ca = c;
            }
            if (at[0] == at[1]) { if (g_atoms[at[0]].kind != AK_COS) return; B = t.second; } else C = t.second;
        }
        if (ca < 0 || C == 0) return;
        int64_t sa = g_atoms[ca].buddy;
        if (sa < 0 || !g_atoms[sa].hasSq) return;
        double mean = A + B / 2, R = std::sqrt(B * B + C * C) / 2;
        double t2 = (pub - (mean - R) + 1e-12 * (std::fabs(A) + R)) / (2 * R);
        if (!(t2 >= 0) || t2 > 0.01) return;
        double d = std::sqrt(t2) * (1 + 1e-9) + 1e-13;
        // eigenvector of the larger eigenvalue of [[A+B, C/2], [C/2, A]]
        double ph = std::atan2(C, B) / 2, w1 = std::cos(ph), w2 = std::sin(ph);
        double dd = std::fabs(w1 * w1 - w2 * w2), pr = 2 * std::fabs(w1 * w2);
        double e = 0;
        std::vector<Tight> ts;
        ts.push_back({ pAdd(pMono(monoOf({ (uint32_t)ca, (uint32_t)ca })), pConst(w2 * w2), -1, e), (pr * d + dd * d * d) * (1 + 1e-9) + 1e-12 });
        std::vector<uint32_t> cs{ (uint32_t)ca, (uint32_t)sa };
        std::sort(cs.begin(), cs.end());
        ts.push_back({ pAdd(pMono(monoOf(cs)), pConst(w1 * w2), 1, e), (dd * d + pr * d * d) * (1 + 1e-9) + 1e-12 });
        for (auto& t : ts) { tight.push_back(t); sosSide.push_back(t); }
        e = 0;
        sosSide.push_back({ pAdd(pScale(pMono(monoOf({ (uint32_t)ca })), w1, e), pScale(pMono(monoOf({ (uint32_t)sa })), w2, e), 1, e), d + 1e-12 });
    }
    // returns false when the constraints are contradictory
    bool propagate(const std::vector<Expr*>& cs)
    {
        abnd.clear(); mbnd.clear(); tight.clear(); sosSide.clear(); subst.clear();
        if (!propagate1(cs)) return false;
        try {
            if (!tight.empty()) eliminate();
            if (!cs.empty() && refuted(cs.back(), true)) return false;
        } catch (FPUnsupported&) { }
        return true;
    }
    bool propagate1(const std::vector<Expr*>& cs)
    {
        std::vector<std::pair<Expr*, bool>> ls;
        for (auto c : cs) lits(c, true, ls);
        if (ls.empty()) return true;
        struct Lin { const Poly* p; double ub, lb; };
        std::vector<Lin> lins;
        for (auto& l : ls) {
            Expr* e = l.first;
            if (!(e->aux == 2 || l.second) || !e->fp->sos) continue;
            if (e->fp->srel > 0.01) continue;
            double ub = (-bitsToD(e->cv, 64) + e->fp->sab) / (1 - e->fp->srel * 1.001) * (1 + 1e-12);
            if (ub < 0) return false;
            double d0 = std::sqrt(ub) * (1 + 1e-12);
            double pub, plb;
            if (sosBound(e, pub, plb)) {
                if (pub < 0) return false;
                lins.push_back({ &e->fp->p, pub, 0 });
                // p == k (1 - c^2) == k s^2
                const Poly& P = e->fp->p;
                if (P.t.size() == 2 && P.t[0].first == 0 && std::fabs(P.t[0].second + P.t[1].second) <= 1e-12 * std::fabs(P.t[0].second) && P.t[0].second > 0) {
                    const auto at = g_monos[P.t[1].first].at;
                    if (at.size() == 2 && at[0] == at[1] && g_atoms[at[0]].kind == AK_COS && g_atoms[at[0]].buddy >= 0 && g_atoms[g_atoms[at[0]].buddy].hasSq) {
                        double d = std::sqrt(pub / P.t[0].second * (1 + 1e-11) + 2e-12);
                        if (d < 0.2) { tight.push_back({ pMono(monoOf({ (uint32_t)g_atoms[at[0]].buddy })), d }); sosSide.push_back(tight.back()); }
                    }
                }
                // p == A + B c^2 + C c s: a quadratic form on the unit circle; near its minimum (c, s) is pinned up to sign
                quadPin(P, pub);
                if (P.t.size() == 1) {
                    const auto at = g_monos[P.t[0].first].at;
                    if (at.size() == 2 && at[0] == at[1] && P.t[0].second > 0) { double d = std::sqrt(pub / P.t[0].second) * (1 + 1e-12); if (d < 0.2) tight.push_back({ pMono(monoOf({ at[0] })), d }); }
                }
            }
            for (auto& Le : *e->fp->sos) {
                double d = d0 + Le.second * 1.001;
                const Poly& L = Le.first;
                if (d < 0.5) sosSide.push_back({ L, d });
                lins.push_back({ &L, d, -d });
                if (d < 0.2) tight.push_back({ L, d });
            }
        }
        for (int round = 0; round < 8; round++) {
            bool ch = false, bad = false;
            for (size_t li = 0; li < ls.size() + lins.size(); li++) {
                auto l = li < ls.size() ? ls[li] : ls[0];
                Expr* e = l.first;
                const Poly& p = li < ls.size() ? e->fp->p : *lins[li - ls.size()].p;
                double er = e->fp->err * 1.0000001, c = bitsToD(e->cv, 64);
                double ub = INFINITY, lb = -INFINITY;
                if (li >= ls.size()) { ub = lins[li - ls.size()].ub; lb = lins[li - ls.size()].lb; c = 0; er = ub; }
                else if (e->aux == 2) { if (!l.second) continue; ub = -c + er; lb = -c - er; }
                else if (l.second) ub = -c + er; else lb = -c - er;
                if (li < ls.size() && e->fp->nn && std::isfinite(e->fp->rel) && e->fp->rel < 0.01) {
                    double pu, pl;
                    if (e->aux != 2 && sosBound(e, pu, pl)) { if (l.second) ub = std::min(ub, pu); else lb = std::max(lb, pl); }
                    double R = e->fp->rel * 1.000001, ab = e->fp->ab * 1.000001;
                    if (e->aux == 2 || l.second) ub = std::min(ub, (-c + ab) / (1 - R) + 1e-12 * std::fabs(c));
                    if (e->aux == 2 || !l.second) lb = std::max(lb, (-c - ab) / (1 + R) - 1e-12 * std::fabs(c));
                    lb = std::max(lb, 0.0);
                }
                std::vector<IB> tb(p.t.size());
                double sl = 0, sh = 0, mag = std::fabs(c) + er;
                for (size_t i = 0; i < p.t.size(); i++) {
                    IB m = mB(p.t[i].first);
                    double a = p.t[i].second * m.lo, b = p.t[i].second * m.hi;
                    tb[i] = { std::min(a, b), std::max(a, b) };
                    sl += tb[i].lo; sh += tb[i].hi; mag += std::max(std::fabs(a), std::fabs(b));
                }
                double sk = mag * 1e-14;
                if (sl > ub + sk || sh < lb - sk) return false;
                for (size_t i = 0; i < p.t.size(); i++) {
                    if (p.t[i].first == 0) continue;
                    double k = p.t[i].second;
                    double th = ub - (sl - tb[i].lo) + sk, tl = lb - (sh - tb[i].hi) - sk; // bounds on the term
                    if (th >= tb[i].hi && tl <= tb[i].lo) continue;
                    th = std::min(th, tb[i].hi + sk); tl = std::max(tl, tb[i].lo - sk);
                    double ml = k > 0 ? tl / k : th / k, mh = k > 0 ? th / k : tl / k;
                    uint32_t m = p.t[i].first;
                    const Mono M = g_monos[m];
                    IB old = mB(m);
                    if (ml > old.lo || mh < old.hi) {
                        IB n{ std::max(old.lo, ml), std::min(old.hi, mh) };
                        if (n.lo > n.hi + 1e-12 * (std::fabs(n.lo) + std::fabs(n.hi))) return false;
                        if (n.lo > n.hi) std::swap(n.lo, n.hi);
                        if (n.hi - n.lo < 0.97 * (old.hi - old.lo)) ch = true;
                        mbnd[m] = n;
                    }
                    if (M.at.size() == 1) tightA(M.at[0], ml, mh, ch, bad);
                    else if (M.at.size() == 2 && M.at[0] == M.at[1]) {
                        if (mh < 0) return false;
                        double r = std::sqrt(std::max(0.0, mh));
                        tightA(M.at[0], -r, r, ch, bad);
                        if (ml > 0) {
                            double q = std::sqrt(ml);
                            IB A = aB(M.at[0]);
                            if (A.lo > -q) tightA(M.at[0], q, A.hi, ch, bad);
                            else if (A.hi < q) tightA(M.at[0], A.lo, -q, ch, bad);
                        }
                    }
                    if (bad) return false;
                }
            }
            if (!ch) break;
        }
        return true;
    }
    // Is pc && extra satisfiable?  On S_SAT fills *out (complete model for the slice, rest from current model).
    SRes check(Expr* extra, Model* out, bool wantModel = true)
    {
        if (extra && isC(extra)) { if (!extra->cv) return S_UNSAT; if (out) *out = model; return S_SAT; }
        init();
        u64 t0 = nowUs();
        std::vector<Expr*> cs;
        slice(extra, cs);
        if (extra) cs.push_back(extra);
        SRes r = S_UNK;
        try { r = check2(cs, out, wantModel); } catch (z3::exception& ex) { r = S_UNK; if (getenv("QSE_DEBUG")) fprintf(stderr, "z3: %s\n", ex.msg()); }
        u64 dt = nowUs() - t0;
        __sync_fetch_and_add(&g_st->solverUs, dt);
        __sync_fetch_and_add(&g_st->queries, 1);
        __sync_fetch_and_add(r == S_UNSAT ? &g_st->qUnsat : r == S_SAT ? &g_st->qSat : &g_st->qUnk, 1);
        if (getenv("QSE_SLOWQ") && dt > 500000) { fprintf(stderr, "slow query %.2fs res=%d cs=%zu\n", dt / 1e6, r, cs.size()); if (atoi(getenv("QSE_SLOWQ")) > 1) for (auto c : cs) fprintf(stderr, "   %s\n", show(c).c_str()); }
        return r;
    }
    bool deciding = false;
    SRes check2(std::vector<Expr*>& cs, Model* out, bool wantModel)
    {
        std::set<uint32_t> bvs, ats;
        bool fp = false;
        for (auto c : cs) {
            for (auto d : c->deps) if (d & 1) ats.insert(d >> 1); else bvs.insert(d >> 1);
            if (hasFP(c)) fp = true;
        }
        if (!fp) {
            __sync_fetch_and_add(&g_st->bvq, 1);
            if (bvs.size() <= 4) { // tiny domain: decide by complete evaluation
                unsigned tot = 0;
                std::vector<std::pair<uint32_t, unsigned>> vs;
                for (auto b : bvs) { unsigned w = (unsigned)g_vars[b].w; tot += w; vs.push_back({ b, w }); }
                if (tot <= 8 && !deciding) { // feasibility of a branch over a tiny domain: complete evaluation (proof obligations always go to z3)
                    Model m = model;
                    for (uint32_t k = 0; k < (1u << tot); k++) {
                        unsigned sh = 0;
                        for (auto& p : vs) { m.bv[p.first] = (k >> sh) & ((1u << p.second) - 1); sh += p.second; }
                        if (evalAll(cs, m, true)) { if (out) *out = m; return S_SAT; }
                    }
                    return S_UNSAT;
                }
            }
            z3::solver s(*ctx, "QF_BV");
            z3::params p(*ctx);
            p.set("rlimit", rlimBV);
            s.set(p);
            for (auto c : cs) s.add(tb(c));
            z3::check_result q = s.check();
            if (q == z3::unsat) return S_UNSAT;
            if (q == z3::unknown) return S_UNK;
            if (out) { Model m = model; z3::model zm = s.get_model(); std::set<uint32_t> none; fromZ3(zm, bvs, none, m); *out = m; }
            return S_SAT;
        }
        // 0. intervals
        if (!propagate(cs)) { __sync_fetch_and_add(&g_st->lraUnsat, 1); return S_UNSAT; }
        // 1. linear abstraction (sound for UNSAT)
        {
            RCtx c; c.linear = true; rc = &c;
            z3::solver s = bvs.empty() ? z3::solver(*ctx, "QF_LRA") : z3::solver(*ctx);
            z3::params p(*ctx);
            p.set("rlimit", rlimBV);
            s.set(p);
            for (auto x : cs) s.add(tb(x));
            for (auto& x : sosSide) { z3::expr l = polyExpr(x.L), d = num(x.d * (1 + 1e-9)); s.add(l <= d); s.add(l >= -d); }
            for (auto& x : c.side) s.add(x);
            std::set<uint32_t> none;
            atomSide(s, none);
            z3::check_result q = s.check();
            rc = nullptr;
            if (q == z3::unsat) { __sync_fetch_and_add(&g_st->lraUnsat, 1); return S_UNSAT; }
        }
        // 2. look for a concrete witness by directed sampling of the inputs (only ever used for SAT answers)
        {
            std::set<uint32_t> ins, bins = bvs;
            for (auto a : ats) if (g_atoms[a].kind == AK_INPUT) ins.insert(a);
            Model m = model;
            int N = 400;
            std::vector<uint32_t> last; // inputs of the newest constraint
            if (!cs.empty()) for (auto d : cs.back()->deps) if ((d & 1) && g_atoms[d >> 1].kind == AK_INPUT) last.push_back(d >> 1);
            std::set<uint32_t> angles;
            for (auto& tb_ : g_trig) for (auto a : g_monos[tb_.mono].at) angles.insert(a);
            auto pick = [&](uint32_t a) {
                IB A = aB(a);
                double v, z = rnd();
                if (angles.count(a) && z < 0.6) { double k = std::floor((rnd() * 2 - 1) * (z < 0.4 ? 5 : 9)); v = k * (z < 0.4 ? M_PI_2 : M_PI_4); if (z < 0.15) v = 0; }
                else if (z < 0.12) v = A.lo; else if (z < 0.24) v = A.hi; else if (z < 0.34) v = 0.0;
                else if (z < 0.5) v = (model.in.count(a) ? model.in[a] : (A.lo + A.hi) / 2) + (rnd() - 0.5) * (A.hi - A.lo) * 0.1;
                else v = A.lo + rnd() * (A.hi - A.lo);
                return std::min(A.hi, std::max(A.lo, v));
            };
            for (int i = 0; i < N; i++) {
                if (i > 0) {
                    double st = rnd();
                    if (st < 0.6 && !last.empty()) { // change a few inputs of the newest constraint
                        m.in = model.in;
                        int k = 1 + (int)(rnd() * std::min<size_t>(4, last.size()));
                        for (int j = 0; j < k; j++) { uint32_t a = last[(size_t)(rnd() * last.size()) % last.size()]; m.in[a] = pick(a); }
                    } else
                        for (auto a : ins) { if (st < 0.8 && rnd() < 0.5) m.in[a] = model.in.count(a) ? model.in[a] : (aB(a).lo + aB(a).hi) / 2; else m.in[a] = pick(a); }
                    if (i % 3) for (auto b : bins) if (rnd() < 0.5) m.bv[b] = ((u128)(u64)(rnd() * 1.8e19)) & maskW(g_vars[b].w);
                        else if (model.bv.count(b)) m.bv[b] = model.bv[b];
                }
                if (evalAll(cs, m, true)) { __sync_fetch_and_add(&g_st->sampled, 1); if (out) *out = m; return S_SAT; }
            }
        }
        // 3. nonlinear real arithmetic, in a child process so that the time limit is hard
        {
            __sync_fetch_and_add(&g_st->nraq, 1);
            if (getenv("QSE_NRADBG")) { u64 tq = nowUs(); (void)tq; for (auto x : cs) fprintf(stderr, "  NRA %s\n", show(x).substr(0, 600).c_str()); fprintf(stderr, "  ---\n"); }
            int pf[2];
            if (pipe(pf)) return S_UNK;
            pid_t pid = fork();
            if (pid < 0) { close(pf[0]); close(pf[1]); return S_UNK; }
            if (pid == 0) {
                close(pf[0]);
                signal(SIGALRM, SIG_DFL);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                itimerval tv{}; tv.it_value.tv_sec = (int)nraSecs; tv.it_value.tv_usec = (int)((nraSecs - (int)nraSecs) * 1e6);
                setitimer(ITIMER_REAL, &tv, nullptr);
                std::string o(1, 'U');
                try {
                    RCtx c; c.linear = false; rc = &c;
                    z3::solver s = bvs.empty() ? z3::solver(*ctx, "QF_NRA") : z3::solver(*ctx);
                    for (auto x : cs) s.add(tb(x));
                    for (auto& x : sosSide) { z3::expr l = polyExpr(x.L), d = num(x.d * (1 + 1e-9)); s.add(l <= d); s.add(l >= -d); }
                    for (auto& x : c.side) s.add(x);
                    std::set<uint32_t> none;
                    atomSide(s, none);
                    z3::check_result q = s.check();
                    if (q == z3::unsat) o = "N";
                    else if (q == z3::sat) {
                        Model m;
                        z3::model zm = s.get_model();
                        std::set<uint32_t> as = c.atoms;
                        fromZ3(zm, bvs, as, m);
                        o = "S";
                        auto put = [&](const void* d, size_t n) { o.append((const char*)d, n); };
                        uint32_t n = m.bv.size(); put(&n, 4);
                        for (auto& kv : m.bv) { put(&kv.first, 4); put(&kv.second, 16); }
                        n = m.in.size(); put(&n, 4);
                        for (auto& kv : m.in) { put(&kv.first, 4); put(&kv.second, 8); }
                    }
                } catch (...) { o = "U"; }
                size_t w = 0;
                while (w < o.size()) { ssize_t k = write(pf[1], o.data() + w, o.size() - w); if (k <= 0) break; w += k; }
                _exit(0);
            }
            close(pf[1]);
            std::string in;
            char buf[4096];
            for (;;) { ssize_t k = read(pf[0], buf, sizeof buf); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; in.append(buf, k); }
            close(pf[0]);
            int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
            if (!in.empty() && in[0] == 'N') return S_UNSAT;
            if (!in.empty() && in[0] == 'S') {
                Model m = model;
                size_t o = 1;
                uint32_t n; memcpy(&n, &in[o], 4); o += 4;
                for (uint32_t i = 0; i < n; i++) { uint32_t k; u128 v; memcpy(&k, &in[o], 4); memcpy(&v, &in[o + 4], 16); o += 20; m.bv[k] = v; }
                memcpy(&n, &in[o], 4); o += 4;
                for (uint32_t i = 0; i < n; i++) { uint32_t k; double v; memcpy(&k, &in[o], 4); memcpy(&v, &in[o + 4], 8); o += 12; m.in[k] = v; }
                if (out) *out = m;
                return S_SAT;
            }
        }
        return S_UNK;
    }
};
