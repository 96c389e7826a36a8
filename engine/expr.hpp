// qse: symbolic expressions.  Bit-vectors (hash-consed, simplified) and floating point values, which are
// represented as real polynomials over atoms together with a sound bound on the accumulated rounding error.
#pragma once
#include <memory>
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextW(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskW(w);
    return (i128)((v ^ s) - s);
}

enum EK : uint8_t {
    E_CONST, E_VAR, E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
    E_RCMP, // real comparison: aux 0: v<0  1: v<=0  2: v==0   (v = poly + e, |e|<=err, e shared per node group)
    E_FP    // opaque: bits of a floating point value of width w
};

struct FPVal;
struct Expr {
    EK k;
    uint16_t w, aux;
    uint32_t id, name;
    u128 cv, kz; // constant / known-zero bits
    Expr *a, *b, *c;
    FPVal* fp;
    std::vector<uint32_t> deps; // sorted ids: BV var v -> 2v, atom a -> 2a+1
};

struct Poly {
    std::vector<std::pair<uint32_t, double>> t; // (monomial id, coef) sorted by id; monomial 0 is 1
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    double cst() const { return t.empty() ? 0.0 : (t[0].first == 0 ? t[0].second : 0.0); }
    bool operator==(const Poly& o) const { return t == o.t; }
};
struct Mono {
    std::vector<uint32_t> at; // sorted atoms with repetition
    double lo, hi;
};
enum AtomKind { AK_INPUT, AK_COS, AK_SIN, AK_SQRT, AK_RECIP, AK_MISC };
struct Atom {
    std::string name;
    double lo, hi;
    AtomKind kind;
    int inWidth = 0;             // input width
    bool hasSq = false;          // atom^2 == sq
    Poly sq;
    int recipOf = -1, recip = -1; // cancellation with an other atom
    std::vector<std::pair<Poly, int>> defs; // poly==0 (op 2) or poly<=0 (op 1)
    std::vector<uint32_t> deps;
    // trigonometric base: of polynomial `arg`
    Poly arg;
    double scale = 1;
    int buddy = -1;
};
struct FPVal {
    Poly p;
    double err;
    int w;
    double lo, hi; // enclosure of p
    Expr* e;
    double rel = INFINITY, ab = 0; // |v - p| <= rel * |p| + ab when rel is finite
    bool nn = false;               // p >= 0
    // value = (sum of (L_i + d_i)^2, |d_i| <= e_i) up to srel relative and sab absolute error
    std::shared_ptr<std::vector<std::pair<Poly, double>>> sos;
    double srel = 0, sab = 0;
};

struct VarInfo { std::string name; int w; };

static std::vector<VarInfo> g_vars;
static std::vector<Atom> g_atoms;
static std::vector<Mono> g_monos;
static uint32_t g_nextId = 1;

struct EHash {
    size_t operator()(const Expr* e) const
    {
        u64 h = e->k * 0x9E3779B97F4A7C15ull ^ ((u64)e->w << 17) ^ ((u64)e->aux << 33) ^ e->name;
        auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix((u64)e->cv); mix((u64)(e->cv >> 64)); mix((u64)e->a); mix((u64)e->b); mix((u64)e->c); mix((u64)e->fp);
        return h;
    }
};
struct EEq {
    bool operator()(const Expr* x, const Expr* y) const
    {
        return x->k == y->k && x->w == y->w && x->aux == y->aux && x->cv == y->cv && x->a == y->a && x->b == y->b &&
            x->c == y->c && x->fp == y->fp && x->name == y->name;
    }
};
static std::unordered_set<Expr*, EHash, EEq> g_exprs;

static void mergeDeps(std::vector<uint32_t>& o, const std::vector<uint32_t>& x)
{
    if (x.empty()) return;
    if (o.empty()) { o = x; return; }
    if (o == x) return;
    std::vector<uint32_t> r;
    r.reserve(o.size() + x.size());
    std::set_union(o.begin(), o.end(), x.begin(), x.end(), std::back_inserter(r));
    o.swap(r);
}

static std::vector<uint32_t> polyDeps(const Poly& p);

static Expr* intern(Expr& t)
{
    auto it = g_exprs.find(&t);
    if (it != g_exprs.end()) return *it;
    Expr* e = new Expr(t);
    e->id = g_nextId++;
    if (e->a) mergeDeps(e->deps, e->a->deps);
    if (e->b) mergeDeps(e->deps, e->b->deps);
    if (e->c) mergeDeps(e->deps, e->c->deps);
    if (e->k == E_VAR) e->deps.push_back(e->name * 2);
    if (e->fp) mergeDeps(e->deps, polyDeps(e->fp->p));
    // known zero bits
    u128 m = maskW(e->w);
    switch (e->k) {
    case E_CONST: e->kz = ~e->cv & m; break;
    case E_AND: e->kz = e->a->kz | e->b->kz; break;
    case E_OR: case E_XOR: e->kz = e->a->kz & e->b->kz; break;
    case E_ZEXT: e->kz = e->a->kz | (m & ~maskW(e->a->w)); break;
    case E_SHL: if (e->b->k == E_CONST && e->b->cv < e->w) e->kz = ((e->a->kz << (unsigned)e->b->cv) | maskW((unsigned)e->b->cv)) & m; break;
    case E_LSHR: if (e->b->k == E_CONST && e->b->cv < e->w) e->kz = ((e->a->kz >> (unsigned)e->b->cv) | (m & ~(m >> (unsigned)e->b->cv))) & m; break;
    case E_UREM: { // smaller than the divisor (which the executor has checked to be nonzero)
        unsigned l = 0;
        while (l < e->w && ((e->b->kz >> (e->w - 1 - l)) & 1)) l++;
        if (l) e->kz = m & ~maskW(e->w - l);
        break;
    }
    case E_UDIV: { // (r * 2^64 + x) / h < 2^64 when r is a remainder modulo h
        Expr* n = e->a;
        if (e->w == 128 && n->k == E_CONCAT && n->b->w == 64 && n->a->k == E_EXTRACT && n->a->aux == 0 && n->a->a->k == E_UREM && n->a->a->b == e->b)
            e->kz = m & ~maskW(64);
        break;
    }
    case E_CONCAT: e->kz = (e->a->kz << e->b->w) | e->b->kz; break;
    case E_EXTRACT: e->kz = (e->a->kz >> e->aux) & m; break;
    case E_ITE: e->kz = e->b->kz & e->c->kz; break;
    case E_ADD: {
        // leading zeros
        unsigned la = 0, lb = 0;
        while (la < e->w && ((e->a->kz >> (e->w - 1 - la)) & 1)) la++;
        while (lb < e->w && ((e->b->kz >> (e->w - 1 - lb)) & 1)) lb++;
        unsigned l = std::min(la, lb);
        if (l > 1) e->kz = m & ~maskW(e->w - (l - 1));
        unsigned ta = 0, tb = 0;
        while (ta < e->w && ((e->a->kz >> ta) & 1)) ta++;
        while (tb < e->w && ((e->b->kz >> tb) & 1)) tb++;
        e->kz |= maskW(std::min(ta, tb)) & m;
        if (std::min(ta, tb) == 0) e->kz &= ~(u128)0;
        break;
    }
    default: break;
    }
    g_exprs.insert(e);
    return e;
}

static Expr* mkConst(u128 v, unsigned w)
{
    Expr t{}; t.k = E_CONST; t.w = w; t.cv = v & maskW(w);
    return intern(t);
}
static Expr* mkBool(bool b) { return mkConst(b, 1); }
static Expr* mkVar(const std::string& n, unsigned w)
{
    Expr t{}; t.k = E_VAR; t.w = w; t.name = g_vars.size();
    g_vars.push_back({ n, (int)w });
    return intern(t);
}
static bool isC(Expr* e) { return e->k == E_CONST; }

static Expr* mkExtract(Expr* a, unsigned off, unsigned w);
static Expr* mkBin(EK k, Expr* a, Expr* b);
static Expr* mkIte(Expr* c, Expr* a, Expr* b);
static Expr* mkNot(Expr* a) { return mkBin(E_XOR, a, mkConst(~(u128)0, a->w)); }
static Expr* mkAnd(Expr* a, Expr* b) { return mkBin(E_AND, a, b); }
static Expr* mkOr(Expr* a, Expr* b) { return mkBin(E_OR, a, b); }
static Expr* mkNeg(Expr* a) { return mkBin(E_ADD, mkNot(a), mkConst(1, a->w)); }

static Expr* raw(EK k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, unsigned aux = 0)
{
    Expr t{}; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.aux = aux;
    return intern(t);
}

static Expr* mkZext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkConst(a->cv, w);
    if (a->k == E_ZEXT) return mkZext(a->a, w);
    return raw(E_ZEXT, w, a);
}
static Expr* mkSext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkConst((u128)sextW(a->cv, a->w), w);
    if ((a->kz >> (a->w - 1)) & 1) return mkZext(a, w);
    return raw(E_SEXT, w, a);
}
static Expr* mkConcat(Expr* hi, Expr* lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst((hi->cv << lo->w) | lo->cv, w);
    if (isC(hi) && hi->cv == 0 && lo->k != E_FP && lo->k != E_CONCAT) return mkZext(lo, w);
    if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w)
        return mkExtract(hi->a, lo->aux, w);
    // concat(hi, concat(x,y)) with hi,x adjacent extracts
    if (lo->k == E_CONCAT && hi->k == E_EXTRACT && lo->a->k == E_EXTRACT && lo->a->a == hi->a && hi->aux == lo->a->aux + lo->a->w)
        return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
    return raw(E_CONCAT, w, hi, lo);
}
static Expr* mkExtract(Expr* a, unsigned off, unsigned w)
{
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(a->cv >> off, w);
    switch (a->k) {
    case E_EXTRACT: return mkExtract(a->a, off + a->aux, w);
    case E_CONCAT:
        if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
        if (off + w <= a->b->w) return mkExtract(a->b, off, w);
        return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
    case E_ZEXT:
        if (off >= a->a->w) return mkConst(0, w);
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off == 0) return mkZext(a->a, w);
        return mkZext(mkExtract(a->a, off, a->a->w - off), w);
    case E_SEXT:
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off == 0) return mkSext(a->a, w);
        break;
    case E_AND: case E_OR: case E_XOR:
        return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case E_ADD: case E_MUL:
        if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case E_SHL:
        if (isC(a->b)) {
            unsigned s = (unsigned)a->b->cv;
            if (off >= s) { if (off + w - s <= a->w) return mkExtract(a->a, off - s, w); }
            else if (off + w <= s) return mkConst(0, w);
            else return mkConcat(mkExtract(a->a, 0, off + w - s), mkConst(0, s - off));
        }
        break;
    case E_LSHR:
        if (isC(a->b)) {
            unsigned s = (unsigned)a->b->cv;
            if (off + s + w <= a->w) return mkExtract(a->a, off + s, w);
            if (off + s >= a->w) return mkConst(0, w);
            return mkZext(mkExtract(a->a, off + s, a->w - off - s), w);
        }
        break;
    case E_ITE:
        if (isC(a->b) || isC(a->c) || a->b->k == E_FP) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
        break;
    default: break;
    }
    u128 m = maskW(w);
    if (((a->kz >> off) & m) == m) return mkConst(0, w);
    return raw(E_EXTRACT, w, a, nullptr, nullptr, off);
}
static Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
    if (isC(c)) return c->cv ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->cv ? c : mkNot(c);
        if (isC(a)) return a->cv ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b)) return b->cv ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (c->k == E_XOR && isC(c->b)) return mkIte(c->a, b, a); // not
    return raw(E_ITE, a->w, c, a, b);
}
static u128 foldBin(EK k, u128 a, u128 b, unsigned w, bool& ok)
{
    u128 m = maskW(w);
    ok = true;
    switch (k) {
    case E_ADD: return (a + b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m;
    case E_UREM: return b ? a % b : a;
    case E_SDIV: {
        if (!b) return sextW(a, w) < 0 ? 1 : m;
        i128 x = sextW(a, w), y = sextW(b, w);
        if (y == -1) return (u128)(0 - (u128)x) & m;
        return (u128)(x / y) & m;
    }
    case E_SREM: {
        if (!b) return a;
        i128 x = sextW(a, w), y = sextW(b, w);
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case E_ASHR: { i128 x = sextW(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextW(a, w) < sextW(b, w);
    case E_SLE: return sextW(a, w) <= sextW(b, w);
    default: ok = false; return 0;
    }
}
static int ctpop128(u128 x) { return __builtin_popcountll((u64)x) + __builtin_popcountll((u64)(x >> 64)); }
// 128-bit words handled as two 64-bit halves where the expression has that shape
static bool halves(Expr* e) { return e->w == 128 && (isC(e) || (e->k == E_CONCAT && e->b->w == 64) || (e->k == E_ZEXT && e->a->w <= 64) || (u64)(e->kz >> 64) == ~0ull); }
static std::unordered_map<Expr*, Expr*> g_pop; // population count -> operand
static Expr* mkBin(EK k, Expr* a, Expr* b)
{
    unsigned w = a->w;
    unsigned rw = (k >= E_EQ && k <= E_SLE) ? 1 : w;
    bool ok;
    if (isC(a) && isC(b)) { u128 v = foldBin(k, a->cv, b->cv, w, ok); return mkConst(v, rw); }
    u128 m = maskW(w);
    bool comm = k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_EQ;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    if (w == 128 && (k == E_AND || k == E_OR || k == E_XOR)) {
        bool split = halves(a) && halves(b);
        if (k == E_AND && isC(b)) {
            u64 h = (u64)(b->cv >> 64), l = (u64)b->cv;
            split = split || (h == 0 && l == ~0ull) || (l == 0 && h == ~0ull);
        }
        if (split)
            return mkConcat(mkBin(k, mkExtract(a, 64, 64), mkExtract(b, 64, 64)), mkBin(k, mkExtract(a, 0, 64), mkExtract(b, 0, 64)));
    }
    if (w == 128 && isC(b) && b->cv >= 64 && b->cv < 128 && a->k != E_FP) {
        unsigned s = (unsigned)b->cv;
        if (k == E_LSHR) return mkZext(mkExtract(a, s, w - s), w);
        if (k == E_SHL) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
    }
    switch (k) {
    case E_ADD:
        if (isC(b)) {
            if (b->cv == 0) return a;
            if (a->k == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkConst(a->b->cv + b->cv, w));
        }
        if (((~a->kz & m) & (~b->kz & m)) == 0) return mkBin(E_OR, a, b);
        break;
    case E_MUL:
        if (isC(b)) {
            if (b->cv == 0) return b;
            if (b->cv == 1) return a;
            if (ctpop128(b->cv) == 1) { unsigned s = 0; while (!((b->cv >> s) & 1)) s++; return mkBin(E_SHL, a, mkConst(s, w)); }
        }
        break;
    case E_UDIV:
        if (isC(b) && ctpop128(b->cv) == 1) { unsigned s = 0; while (!((b->cv >> s) & 1)) s++; return mkBin(E_LSHR, a, mkConst(s, w)); }
        break;
    case E_UREM:
        if (isC(b) && ctpop128(b->cv) == 1) return mkBin(E_AND, a, mkConst(b->cv - 1, w));
        break;
    case E_AND:
        if (a == b) return a;
        if (isC(b)) {
            if (b->cv == 0) return b;
            if (((~a->kz & m) & ~b->cv) == 0) return a;
            if (((~a->kz & m) & b->cv) == 0) return mkConst(0, w);
            if (a->k == E_AND && isC(a->b)) return mkBin(E_AND, a->a, mkConst(a->b->cv & b->cv, w));
            // low mask: narrow
            if (a->k == E_OR || a->k == E_XOR) {
                if (((~a->a->kz & m) & b->cv) == 0) return mkBin(E_AND, a->b, b);
                if (((~a->b->kz & m) & b->cv) == 0) return mkBin(E_AND, a->a, b);
            }
        }
        if (w == 1 && ((a->k == E_XOR && isC(a->b) && a->a == b) || (b->k == E_XOR && isC(b->b) && b->a == a))) return mkConst(0, 1);
        break;
    case E_OR:
        if (a == b) return a;
        if (isC(b)) {
            if (b->cv == 0) return a;
            if (b->cv == m) return b;
        }
        if (w == 1 && ((a->k == E_XOR && isC(a->b) && a->a == b) || (b->k == E_XOR && isC(b->b) && b->a == a))) return mkConst(1, 1);
        break;
    case E_XOR:
        if (a == b) return mkConst(0, w);
        if (isC(b)) {
            if (b->cv == 0) return a;
            if (a->k == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkConst(a->b->cv ^ b->cv, w));
            if (w == 1 && a->k == E_ULT) return mkBin(E_ULE, a->b, a->a);
            if (w == 1 && a->k == E_ULE) return mkBin(E_ULT, a->b, a->a);
            if (w == 1 && a->k == E_SLT) return mkBin(E_SLE, a->b, a->a);
            if (w == 1 && a->k == E_SLE) return mkBin(E_SLT, a->b, a->a);
        }
        if (a->k == E_XOR && (a->a == b)) return a->b;
        if (a->k == E_XOR && (a->b == b)) return a->a;
        if (b->k == E_XOR && (b->a == a)) return b->b;
        if (b->k == E_XOR && (b->b == a)) return b->a;
        break;
    case E_SHL: case E_LSHR:
        if (isC(b)) {
            if (b->cv == 0) return a;
            if (b->cv >= w) return mkConst(0, w);
            if (a->k == k && isC(a->b)) {
                u128 s = a->b->cv + b->cv;
                if (s >= w) return mkConst(0, w);
                return mkBin(k, a->a, mkConst(s, w));
            }
            unsigned s = (unsigned)b->cv;
            if (k == E_LSHR && a->k == E_CONCAT && s >= a->b->w) return mkZext(mkExtract(a->a, s - a->b->w, a->a->w - (s - a->b->w)), w);
            if (k == E_LSHR && a->k == E_ZEXT) {
                if (s >= a->a->w) return mkConst(0, w);
                return mkZext(mkExtract(a->a, s, a->a->w - s), w);
            }
            if (k == E_LSHR && a->k == E_SHL && isC(a->b) && a->b->cv == b->cv) return mkBin(E_AND, a->a, mkConst(m >> s, w));
            if (k == E_SHL && a->k == E_LSHR && isC(a->b) && a->b->cv == b->cv) return mkBin(E_AND, a->a, mkConst((m >> s) << s, w));
        }
        if (isC(a) && a->cv == 0) return a;
        break;
    case E_ASHR:
        if (isC(b) && b->cv == 0) return a;
        if ((a->kz >> (w - 1)) & 1) return mkBin(E_LSHR, a, b);
        break;
    case E_EQ:
        if (a == b) return mkConst(1, 1);
        if (isC(b) && b->cv == 1 && w > 1) {
            auto it = g_pop.find(a);
            if (it != g_pop.end()) return mkAnd(mkBin(E_ULT, a, mkConst(2, w)), mkNot(mkBin(E_EQ, it->second, mkConst(0, w))));
        }
        if (isC(b)) {
            if (b->cv & a->kz) return mkConst(0, 1);
            if (w == 1) return b->cv ? a : mkNot(a);
            if (a->k == E_ZEXT) return mkBin(E_EQ, a->a, mkConst(b->cv, a->a->w));
            if (a->k == E_SEXT) {
                if (mkSext(mkConst(b->cv, a->a->w), w)->cv != b->cv) return mkConst(0, 1);
                return mkBin(E_EQ, a->a, mkConst(b->cv, a->a->w));
            }
            if (a->k == E_XOR && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(a->b->cv ^ b->cv, w));
            if (a->k == E_ADD && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(b->cv - a->b->cv, w));
            if (a->k == E_ITE && isC(a->b) && isC(a->c)) {
                bool t = a->b->cv == b->cv, f = a->c->cv == b->cv;
                if (t && f) return mkConst(1, 1);
                if (t) return a->a;
                if (f) return mkNot(a->a);
                return mkConst(0, 1);
            }
            if (a->k == E_CONCAT)
                return mkAnd(mkBin(E_EQ, a->a, mkConst(b->cv >> a->b->w, a->a->w)), mkBin(E_EQ, a->b, mkConst(b->cv, a->b->w)));
            if (a->k == E_OR && b->cv == 0) return mkAnd(mkBin(E_EQ, a->a, b), mkBin(E_EQ, a->b, b));
            if (a->k == E_AND && isC(a->b) && ctpop128(a->b->cv) == 1) {
                unsigned s = 0; while (!((a->b->cv >> s) & 1)) s++;
                if (b->cv != 0 && b->cv != a->b->cv) return mkConst(0, 1);
                Expr* bit = mkExtract(a->a, s, 1);
                return b->cv ? bit : mkNot(bit);
            }
            // only one possibly-nonzero bit
            u128 nz = ~a->kz & m;
            if (ctpop128(nz) == 1 && a->k != E_EXTRACT) {
                unsigned s = 0; while (!((nz >> s) & 1)) s++;
                Expr* bit = mkExtract(a, s, 1);
                if (bit->k != E_EXTRACT || bit->a != a) { if (b->cv != 0 && b->cv != nz) return mkConst(0, 1); return b->cv ? bit : mkNot(bit); }
            }
        }
        if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return mkBin(E_EQ, a->a, b->a);
        break;
    case E_ULT:
        if (a == b) return mkConst(0, 1);
        if (isC(b) && b->cv == 2) {
            auto it = g_pop.find(a);
            if (it != g_pop.end()) { Expr* x = it->second; return mkBin(E_EQ, mkBin(E_AND, x, mkBin(E_ADD, x, mkConst(maskW(w), w))), mkConst(0, w)); }
        }
        if (isC(b)) {
            if (b->cv == 0) return mkConst(0, 1);
            if ((~a->kz & m) < b->cv) return mkConst(1, 1);
            if (b->cv == 1) return mkBin(E_EQ, a, mkConst(0, w));
            if (a->k == E_ZEXT) { if (b->cv > maskW(a->a->w)) return mkConst(1, 1); return mkBin(E_ULT, a->a, mkConst(b->cv, a->a->w)); }
        }
        if (isC(a)) {
            if (a->cv == m || (~b->kz & m) <= a->cv) return mkConst(0, 1);
            if (a->cv == 0) return mkNot(mkBin(E_EQ, b, a));
            if (b->k == E_ZEXT) return mkBin(E_ULT, mkConst(a->cv, b->a->w), b->a);
        }
        if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        break;
    case E_ULE:
        if (a == b) return mkConst(1, 1);
        if (isC(b)) { if (b->cv == m) return mkConst(1, 1); return mkBin(E_ULT, a, mkConst(b->cv + 1, w)); }
        if (isC(a)) { if (a->cv == 0) return mkConst(1, 1); return mkBin(E_ULT, mkConst(a->cv - 1, w), b); }
        if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        break;
    case E_SLT: case E_SLE:
        if (a == b) return mkConst(k == E_SLE, 1);
        if (((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)) return mkBin(k == E_SLT ? E_ULT : E_ULE, a, b);
        if (isC(b) && b->cv == 0 && k == E_SLT) return mkExtract(a, w - 1, 1);
        if (isC(a) && sextW(a->cv, w) == -1 && k == E_SLT) return mkNot(mkExtract(b, w - 1, 1));
        if (isC(b) && b->cv == 0 && k == E_SLE && ((a->kz >> (w - 1)) & 1)) return mkBin(E_EQ, a, b);
        if (isC(a) && a->cv == 0 && k == E_SLE) return mkNot(mkExtract(b, w - 1, 1));
        break;
    default: break;
    }
    // comparison / arithmetic of ite-of-constants against constant
    if (isC(b) && a->k == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (isC(a) && b->k == E_ITE && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    return raw(k, rw, a, b);
}
static Expr* mkSub(Expr* a, Expr* b)
{
    if (a == b) return mkConst(0, a->w);
    // x - (x / h) * h, as the compiler writes a remainder next to a quotient
    if (b->k == E_MUL && b->a->k == E_UDIV && b->a->a == a && b->a->b == b->b) return mkBin(E_UREM, a, b->b);
    if (b->k == E_MUL && b->b->k == E_UDIV && b->b->a == a && b->b->b == b->a) return mkBin(E_UREM, a, b->a);
    if (isC(b)) return mkBin(E_ADD, a, mkConst(0 - b->cv, a->w));
    return mkBin(E_ADD, a, mkNeg(b));
}
