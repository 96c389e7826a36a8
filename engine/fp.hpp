// qse: floating point values as polynomials over real atoms + sound rounding-error bounds.
#pragma once
#include "expr.hpp"

struct VecHash {
    size_t operator()(const std::vector<uint32_t>& v) const
    {
        u64 h = 1469598103934665603ull;
        for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
        return h;
    }
};
static std::unordered_map<std::vector<uint32_t>, uint32_t, VecHash> g_monoIdx;
static size_t g_maxTerms = 6000;
struct FPUnsupported { std::string why; };

static uint32_t monoOf(std::vector<uint32_t> at)
{
    std::sort(at.begin(), at.end());
    auto it = g_monoIdx.find(at);
    if (it != g_monoIdx.end()) return it->second;
    Mono m;
    m.at = at;
    m.lo = m.hi = 1;
    for (size_t i = 0; i < at.size();) {
        size_t j = i;
        while (j < at.size() && at[j] == at[i]) j++;
        const Atom& A = g_atoms[at[i]];
        double l = 1, h = 1;
        for (size_t k = 0; k < j - i; k++) {
            double a = l * A.lo, b = l * A.hi, c = h * A.lo, d = h * A.hi;
            l = std::min(std::min(a, b), std::min(c, d));
            h = std::max(std::max(a, b), std::max(c, d));
        }
        if (((j - i) & 1) == 0 && l < 0) l = 0;
        double a = m.lo * l, b = m.lo * h, c = m.hi * l, d = m.hi * h;
        m.lo = std::min(std::min(a, b), std::min(c, d));
        m.hi = std::max(std::max(a, b), std::max(c, d));
        i = j;
    }
    uint32_t id = g_monos.size();
    g_monos.push_back(m);
    g_monoIdx[at] = id;
    return id;
}
static void fpInit()
{
    if (g_monos.empty()) monoOf({});
}
static double monoAbs(uint32_t m) { return std::max(std::fabs(g_monos[m].lo), std::fabs(g_monos[m].hi)); }

static std::vector<uint32_t> polyDeps(const Poly& p)
{
    std::vector<uint32_t> r;
    for (auto& t : p.t)
        for (auto a : g_monos[t.first].at) mergeDeps(r, g_atoms[a].deps);
    return r;
}
static Poly pConst(double c)
{
    Poly p;
    if (c != 0) p.t.push_back({ 0, c });
    return p;
}
static Poly pMono(uint32_t m, double c = 1)
{
    Poly p;
    if (c != 0) p.t.push_back({ m, c });
    return p;
}
static void pBounds(const Poly& p, double& lo, double& hi)
{
    lo = hi = 0;
    for (auto& t : p.t) {
        const Mono& m = g_monos[t.first];
        double a = t.second * m.lo, b = t.second * m.hi;
        lo += std::min(a, b);
        hi += std::max(a, b);
    }
}
static double pAbs(const Poly& p)
{
    double l, h;
    pBounds(p, l, h);
    return std::max(std::fabs(l), std::fabs(h));
}
// returns p + s*q ; err accumulates coefficient rounding
static Poly pAdd(const Poly& p, const Poly& q, double s, double& err)
{
    Poly r;
    r.t.reserve(p.t.size() + q.t.size());
    size_t i = 0, j = 0;
    while (i < p.t.size() || j < q.t.size()) {
        if (j >= q.t.size() || (i < p.t.size() && p.t[i].first < q.t[j].first)) r.t.push_back(p.t[i++]);
        else if (i >= p.t.size() || q.t[j].first < p.t[i].first) { r.t.push_back({ q.t[j].first, s * q.t[j].second }); j++; }
        else {
            double a = p.t[i].second, b = s * q.t[j].second, c = a + b;
            double bb = c - a, e = (a - (c - bb)) + (b - bb);
            if (e != 0) err += std::fabs(e) * monoAbs(p.t[i].first) * 1.001;
            if (c != 0) r.t.push_back({ p.t[i].first, c });
            i++; j++;
        }
    }
    if (r.t.size() > g_maxTerms) throw FPUnsupported{ "polynomial too large" };
    return r;
}
static Poly pScale(const Poly& p, double s, double& err)
{
    Poly r;
    if (s == 0) return r;
    for (auto& t : p.t) {
        double c = t.second * s, e = std::fma(t.second, s, -c);
        if (e != 0) err += std::fabs(e) * monoAbs(t.first) * 1.001;
        if (c != 0) r.t.push_back({ t.first, c });
    }
    return r;
}
static std::map<std::pair<uint32_t, uint32_t>, Poly> g_mulCache;
static Poly pMul(const Poly& p, const Poly& q, double& err);
static Poly monoMul(uint32_t a, uint32_t b)
{
    if (a == 0) return pMono(b);
    if (b == 0) return pMono(a);
    if (a > b) std::swap(a, b);
    auto it = g_mulCache.find({ a, b });
    if (it != g_mulCache.end()) return it->second;
    std::vector<uint32_t> at = g_monos[a].at;
    at.insert(at.end(), g_monos[b].at.begin(), g_monos[b].at.end());
    std::sort(at.begin(), at.end());
    // cancellation
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < at.size() && !ch; i++) {
            int o = g_atoms[at[i]].recip;
            if (o < 0) continue;
            auto f = std::find(at.begin(), at.end(), (uint32_t)o);
            if (f != at.end()) {
                uint32_t x = at[i];
                at.erase(f);
                at.erase(std::find(at.begin(), at.end(), x));
                ch = true;
            }
        }
    }
    // c^2 / s = 1/s - s for a cosine/sine pair
    for (size_t i = 0; i + 1 < at.size(); i++) {
        if (at[i] != at[i + 1] || g_atoms[at[i]].kind != AK_COS || g_atoms[at[i]].buddy < 0) continue;
        uint32_t s = g_atoms[at[i]].buddy;
        int r = g_atoms[s].recip;
        if (r < 0) continue;
        auto f = std::find(at.begin(), at.end(), (uint32_t)r);
        if (f == at.end()) continue;
        at.erase(f);
        // remove one pair of cosines
        for (size_t j = 0; j + 1 < at.size(); j++) if (at[j] == at[j + 1] && g_atoms[at[j]].kind == AK_COS && g_atoms[at[j]].buddy == (int)s) { at.erase(at.begin() + j, at.begin() + j + 2); break; }
        Poly rest = pMono(0), t1 = pMono(monoOf({ (uint32_t)r })), t2 = pMono(monoOf({ s }));
        double e = 0;
        for (auto x : at) rest = pMul(rest, pMono(monoOf({ x })), e);
        Poly o = pAdd(pMul(rest, t1, e), pMul(rest, t2, e), -1, e);
        g_mulCache[{ a, b }] = o;
        return o;
    }
    // square rewriting (all squares of sine / square-root atoms)
    std::vector<uint32_t> sqs;
    for (size_t i = 0; i + 1 < at.size();)
        if (at[i] == at[i + 1] && g_atoms[at[i]].hasSq) { sqs.push_back(at[i]); at.erase(at.begin() + i, at.begin() + i + 2); }
        else i++;
    Poly r = pMono(monoOf(at));
    double e = 0;
    for (auto x : sqs) { Poly s = g_atoms[x].sq; r = pMul(s, r, e); }
    g_mulCache[{ a, b }] = r;
    return r;
}
static Poly pMul(const Poly& p, const Poly& q, double& err)
{
    if (p.t.empty() || q.t.empty()) return Poly();
    if (p.isConst()) return pScale(q, p.cst(), err);
    if (q.isConst()) return pScale(p, q.cst(), err);
    if ((double)p.t.size() * q.t.size() > 400000) throw FPUnsupported{ "polynomial product too large" };
    std::unordered_map<uint32_t, double> acc;
    std::unordered_map<uint32_t, double> ab;
    for (auto& x : p.t)
        for (auto& y : q.t) {
            double c = x.second * y.second;
            double e = std::fma(x.second, y.second, -c);
            Poly m = monoMul(x.first, y.first);
            for (auto& z : m.t) {
                double cc = c * z.second;
                double e2 = std::fma(c, z.second, -cc);
                if (e != 0 || e2 != 0) err += (std::fabs(e * z.second) + std::fabs(e2)) * monoAbs(z.first) * 1.001;
                double& s = acc[z.first];
                double n = s + cc, bb = n - s, ee = (s - (n - bb)) + (cc - bb);
                if (ee != 0) err += std::fabs(ee) * monoAbs(z.first) * 1.001;
                s = n;
            }
        }
    Poly r;
    for (auto& kv : acc)
        if (kv.second != 0) r.t.push_back({ kv.first, kv.second });
    std::sort(r.t.begin(), r.t.end());
    if (r.t.size() > g_maxTerms) throw FPUnsupported{ "polynomial too large" };
    return r;
}

static uint32_t newAtom(const std::string& n, double lo, double hi, AtomKind k)
{
    Atom a;
    a.name = n; a.lo = lo; a.hi = hi; a.kind = k;
    uint32_t id = g_atoms.size();
    a.deps = { id * 2 + 1 };
    g_atoms.push_back(a);
    return id;
}

// ---------------------------------------------------------------- concrete <-> bits
static double bitsToD(u128 b, int w)
{
    if (w == 32) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
    u64 x = (u64)b; double d; memcpy(&d, &x, 8); return d;
}
static u128 dToBits(double d, int w)
{
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
    u64 x; memcpy(&x, &d, 8); return x;
}
static bool g_real = false; // real-number semantics: rounding is left out (stated per check)
static double uround(int w) { return g_real ? 1e-18 : w == 32 ? 5.9604644775390625e-08 : 1.1102230246251565e-16; }

// Build an FP expression for p (+-err) of width w.
static Expr* mkFP(Poly p, double err, int w, double rel = INFINITY, double ab = 0, bool nn = false)
{
    if (err == 0) { rel = 0; ab = 0; }
    // absorb negligible terms
    double thr = (w == 32) ? 1e-10 : 1e-17;
    size_t o = 0;
    for (size_t i = 0; i < p.t.size(); i++) {
        double b = std::fabs(p.t[i].second) * monoAbs(p.t[i].first);
        if (p.t[i].first != 0 && b < thr) { err += b * 1.001; ab += b * 1.001; if (rel == 0) rel = 1e-300; }
        else p.t[o++] = p.t[i];
    }
    p.t.resize(o);
    if (p.isConst() && err == 0) {
        double c = p.cst();
        u128 bits = dToBits(c, w);
        if (bitsToD(bits, w) == c) return mkConst(bits, w);
        err = std::fabs(bitsToD(bits, w) - c) * 1.001;
    }
    FPVal* f = new FPVal();
    f->p = p; f->err = err; f->w = w;
    f->rel = rel; f->ab = ab; f->nn = nn;
    pBounds(f->p, f->lo, f->hi);
    if (f->lo >= 0) f->nn = true;
    if (f->nn && f->lo < 0) f->lo = 0;
    if (!(f->hi < 1e30) || !(f->lo > -1e30) || !(err < 1e30)) { delete f; throw FPUnsupported{ "unbounded value" }; }
    Expr t{};
    t.k = E_FP; t.w = w; t.fp = f;
    f->e = intern(t);
    return f->e;
}
static double roundErr(const Poly& p, double err, int w)
{
    return err + uround(w) * (pAbs(p) + err) * 1.001 + (w == 32 ? 1e-44 : 1e-320);
}
struct FPView { Poly p; double err; int w; double rel = INFINITY, ab = 0; bool nn = false; };
static bool fpView(Expr* e, FPView& v)
{
    v.w = e->w;
    if (e->k == E_CONST) {
        double d = bitsToD(e->cv, e->w);
        if (!std::isfinite(d)) return false;
        v.p = pConst(d); v.err = 0; v.rel = 0; v.ab = 0; v.nn = d >= 0; return true;
    }
    if (e->k == E_FP) { v.p = e->fp->p; v.err = e->fp->err; v.rel = e->fp->rel; v.ab = e->fp->ab; v.nn = e->fp->nn; return true; }
    return false;
}
struct FPKey {
    int op; Expr *a, *b;
    bool operator==(const FPKey& o) const { return op == o.op && a == o.a && b == o.b; }
};
struct FPKeyH { size_t operator()(const FPKey& k) const { return ((size_t)k.a * 31 + (size_t)k.b) * 31 + k.op; } };
static std::unordered_map<FPKey, Expr*, FPKeyH> g_fpMemo;
enum { FO_ADD = 1, FO_SUB, FO_MUL, FO_DIV, FO_NEG, FO_EXT, FO_TRUNC, FO_SQRT, FO_COS, FO_SIN, FO_XSUB, FO_RECIP, FO_ATAN2, FO_SCALE };

// lower/upper bound refinement under the current path condition (set by the VM)
static std::function<double(Expr*, bool)> g_refineAbsLo; // returns lower bound of |v| (0 if unknown)

static int floorPow2(double c)
{
    int ex;
    double m = std::frexp(c, &ex);
    return std::fabs(m) == 0.5;
}
static Expr* fpAddSub(Expr* a, Expr* b, bool sub)
{
    FPKey k{ sub ? FO_SUB : FO_ADD, a, b };
    if (!sub && a->id > b->id) std::swap(k.a, k.b);
    auto it = g_fpMemo.find(k);
    if (it != g_fpMemo.end()) return it->second;
    FPView x, y;
    if (!fpView(a, x) || !fpView(b, y)) throw FPUnsupported{ "fp add of non-finite" };
    Expr* r;
    if (sub && a == b) r = mkConst(0, a->w);
    else if (y.p.t.empty() && y.err == 0) r = a;
    else if (x.p.t.empty() && x.err == 0 && !sub) r = b;
    else {
        double e = x.err + y.err;
        Poly p = pAdd(x.p, y.p, sub ? -1 : 1, e);
        if (x.p.t.empty() && x.err == 0) r = mkFP(p, y.err, a->w, y.rel, y.ab, false);
        else {
            double u = uround(a->w) * 1.001, rel = INFINITY, ab = 0, ce = std::max(0.0, e - x.err - y.err) * 1.01 + 1e-44;
            bool nn = !sub && x.nn && y.nn;
            if (x.err == 0 && y.err == 0) { rel = u; ab = ce * (1 + u); }
            else if (nn && std::isfinite(x.rel) && std::isfinite(y.rel)) { rel = std::max(x.rel, y.rel) * (1 + u) + u; ab = (x.ab + y.ab + ce) * (1 + 2 * u); }
            r = mkFP(p, roundErr(p, e, a->w), a->w, rel, ab, nn);
            if (nn && r->k == E_FP && a->k == E_FP && b->k == E_FP && a->fp->sos && b->fp->sos && a->fp->sos->size() + b->fp->sos->size() <= 12) {
                auto so = std::make_shared<std::vector<std::pair<Poly, double>>>(*a->fp->sos);
                so->insert(so->end(), b->fp->sos->begin(), b->fp->sos->end());
                r->fp->sos = so;
                r->fp->srel = (std::max(a->fp->srel, b->fp->srel) + u) * 1.001;
                r->fp->sab = (a->fp->sab + b->fp->sab) * 1.001 + 1e-44;
            }
        }
    }
    g_fpMemo[k] = r;
    return r;
}
static Expr* fpMul(Expr* a, Expr* b)
{
    FPKey k{ FO_MUL, a, b };
    if (a->id > b->id) std::swap(k.a, k.b);
    auto it = g_fpMemo.find(k);
    if (it != g_fpMemo.end()) return it->second;
    FPView x, y;
    if (!fpView(a, x) || !fpView(b, y)) throw FPUnsupported{ "fp mul of non-finite" };
    Expr* r;
    bool xz = x.p.t.empty() && x.err == 0, yz = y.p.t.empty() && y.err == 0;
    if (xz || yz) r = mkConst(0, a->w);
    else if (y.err == 0 && y.p.isConst() && y.p.cst() == 1) r = a;
    else if (x.err == 0 && x.p.isConst() && x.p.cst() == 1) r = b;
    else {
        double mx = pAbs(x.p), my = pAbs(y.p);
        double e = x.err * my + y.err * mx + x.err * y.err;
        double ce = 0;
        Poly p = pMul(x.p, y.p, ce);
        bool exact = (y.err == 0 && y.p.isConst() && floorPow2(y.p.cst())) || (x.err == 0 && x.p.isConst() && floorPow2(x.p.cst()));
        double u = exact ? 0 : uround(a->w) * 1.001, rel = INFINITY, ab = 0;
        bool nn = a == b || (x.nn && y.nn);
        if (std::isfinite(x.rel) && std::isfinite(y.rel)) {
            rel = ((1 + x.rel) * (1 + y.rel) * (1 + u) - 1) * 1.0000001;
            ab = (x.ab * (my + y.err) + y.ab * (mx + x.err) + ce + 1e-44) * 1.001;
        }
        r = mkFP(p, exact ? e + ce : roundErr(p, e + ce, a->w), a->w, rel, ab, nn);
        if (a == b && r->k == E_FP && x.p.t.size() <= 8) {
            r->fp->sos = std::make_shared<std::vector<std::pair<Poly, double>>>(std::vector<std::pair<Poly, double>>{ { x.p, x.err } });
            r->fp->srel = uround(a->w) * 1.001; r->fp->sab = 1e-44;
        }
    }
    g_fpMemo[k] = r;
    return r;
}
static Expr* fpNeg(Expr* a)
{
    if (a->k == E_CONST) return mkConst(a->cv ^ ((u128)1 << (a->w - 1)), a->w);
    FPKey k{ FO_NEG, a, nullptr };
    auto it = g_fpMemo.find(k);
    if (it != g_fpMemo.end()) return it->second;
    FPView x;
    if (!fpView(a, x)) throw FPUnsupported{ "fp neg" };
    double e = 0;
    Expr* r = mkFP(pScale(x.p, -1, e), x.err, a->w, x.rel, x.ab, false);
    g_fpMemo[k] = r;
    g_fpMemo[FPKey{ FO_NEG, r, nullptr }] = a;
    return r;
}
static Expr* fpResize(Expr* a, int w)
{
    if (a->k == E_CONST) return mkConst(dToBits(bitsToD(a->cv, a->w), w), w);
    FPKey k{ w > a->w ? FO_EXT : FO_TRUNC, a, nullptr };
    auto it = g_fpMemo.find(k);
    if (it != g_fpMemo.end()) return it->second;
    FPView x;
    if (!fpView(a, x)) throw FPUnsupported{ "fp resize" };
    Expr* r;
    if (w > a->w) {
        r = mkFP(x.p, x.err, w, x.rel, x.ab, x.nn);
        if (a->k == E_FP && r->k == E_FP) { r->fp->sos = a->fp->sos; r->fp->srel = a->fp->srel; r->fp->sab = a->fp->sab; }
        g_fpMemo[FPKey{ FO_TRUNC, r, nullptr }] = a;
    } else
        r = mkFP(x.p, roundErr(x.p, x.err, w), w, std::isfinite(x.rel) ? (x.rel + uround(w) * 1.001) * 1.0000001 : INFINITY, x.ab * 1.001 + 1e-44, x.nn);
    if (w < a->w && a->k == E_FP && r->k == E_FP) { r->fp->sos = a->fp->sos; r->fp->srel = (a->fp->srel + uround(w)) * 1.001; r->fp->sab = a->fp->sab * 1.001 + 1e-44; }
    g_fpMemo[k] = r;
    return r;
}
static std::map<std::vector<std::pair<uint32_t, double>>, uint32_t> g_sqrtAtoms, g_recipAtoms;
// p == coef * (product of the atoms in `at`, sine squares kept) up to an absolute error `err` <= tol
static bool nearMono(const Poly& p, double tol, std::vector<uint32_t>& at, double& coef, double& err)
{
    std::map<std::vector<uint32_t>, double> m;
    err = 0;
    for (auto& t : p.t) {
        double b = std::fabs(t.second) * monoAbs(t.first);
        if (b < tol * 0.2) { err += b * 1.001; continue; }
        m[g_monos[t.first].at] = t.second;
    }
    std::vector<uint32_t> sq;
    while (m.size() > 1) {
        // a cosine square present in some but not all terms
        int c = -1;
        for (auto& kv : m) {
            for (size_t i = 0; i + 1 < kv.first.size(); i++)
                if (kv.first[i] == kv.first[i + 1] && g_atoms[kv.first[i]].kind == AK_COS && g_atoms[kv.first[i]].buddy >= 0) {
                    uint32_t a = kv.first[i];
                    std::vector<uint32_t> r = kv.first;
                    r.erase(r.begin() + i, r.begin() + i + 2);
                    if (m.count(r)) { c = a; break; }
                }
            if (c >= 0) break;
        }
        if (c < 0) return false;
        std::map<std::vector<uint32_t>, double> n;
        for (auto& kv : m) {
            auto i = std::find(kv.first.begin(), kv.first.end(), (uint32_t)c);
            if (i != kv.first.end() && i + 1 != kv.first.end() && *(i + 1) == (uint32_t)c) {
                std::vector<uint32_t> r = kv.first;
                r.erase(r.begin() + (i - kv.first.begin()), r.begin() + (i - kv.first.begin()) + 2);
                auto f = m.find(r);
                if (f == m.end()) return false;
                double d = std::fabs(f->second + kv.second) * monoAbs(monoOf(kv.first));
                if (d > tol) return false;
                err += d * 1.001;
            } else {
                std::vector<uint32_t> r = kv.first;
                r.push_back(c); r.push_back(c);
                std::sort(r.begin(), r.end());
                if (!m.count(r)) return false;
                n[kv.first] = kv.second;
            }
        }
        sq.push_back(g_atoms[c].buddy); sq.push_back(g_atoms[c].buddy);
        m.swap(n);
    }
    if (m.empty() || err > tol) return false;
    at = m.begin()->first;
    at.insert(at.end(), sq.begin(), sq.end());
    std::sort(at.begin(), at.end());
    coef = m.begin()->second;
    return true;
}

// sqrt of exact polynomial p (assumed >= 0 up to err); returns polynomial
static Poly sqrtPoly(const Poly& p, bool& ok)
{
    ok = true;
    if (p.t.empty()) return p;
    if (p.isConst()) return pConst(std::sqrt(std::max(0.0, p.cst())));
    if (p.t.size() == 1 && p.t[0].second > 0) {
        const std::vector<uint32_t> at = g_monos[p.t[0].first].at;
        std::vector<uint32_t> h;
        bool even = at.size() % 2 == 0;
        for (size_t i = 0; even && i < at.size(); i += 2) { if (at[i] != at[i + 1]) even = false; else h.push_back(at[i]); }
        if (even) {
            uint32_t m = monoOf(h);
            if (g_monos[m].lo >= 0) return pMono(m, std::sqrt(p.t[0].second));
            if (g_monos[m].hi <= 0) return pMono(m, -std::sqrt(p.t[0].second));
        }
    }
    auto it = g_sqrtAtoms.find(p.t);
    uint32_t a;
    if (it != g_sqrtAtoms.end()) a = it->second;
    else {
        double lo, hi;
        pBounds(p, lo, hi);
        a = newAtom("sqrt", std::sqrt(std::max(0.0, lo)), std::sqrt(std::max(0.0, hi)) * (1 + 1e-15), AK_SQRT);
        g_atoms[a].arg = p;
        g_atoms[a].hasSq = true;
        g_atoms[a].sq = p;
        for (auto d : polyDeps(p)) { std::vector<uint32_t> v{ d }; mergeDeps(g_atoms[a].deps, v); }
        g_sqrtAtoms[p.t] = a;
    }
    return pMono(monoOf({ a }));
}
static Expr* fpSqrt(Expr* a)
{
    FPKey k{ FO_SQRT, a, nullptr };
    auto it = g_fpMemo.find(k);
    if (it != g_fpMemo.end()) return it->second;
    FPView x;
    if (!fpView(a, x)) throw FPUnsupported{ "sqrt" };
    double lo, hi;
    pBounds(x.p, lo, hi);
    if (g_refineAbsLo && lo < 0.01) lo = std::max(lo, g_refineAbsLo(a, false));
    bool ok;
    Poly q;
    {
        std::vector<uint32_t> at, h;
        double cf, ne;
        bool even = x.p.t.size() > 1 && lo > 0 && nearMono(x.p, std::min(1e-6, lo * 1e-5), at, cf, ne) && cf > 0 && at.size() % 2 == 0;
        for (size_t i = 0; even && i < at.size(); i += 2) { if (at[i] != at[i + 1]) even = false; else h.push_back(at[i]); }
        if (even) {
            uint32_t m = monoOf(h);
            if (g_monos[m].lo >= 0) { q = pMono(m, std::sqrt(cf)); x.err += ne; }
            else if (g_monos[m].hi <= 0) { q = pMono(m, -std::sqrt(cf)); x.err += ne; }
            else even = false;
        }
        if (!even) q = sqrtPoly(x.p, ok);
    }
    double e;
    if (x.err == 0) e = 0;
    else if (lo > 4 * x.err) e = x.err / std::sqrt(lo);
    else e = std::sqrt(2 * x.err);
    Expr* r = mkFP(q, roundErr(q, e, a->w), a->w, INFINITY, 0, true);
    g_fpMemo[k] = r;
    return r;
}
static uint32_t recipAtom(uint32_t a)
{
    if (g_atoms[a].recip >= 0) return g_atoms[a].recip;
    double lo = g_atoms[a].lo, hi = g_atoms[a].hi;
    double rl, rh;
    if (lo > 0) { rl = 1 / hi; rh = 1 / lo; }
    else if (hi < 0) { rl = 1 / hi; rh = 1 / lo; }
    else if (lo == 0) { rl = hi > 0 ? 1 / hi : 0; rh = 1e9; }
    else { rl = -1e9; rh = 1e9; }
    rl = rl * (1 - 1e-15 * (rl > 0 ? 1 : -1)); rh = rh * (1 + 1e-15 * (rh > 0 ? 1 : -1));
    uint32_t r = newAtom("recip", rl, rh, AK_RECIP);
    g_atoms[r].recip = a;
    g_atoms[a].recip = r;
    g_atoms[r].arg = pMono(monoOf({ a }));
    mergeDeps(g_atoms[r].deps, g_atoms[a].deps);
    double e = 0;
    if (g_atoms[a].hasSq) {
        // r^2 * sq == 1
        Poly rr = pMono(monoOf({ r, r }));
        Poly d = pAdd(pMul(rr, g_atoms[a].sq, e), pConst(1), -1, e);
        g_atoms[r].defs.push_back({ d, 2 });
        Poly d2 = pAdd(pMul(pMono(monoOf({ r })), g_atoms[a].sq, e), pMono(monoOf({ a })), -1, e);
        g_atoms[r].defs.push_back({ d2, 2 });
    }
    return r;
}
static Poly recipPoly(const Poly& p, double lo)
{
    if (p.isConst()) return pConst(1.0 / p.cst());
    if (p.t.size() == 1) {
        std::vector<uint32_t> at = g_monos[p.t[0].first].at, r;
        for (auto a : at) r.push_back(recipAtom(a));
        return pMono(monoOf(r), 1.0 / p.t[0].second);
    }
    auto it = g_recipAtoms.find(p.t);
    uint32_t r;
    if (it != g_recipAtoms.end()) r = it->second;
    else {
        double l, h;
        pBounds(p, l, h);
        double rl, rh;
        if (l > 0) { rl = 1 / h; rh = 1 / l; }
        else if (h < 0) { rl = 1 / h; rh = 1 / l; }
        else { double m = std::max(lo, 1e-9); rl = -1 / m; rh = 1 / m; if (lo > 0 && l >= -1e-12) rl = 0; }
        rl -= std::fabs(rl) * 1e-15; rh += std::fabs(rh) * 1e-15;
        r = newAtom("recip", rl, rh, AK_RECIP);
        g_atoms[r].arg = p;
        for (auto d : polyDeps(p)) { std::vector<uint32_t> v{ d }; mergeDeps(g_atoms[r].deps, v); }
        double e = 0;
        Poly d = pAdd(pMul(pMono(monoOf({ r })), p, e), pConst(1), -1, e);
        g_atoms[r].defs.push_back({ d, 2 });
        g_recipAtoms[p.t] = r;
    }
    return pMono(monoOf({ r }));
}
// a / b, b known non-zero on this path
static Expr* fpDiv(Expr* a, Expr* b)
{
    FPKey k{ FO_DIV, a, b };
    auto it = g_fpMemo.find(k);
    if (it != g_fpMemo.end()) return it->second;
    FPView x, y;
    if (!fpView(a, x) || !fpView(b, y)) throw FPUnsupported{ "fp div" };
    Expr* r;
    if (x.p.t.empty() && x.err == 0) r = mkConst(0, a->w);
    else {
        double lo, hi;
        pBounds(y.p, lo, hi);
        double al = lo > 0 ? lo : (hi < 0 ? -hi : 0);
        if (g_refineAbsLo && al < 0.01 && b->k == E_FP) al = std::max(al, g_refineAbsLo(b, true));
        if (al <= y.err * 1.5) throw FPUnsupported{ "division by a value not bounded away from zero" };
        Poly rp;
        {
            std::vector<uint32_t> at, r;
            double cf, ne;
            if (y.p.t.size() > 1 && lo > 0 && nearMono(y.p, std::min(1e-6, al * 1e-5), at, cf, ne)) {
                for (auto q : at) r.push_back(recipAtom(q));
                rp = pMono(monoOf(r), 1.0 / cf);
                y.err += ne;
            } else rp = recipPoly(y.p, al);
        }
        double e = 0;
        Poly p = pMul(x.p, rp, e);
        if (y.p.isConst()) e += pAbs(p) * 2.3e-16;
        double rmax = 1 / (al - y.err);
        e += x.err * rmax + (pAbs(x.p) + x.err) * y.err * rmax / al;
        bool exact = y.err == 0 && y.p.isConst() && floorPow2(y.p.cst());
        r = mkFP(p, exact ? e : roundErr(p, e, a->w), a->w);
    }
    g_fpMemo[k] = r;
    return r;
}
// trigonometry ------------------------------------------------------------
struct TrigBase { uint32_t mono; double scale; uint32_t c, s; bool hasP = false; Poly cp, sp; /* closed forms of the cosine and sine */ };
static std::vector<TrigBase> g_trig;
static void cosRange(double lo, double hi, double& cl, double& ch)
{
    if (hi - lo >= 2 * M_PI) { cl = -1; ch = 1; return; }
    cl = std::min(std::cos(lo), std::cos(hi));
    ch = std::max(std::cos(lo), std::cos(hi));
    double k0 = std::ceil(lo / M_PI);
    for (double k = k0; k * M_PI <= hi; k += 1) {
        if (std::fmod(std::fabs(k), 2) == 0) ch = 1;
        else cl = -1;
    }
    cl = std::max(-1.0, cl - 1e-15); ch = std::min(1.0, ch + 1e-15);
}
static TrigBase& trigBase(uint32_t m, double coef, double& k, double& resid)
{
    for (auto& b : g_trig)
        if (b.mono == m) {
            double q = coef / b.scale, r = std::round(q);
            if (std::fabs(q - r) < 1e-5 && std::fabs(r) <= 24 && r != 0) { k = r; resid = std::fabs(coef - r * b.scale) * monoAbs(m); return b; }
        }
    double q = coef / 0.5, r = std::round(q);
    double sc = (r != 0 && std::fabs(q - r) < 1e-5) ? 0.5 : std::fabs(coef);
    TrigBase b;
    b.mono = m; b.scale = sc;
    double lo = g_monos[m].lo * sc, hi = g_monos[m].hi * sc, cl, ch, sl, sh;
    cosRange(lo, hi, cl, ch);
    cosRange(lo - M_PI / 2, hi - M_PI / 2, sl, sh);
    if (sl < 0 && sl > -1e-14 ) sl = std::min(0.0, sl);
    b.c = newAtom("cos", cl, ch, AK_COS);
    b.s = newAtom("sin", sl, sh, AK_SIN);
    std::vector<uint32_t> dp = { b.c * 2 + 1, b.s * 2 + 1 };
    if (dp[0] > dp[1]) std::swap(dp[0], dp[1]);
    for (auto a : g_monos[m].at) mergeDeps(dp, g_atoms[a].deps);
    g_atoms[b.c].deps = g_atoms[b.s].deps = dp;
    g_atoms[b.c].arg = g_atoms[b.s].arg = pMono(m, sc);
    g_atoms[b.c].buddy = b.s; g_atoms[b.s].buddy = b.c;
    double e = 0;
    g_atoms[b.s].hasSq = true;
    g_atoms[b.s].sq = pAdd(pConst(1), pMono(monoOf({ b.c, b.c })), -1, e);
    g_trig.push_back(b);
    k = std::round(coef / sc); resid = std::fabs(coef - k * sc) * monoAbs(m);
    return g_trig.back();
}
static void trigPolys(const Poly& x, Poly& C, Poly& S, double& err)
{
    double c0 = x.cst();
    C = pConst(std::fabs(std::cos(c0)) < 1e-15 ? 0 : std::cos(c0));
    S = pConst(std::fabs(std::sin(c0)) < 1e-15 ? 0 : std::sin(c0));
    if (c0 != 0) err += 4e-16;
    for (auto& t : x.t) {
        if (t.first == 0) continue;
        double k, resid;
        TrigBase b = trigBase(t.first, t.second, k, resid);
        err += resid;
        Poly bc = b.hasP ? b.cp : pMono(monoOf({ b.c })), bs = b.hasP ? b.sp : pMono(monoOf({ b.s }));
        Poly kc = pConst(1), ks;
        for (int i = 0; i < (int)std::fabs(k); i++) {
            Poly nc = pAdd(pMul(kc, bc, err), pMul(ks, bs, err), -1, err);
            Poly ns = pAdd(pMul(ks, bc, err), pMul(kc, bs, err), 1, err);
            kc = nc; ks = ns;
        }
        if (k < 0) ks = pScale(ks, -1, err);
        Poly nc = pAdd(pMul(C, kc, err), pMul(S, ks, err), -1, err);
        Poly ns = pAdd(pMul(S, kc, err), pMul(C, ks, err), 1, err);
        C = nc; S = ns;
    }
}
static Expr* fpTrig(Expr* a, bool sine)
{
    FPKey k{ sine ? FO_SIN : FO_COS, a, nullptr };
    auto it = g_fpMemo.find(k);
    if (it != g_fpMemo.end()) return it->second;
    FPView x;
    if (!fpView(a, x)) throw FPUnsupported{ "trig" };
    double e = x.err;
    Poly C, S;
    trigPolys(x.p, C, S, e);
    Poly& q = sine ? S : C;
    Expr* r = mkFP(q, e + 2 * uround(a->w) + 1e-40, a->w);
    g_fpMemo[k] = r;
    return r;
}
// atan2(y, x) == L (mod 2 pi) for a linear form L of known angles: found numerically, then verified as polynomial identities
static bool atan2Lin(const FPView& Y, const FPView& X, Poly& L, double& err)
{
    double e = 0;
    Poly r2 = pAdd(pMul(X.p, X.p, e), pMul(Y.p, Y.p, e), 1, e);
    std::vector<uint32_t> at;
    double cf, ne;
    Poly xp = X.p, yp = Y.p;
    if (!nearMono(r2, 1e-6, at, cf, ne) || cf <= 1e-6) return false;
    if (at.size() % 2) return false;
    std::vector<uint32_t> ri;
    double mn = std::sqrt(cf), sg = 1;
    for (size_t i = 0; i < at.size(); i += 2) {
        if (at[i] != at[i + 1]) return false;
        if (g_atoms[at[i]].lo > 1e-3) mn *= g_atoms[at[i]].lo;
        else if (g_atoms[at[i]].hi < -1e-3) { sg = -sg; mn *= -g_atoms[at[i]].hi; }
        else return false;
        ri.push_back(recipAtom(at[i]));
    }
    if (mn * mn < 1e2 * ne || mn < 1e-4) return false;
    if (ri.empty()) { xp = pScale(xp, 1 / std::sqrt(cf), e); yp = pScale(yp, 1 / std::sqrt(cf), e); }
    else { Poly rv = pMono(monoOf(ri), sg / std::sqrt(cf)); xp = pMul(xp, rv, e); yp = pMul(yp, rv, e); }
    // the angles involved
    std::set<size_t> bs;
    for (const Poly* p : { &xp, &yp })
        for (auto& t : p->t)
            for (auto a : g_monos[t.first].at) {
                if (std::fabs(t.second) * monoAbs(t.first) < 1e-5) continue;
                size_t i = 0;
                for (; i < g_trig.size(); i++) if (g_trig[i].c == a || g_trig[i].s == a) break;
                if (i == g_trig.size()) return false;
                bs.insert(i);
            }
    if (bs.empty() || bs.size() > 3) return false;
    std::vector<size_t> bv(bs.begin(), bs.end());
    auto num = [&](const Poly& p, const std::vector<double>& th) {
        double v = 0;
        for (auto& t : p.t) {
            double x = t.second;
            bool skip = false;
            for (auto a : g_monos[t.first].at) {
                size_t i = 0;
                for (; i < bv.size(); i++) if (g_trig[bv[i]].c == a || g_trig[bv[i]].s == a) break;
                if (i == bv.size()) { skip = true; break; }
                x *= g_trig[bv[i]].c == a ? std::cos(th[i]) : std::sin(th[i]);
            }
            if (!skip) v += x;
        }
        return v;
    };
    static const double TH[4][3] = { { 0.3, 0.7, 1.1 }, { 0.9, -0.4, 0.2 }, { -0.6, 1.3, 0.5 }, { 2.1, 0.25, -1.7 } };
    double ag[4];
    for (int i = 0; i < 4; i++) { std::vector<double> th(TH[i], TH[i] + 3); ag[i] = std::atan2(num(yp, th), num(xp, th)); }
    int K = bv.size() == 1 ? 12 : bv.size() == 2 ? 6 : 4;
    int k[3] = { 0, 0, 0 };
    bool found = false;
    double c = 0;
    for (k[0] = -K; k[0] <= K && !found; k[0]++)
        for (k[1] = bv.size() > 1 ? -K : 0; k[1] <= (bv.size() > 1 ? K : 0) && !found; k[1]++)
            for (k[2] = bv.size() > 2 ? -K : 0; k[2] <= (bv.size() > 2 ? K : 0) && !found; k[2]++) {
                bool ok = true;
                double c0 = 0;
                for (int i = 0; i < 4 && ok; i++) {
                    double d = ag[i];
                    for (size_t j = 0; j < bv.size(); j++) d -= k[j] * TH[i][j];
                    if (i == 0) c0 = d;
                    else if (std::fabs(std::remainder(d - c0, 2 * M_PI)) > 1e-3) ok = false;
                }
                if (ok) {
                    c = std::remainder(c0, 2 * M_PI);
                    Poly l = pConst(c);
                    for (size_t j = 0; j < bv.size(); j++) if (k[j]) l = pAdd(l, pMono(g_trig[bv[j]].mono, k[j] * g_trig[bv[j]].scale), 1, e);
                    L = l;
                    found = true;
                }
            }
    if (!found) return false;
    Poly C, S;
    trigPolys(L, C, S, e);
    Poly D = pAdd(pMul(yp, C, e), pMul(xp, S, e), -1, e);
    Poly E = pAdd(pMul(xp, C, e), pMul(yp, S, e), 1, e);
    double lo, hi, dm = 0;
    for (auto& t : D.t) dm += std::fabs(t.second) * monoAbs(t.first);
    pBounds(E, lo, hi);
    double exy = (X.err + Y.err) / mn + e;
    if (dm > 2e-3 || lo - exy < 0.4) return false;
    err = 1.2 * (dm + exy) / (lo - exy) + 1e-15;
    return true;
}
// atan2(y, x): an angle atom A whose cosine and sine satisfy cos(A) r = x, sin(A) r = y
static std::map<std::pair<Expr*, Expr*>, uint32_t> g_atanAtoms;
static Expr* fpAtan2(Expr* y, Expr* x)
{
    FPKey k{ FO_ATAN2, y, x };
    auto it = g_fpMemo.find(k);
    if (it != g_fpMemo.end()) return it->second;
    FPView X, Y;
    if (!fpView(x, X) || !fpView(y, Y)) throw FPUnsupported{ "atan2" };
    double e = 0;
    Poly r2 = pAdd(pMul(X.p, X.p, e), pMul(Y.p, Y.p, e), 1, e);
    bool ok, closed = false;
    Poly R, rinv;
    {
        std::vector<uint32_t> at, h, ri;
        double cf, ne;
        if (nearMono(r2, 1e-9, at, cf, ne) && cf > 0 && at.size() % 2 == 0) {
            bool even = true;
            for (size_t i = 0; even && i < at.size(); i += 2) { if (at[i] != at[i + 1]) even = false; else h.push_back(at[i]); }
            double sg = 1, mn = std::sqrt(cf);
            for (auto a : h) { if (g_atoms[a].lo > 1e-3) mn *= g_atoms[a].lo; else if (g_atoms[a].hi < -1e-3) { sg = -sg; mn *= -g_atoms[a].hi; } else even = false; }
            if (even && mn * mn > 1e3 * ne && mn > 1e-4) {
                closed = true;
                R = pMono(monoOf(h), sg * std::sqrt(cf));
                for (auto a : h) ri.push_back(recipAtom(a));
                rinv = pMono(monoOf(ri), sg / std::sqrt(cf));
            }
        }
    }
    if (!closed) R = sqrtPoly(r2, ok);
    double lo, hi;
    pBounds(R, lo, hi);
    double rl = lo;
    uint32_t A = newAtom("arg", -M_PI - 1e-6, M_PI + 1e-6, AK_MISC);
    for (auto d : polyDeps(X.p)) { std::vector<uint32_t> v{ d }; mergeDeps(g_atoms[A].deps, v); }
    for (auto d : polyDeps(Y.p)) { std::vector<uint32_t> v{ d }; mergeDeps(g_atoms[A].deps, v); }
    uint32_t m = monoOf({ A });
    // base scale 1 for this atom
    TrigBase b;
    b.mono = m; b.scale = 1;
    b.c = newAtom("cosarg", -1, 1, AK_COS);
    b.s = newAtom("sinarg", -1, 1, AK_SIN);
    std::vector<uint32_t> dp = { b.c * 2 + 1, b.s * 2 + 1 };
    mergeDeps(dp, g_atoms[A].deps);
    g_atoms[b.c].deps = g_atoms[b.s].deps = dp;
    g_atoms[b.c].arg = g_atoms[b.s].arg = pMono(m, 1);
    g_atoms[b.c].buddy = b.s; g_atoms[b.s].buddy = b.c;
    g_atoms[b.s].hasSq = true;
    g_atoms[b.s].sq = pAdd(pConst(1), pMono(monoOf({ b.c, b.c })), -1, e);
    Poly dc = pAdd(pMul(pMono(monoOf({ b.c })), R, e), X.p, -1, e);
    Poly ds = pAdd(pMul(pMono(monoOf({ b.s })), R, e), Y.p, -1, e);
    g_atoms[b.c].defs.push_back({ dc, 2 });
    g_atoms[b.s].defs.push_back({ ds, 2 });
    if (closed) { b.hasP = true; b.cp = pMul(X.p, rinv, e); b.sp = pMul(Y.p, rinv, e); }
    g_trig.push_back(b);
    double er = X.err + Y.err + e;
    double ae = er == 0 ? 0 : (rl > 4 * er ? 2 * er / rl : 7.0);
    Expr* r = mkFP(pMono(m), ae + 4 * uround(x->w) * 3.2, x->w);
    g_fpMemo[k] = r;
    return r;
}

// comparisons --------------------------------------------------------------
// op: 0 v<0, 1 v<=0, 2 v==0   with v = fp + cst
static Expr* mkRcmp(FPVal* f, double cst, int op)
{
    double lo = f->lo + cst - f->err, hi = f->hi + cst + f->err;
    double slack = 1e-15 * (std::fabs(f->lo) + std::fabs(f->hi) + std::fabs(cst));
    lo -= slack; hi += slack;
    if (f->err == 0 && f->p.t.empty()) { double v = cst; return mkBool(op == 0 ? v < 0 : op == 1 ? v <= 0 : v == 0); }
    if (lo > 0) return mkBool(false);
    if (hi < 0) return mkBool(op != 2);
    Expr t{};
    t.k = E_RCMP; t.w = 1; t.aux = op; t.fp = f;
    t.cv = dToBits(cst, 64);
    return intern(t);
}
static Expr* fpCmp(Expr* a, Expr* b, int op) // a<b, a<=b, a==b
{
    if (a == b) return mkBool(op != 0);
    if (a->k == E_CONST && b->k == E_CONST) {
        double x = bitsToD(a->cv, a->w), y = bitsToD(b->cv, b->w);
        return mkBool(op == 0 ? x < y : op == 1 ? x <= y : x == y);
    }
    if (b->k == E_CONST) {
        double y = bitsToD(b->cv, b->w);
        if (std::isnan(y)) return mkBool(false);
        if (std::isinf(y)) return mkBool(op == 2 ? false : y > 0);
        return mkRcmp(a->fp, -y, op);
    }
    if (a->k == E_CONST) {
        double y = bitsToD(a->cv, a->w);
        if (std::isnan(y)) return mkBool(false);
        if (std::isinf(y)) return mkBool(op == 2 ? false : y < 0);
        // y - b < 0 == !(b - y <= 0)
        if (op == 2) return mkRcmp(b->fp, -y, 2);
        return mkNot(mkRcmp(b->fp, -y, op == 0 ? 1 : 0));
    }
    // d = a - b exactly ; canonical order by id
    bool sw = a->id > b->id;
    Expr *x = sw ? b : a, *y = sw ? a : b;
    FPKey k{ FO_XSUB, x, y };
    auto it = g_fpMemo.find(k);
    Expr* d;
    if (it != g_fpMemo.end()) d = it->second;
    else {
        double e = x->fp->err + y->fp->err;
        Poly p = pAdd(x->fp->p, y->fp->p, -1, e);
        if (p.isConst() && e == 0) d = mkConst(dToBits(p.cst(), 64), 64);
        else d = mkFP(p, e, 64);
        g_fpMemo[k] = d;
    }
    if (d->k == E_CONST) {
        double v = bitsToD(d->cv, 64);
        if (sw) v = -v;
        return mkBool(op == 0 ? v < 0 : op == 1 ? v <= 0 : v == 0);
    }
    if (!sw || op == 2) return mkRcmp(d->fp, 0, op);
    return mkNot(mkRcmp(d->fp, 0, op == 0 ? 1 : 0)); // -d<0 == !(d<=0)
}
