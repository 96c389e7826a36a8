// Table of the public gates: each entry applies a gate through the public API (solver-chosen qubits, controls and
// parameters) and the textbook definition of the same gate to the reference state vector.
#pragma once
#include "vpq.hpp"

static const double R12 = 0.70710678118654752440;
static const double PI_D = 3.14159265358979323846;
static const Cx O1(1, 0), Z0(0, 0), I1(0, 1), N1(-1, 0), NI(0, -1);
static inline Cx ei(double x) { return Cx(std::cos(x), std::sin(x)); }
static inline Mtx M4(Cx a, Cx b, Cx c, Cx d) { Mtx m; m.m[0] = a; m.m[1] = b; m.m[2] = c; m.m[3] = d; return m; }
static inline Mtx mmul(const Mtx& a, const Mtx& b)
{
    return M4(a.m[0] * b.m[0] + a.m[1] * b.m[2], a.m[0] * b.m[1] + a.m[1] * b.m[3], a.m[2] * b.m[0] + a.m[3] * b.m[2], a.m[2] * b.m[1] + a.m[3] * b.m[3]);
}
static inline Mtx adj(const Mtx& a) { return M4(cj(a.m[0]), cj(a.m[2]), cj(a.m[1]), cj(a.m[3])); }
static inline Mtx dg(Cx a, Cx b) { return M4(a, Z0, Z0, b); }
static inline Mtx ad(Cx tr, Cx bl) { return M4(Z0, tr, bl, Z0); }
static inline Mtx mX() { return ad(O1, O1); }
static inline Mtx mY() { return ad(NI, I1); }
static inline Mtx mZ() { return dg(O1, N1); }
static inline Mtx mS() { return dg(O1, I1); }
static inline Mtx mT() { return dg(O1, Cx(R12, R12)); }
static inline Mtx mH() { return M4(Cx(R12), Cx(R12), Cx(R12), Cx(-R12)); }
static inline Mtx mRoot(int n)
{
    if (!n) return dg(O1, O1);
    double a = PI_D / (double)(1ULL << (n - 1));
    return dg(O1, ei(-a)); // documented as a -2*pi/2^n rotation
}
static inline Mtx mU(double th, double ph, double la)
{
    double c = std::cos(th / 2), s = std::sin(th / 2);
    return M4(Cx(c), (-s) * ei(la), s * ei(ph), c * ei(ph + la));
}
static inline Mtx mAI(double az, double inc)
{
    double c = std::cos(inc / 2), s = std::sin(inc / 2);
    return M4(Cx(c), (-s) * ei(-az), s * ei(az), Cx(c));
}
static inline Mtx mRY(double t) { double c = std::cos(t / 2), s = std::sin(t / 2); return M4(Cx(c), Cx(-s), Cx(s), Cx(c)); }
static inline Mtx mRX(double t) { double c = std::cos(t / 2), s = std::sin(t / 2); return M4(Cx(c), Cx(0, -s), Cx(0, -s), Cx(c)); }
static inline Mtx mRZ(double t) { return dg(ei(-t / 2), ei(t / 2)); }

// 4x4 gate on (a = low bit, b = high bit)
static inline Vec ref2q(const Vec& v, const Cx* u, int a, int b, const vector<bitLenInt>& c = {}, size_t perm = ~(size_t)0)
{
    Vec o(v);
    for (size_t i = 0; i < v.size(); i++) {
        if (!ctlOk(i, c, perm)) continue;
        size_t base = i & ~(((size_t)1 << a) | ((size_t)1 << b));
        int row = (int)(((i >> a) & 1) | (((i >> b) & 1) << 1));
        Cx s;
        for (int k = 0; k < 4; k++) {
            const Cx& e = u[row * 4 + k];
            if (e.r == 0 && e.i == 0) continue;
            s = s + e * v[base | ((size_t)(k & 1) << a) | ((size_t)(k >> 1) << b)];
        }
        o[i] = s;
    }
    return o;
}

struct GX {
    QInterfacePtr q;
    Vec v;
    int n;
    double tol;
    unsigned used;
    bool gphase; // the gate is specified up to a global phase
    GX(QInterfacePtr q_, const Vec& v_, int n_) : q(q_), v(v_), n(n_), tol(2e-5), used(0), gphase(false) {}
    void fresh() { used = 0; }
    int qb(const char* nm = "qubit")
    {
        vector<int> f;
        for (int i = 0; i < n; i++) if (!((used >> i) & 1)) f.push_back(i);
        if (f.empty()) { vp_skip(); return 0; }
        int r = f[vp_choose(nm, f.size())];
        used |= 1u << r;
        return r;
    }
    vector<bitLenInt> ctl(int mn, int mx)
    {
        int k = mn + (int)vp_choose("ncontrols", mx - mn + 1);
        vector<bitLenInt> c;
        for (int i = 0; i < k; i++) c.push_back((bitLenInt)qb("control"));
        return c;
    }
    void m1(const Mtx& m, int t, const vector<bitLenInt>& c = {}, size_t perm = ~(size_t)0) { v = refMtrx(v, m, t, c, perm); }
    void m2(const Cx* u, int a, int b, const vector<bitLenInt>& c = {}, size_t perm = ~(size_t)0) { v = ref2q(v, u, a, b, c, perm); }
    template <typename F> void pm(F f) { v = refPerm(v, f); }
    void zeroQ(int t) { for (size_t i = 0; i < v.size(); i++) if ((i >> t) & 1) v[i] = Cx(0, 0); }
    void check(const char* msg) { if (gphase) sameUpToPhase(getState(q), v, tol, msg); else same(getState(q), v, tol, msg); }
};
// three-angle unitaries: one angle arbitrary, the others from a table
static inline double angTab(const char* nm = "angleChoice") { static const double t[3] = { 0.7, -2.25, 0 }; return (double)(float)t[vp_choose(nm, 3)]; }
static inline double ang(const char* nm = "angle") { return (double)vp_f32(nm, -6.2831855f, 6.2831855f); }
static inline Cx unitC(const char* nm = "phase") { double a = ang(nm); return ei(a); }
static inline complex toCC(Cx a) { return complex((real1)a.r, (real1)a.i); }

// ---------------------------------------------------------------- single-qubit gates
static inline void g_named1(GX& g)
{
    int k = (int)vp_choose("gate", 18);
    int t = g.qb("target");
    bitLenInt b = (bitLenInt)t;
    auto q = g.q;
    Mtx H = mH(), S = mS();
    Cx e8p(0.5, 0.5), e8m(0.5, -0.5);
    switch (k) {
    case 0: q->H(b); g.m1(H, t); break;
    case 1: q->S(b); g.m1(S, t); break;
    case 2: q->IS(b); g.m1(adj(S), t); break;
    case 3: q->T(b); g.m1(mT(), t); break;
    case 4: q->IT(b); g.m1(adj(mT()), t); break;
    case 5: q->X(b); g.m1(mX(), t); break;
    case 6: q->Y(b); g.m1(mY(), t); break;
    case 7: q->Z(b); g.m1(mZ(), t); break;
    case 8: q->SqrtX(b); g.m1(M4(e8p, e8m, e8m, e8p), t); break;
    case 9: q->ISqrtX(b); g.m1(M4(e8m, e8p, e8p, e8m), t); break;
    case 10: q->SqrtY(b); g.m1(M4(e8p, -1.0 * e8p, e8p, e8p), t); break;
    case 11: q->ISqrtY(b); g.m1(M4(e8m, e8m, -1.0 * e8m, e8m), t); break;
    case 12: { // sqrt(H) = e^{i pi/4} exp(-i pi/4 H) = ((1+i)/2) I + ((1-i)/2) H
        Mtx m;
        for (int i = 0; i < 4; i++) m.m[i] = e8m * H.m[i];
        m.m[0] = m.m[0] + e8p; m.m[3] = m.m[3] + e8p;
        q->SqrtH(b); g.m1(m, t); break;
    }
    case 13: q->SH(b); g.m1(mmul(S, H), t); break;
    case 14: q->HIS(b); g.m1(mmul(H, adj(S)), t); break;
    case 15: case 16: { // sqrt(W), W = (X+Y)/sqrt2 (Arute 2019)
        Mtx m = M4(Cx(R12), Cx(-0.5, -0.5), Cx(0.5, -0.5), Cx(R12));
        if (k == 15) { q->SqrtW(b); g.m1(m, t); } else { q->ISqrtW(b); g.m1(adj(m), t); }
        break;
    }
    case 17: {
        int n = (int)vp_choose("root", 5);
        q->PhaseRootN((bitLenInt)n, b); g.m1(mRoot(n), t);
        break;
    }
    }
}
static inline void g_rot1k(GX& g, int k)
{
    int t = g.qb("target");
    bitLenInt b = (bitLenInt)t;
    auto q = g.q;
    real1_f x = (real1_f)ang("theta");
    g.tol = 1e-3;
    switch (k) {
    case 0: { int w = (int)vp_choose("which", 3); if (w) x = (real1_f)angTab(); real1_f y = (real1_f)(w == 1 ? ang("phi") : angTab()), z = (real1_f)(w == 2 ? ang("lambda") : angTab()); q->U(b, x, y, z); g.m1(mU(x, y, z), t); break; }
    case 1: { real1_f y = (real1_f)ang("phi"); q->U2(b, x, y); g.m1(mU(PI_D / 2, x, y), t); break; }
    case 2: { real1_f y = (real1_f)ang("phi"); q->IU2(b, x, y); g.m1(adj(mU(PI_D / 2, x, y)), t); break; }
    case 3: { real1_f y = (real1_f)ang("incl"); q->AI(b, x, y); g.m1(mAI(x, y), t); break; }
    case 4: { real1_f y = (real1_f)ang("incl"); q->IAI(b, x, y); g.m1(adj(mAI(x, y)), t); break; }
    case 5: q->RT(x, b); g.m1(dg(O1, ei((double)x / 2)), t); break;
    case 6: q->RX(x, b); g.m1(mRX(x), t); break;
    case 7: q->RY(x, b); g.m1(mRY(x), t); break;
    case 8: q->RZ(x, b); g.m1(mRZ(x), t); break;
    }
}
static inline void g_rot1(GX& g) { g_rot1k(g, 5 + (int)vp_choose("gate", 4)); }
static inline void g_rot1b(GX& g) { g_rot1k(g, 1 + (int)vp_choose("gate", 4)); }
static inline void g_rot1c(GX& g) { g_rot1k(g, 0); }
static inline void g_phase1(GX& g)
{
    int k = (int)vp_choose("gate", 2);
    int t = g.qb("target");
    Cx a = unitC("a"), b = unitC("b");
    g.tol = 1e-3;
    if (k) { g.q->Invert(toCC(a), toCC(b), (bitLenInt)t); g.m1(ad(a, b), t); }
    else { g.q->Phase(toCC(a), toCC(b), (bitLenInt)t); g.m1(dg(a, b), t); }
}
static inline void g_mtrx(GX& g)
{
    int t = g.qb("target");
    Mtx m = symMtx();
    g.tol = 2e-3;
    g.q->Mtrx(CMtx(m).m, (bitLenInt)t);
    g.m1(m, t);
}
// general unitary with symbolic angles
static inline Mtx symU()
{
    double th = ang("theta"), ph = ang("phi"), la = ang("lambda");
    return mU(th, ph, la);
}
// ---------------------------------------------------------------- controlled gates
static inline void g_mc_m(GX& g, const Mtx& m, int maxc)
{
    int k = (int)vp_choose("kind", 3);
    int t = g.qb("target");
    vector<bitLenInt> c = g.ctl(0, maxc);
    g.tol = 2e-3;
    if (k == 0) { g.q->MCMtrx(c, CMtx(m).m, (bitLenInt)t); g.m1(m, t, c); }
    else if (k == 1) { g.q->MACMtrx(c, CMtx(m).m, (bitLenInt)t); g.m1(m, t, c, 0); }
    else { size_t p = (size_t)vp_choose("perm", (uint64_t)1 << c.size()); g.q->UCMtrx(c, CMtx(m).m, (bitLenInt)t, (bitCapInt)(p)); g.m1(m, t, c, p); }
}
static inline void g_mc(GX& g) { g_mc_m(g, symMtx(), 2); }
static inline void g_mcu(GX& g) { g_mc_m(g, symU(), 2); }
static inline void g_mcphase(GX& g)
{
    int k = (int)vp_choose("kind", 6);
    int t = g.qb("target");
    vector<bitLenInt> c = g.ctl(0, 2);
    Cx a = unitC("a"), b = unitC("b");
    complex ca = toCC(a), cb = toCC(b);
    bitLenInt tt = (bitLenInt)t;
    g.tol = 1e-3;
    switch (k) {
    case 0: g.q->MCPhase(c, ca, cb, tt); g.m1(dg(a, b), t, c); break;
    case 1: g.q->MCInvert(c, ca, cb, tt); g.m1(ad(a, b), t, c); break;
    case 2: g.q->MACPhase(c, ca, cb, tt); g.m1(dg(a, b), t, c, 0); break;
    case 3: g.q->MACInvert(c, ca, cb, tt); g.m1(ad(a, b), t, c, 0); break;
    default: {
        size_t p = (size_t)vp_choose("perm", (uint64_t)1 << c.size());
        if (k == 4) { g.q->UCPhase(c, ca, cb, tt, (bitCapInt)(p)); g.m1(dg(a, b), t, c, p); }
        else { g.q->UCInvert(c, ca, cb, tt, (bitCapInt)(p)); g.m1(ad(a, b), t, c, p); }
    }
    }
}
static inline void g_named2(GX& g)
{
    int k = (int)vp_choose("gate", 18);
    int c = g.qb("control"), t = g.qb("target");
    bitLenInt b = (bitLenInt)t, d = (bitLenInt)c;
    auto q = g.q;
    vector<bitLenInt> cc{ d };
    switch (k) {
    case 0: q->CNOT(d, b); g.m1(mX(), t, cc); break;
    case 1: q->AntiCNOT(d, b); g.m1(mX(), t, cc, 0); break;
    case 2: q->CY(d, b); g.m1(mY(), t, cc); break;
    case 3: q->AntiCY(d, b); g.m1(mY(), t, cc, 0); break;
    case 4: q->CZ(d, b); g.m1(mZ(), t, cc); break;
    case 5: q->AntiCZ(d, b); g.m1(mZ(), t, cc, 0); break;
    case 6: q->CH(d, b); g.m1(mH(), t, cc); break;
    case 7: q->AntiCH(d, b); g.m1(mH(), t, cc, 0); break;
    case 8: q->CS(d, b); g.m1(mS(), t, cc); break;
    case 9: q->AntiCS(d, b); g.m1(mS(), t, cc, 0); break;
    case 10: q->CIS(d, b); g.m1(adj(mS()), t, cc); break;
    case 11: q->AntiCIS(d, b); g.m1(adj(mS()), t, cc, 0); break;
    case 12: q->CT(d, b); g.m1(mT(), t, cc); break;
    case 13: q->CIT(d, b); g.m1(adj(mT()), t, cc); break;
    default: {
        int n = (int)vp_choose("root", 4);
        if (k == 14) { q->CPhaseRootN((bitLenInt)n, d, b); g.m1(mRoot(n), t, cc); }
        else if (k == 15) { q->AntiCPhaseRootN((bitLenInt)n, d, b); g.m1(mRoot(n), t, cc, 0); }
        else if (k == 16) { q->CIPhaseRootN((bitLenInt)n, d, b); g.m1(adj(mRoot(n)), t, cc); }
        else { q->AntiCIPhaseRootN((bitLenInt)n, d, b); g.m1(adj(mRoot(n)), t, cc, 0); }
    }
    }
}
static inline void g_named3(GX& g)
{
    int k = (int)vp_choose("gate", 6);
    int c1 = g.qb("control"), c2 = g.qb("control"), t = g.qb("target");
    bitLenInt a = (bitLenInt)c1, d = (bitLenInt)c2, b = (bitLenInt)t;
    auto q = g.q;
    vector<bitLenInt> cc{ a, d };
    switch (k) {
    case 0: q->CCNOT(a, d, b); g.m1(mX(), t, cc); break;
    case 1: q->AntiCCNOT(a, d, b); g.m1(mX(), t, cc, 0); break;
    case 2: q->CCY(a, d, b); g.m1(mY(), t, cc); break;
    case 3: q->AntiCCY(a, d, b); g.m1(mY(), t, cc, 0); break;
    case 4: q->CCZ(a, d, b); g.m1(mZ(), t, cc); break;
    case 5: q->AntiCCZ(a, d, b); g.m1(mZ(), t, cc, 0); break;
    }
}
static inline void g_rot2k(GX& g, int k)
{
    int c = g.qb("control"), t = g.qb("target");
    bitLenInt b = (bitLenInt)t, d = (bitLenInt)c;
    auto q = g.q;
    vector<bitLenInt> cc{ d };
    real1_f x = (real1_f)ang("theta");
    g.tol = 1e-3;
    switch (k) {
    case 0: q->CRZ(x, d, b); g.m1(mRZ(x), t, cc); break;
    case 1: q->CRY(x, d, b); g.m1(mRY(x), t, cc); break;
    case 2: case 3: case 4: case 5: {
        real1_f y = (real1_f)ang("incl");
        Mtx m = mAI(x, y);
        if (k == 2) { q->CAI(d, b, x, y); g.m1(m, t, cc); }
        else if (k == 3) { q->AntiCAI(d, b, x, y); g.m1(m, t, cc, 0); }
        else if (k == 4) { q->CIAI(d, b, x, y); g.m1(adj(m), t, cc); }
        else { q->AntiCIAI(d, b, x, y); g.m1(adj(m), t, cc, 0); }
        break;
    }
    default: {
        int w = (int)vp_choose("which", 3);
        if (w) x = (real1_f)angTab();
        real1_f y = (real1_f)(w == 1 ? ang("phi") : angTab()), z = (real1_f)(w == 2 ? ang("lambda") : angTab());
        if (k == 6) { q->CU(cc, b, x, y, z); g.m1(mU(x, y, z), t, cc); }
        else { q->AntiCU(cc, b, x, y, z); g.m1(mU(x, y, z), t, cc, 0); }
    }
    }
}
static inline void g_rot2(GX& g) { g_rot2k(g, (int)vp_choose("gate", 2)); }
static inline void g_rot2b(GX& g) { g_rot2k(g, 2 + (int)vp_choose("gate", 4)); }
static inline void g_rot2c(GX& g) { g_rot2k(g, 6 + (int)vp_choose("gate", 2)); }
// ---------------------------------------------------------------- swaps
static inline void swapMat(int k, Cx* u)
{
    for (int i = 0; i < 16; i++) u[i] = Z0;
    u[0] = u[15] = O1;
    if (k == 0) { u[6] = u[9] = O1; }
    else if (k == 1) { u[6] = u[9] = I1; }
    else if (k == 2) { u[6] = u[9] = NI; }
    else {
        Cx a(0.5, k == 3 ? 0.5 : -0.5), b(0.5, k == 3 ? -0.5 : 0.5);
        u[5] = u[10] = a; u[6] = u[9] = b;
    }
}
static inline void g_swap(GX& g)
{
    int k = (int)vp_choose("gate", 5);
    int a = g.qb("q1");
    int b = (int)vp_choose("q2", g.n);
    bitLenInt x = (bitLenInt)a, y = (bitLenInt)b;
    auto q = g.q;
    switch (k) {
    case 0: q->Swap(x, y); break;
    case 1: q->ISwap(x, y); break;
    case 2: q->IISwap(x, y); break;
    case 3: q->SqrtSwap(x, y); break;
    case 4: q->ISqrtSwap(x, y); break;
    }
    if (a == b) return;
    Cx u[16];
    swapMat(k, u);
    g.m2(u, a, b);
}
static inline void g_fsim(GX& g)
{
    int a = g.qb("q1"), b = g.qb("q2");
#ifdef LAYER
    static const double ft[6] = { 0, 1.5707963267948966, -1.5707963267948966, 3.141592653589793, -2.0, 1.53 };
    size_t fk = vp_choose("angles", 7); // special angles, or one between them
    real1_f th = fk < 6 ? (real1_f)ft[fk] : (real1_f)vp_f32("theta", 0.25f, 1.25f), ph = (real1_f)ang("phi");
#else
    real1_f th = (real1_f)ang("theta"), ph = (real1_f)ang("phi");
#endif
    g.tol = 3e-3;
    g.q->FSim(th, ph, (bitLenInt)a, (bitLenInt)b);
    Cx u[16];
    for (int i = 0; i < 16; i++) u[i] = Z0;
    u[0] = O1;
    u[5] = u[10] = Cx(std::cos((double)th));
    u[6] = u[9] = Cx(0, -std::sin((double)th));
    u[15] = ei(-(double)ph);
    g.m2(u, a, b);
}
static inline void g_cswap(GX& g)
{
    int k = (int)vp_choose("gate", 6);
    int a = g.qb("q1"), b = g.qb("q2");
    vector<bitLenInt> c = g.ctl(0, 2);
    bitLenInt x = (bitLenInt)a, y = (bitLenInt)b;
    auto q = g.q;
    switch (k) {
    case 0: q->CSwap(c, x, y); break;
    case 1: q->AntiCSwap(c, x, y); break;
    case 2: q->CSqrtSwap(c, x, y); break;
    case 3: q->AntiCSqrtSwap(c, x, y); break;
    case 4: q->CISqrtSwap(c, x, y); break;
    case 5: q->AntiCISqrtSwap(c, x, y); break;
    }
    Cx u[16];
    swapMat(k < 2 ? 0 : k < 4 ? 3 : 4, u);
    g.m2(u, a, b, c, (k & 1) ? 0 : ~(size_t)0);
}
// ---------------------------------------------------------------- mask and diagonal gates
static inline void g_mask(GX& g)
{
    int k = (int)vp_choose("gate", 5);
    g.gphase = (k == 1) || (k == 2) || (k == 3);
    size_t m = (size_t)vp_choose("mask", (uint64_t)1 << g.n);
    auto q = g.q;
    switch (k) {
    case 0: q->XMask((bitCapInt)(m)); for (int i = 0; i < g.n; i++) if ((m >> i) & 1) g.m1(mX(), i); break;
    case 1: q->YMask((bitCapInt)(m)); for (int i = 0; i < g.n; i++) if ((m >> i) & 1) g.m1(mY(), i); break;
    case 2: q->ZMask((bitCapInt)(m)); for (int i = 0; i < g.n; i++) if ((m >> i) & 1) g.m1(mZ(), i); break;
    case 3: {
        int r = (int)vp_choose("root", 4);
        q->PhaseRootNMask((bitLenInt)r, (bitCapInt)(m));
        for (int i = 0; i < g.n; i++) if ((m >> i) & 1) g.m1(mRoot(r), i);
        break;
    }
    case 4: {
        real1_f x = (real1_f)ang("theta");
        q->PhaseParity(x, (bitCapInt)(m));
        g.tol = 1e-3;
        if (!m) { g.gphase = true; break; }
        Cx e = ei(-(double)x / 2), o = ei((double)x / 2);
        for (size_t i = 0; i < g.v.size(); i++) g.v[i] = (__builtin_parityll(i & m) ? o : e) * g.v[i];
        break;
    }
    }
}
static inline void g_flip(GX& g)
{
    int k = (int)vp_choose("gate", 2);
    if (k == 0) { g.q->PhaseFlip(); for (auto& c : g.v) c = -1.0 * c; return; }
    int s = (int)vp_choose("start", g.n), l = (int)vp_choose("length", g.n - s + 1);
    g.q->ZeroPhaseFlip((bitLenInt)s, (bitLenInt)l);
    if (!l) return;
    size_t mk = (((size_t)1 << l) - 1) << s;
    for (size_t i = 0; i < g.v.size(); i++) if (!(i & mk)) g.v[i] = -1.0 * g.v[i];
}
static inline void g_ucsb(GX& g)
{
    int k = (int)vp_choose("gate", 4);
    int t = g.qb("target");
    vector<bitLenInt> c = g.ctl(0, 2);
    size_t np = (size_t)1 << c.size();
    g.tol = 2e-3;
    if (k == 3) { // some bits of the matrix index are held fixed
        size_t ib = c.size() + 1 + vp_choose("skips", 2), val = 0; // index bits, 1-2 of them fixed
        vector<bitCapInt> sk;
        vector<size_t> fr;
        for (size_t b = 0; b < ib; b++) {
            if (fr.size() == c.size() || (sk.size() < ib - c.size() && vp_choose("fixed", 2))) {
                sk.push_back((bitCapInt)((size_t)1 << b));
                val |= (size_t)vp_choose("fixedValue", 2) << b;
            } else fr.push_back(b);
        }
        if (sk.size() != ib - c.size()) vp_skip();
        vector<complex> ms(((size_t)1 << ib) * 4);
        for (size_t i = 0; i < ms.size(); i++) ms[i] = complex((real1)(0.0625 * (double)(i % 16) - 0.5), (real1)(0.0625 * (double)(i / 16)));
        Vec w(g.v);
        for (size_t p = 0; p < np; p++) {
            size_t ix = val;
            for (size_t j = 0; j < c.size(); j++) ix |= ((p >> j) & 1) << fr[j];
            Mtx m;
            for (int i = 0; i < 4; i++) m.m[i] = fromC(ms[ix * 4 + i]);
            w = refMtrx(w, m, t, c, p);
        }
        g.v = w;
        g.q->UniformlyControlledSingleBit(c, (bitLenInt)t, ms.data(), sk, (bitCapInt)val);
        return;
    }
    if (k == 0) {
        vector<complex> ms(np * 4);
        Vec w(g.v);
#ifdef LAYER
        size_t fm = vp_choose("form", 4);
#endif
        for (size_t p = 0; p < np; p++) {
#ifdef LAYER
            int form = fm < 3 ? (int)fm : (int)((p + 1) % 3);
            Mtx m; // entries decided to be zero or not without the solver: full, diagonal or anti-diagonal
            for (int i = 0; i < 4; i++) if (!form || (form == 1) == (i == 0 || i == 3)) m.m[i] = Cx(vp_f32("ucm", 0.25f, 0.75f), vp_f32("ucm", -0.75f, 0.75f));
#else
            Mtx m = symMtx("ucm");
#endif
            for (int i = 0; i < 4; i++) ms[p * 4 + i] = toC(m.m[i]);
            w = refMtrx(w, m, t, c, p);
        }
        g.v = w;
        g.q->UniformlyControlledSingleBit(c, (bitLenInt)t, ms.data());
        return;
    }
    vector<real1> a(np);
    Vec w(g.v);
    for (size_t p = 0; p < np; p++) {
        a[p] = (real1)ang("theta");
        w = refMtrx(w, k == 1 ? mRY(a[p]) : mRZ(a[p]), t, c, p);
    }
    g.v = w;
    if (k == 1) g.q->UniformlyControlledRY(c, (bitLenInt)t, a.data());
    else g.q->UniformlyControlledRZ(c, (bitLenInt)t, a.data());
}
// ---------------------------------------------------------------- register operations
static inline void g_reg(GX& g)
{
    int k = (int)vp_choose("gate", 8);
    int s = (int)vp_choose("start", g.n), l = (int)vp_choose("length", g.n - s + 1);
    size_t mk = (((size_t)1 << l) - 1) << s;
    auto q = g.q;
    bitLenInt S = (bitLenInt)s, L = (bitLenInt)l;
    switch (k) {
    case 0: case 1: {
        int sh = (int)vp_choose("shift", g.n + 2);
        if (k == 0) q->ROL((bitLenInt)sh, S, L); else q->ROR((bitLenInt)sh, S, L);
        if (!l) return;
        int r = sh % l;
        if (k == 1) r = (l - r) % l;
        g.pm([=](size_t i) { size_t x = (i & mk) >> s; x = ((x << r) | (x >> (l - r))) & (mk >> s); return (i & ~mk) | (x << s); });
        break;
    }
    case 2: q->Reverse(S, (bitLenInt)(s + l)); g.pm([=](size_t i) { size_t o = i & ~mk; for (int b = 0; b < l; b++) if ((i >> (s + b)) & 1) o |= (size_t)1 << (s + l - 1 - b); return o; }); break;
    case 3: q->H(S, L); for (int i = 0; i < l; i++) g.m1(mH(), s + i); break;
    case 4: q->X(S, L); g.pm([=](size_t i) { return i ^ mk; }); break;
    case 5: g.gphase = true; q->ZMask((bitCapInt)(mk)); for (int i = 0; i < l; i++) g.m1(mZ(), s + i); break;
    case 6: case 7: {
        // QFT: bit j of the register (significance from the start) per the textbook circuit, without the final swaps
        bool inv = k == 7;
        if (!inv) q->QFT(S, L); else q->IQFT(S, L);
        Vec o(g.v.size());
        size_t N = (size_t)1 << l;
        double nf = 1.0 / std::sqrt((double)N);
        auto rev = [=](size_t x) { size_t r = 0; for (int b = 0; b < l; b++) if ((x >> b) & 1) r |= (size_t)1 << (l - 1 - b); return r; };
        for (size_t i = 0; i < g.v.size(); i++) {
            size_t x = (i & mk) >> s;
            for (size_t y = 0; y < N; y++) {
                // forward: |x> -> sum_y e^{-2 pi i x y / N} |rev(y)>  (PhaseRootN rotates by -2 pi/2^n; no final swaps); the inverse takes |rev(y)> back
                double ph = inv ? 2 * PI_D * (double)((rev(x) * y) % N) / N : -2 * PI_D * (double)((x * y) % N) / N;
                size_t out = inv ? y : rev(y);
                size_t j = (i & ~mk) | (out << s);
                o[j] = o[j] + nf * (ei(ph) * g.v[i]);
            }
        }
        g.v = o;
        break;
    }
    }
}
