// Stabilizer states: every state of the table is prepared through the public API and on the reference vector.
#pragma once
#include "gatelib.hpp"
static inline QInterfacePtr mkStab(int n, bool rgph, size_t perm = 0, complex ph = ONE_CMPLX)
{
    return std::make_shared<QStabilizer>((bitLenInt)n, (bitCapInt)perm, vpRgp(), ph, false, rgph, false, -1, false);
}
static inline Vec basisVec(int n, size_t p) { Vec v((size_t)1 << n); v[p] = O1; return v; }
// Clifford preparation chosen by the solver. full: 6 states per qubit, entangler, local layer
static inline void cl1(GX& g, int k, int t)
{
    bitLenInt b = (bitLenInt)t;
    switch (k) {
    case 0: break;
    case 1: g.q->H(b); g.m1(mH(), t); break;
    case 2: g.q->S(b); g.m1(mS(), t); break;
    case 3: g.q->X(b); g.m1(mX(), t); break;
    case 4: g.q->IS(b); g.m1(adj(mS()), t); break;
    case 5: g.q->Z(b); g.m1(mZ(), t); break;
    }
}
static inline void cl2(GX& g, int k, int a, int b)
{
    bitLenInt x = (bitLenInt)a, y = (bitLenInt)b;
    vector<bitLenInt> c{ x };
    switch (k) {
    case 0: break;
    case 1: g.q->CNOT(x, y); g.m1(mX(), b, c); break;
    case 2: g.q->CZ(x, y); g.m1(mZ(), b, c); break;
    case 3: g.q->CY(x, y); g.m1(mY(), b, c); break;
    }
}
static inline void stabPrep2(GX& g, bool thorough)
{
    for (int i = 0; i < 2; i++) {
        int k = (int)vp_choose("prep", thorough ? 6 : 4); // 0, 1, +i, -, then +, -i
        if (k & 1) cl1(g, 3, i);
        if (k >= 2) cl1(g, 1, i);
        if (k == 2 || k == 5) cl1(g, 2, i);
    }
    int e = (int)vp_choose("entangle", 3);
    if (e) cl2(g, e == 1 ? 1 : 2, e == 1 ? 0 : 1, e == 1 ? 1 : 0);
    int l = (int)vp_choose("local", thorough ? 9 : 3);
    static const int T[9][2] = { { 0, 0 }, { 1, 0 }, { 0, 2 }, { 2, 1 }, { 0, 1 }, { 1, 1 }, { 2, 0 }, { 2, 2 }, { 1, 2 } };
    cl1(g, T[l][0], 0);
    cl1(g, T[l][1], 1);
}
// a table of circuits on n qubits: {gate, a, b} triples ending with gate < 0; gates >= 10 are two-qubit
static const signed char STAB_TAB[][30] = {
    { 1, 0, 0, 11, 0, 1, 11, 1, 2, -1 },
    { 1, 0, 0, 2, 0, 0, 11, 0, 2, 1, 1, 0, -1 },
    { 1, 1, 0, 11, 1, 0, 3, 2, 0, 2, 0, 0, -1 },
    { 3, 0, 0, 1, 0, 0, 1, 1, 0, 1, 2, 0, 12, 0, 1, 12, 1, 2, -1 },
    { 1, 0, 0, 1, 1, 0, 1, 2, 0, 12, 0, 1, 12, 1, 2, 12, 0, 2, 2, 1, 0, 1, 2, 0, -1 },
    { 1, 2, 0, 13, 2, 0, 1, 1, 0, 13, 1, 0, 4, 0, 0, -1 },
    { 3, 1, 0, 1, 2, 0, 2, 2, 0, -1 },
    { 1, 0, 0, 3, 1, 0, 11, 0, 1, 1, 2, 0, 12, 2, 0, 1, 0, 0, -1 },
    { -1 },
    { 3, 0, 0, 3, 2, 0, 1, 1, 0, -1 },
    { 1, 0, 0, 1, 1, 0, 4, 1, 0, 13, 0, 1, 3, 2, 0, 11, 1, 2, 5, 2, 0, 1, 1, 0, -1 },
    { 3, 2, 0, 1, 2, 0, 11, 2, 1, 11, 1, 0, 4, 2, 0, 1, 0, 0, -1 },
};
static const int STAB_N = (int)(sizeof(STAB_TAB) / sizeof(STAB_TAB[0]));
static inline void stabPrepK(GX& g, int k)
{
    const signed char* p = STAB_TAB[k];
    for (; *p >= 0; p += 3) {
        if (p[1] >= g.n || p[2] >= g.n) continue;
        if (*p >= 10) cl2(g, *p - 10, p[1], p[2]); else cl1(g, *p, p[1]);
    }
}
static inline void stabPrepN(GX& g) { stabPrepK(g, (int)vp_choose("circuit", STAB_N)); }
// ---- the gates a stabilizer simulator supports
static inline Mtx cliff1(int k)
{
    static const int N = 6;
    (void)N;
    Mtx h = mH(), s = mS();
    Mtx base;
    switch (k % 6) {
    case 0: base = dg(O1, O1); break;
    case 1: base = h; break;
    case 2: base = s; break;
    case 3: base = mmul(h, s); break;
    case 4: base = mmul(s, h); break;
    default: base = mmul(h, mmul(s, h)); break;
    }
    switch (k / 6) {
    case 1: return mmul(mX(), base);
    case 2: return mmul(mY(), base);
    case 3: return mmul(mZ(), base);
    }
    return base;
}
static inline Cx i4(int k) { return k == 0 ? O1 : k == 1 ? I1 : k == 2 ? N1 : NI; }
static inline void s_one(GX& g)
{
    int k = (int)vp_choose("gate", 12), t = g.qb("target");
    bitLenInt b = (bitLenInt)t;
    auto q = g.q;
    Cx e8p(0.5, 0.5), e8m(0.5, -0.5);
    switch (k) {
    case 0: q->H(b); g.m1(mH(), t); break;
    case 1: q->S(b); g.m1(mS(), t); break;
    case 2: q->IS(b); g.m1(adj(mS()), t); break;
    case 3: q->X(b); g.m1(mX(), t); break;
    case 4: q->Y(b); g.m1(mY(), t); break;
    case 5: q->Z(b); g.m1(mZ(), t); break;
    case 6: q->SqrtX(b); g.m1(M4(e8p, e8m, e8m, e8p), t); break;
    case 7: q->ISqrtX(b); g.m1(M4(e8m, e8p, e8p, e8m), t); break;
    case 8: q->SqrtY(b); g.m1(M4(e8p, -1.0 * e8p, e8p, e8p), t); break;
    case 9: q->ISqrtY(b); g.m1(M4(e8m, e8m, -1.0 * e8m, e8m), t); break;
    case 10: q->SH(b); g.m1(mmul(mS(), mH()), t); break;
    case 11: q->HIS(b); g.m1(mmul(mH(), adj(mS())), t); break;
    }
}
static inline void s_two(GX& g)
{
    int k = (int)vp_choose("gate", 10);
    int c = g.qb("q1"), t = g.qb("q2");
    bitLenInt d = (bitLenInt)c, b = (bitLenInt)t;
    auto q = g.q;
    vector<bitLenInt> cc{ d };
    Cx u[16];
    switch (k) {
    case 0: q->CNOT(d, b); g.m1(mX(), t, cc); break;
    case 1: q->AntiCNOT(d, b); g.m1(mX(), t, cc, 0); break;
    case 2: q->CY(d, b); g.m1(mY(), t, cc); break;
    case 3: q->AntiCY(d, b); g.m1(mY(), t, cc, 0); break;
    case 4: q->CZ(d, b); g.m1(mZ(), t, cc); break;
    case 5: q->AntiCZ(d, b); g.m1(mZ(), t, cc, 0); break;
    case 6: q->Swap(d, b); swapMat(0, u); g.m2(u, c, t); break;
    case 7: q->ISwap(d, b); swapMat(1, u); g.m2(u, c, t); break;
    case 8: q->IISwap(d, b); swapMat(2, u); g.m2(u, c, t); break;
    default: { // fSim at Clifford points
        int kt = 2 * (int)vp_choose("theta", 2), kp = (int)vp_choose("phi", 2);
        double th = kt == 0 ? 0 : -PI_D / 2;
        q->FSim((real1_f)th, (real1_f)(kp * PI_D), d, b);
        for (int i = 0; i < 16; i++) u[i] = Z0;
        u[0] = O1;
        u[5] = u[10] = Cx(kt == 0 ? 1 : kt == 1 ? -1 : 0);
        u[6] = u[9] = Cx(0, kt == 2 ? 1 : 0);
        u[15] = Cx(kp ? -1 : 1);
        g.m2(u, c, t);
    }
    }
}
// diagonal and off-diagonal payloads with any fourth roots of unity (and an arbitrary global phase when uncontrolled)
static inline void s_phase(GX& g)
{
    int inv = (int)vp_choose("invert", 2), t = g.qb("target"), a = (int)vp_choose("a", 4), b = (int)vp_choose("b", 4);
    if (inv) { g.q->Invert(toCC(i4(a)), toCC(i4(b)), (bitLenInt)t); g.m1(ad(i4(a), i4(b)), t); }
    else { g.q->Phase(toCC(i4(a)), toCC(i4(b)), (bitLenInt)t); g.m1(dg(i4(a), i4(b)), t); }
}
static inline void s_cphase(GX& g)
{
    int kind = (int)vp_choose("kind", 8), c = g.qb("control"), t = g.qb("target");
    int a = (int)vp_choose("a", 4), b = (int)vp_choose("b", 4);
    bool inv = kind & 1, anti = kind & 2, viaM = kind & 4;
    vector<bitLenInt> cc{ (bitLenInt)c };
    Mtx m = inv ? ad(i4(a), i4(b)) : dg(i4(a), i4(b));
    complex x = toCC(i4(a)), y = toCC(i4(b));
    bitLenInt T = (bitLenInt)t;
    bool threw = false;
    try {
        if (viaM) { CMtx cm(m); if (anti) g.q->MACMtrx(cc, cm.m, T); else g.q->MCMtrx(cc, cm.m, T); }
        else if (inv) { if (anti) g.q->MACInvert(cc, x, y, T); else g.q->MCInvert(cc, x, y, T); }
        else { if (anti) g.q->MACPhase(cc, x, y, T); else g.q->MCPhase(cc, x, y, T); }
    } catch (const std::exception&) { threw = true; }
    // C(diag(a,b)) and C(antidiag) are Clifford exactly when the payload is a Pauli times a phase whose square root is trivial
    int d = (a - b + 4) & 3;
    bool cliff = (d == 0) || (d == 2); // payload proportional to a Pauli by a fourth root of unity
    if (threw) {
        vp_assert(!cliff, "controlled Pauli payload is supported");
        g.tol = 1e-4;
        return; // refused: state unchanged
    }
    g.m1(m, t, cc, anti ? 0 : ~(size_t)0);
}
static inline void s_mtrx(GX& g)
{
    int k = (int)vp_choose("clifford", 24), t = g.qb("target");
    Mtx m = cliff1(k);
    g.q->Mtrx(CMtx(m).m, (bitLenInt)t);
    g.m1(m, t);
}
static inline void s_mask(GX& g)
{
    int k = (int)vp_choose("gate", 3);
    size_t m = (size_t)vp_choose("mask", (uint64_t)1 << g.n);
    g.gphase = true;
    Mtx M = k == 0 ? mX() : k == 1 ? mY() : mZ();
    if (k == 0) g.q->XMask((bitCapInt)m); else if (k == 1) g.q->YMask((bitCapInt)m); else g.q->ZMask((bitCapInt)m);
    for (int i = 0; i < g.n; i++) if ((m >> i) & 1) g.m1(M, i);
}
