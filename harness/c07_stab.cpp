#include "stablib.hpp"
#ifndef TH
#define TH 0
#endif
static void go(void (*f)(GX&), bool rgph, int n, bool full)
{
    auto q = mkStab(n, rgph);
    GX g(q, basisVec(n, 0), n);
    if (full) stabPrep2(g, TH); else stabPrepN(g);
    g.tol = 1e-4;
    f(g);
    if (rgph) g.gphase = true;
    g.check(rgph ? "stabilizer gate acts as its unitary up to a global phase" : "stabilizer gate acts as its unitary");
}
#define S(name, full) \
    VP_CASE(name) { go(s_##name, true, 2, full); } \
    VP_CASE(name##_ph) { go(s_##name, false, 2, full); } \
    VP_CASE(name##_3) { go(s_##name, true, 3, false); } \
    VP_CASE(name##_ph3) { go(s_##name, false, 3, false); }
S(one, true)
S(two, true)
S(phase, TH)
S(cphase, TH)
S(mtrx, TH)
S(mask, TH)
// an arbitrary global phase is carried through every gate
VP_CASE(globalphase)
{
    const int n = 2;
    Cx ph = ei((double)vp_f32("globalPhase", TH ? -0.7f : -0.2f, TH ? 1.2f : 0.9f));
    size_t p0 = TH ? (size_t)vp_choose("permutation", 4) : 3 * (size_t)vp_choose("permutation", 2);
    auto q = mkStab(n, false, p0, toC(ph));
    Vec v = basisVec(n, p0);
    v[p0] = ph;
    GX g(q, v, n);
    g.tol = 1e-3;
    int b = TH ? (int)vp_choose("basis", 4) : (int)vp_choose("basis", 2);
    if (b & 1) cl1(g, 1, 0);
    if (b & 2) cl1(g, 1, 1);
    int k = (int)vp_choose("gate", 8);
    if (k < 6) { if (k) cl1(g, k, g.qb("target")); }
    else { int a = g.qb("control"); cl2(g, k - 5, a, 1 - a); }
    g.check("stabilizer gate carries the global phase along");
}
// anything else is either applied exactly or refused without effect
static void refuse(bool rgph, int n)
{
    auto q = mkStab(n, rgph);
    GX g(q, basisVec(n, 0), n);
    if (n == 2) stabPrep2(g, TH); else stabPrepN(g);
    g.tol = 1e-4;
    g.gphase = rgph;
    int k = (int)vp_choose("gate", 8), t = g.qb("target");
    bitLenInt b = (bitLenInt)t;
    int o = (t + 1) % n;
    vector<bitLenInt> c{ (bitLenInt)o };
    Vec before = g.v;
    Mtx T = dg(O1, Cx(std::sqrt(0.5), std::sqrt(0.5)));
    double cs = std::cos(0.4), sn = std::sin(0.4);
    Mtx R = M4(Cx(cs), Cx(-sn), Cx(sn), Cx(cs)), P = M4(Z0, Cx(cs, sn), Cx(cs, -sn), Z0);
    auto cm = [](const Mtx& m, complex* o) { for (int i = 0; i < 4; i++) o[i] = toC(m.m[i]); };
    complex m[4];
    bool threw = false;
    try {
        switch (k) {
        case 0: q->T(b); g.m1(T, t); break;
        case 1: q->Phase(ONE_CMPLX, toC(T.m[3]), b); g.m1(T, t); break;
        case 2: cm(R, m); q->Mtrx(m, b); g.m1(R, t); break;
        case 3: q->Invert(toC(P.m[1]), toC(P.m[2]), b); g.m1(P, t); break;
        case 4: q->MCPhase(c, ONE_CMPLX, toC(I1), b); g.m1(mS(), t, c); break;
        case 5: q->MACInvert(c, toC(P.m[1]), toC(P.m[2]), b); g.m1(P, t, c, 0); break;
        case 6: cm(mH(), m); q->MCMtrx(c, m, b); g.m1(mH(), t, c); break;
        case 7: { // two controls
            if (n < 3) vp_skip();
            c.push_back((bitLenInt)((t + 2) % n));
            q->MCInvert(c, ONE_CMPLX, ONE_CMPLX, b); g.m1(mX(), t, c);
            break;
        }
        }
    } catch (const std::exception&) { threw = true; }
    if (threw) { g.v = before; vp_cover("refused"); } else vp_cover("applied");
    g.check(threw ? "a refused gate changes nothing" : "a gate that is not refused acts as its unitary");
}
VP_CASE(refuse) { refuse(true, 2); }
VP_CASE(refuse_ph) { refuse(false, 2); }
VP_CASE(refuse_3) { refuse(true, 3); }
VP_CASE(refuse_ph3) { refuse(false, 3); }
