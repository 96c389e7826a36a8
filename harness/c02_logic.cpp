#include "alulib.hpp"
#ifdef LAYER
#include "layers.hpp"
#undef mkCpu
#define mkCpu mkLc
#endif
static bool lf(int k, bool a, bool b)
{
    bool r = (k % 3) == 0 ? (a && b) : (k % 3) == 1 ? (a || b) : (a != b);
    return k >= 3 ? !r : r;
}
static void callQ(QInterface* q, int k, int a, int b, int o)
{
    bitLenInt A = BL(a), B = BL(b), O = BL(o);
    switch (k) {
    case 0: q->AND(A, B, O); break;
    case 1: q->OR(A, B, O); break;
    case 2: q->XOR(A, B, O); break;
    case 3: q->NAND(A, B, O); break;
    case 4: q->NOR(A, B, O); break;
    case 5: q->XNOR(A, B, O); break;
    }
}
static void callC(QInterface* q, int k, int a, bool b, int o)
{
    bitLenInt A = BL(a), O = BL(o);
    switch (k) {
    case 0: q->CLAND(A, b, O); break;
    case 1: q->CLOR(A, b, O); break;
    case 2: q->CLXOR(A, b, O); break;
    case 3: q->CLNAND(A, b, O); break;
    case 4: q->CLNOR(A, b, O); break;
    case 5: q->CLXNOR(A, b, O); break;
    }
}
VP_CASE(logic)
{
    AX g(mkCpu(4), 4);
    int k = (int)vp_choose("op", 6), o = (int)vp_choose("output", 4), a = (int)vp_choose("input1", 4), b = (int)vp_choose("input2", 4);
    if (a == o || b == o) {
        if (k % 3 != 2 || (a == o && b == o)) vp_skip();
        // XOR and XNOR also work in place
        g.prep();
        callQ(g.q.get(), k, a, b, o);
        g.pm([&](size_t i) { size_t r = lf(k, (i >> a) & 1, (i >> b) & 1); return (i & ~((size_t)1 << o)) | (r << o); });
    } else {
        g.prep((size_t)1 << o, 0);
        callQ(g.q.get(), k, a, b, o);
        g.pm([&](size_t i) { size_t r = lf(k, (i >> a) & 1, (i >> b) & 1); return i | (r << o); });
    }
    g.check("logic gate writes the Boolean function of its inputs");
}
VP_CASE(cllogic)
{
    AX g(mkCpu(3), 3);
    int k = (int)vp_choose("op", 6), o = (int)vp_choose("output", 3), a = (int)vp_choose("input", 3);
    bool c = vp_choose("classical", 2);
    if (a == o) {
        if (k % 3 != 2) vp_skip();
        g.prep();
        callC(g.q.get(), k, a, c, o);
        g.pm([&](size_t i) { size_t r = lf(k, (i >> a) & 1, c); return (i & ~((size_t)1 << o)) | (r << o); });
    } else {
        g.prep((size_t)1 << o, 0);
        callC(g.q.get(), k, a, c, o);
        g.pm([&](size_t i) { size_t r = lf(k, (i >> a) & 1, c); return i | (r << o); });
    }
    g.check("classical-input logic gate writes the Boolean function of its inputs");
}
VP_CASE(badlogic)
{
    AX g(mkCpu(3), 3);
    int k = (int)vp_choose("op", 4), a = (int)vp_choose("input1", 3), b = (int)vp_choose("input2", 3), o = vp_choose("which", 2) ? a : b;
    if (a == b) vp_skip();
    k = k + k / 2; // AND, OR, NAND, NOR
    g.prep();
    bool t = false;
    try { callQ(g.q.get(), k, a, b, o); } catch (const std::invalid_argument&) { t = true; }
    vp_assert(t, "an output that is also an input is refused");
    g.check("a refused logic gate changes nothing");
}
VP_CASE(shift)
{
    int n = 4;
    AX g(mkCpu(BL(n)), n);
    int k = (int)vp_choose("op", 2), l = (int)vp_choose("length", n + 1), s = l ? g.reg("start", l) : 0, sh = (int)vp_choose("shift", n + 2);
    size_t m = rmask(s, l), lm = m >> s;
    int d = sh < l ? sh : l; // dropped bits are classical
    size_t dm = d ? (k == 0 ? rmask(s + l - d, d) : rmask(s, d)) : 0, dv = 0;
    if (dm) { size_t x = (size_t)vp_choose("dropped", (uint64_t)1 << d); dv = k == 0 ? x << (s + l - d) : x << s; }
    g.prepN(dm, dv);
    g.gphase = true;
    if (k == 0) g.q->LSL(BL(sh), BL(s), BL(l)); else g.q->LSR(BL(sh), BL(s), BL(l));
    g.pm([&](size_t i) { if (!l) return i; size_t x = (i & m) >> s; x = k == 0 ? (x << sh) & lm : x >> sh; return (i & ~m) | (x << s); });
    g.check("logical shift of a register");
}
// SetBit / SetReg: the register holds the value, the rest is the state left by measuring the register
VP_CASE(setbit)
{
    int n = 2, t = (int)vp_choose("qubit", n);
    auto q = mkCpu(BL(n));
    double th = (double)vp_f32("theta", 0.8f, 2.3f) * 0.5, c = std::cos(th), s = std::sin(th);
    Vec v(4);
    for (size_t i = 0; i < 4; i++) {
        bool b = (i >> t) & 1, o = (i >> (1 - t)) & 1;
        v[i] = (b ? s : c) * ((o ? 0.6 : 0.8) * ei((double)vp_f32("phase", -6.2831855f, 6.2831855f) * 0.5));
    }
    setState(q, v);
    bool val = vp_choose("value", 2);
    vpq_rndLo = 0.001f; vpq_rndHi = 0.999f;
    int how = (int)vp_choose("how", 2);
    if (how == 0) q->SetBit(BL(t), val); else q->SetReg(BL(t), 1, BC((size_t)val));
    Vec o = getState(q);
    vp_assert(vpq_draws.size() == 1, "one measurement");
    bool r = vpq_draws[0] <= s * s;
    Vec e(4);
    double w = 1 / (r ? s : c);
    for (size_t i = 0; i < 4; i++) if (((i >> t) & 1) == (r ? 1u : 0u)) e[(i & ~((size_t)1 << t)) | ((size_t)val << t)] = w * v[i];
    // near the decision threshold either outcome may have been taken
    if (vpq_draws[0] > s * s - 1e-4 && vpq_draws[0] < s * s + 1e-4) vp_skip();
    same(o, e, 2e-3, "the qubit holds the value; the rest is left as by measuring it");
}
VP_CASE(setreg)
{
    int n = 4;
    AX g(mkCpu(BL(n)), n);
    int l = (int)vp_choose("length", n + 1), s = l ? g.reg("start", l) : 0;
    size_t m = rmask(s, l), x = (size_t)vp_choose("old", (uint64_t)1 << l), y = (size_t)vp_choose("value", (uint64_t)1 << l);
    g.prepN(l ? m : 0, l ? x << s : 0);
    g.gphase = true;
    g.q->SetReg(BL(s), BL(l), BC(y));
    g.pm([&](size_t i) { if (!l) return i; return (i & ~m) | (y << s); });
    g.check("SetReg of a classical register replaces its value");
}
VP_CASE(setperm)
{
    int n = 3;
    auto q = mkCpu(BL(n), ZERO_BCI, vp_choose("doNormalize", 2));
    setState(q, symVec(n));
    size_t k = vp_choose("perm", 8);
    Vec o(8);
    o[k] = O1;
    switch (vp_choose("how", 3)) {
    case 0: q->SetPermutation((bitCapInt)k); break;
    case 1: { Cx p = ei(vp_f32("phase", -3.1415927f, 3.1415927f)); q->SetPermutation((bitCapInt)k, toC(p)); o[k] = p; break; }
    case 2: q->SetReg(0, BL(n), (bitCapInt)k); break;
    }
    same(getState(q), o, 1e-5, "SetPermutation prepares the basis state");
}
