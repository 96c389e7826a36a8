// Arithmetic families: each picks its parameters (solver choices), restricts the prepared state to the documented
// domain (e.g. output register |0>, carry qubit classical), calls the public method, and updates the reference.
#pragma once
#include "gatelib.hpp"

struct AX : GX {
    QAlu* alu;
    // state preparation: amplitudes outside {i : (i & mask) == val} are zero
    AX(QInterfacePtr q_, int n_) : GX(q_, Vec(), n_), alu(dynamic_cast<QAlu*>(q_.get())) {}
    void prep(size_t mask = 0, size_t val = 0)
    {
        v = symVec(n);
        for (size_t i = 0; i < v.size(); i++) if ((i & mask) != val) v[i] = Z0;
        setState(q, v);
    }
    // normalized: equal moduli, arbitrary independent phases on the support
    void prepN(size_t mask, size_t val)
    {
        v.assign((size_t)1 << n, Z0);
        size_t N = 0;
        for (size_t i = 0; i < v.size(); i++) if ((i & mask) == val) N++;
        double w = 1.0 / std::sqrt((double)N);
        for (size_t i = 0; i < v.size(); i++) if ((i & mask) == val) v[i] = w * ei(vp_f32("phase", -3.1415927f, 3.1415927f));
        setState(q, v);
        classical();
        tol = 1e-4;
    }
    // A classical flag is measured by the method under test: its outcome has probability 1 up to float rounding, so
    // the draw is kept a rounding error away from the ends of [0, 1).
    void classical() { vpq_rndLo = 0.001f; vpq_rndHi = 0.999f; }
    // contiguous register of `len` qubits not overlapping the ones used so far
    int reg(const char* nm, int len)
    {
        vector<int> f;
        for (int s = 0; s + len <= n; s++) {
            unsigned m = ((1u << len) - 1) << s;
            if (!(used & m)) f.push_back(s);
        }
        if (f.empty()) { vp_skip(); return 0; }
        int s = f[vp_choose(nm, f.size())];
        used |= ((1u << len) - 1) << s;
        return s;
    }
};
static inline size_t rmask(int s, int l) { return (((size_t)1 << l) - 1) << s; }
static inline bool ovAdd(size_t x, size_t a, int l)
{
    size_t sg = (size_t)1 << (l - 1), r = (x + a);
    return ((x ^ r) & (a ^ r) & sg) != 0;
}
#define BC(x) ((bitCapInt)(x))
#define BL(x) ((bitLenInt)(x))
// ---- add/subtract a classical constant, no flags.
static inline void a_inc(AX& g)
{
    int k = (int)vp_choose("op", 4), l = 1 + (int)vp_choose("length", g.n), s = g.reg("start", l);
    vector<bitLenInt> c;
    if (k > 1) c = g.ctl(0, 3);
    size_t a = (size_t)vp_choose("value", (uint64_t)1 << l), m = rmask(s, l), lm = m >> s;
    g.prep();
    QInterface* q = g.q.get();
    switch (k) {
    case 0: q->INC(BC(a), BL(s), BL(l)); break;
    case 1: q->DEC(BC(a), BL(s), BL(l)); break;
    case 2: q->CINC(BC(a), BL(s), BL(l), c); break;
    case 3: q->CDEC(BC(a), BL(s), BL(l), c); break;
    }
    size_t d = (k & 1) ? (lm + 1 - a) : a;
    g.pm([&](size_t i) { if (!ctlOk(i, c, ~(size_t)0)) return i; return (i & ~m) | ((((i & m) >> s) + d & lm) << s); });
}
// ---- add/subtract with carry
static inline void a_carry(AX& g)
{
    int k = (int)vp_choose("op", 2), l = 1 + (int)vp_choose("length", g.n - 1), s = g.reg("start", l), cb = g.qb("carry");
    size_t a = (size_t)vp_choose("value", (uint64_t)1 << l), ci = (size_t)vp_choose("carryIn", 2), m = rmask(s, l), lm = m >> s, cm = (size_t)1 << cb;
    g.prepN(cm, ci << cb);
    QInterface* q = g.q.get();
    if (k == 0) { q->INCC(BC(a), BL(s), BL(l), BL(cb)); }
    else { q->DECC(BC(a), BL(s), BL(l), BL(cb)); }
    // 6502 convention: the carry flag set means "no borrow" for subtraction
    size_t d = k == 0 ? a + ci : (lm - a) + ci;
    g.gphase = true;
    g.pm([&](size_t i) { size_t r = ((i & m) >> s) + d; return (i & ~(m | cm)) | ((r & lm) << s) | (r > lm ? cm : 0); });
}
// ---- signed addition: phase flip on overflow
static inline void a_incs(AX& g)
{
    int k = (int)vp_choose("op", 2), l = 1 + (int)vp_choose("length", g.n - 1), s = g.reg("start", l), ob = g.qb("overflow");
    size_t a = (size_t)vp_choose("value", (uint64_t)1 << l), m = rmask(s, l), lm = m >> s, om = (size_t)1 << ob;
    if (k == 1 && a == ((lm + 1) >> 1)) vp_skip(); // the negation of the most negative value is itself
    g.prep();
    if (k == 0) g.alu->INCS(BC(a), BL(s), BL(l), BL(ob)); else g.alu->DECS(BC(a), BL(s), BL(l), BL(ob));
    size_t d = (k ? lm + 1 - a : a) & lm;
    Vec o(g.v.size());
    for (size_t i = 0; i < o.size(); i++) {
        size_t x = (i & m) >> s, j = (i & ~m) | (((x + d) & lm) << s);
        o[j] = (ovAdd(x, d, l) && (i & om)) ? -1.0 * g.v[i] : g.v[i];
    }
    g.v = o;
}
static inline void a_incsc(AX& g)
{
    int k = (int)vp_choose("op", 4), l = 1 + (int)vp_choose("length", g.n - 1 - (k < 2)), s = g.reg("start", l), cb = g.qb("carry"), ob = k < 2 ? g.qb("overflow") : -1;
    size_t a = (size_t)vp_choose("value", (uint64_t)1 << l), ci = (size_t)vp_choose("carryIn", 2), m = rmask(s, l), lm = m >> s, cm = (size_t)1 << cb;
    size_t d = (k & 1) == 0 ? a + ci : (lm - a) + ci;
    if (d == ((lm + 1) >> 1)) vp_skip(); // overflow of a sum whose constant part itself overflows is not specified
    g.prepN(cm, ci << cb);
    switch (k) {
    case 0: g.alu->INCSC(BC(a), BL(s), BL(l), BL(ob), BL(cb)); break;
    case 1: g.alu->DECSC(BC(a), BL(s), BL(l), BL(ob), BL(cb)); break;
    case 2: g.alu->INCSC(BC(a), BL(s), BL(l), BL(cb)); break;
    case 3: g.alu->DECSC(BC(a), BL(s), BL(l), BL(cb)); break;
    }
    g.gphase = true;
    Vec o(g.v.size());
    for (size_t i = 0; i < o.size(); i++) {
        if ((i & cm) != (ci << cb)) continue;
        size_t x = (i & m) >> s, r = x + d, j = (i & ~(m | cm)) | ((r & lm) << s) | (r > lm ? cm : 0);
        bool f = ovAdd(x, d & lm, l) && (k >= 2 || ((i >> ob) & 1));
        o[j] = f ? -1.0 * g.v[i] : g.v[i];
    }
    g.v = o;
}
static inline void a_less(AX& g)
{
    int k = (int)vp_choose("op", 2), l = 1 + (int)vp_choose("length", g.n), s = g.reg("start", l), f = k ? g.qb("flag") : -1;
    size_t a = (size_t)vp_choose("value", ((uint64_t)1 << l) + 1), m = rmask(s, l);
    g.prep();
    if (k) g.alu->CPhaseFlipIfLess(BC(a), BL(s), BL(l), BL(f)); else g.alu->PhaseFlipIfLess(BC(a), BL(s), BL(l));
    for (size_t i = 0; i < g.v.size(); i++) if ((((i & m) >> s) < a) && (!k || ((i >> f) & 1))) g.v[i] = -1.0 * g.v[i];
}
// ---- multiplication / division, carry register initially |0>
static inline void a_mul(AX& g)
{
    int k = (int)vp_choose("op", 4), l = 1 + (int)vp_choose("length", g.n / 2), s = g.reg("start", l), cs = g.reg("carryStart", l);
    vector<bitLenInt> c;
    if (k > 1) c = g.ctl(1, 3);
    size_t a = 1 + (size_t)vp_choose("value", ((uint64_t)1 << l) + 1), m = rmask(s, l), lm = m >> s, cm = rmask(cs, l);
    g.prepN(cm, 0);
    g.gphase = true;
    auto f = [&](size_t i) { if (!ctlOk(i, c, ~(size_t)0)) return i; size_t r = ((i & m) >> s) * a; return (i & ~(m | cm)) | ((r & lm) << s) | (((r >> l) & lm) << cs); };
    if (k == 0) g.alu->MUL(BC(a), BL(s), BL(cs), BL(l));
    else if (k == 2) g.alu->CMUL(BC(a), BL(s), BL(cs), BL(l), c);
    else { // division undoes multiplication
        Vec w = refPerm(g.v, f);
        setState(g.q, w);
        if (k == 1) g.alu->DIV(BC(a), BL(s), BL(cs), BL(l)); else g.alu->CDIV(BC(a), BL(s), BL(cs), BL(l), c);
        return;
    }
    g.pm(f);
}
// ---- out-of-place modular multiplication and exponentiation, output register initially |0>
template <bool P2> static inline void a_modn(AX& g)
{
    int k = (int)vp_choose("op", P2 ? 4 : 6), l = 1 + (int)vp_choose("length", g.n / 2), s = g.reg("inStart", l), os = g.reg("outStart", l);
    vector<bitLenInt> c;
    if (k & 1) c = g.ctl(1, 3);
    size_t N = P2 ? (size_t)2 << vp_choose("log2modN", l) : 2 + (size_t)vp_choose("modN", ((uint64_t)1 << l) - 1);
    size_t a = 1 + (size_t)vp_choose("value", N - 1), m = rmask(s, l), om = rmask(os, l);
    auto f = [&](size_t i) {
        if (!ctlOk(i, c, ~(size_t)0)) return i;
        size_t x = (i & m) >> s, r = 1;
        if (k < 4) r = x * a; else for (size_t t = 0; t < x; t++) r *= a;
        return (i & ~om) | ((r % N) << os);
    };
    g.prepN(om, 0);
    g.gphase = true;
    QInterface* q = g.q.get();
    bitLenInt S = BL(s), O = BL(os), L = BL(l);
    if (k == 2 || k == 3) setState(g.q, refPerm(g.v, f));
    switch (k) {
    case 0: q->MULModNOut(BC(a), BC(N), S, O, L); break;
    case 1: q->CMULModNOut(BC(a), BC(N), S, O, L, c); break;
    case 2: q->IMULModNOut(BC(a), BC(N), S, O, L); return;
    case 3: q->CIMULModNOut(BC(a), BC(N), S, O, L, c); return;
    case 4: g.alu->POWModNOut(BC(a), BC(N), S, O, L); break;
    case 5: g.alu->CPOWModNOut(BC(a), BC(N), S, O, L, c); break;
    }
    g.pm(f);
}
// ---- lookup tables; V: width of the value register (elements of the table take (V + 7) / 8 bytes)
static inline void fillTable(vector<unsigned char>& t, const vector<size_t>& e, int bytes)
{
    t.assign(e.size() * bytes + 64, 0);
    for (size_t i = 0; i < e.size(); i++) for (int b = 0; b < bytes; b++) t[i * bytes + b] = (unsigned char)(e[i] >> (8 * b));
}
static inline void a_indexed(AX& g, int il, int vl)
{
    int k = (int)vp_choose("op", 3), is = g.reg("indexStart", il), vs = g.reg("valueStart", vl), cb = k ? g.qb("carry") : -1;
    vector<size_t> e((size_t)1 << il);
    for (auto& x : e) x = (size_t)vp_choose("entry", (uint64_t)1 << vl);
    vector<unsigned char> t;
    fillTable(t, e, (vl + 7) / 8);
    size_t im = rmask(is, il), vm = rmask(vs, vl), lm = vm >> vs;
    g.gphase = true;
    if (k == 0) {
        g.prepN(vm, 0);
        g.alu->IndexedLDA(BL(is), BL(il), BL(vs), BL(vl), t.data(), vp_choose("reset", 2));
        g.pm([&](size_t i) { return i | (e[(i & im) >> is] << vs); });
        return;
    }
    size_t ci = (size_t)vp_choose("carryIn", 2), cm = (size_t)1 << cb;
    g.prepN(cm, ci << cb);
    if (k == 1) g.alu->IndexedADC(BL(is), BL(il), BL(vs), BL(vl), BL(cb), t.data()); else g.alu->IndexedSBC(BL(is), BL(il), BL(vs), BL(vl), BL(cb), t.data());
    g.pm([&](size_t i) {
        size_t x = (i & vm) >> vs, y = e[(i & im) >> is], r = k == 1 ? x + y + ci : x + (lm - y) + ci;
        return (i & ~(vm | cm)) | ((r & lm) << vs) | (r > lm ? cm : 0);
    });
}
static inline void a_hash(AX& g)
{
    int l = 1 + (int)vp_choose("length", 2), s = g.reg("start", l);
    size_t N = (size_t)1 << l, m = rmask(s, l);
    vector<size_t> e;
    for (size_t i = 0; i < N; i++) { // an arbitrary permutation
        vector<size_t> f;
        for (size_t x = 0; x < N; x++) if (std::find(e.begin(), e.end(), x) == e.end()) f.push_back(x);
        e.push_back(f[vp_choose("entry", f.size())]);
    }
    vector<unsigned char> t;
    fillTable(t, e, 1);
    g.prep();
    g.alu->Hash(BL(s), BL(l), t.data());
    g.pm([&](size_t i) { return (i & ~m) | (e[(i & m) >> s] << s); });
}
// ---- full adders and quantum-quantum addition (output qubits initially |0>)
static inline size_t refFullAdd(size_t i, int a, int b, int c, int o)
{
    size_t x = (i >> a) & 1, y = (i >> b) & 1, z = (i >> c) & 1, s = x + y + z;
    i = (i & ~((size_t)1 << c)) | ((s & 1) << c);
    return i ^ ((s >> 1) << o);
}
static inline void a_fulladd(AX& g)
{
    int k = (int)vp_choose("op", 4), a = g.qb("in1"), b = g.qb("in2"), c = g.qb("carryInSumOut"), o = g.qb("carryOut");
    vector<bitLenInt> ct;
    if (k > 1) ct = g.ctl(0, 1);
    QInterface* q = g.q.get();
    auto f = [&](size_t i) { return ctlOk(i, ct, ~(size_t)0) ? refFullAdd(i, a, b, c, o) : i; };
    g.prep((size_t)1 << o, 0);
    if (k & 1) setState(g.q, refPerm(g.v, f));
    switch (k) {
    case 0: q->FullAdd(BL(a), BL(b), BL(c), BL(o)); break;
    case 1: q->IFullAdd(BL(a), BL(b), BL(c), BL(o)); return;
    case 2: q->CFullAdd(ct, BL(a), BL(b), BL(c), BL(o)); break;
    case 3: q->CIFullAdd(ct, BL(a), BL(b), BL(c), BL(o)); return;
    }
    g.pm(f);
}
static inline void a_adc(AX& g, int L)
{
    int k = (int)vp_choose("op", 4), l = L;
    int a = g.reg("in1", l), b = g.reg("in2", l), o = g.reg("out", l), c = g.qb("carry");
    vector<bitLenInt> ct;
    if (k > 1) ct = g.ctl(1, 1);
    size_t am = rmask(a, l), bm = rmask(b, l), om = rmask(o, l), lm = om >> o;
    auto f = [&](size_t i) {
        if (!ctlOk(i, ct, ~(size_t)0)) return i;
        size_t r = ((i & am) >> a) + ((i & bm) >> b) + ((i >> c) & 1);
        return (i & ~(om | ((size_t)1 << c))) | ((r & lm) << o) | ((r > lm ? (size_t)1 : 0) << c);
    };
    g.prep(om, 0);
    if (k & 1) setState(g.q, refPerm(g.v, f));
    QInterface* q = g.q.get();
    switch (k) {
    case 0: q->ADC(BL(a), BL(b), BL(o), BL(l), BL(c)); break;
    case 1: q->IADC(BL(a), BL(b), BL(o), BL(l), BL(c)); return;
    case 2: q->CADC(ct, BL(a), BL(b), BL(o), BL(l), BL(c)); break;
    case 3: q->CIADC(ct, BL(a), BL(b), BL(o), BL(l), BL(c)); return;
    }
    g.pm(f);
}
