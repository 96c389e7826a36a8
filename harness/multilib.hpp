// Queries, measurement and structural operations on any simulator whose state is given by a numeric reference vector.
#pragma once
#include "gatelib.hpp"
struct MX {
    QInterfacePtr q;
    Vec v;
    int n;
    bool gphase; // states compared up to a global phase
    double tol;
};
static inline double pSumV(const Vec& v, size_t mask, size_t val) { double s = 0; for (size_t i = 0; i < v.size(); i++) if ((i & mask) == val) s += nrm(v[i]); return s; }
static inline void eqS(const Vec& got, const Vec& want, bool gphase, double tol, const char* m) { if (gphase) sameUpToPhase(got, want, tol, m); else same(got, want, tol, m); }
static inline Vec projV(const Vec& v, size_t mask, size_t val)
{
    Vec o(v.size());
    double w = 1.0 / std::sqrt(pSumV(v, mask, val));
    for (size_t i = 0; i < v.size(); i++) if ((i & mask) == val) o[i] = w * v[i];
    return o;
}
// qubits [s, s+l) of a product state v: both factors (up to phase)
static inline bool splitV(const Vec& v, int n, int s, int l, Vec& rest, Vec& part)
{
    size_t L = (size_t)1 << l, R = (size_t)1 << (n - l), lo = ((size_t)1 << s) - 1;
    auto ix = [&](size_t r, size_t p) { return (r & lo) | (p << s) | ((r & ~lo) << l); };
    size_t r0 = 0, p0 = 0;
    double best = -1;
    for (size_t r = 0; r < R; r++) for (size_t p = 0; p < L; p++) if (nrm(v[ix(r, p)]) > best + 1e-9) { best = nrm(v[ix(r, p)]); r0 = r; p0 = p; }
    rest = Vec(R); part = Vec(L);
    double nr = 0, np = 0;
    for (size_t r = 0; r < R; r++) { rest[r] = v[ix(r, p0)]; nr += nrm(rest[r]); }
    for (size_t p = 0; p < L; p++) { part[p] = v[ix(r0, p)]; np += nrm(part[p]); }
    for (auto& c : rest) c = (1 / std::sqrt(nr)) * c;
    for (auto& c : part) c = (1 / std::sqrt(np)) * c;
    double f = 0; // |<v | rest x part>|
    Cx ov;
    for (size_t r = 0; r < R; r++) for (size_t p = 0; p < L; p++) ov = ov + cj(rest[r] * part[p]) * v[ix(r, p)];
    f = nrm(ov);
    return f > 1 - 1e-6;
}
static inline bool oneHot(const Vec& v, int t, int& val)
{
    double p = pSumV(v, (size_t)1 << t, (size_t)1 << t);
    val = p > 0.5;
    return p < 1e-6 || p > 1 - 1e-6;
}
// ---- queries that return probabilities or amplitudes
static inline void x_probs(MX& g)
{
    auto q = g.q;
    const Vec& v = g.v;
    size_t N = v.size();
    auto eq = [&](double a, double b, const char* m) { vp_close(a, b, g.tol, m); };
    switch (vp_choose("query", 9)) {
    case 0: for (int t = 0; t < g.n; t++) eq(q->Prob((bitLenInt)t), pSumV(v, (size_t)1 << t, (size_t)1 << t), "Prob is the probability of |1>"); break;
    case 1: for (size_t p = 0; p < N; p++) eq(q->ProbAll((bitCapInt)p), nrm(v[p]), "ProbAll is the probability of a basis state"); break;
    case 2: { size_t m = vp_choose("mask", N); for (size_t p = 0; p < N; p++) if (!(p & ~m)) eq(q->ProbMask((bitCapInt)m, (bitCapInt)p), pSumV(v, m, p), "ProbMask is the probability of the masked bits"); break; }
    case 3: {
        int s = (int)vp_choose("start", g.n), l = (int)vp_choose("length", g.n - s + 1);
        size_t m = (((size_t)1 << l) - 1) << s;
        for (size_t p = 0; p < ((size_t)1 << l); p++) eq(q->ProbReg((bitLenInt)s, (bitLenInt)l, (bitCapInt)p), pSumV(v, m, p << s), "ProbReg is the probability of a register value");
        break;
    }
    case 4: { vector<real1> o(N, (real1)7); q->GetProbs(o.data()); for (size_t p = 0; p < N; p++) eq(o[p], nrm(v[p]), "GetProbs gives every probability"); break; }
    case 5: {
        Vec o(N);
        for (size_t p = 0; p < N; p++) o[p] = fromC(q->GetAmplitude((bitCapInt)p));
        eqS(o, v, g.gphase, g.tol, "GetAmplitude gives every amplitude");
        break;
    }
    case 6: {
        int a = (int)vp_choose("b0", g.n), b = (int)vp_choose("b1", g.n);
        if (a == b) vp_skip();
        vector<bitLenInt> bits{ (bitLenInt)a, (bitLenInt)b };
        vector<real1> o(4, (real1)7);
        q->ProbBitsAll(bits, o.data());
        size_t A = (size_t)1 << a, B = (size_t)1 << b;
        for (int k = 0; k < 4; k++) eq(o[k], pSumV(v, A | B, ((k & 1) ? A : 0) | ((k & 2) ? B : 0)), "ProbBitsAll gives the marginal distribution in the listed bit order");
        break;
    }
    case 7: {
        int a = (int)vp_choose("b0", g.n), b = (int)vp_choose("b1", g.n);
        if (a == b) vp_skip();
        vector<bitLenInt> bits{ (bitLenInt)a, (bitLenInt)b };
        double e = 0, e2 = 0;
        for (size_t i = 0; i < N; i++) { double x = (double)((i >> a) & 1) + 2 * (double)((i >> b) & 1); e += x * nrm(v[i]); e2 += x * x * nrm(v[i]); }
        eq(q->ExpectationBitsAll(bits), e, "ExpectationBitsAll is the mean of the integer value");
        eq(q->VarianceBitsAll(bits), e2 - e * e, "VarianceBitsAll is the variance of the integer value");
        break;
    }
    case 8: {
        int a = (int)vp_choose("b0", g.n), b = (int)vp_choose("b1", g.n);
        if (a == b) vp_skip();
        vector<bitLenInt> bits{ (bitLenInt)a, (bitLenInt)b };
        vector<real1_f> w{ 0.5f, -1.25f, 2.0f, 0.75f };
        vector<bitCapInt> pm{ (bitCapInt)3U, (bitCapInt)1U, (bitCapInt)0U, (bitCapInt)6U };
        double e = 0, e2 = 0, f = 0, f2 = 0;
        for (size_t i = 0; i < N; i++) {
            int x = (i >> a) & 1, y = (i >> b) & 1;
            double c = w[x] + w[2 + y], d = (double)((x ? 1 : 3) + (y ? 6 : 0)) + 2;
            e += c * nrm(v[i]); e2 += c * c * nrm(v[i]);
            f += d * nrm(v[i]); f2 += d * d * nrm(v[i]);
        }
        eq(q->ExpectationFloatsFactorized(bits, w), e, "ExpectationFloatsFactorized is the mean of the summed weights");
        eq(q->VarianceFloatsFactorized(bits, w), e2 - e * e, "VarianceFloatsFactorized is the variance of the summed weights");
        eq(q->ExpectationBitsFactorized(bits, pm, (bitCapInt)2U), f, "ExpectationBitsFactorized is the mean of the summed values");
        eq(q->VarianceBitsFactorized(bits, pm, (bitCapInt)2U), f2 - f * f, "VarianceBitsFactorized is the variance of the summed values");
        break;
    }
    }
    eqS(getState(q), v, g.gphase, g.tol, "a query leaves the state unchanged");
}
// ---- measurement with arbitrary draws: the outcome is possible, the state is projected and normalized, and stays measured
static inline void x_meas(MX& g)
{
    auto q = g.q;
    size_t N = g.v.size(), mask = 0, val = 0;
    int how = (int)vp_choose("how", 7);
    vpq_draws.clear();
    vpq_rndLo = 0.001f; vpq_rndHi = 0.999f;
    switch (how) {
    case 0: { int t = (int)vp_choose("qubit", g.n); mask = (size_t)1 << t; val = q->M((bitLenInt)t) ? mask : 0; break; }
    case 1: { // forced, to an outcome of nonzero probability
        int t = (int)vp_choose("qubit", g.n);
        bool w = vp_choose("want", 2);
        mask = (size_t)1 << t;
        if (pSumV(g.v, mask, w ? mask : 0) < 1e-3) vp_skip();
        bool r = q->ForceM((bitLenInt)t, w);
        vp_assert(r == w, "a forced outcome is returned");
        val = w ? mask : 0;
        break;
    }
    case 2: mask = N - 1; val = (size_t)vp_concrete((uint64_t)(bitCapIntOcl)q->MAll()); break;
    case 3: {
        int s = (int)vp_choose("start", g.n), l = 1 + (int)vp_choose("length", g.n - s);
        mask = (((size_t)1 << l) - 1) << s;
        val = (size_t)vp_concrete((uint64_t)(bitCapIntOcl)q->MReg((bitLenInt)s, (bitLenInt)l)) << s;
        break;
    }
    case 4: { // not applied: nothing happens
        int t = (int)vp_choose("qubit", g.n);
        bool r = q->ForceM((bitLenInt)t, false, false, false);
        vp_assert(pSumV(g.v, (size_t)1 << t, r ? (size_t)1 << t : 0) > 1e-4, "an outcome of probability zero is never returned");
        eqS(getState(q), g.v, g.gphase, g.tol, "no collapse when the measurement is not applied");
        return;
    }
    case 5: { // sampling: no collapse, every shot is possible
        int a = (int)vp_choose("b0", g.n), b = (int)vp_choose("b1", g.n);
        if (a == b) vp_skip();
        auto m = q->MultiShotMeasureMask(vector<bitCapInt>{ (bitCapInt)((size_t)1 << a), (bitCapInt)((size_t)1 << b) }, 2);
        int tot = 0;
        size_t A = (size_t)1 << a, B = (size_t)1 << b;
        for (auto& kv : m) {
            size_t k = (size_t)vp_concrete((uint64_t)(bitCapIntOcl)kv.first);
            tot += kv.second;
            vp_assert(k < 4 && pSumV(g.v, A | B, ((k & 1) ? A : 0) | ((k & 2) ? B : 0)) > 1e-4, "every sampled value is possible");
        }
        vp_assert(tot == 2, "as many samples as shots");
        eqS(getState(q), g.v, g.gphase, g.tol, "sampling leaves the state unchanged");
        return;
    }
    case 6: { // reset: measured and set
        int t = (int)vp_choose("qubit", g.n);
        bool w = vp_choose("want", 2);
        size_t T = (size_t)1 << t;
        q->SetBit((bitLenInt)t, w);
        Vec got = getState(q);
        // either projection, moved to the wanted value
        double d[2] = { 9, 9 };
        for (int r = 0; r < 2; r++) {
            if (pSumV(g.v, T, r ? T : 0) < 1e-3) continue;
            Vec p = projV(g.v, T, r ? T : 0), e(N);
            for (size_t i = 0; i < N; i++) e[(i & ~T) | (w ? T : 0)] = e[(i & ~T) | (w ? T : 0)] + p[i];
            Cx ov;
            for (size_t i = 0; i < N; i++) ov = ov + cj(e[i]) * got[i];
            d[r] = 1 - nrm(ov);
        }
        vp_assert(d[0] < 1e-3 || d[1] < 1e-3, "SetBit leaves the bit at the value and the rest as left by measuring it");
        return;
    }
    }
    vp_assert(!(val & ~mask), "the outcome lies within the measured bits");
    vp_assert(pSumV(g.v, mask, val & mask) > 1e-4, "an outcome of probability zero is never returned");
    eqS(getState(q), projV(g.v, mask, val), true, g.tol, "measurement leaves the normalized projection on its outcome");
    if (how == 0) {
        int t = 0;
        while (!((mask >> t) & 1)) t++;
        vp_assert(q->M((bitLenInt)t) == (val != 0), "measuring again gives the same outcome");
    }
}
// ---- structure
static inline Vec kronV(const Vec& a, const Vec& b, int s, int nb)
{
    Vec o(a.size() * b.size());
    size_t lo = ((size_t)1 << s) - 1;
    for (size_t i = 0; i < o.size(); i++) {
        size_t ib = (i >> s) & (b.size() - 1), ia = (i & lo) | ((i >> nb) & ~lo);
        o[i] = a[ia] * b[ib];
    }
    return o;
}
static inline void x_compose(MX& g, QInterfacePtr b, const Vec& vb, int nb)
{
    int s = g.n, r;
    if (vp_choose("middle", 2)) { s = (int)vp_choose("start", g.n + 1); r = g.q->Compose(b, (bitLenInt)s); } else r = g.q->Compose(b);
    vp_assert(r == s, "Compose returns the index of the first new qubit");
    vp_assert(g.q->GetQubitCount() == g.n + nb, "qubit count is the sum");
    eqS(getState(g.q), kronV(g.v, vb, s, nb), g.gphase, g.tol, "Compose forms the tensor product");
    eqS(getState(b), vb, g.gphase, g.tol, "the composed simulator is unchanged");
}
static inline void x_split(MX& g, std::function<QInterfacePtr(int)> mk)
{
    int how = (int)vp_choose("how", 6);
    int s = (int)vp_choose("start", g.n), l = 1 + (int)vp_choose("length", g.n - s);
    if (how == 4) { // allocate in place
        int k = (int)vp_choose("new", 2) + 1;
        int r = g.q->Allocate((bitLenInt)s, (bitLenInt)k);
        vp_assert(r == s, "Allocate returns the index of the first new qubit");
        Vec z((size_t)1 << k);
        z[0] = O1;
        eqS(getState(g.q), kronV(g.v, z, s, k), g.gphase, g.tol, "new qubits start in |0>");
        return;
    }
    if (how == 5) { // clone, then change the original
        QInterfacePtr c = g.q->Clone();
        eqS(getState(c), g.v, g.gphase, g.tol, "a clone has the same state");
        GX a(g.q, g.v, g.n), b(c, g.v, g.n);
        a.q->H((bitLenInt)s); a.m1(mH(), s);
        a.q->X((bitLenInt)s); a.m1(mX(), s);
        eqS(getState(c), g.v, g.gphase, g.tol, "changing the original leaves the clone alone");
        b.q->Y((bitLenInt)s); b.m1(mY(), s);
        b.q->H((bitLenInt)s); b.m1(mH(), s);
        eqS(getState(a.q), a.v, g.gphase, g.tol, "changing the clone leaves the original alone");
        eqS(getState(c), b.v, g.gphase, g.tol, "a clone can be used on its own");
        return;
    }
    if (l == g.n) vp_skip();
    Vec rest, part;
    if (!splitV(g.v, g.n, s, l, rest, part)) vp_skip(); // only separable ranges may be split off
    if (how == 0) {
        auto d = mk(l);
        g.q->Decompose((bitLenInt)s, d);
        eqS(getState(d), part, true, g.tol, "Decompose moves the range's state out");
    } else if (how == 1) {
        auto d = g.q->Decompose((bitLenInt)s, (bitLenInt)l);
        vp_assert(d->GetQubitCount() == l, "the new simulator has the range's length");
        eqS(getState(d), part, true, g.tol, "Decompose moves the range's state out");
    } else if (how == 2) {
        g.q->Dispose((bitLenInt)s, (bitLenInt)l);
    } else {
        size_t val = 0;
        for (int i = 0; i < l; i++) { int b; if (!oneHot(g.v, s + i, b)) vp_skip(); val |= (size_t)b << i; }
        g.q->Dispose((bitLenInt)s, (bitLenInt)l, (bitCapInt)val);
    }
    vp_assert(g.q->GetQubitCount() == g.n - l, "the remaining qubit count");
    eqS(getState(g.q), rest, true, g.tol, "the remaining qubits keep their state");
}
