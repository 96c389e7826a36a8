// Measurement, amplitude access and comparison on a dense layer: table moduli, arbitrary phases and draws.
#include "layers.hpp"
static Vec phaseVec(int n, const char* nm = "phase")
{
    static const double w[8] = { 0.5, 0.3, 0.6, 0.2, 0.45, 0.7, 0.35, 0.15 };
    Vec v((size_t)1 << n);
    size_t zero = vp_choose("support", 3); // all, without the first, only odd indices
    double s = 0;
    auto in = [&](size_t i) { return zero == 0 || (zero == 1 ? i != 0 : (i & 1)); };
    for (size_t i = 0; i < v.size(); i++) if (in(i)) s += w[i] * w[i];
    for (size_t i = 0; i < v.size(); i++) if (in(i)) v[i] = (w[i] / std::sqrt(s)) * ei((double)vp_f32(nm, -6.2831855f, 6.2831855f) * 0.5);
    return v;
}
VP_CASE(meas)
{
    int n = 2 + (int)vp_choose("n", 2);
    auto q = mkL(n);
    MX g{ q, phaseVec(n), n, true, 1e-3 };
    setState(q, g.v);
    x_meas(g);
}
VP_CASE(struc)
{
    int n = 2 + (int)vp_choose("n", 2), s = (int)vp_choose("flip", n);
    auto q = mkL(n);
    MX g{ q, phaseVec(n), n, true, 1e-3 };
    setState(q, g.v);
    // after a gate that leaves the pages merged
    GX a(q, g.v, n);
    q->H((bitLenInt)s); a.m1(mH(), s);
    QInterfacePtr c = q->Clone();
    eqS(getState(c), a.v, false, 1e-3, "a clone has the same state");
    q->X((bitLenInt)s); Vec before = a.v; a.m1(mX(), s);
    eqS(getState(c), before, false, 1e-3, "changing the original leaves the clone alone");
    c->Z((bitLenInt)s);
    eqS(getState(q), a.v, false, 1e-3, "changing the clone leaves the original alone");
}
#if DENSE
VP_CASE(page)
{
    int n = 3;
    auto q = std::dynamic_pointer_cast<QEngine>(mkL(n));
    Vec v = symVec(n);
    setState(q, v);
    size_t N = v.size(), off = vp_choose("offset", N), len = 1 + vp_choose("length", N - off);
    vector<complex> b(N, complex((real1)9, (real1)9));
    switch (vp_choose("op", 5)) {
    case 0:
        q->GetAmplitudePage(b.data(), (bitCapIntOcl)off, (bitCapIntOcl)len);
        for (size_t i = 0; i < N; i++) {
            Cx w = i < len ? v[off + i] : Cx(9, 9);
            vp_close((double)real(b[i]), w.r, 1e-6, "GetAmplitudePage copies exactly the range");
            vp_close((double)imag(b[i]), w.i, 1e-6, "GetAmplitudePage copies exactly the range");
        }
        break;
    case 1: {
        Vec p = symVec(n, "page");
        for (size_t i = 0; i < N; i++) b[i] = toC(p[i]);
        q->SetAmplitudePage(b.data(), (bitCapIntOcl)off, (bitCapIntOcl)len);
        for (size_t i = 0; i < len; i++) v[off + i] = p[i];
        break;
    }
    case 2: {
        size_t so = vp_choose("source", N - len + 1);
        auto p = std::dynamic_pointer_cast<QEngine>(mkL(n));
        Vec w = symVec(n, "page");
        setState(p, w);
        q->SetAmplitudePage(p, (bitCapIntOcl)so, (bitCapIntOcl)off, (bitCapIntOcl)len);
        for (size_t i = 0; i < len; i++) v[off + i] = w[so + i];
        same(getState(p), w, 1e-6, "the source is unchanged");
        break;
    }
    case 3: {
        if (len > 1) vp_skip();
        Cx a(vp_f32("amp", 0.25f, 1.0f), vp_f32("amp", -1.0f, 1.0f));
        q->SetAmplitude((bitCapInt)off, toC(a));
        v[off] = a;
        break;
    }
    case 4: {
        if (len > 1) vp_skip();
        q->SetPermutation((bitCapInt)off, ONE_CMPLX);
        v = Vec(N);
        v[off] = O1;
        break;
    }
    }
    same(getState(q), v, 1e-4, "amplitudes outside the page are unchanged");
}
#endif
VP_CASE(cmp)
{
    int n = 2;
    double t = (double)vp_f32("theta", 0.8f, 2.3f) * 0.5, ph = (double)vp_f32("phase", -6.2831855f, 6.2831855f) * 0.5;
    size_t a = vp_choose("a", 4), b = vp_choose("b", 4);
    if (a == b) vp_skip();
    Vec v(4), w(4);
    v[a] = Cx(std::cos(t)); v[b] = std::sin(t) * ei(ph);
    auto q = mkL(n), p = mkL(n);
    double want = 0;
    switch (vp_choose("case", 3)) {
    case 0: for (int i = 0; i < 4; i++) w[i] = ei(0.7) * v[i]; break;
    case 1: w[a] = O1; want = 1 - std::cos(t) * std::cos(t); break;
    case 2: w[a] = Cx(std::sin(t)); w[b] = Cx(-std::cos(t)) * ei(ph); want = 1; break;
    }
    setState(q, v);
    setState(p, w);
    vp_close(q->SumSqrDiff(p), want, 1e-3, "SumSqrDiff is one minus the squared overlap");
    vp_close(p->SumSqrDiff(q), want, 1e-3, "SumSqrDiff is one minus the squared overlap");
    same(getState(q), v, 1e-3, "comparison leaves the state unchanged");
}
VP_CASE(init)
{
    int n = 1 + (int)vp_choose("n", 4);
    size_t k = vp_choose("perm", (size_t)1 << n);
    auto q = mkL(n, k);
    Vec v((size_t)1 << n);
    v[k] = O1;
    same(getState(q), v, 1e-6, "a new simulator is in the given basis state");
    vp_close(q->ProbAll((bitCapInt)k), 1, 1e-6, "its probability is one");
}
