#include "gatelib.hpp"
#ifdef LAYER
#include "layers.hpp"
#undef mkCpu
#define mkCpu mkLc
#define TOL 1e-3
// amplitudes that are decided to be zero or not without the solver
static Vec decVec(int n)
{
    Vec v((size_t)1 << n);
    size_t z = vp_choose("zero", v.size() > 2 ? 3 : v.size());
    for (size_t i = 0; i < v.size(); i++) if (!z || i != z - 1) v[i] = Cx(vp_f32("amp", 0.25f, 0.8f), vp_f32("amp", -0.8f, 0.8f));
    return v;
}
#define symVec decVec
#else
#define TOL 2e-5
#endif
// insert the qubits of b at position s of a
static Vec kron(const Vec& a, const Vec& b, int s, int nb)
{
    Vec o(a.size() * b.size());
    size_t lo = ((size_t)1 << s) - 1;
    for (size_t i = 0; i < o.size(); i++) {
        size_t ib = (i >> s) & (b.size() - 1), ia = (i & lo) | ((i >> nb) & ~lo);
        o[i] = a[ia] * b[ib];
    }
    return o;
}
VP_CASE(compose)
{
    int na = 1 + (int)vp_choose("na", 2), nb = 1 + (int)vp_choose("nb", 2);
    auto a = mkCpu((bitLenInt)na), b = mkCpu((bitLenInt)nb);
    Vec va = symVec(na), vb = symVec(nb);
    setState(a, va);
    setState(b, vb);
    int s = na, r = 0;
    int form = (int)vp_choose("form", 6);
    switch (form) {
    case 0: r = a->Compose(b); break;
    case 1: s = (int)vp_choose("start", na + 1); r = a->Compose(b, (bitLenInt)s); break;
    case 2: r = a->ComposeNoClone(b); break;
    case 3: s = (int)vp_choose("start", na + 1); r = a->QInterface::Compose(std::dynamic_pointer_cast<QInterface>(b), (bitLenInt)s); break;
    case 4: {
        auto c = mkCpu(1);
        Vec vc = symVec(1);
        setState(c, vc);
        auto m = a->Compose(vector<QInterfacePtr>{ b, c });
        vp_assert(m.size() == 2 && m[b] == na && m[c] == na + nb, "Compose of several reports where each starts");
        vp_assert(a->GetQubitCount() == na + nb + 1, "qubit count is the sum");
        same(getState(a), kron(kron(va, vb, na, nb), vc, na + nb, 1), TOL, "Compose forms the tensor product");
        same(getState(b), vb, TOL, "the composed simulator is unchanged");
        return;
    }
    case 5: {
        auto m = a->QInterface::Compose(vector<QInterfacePtr>{ b });
        r = m[b];
        break;
    }
    }
    vp_assert(r == s, "Compose returns the index of the first new qubit");
    vp_assert(a->GetQubitCount() == na + nb, "qubit count is the sum");
    vp_assert((size_t)(bitCapIntOcl)a->GetMaxQPower() == va.size() * vb.size(), "state size is the product");
    same(getState(a), kron(va, vb, s, nb), TOL, "Compose forms the tensor product");
    if (form != 2) same(getState(b), vb, TOL, "the composed simulator is unchanged"); // ComposeNoClone may consume its argument
}
VP_CASE(allocate)
{
    int na = (int)vp_choose("na", 4), nb = (int)vp_choose("length", 3), s = (int)vp_choose("start", na + 1);
    auto a = mkCpu((bitLenInt)na);
    Vec va(1, O1);
    if (na) { va = symVec(na); setState(a, va); }
    int r;
    if (s == na && vp_choose("end", 2)) r = a->Allocate((bitLenInt)nb); else r = a->Allocate((bitLenInt)s, (bitLenInt)nb);
    vp_assert(r == s, "Allocate returns the index of the first new qubit");
    vp_assert(a->GetQubitCount() == na + nb, "qubit count grows by the length");
    if (!(na + nb)) return;
    Vec z((size_t)1 << nb);
    z[0] = O1;
    same(getState(a), kron(va, z, s, nb), TOL, "new qubits start in |0>, the others are unchanged");
}
// product state: the part at [s, s+l) and the remainder are chosen independently
static Vec unitVec(int n, const char* nm)
{
    static const double w[8] = { 0.5, 0.3, 0.6, 0.2, 0.45, 0.7, 0.35, 0.15 };
    Vec v((size_t)1 << n);
    size_t zero = vp_choose("support", v.size() > 2 ? 3 : v.size());
    double s = 0;
    for (size_t i = 0; i < v.size(); i++) if (!zero || i != zero - 1) s += w[i] * w[i];
    for (size_t i = 0; i < v.size(); i++) if (!zero || i != zero - 1) v[i] = (w[i] / std::sqrt(s)) * ei((double)vp_f32(nm, -6.2831855f, 6.2831855f) * 0.5);
    return v;
}
static void upToPhase(const Vec& a, const Vec& b, const char* m) { sameUpToPhase(a, b, 1e-2, m); }
VP_CASE(decompose)
{
    int nr = 1 + (int)vp_choose("remainder", 2), np = 1 + (int)vp_choose("part", 2), s = (int)vp_choose("start", nr + 1);
    Vec vr = unitVec(nr, "rphase"), vp = unitVec(np, "pphase");
    auto q = mkCpu((bitLenInt)(nr + np), ZERO_BCI, vp_choose("doNormalize", 2));
    setState(q, kron(vr, vp, s, np));
    int form = (int)vp_choose("form", 4);
    QInterfacePtr d;
    switch (form) {
    case 0: d = mkCpu((bitLenInt)np); q->Decompose((bitLenInt)s, d); break;
    case 1: d = q->Decompose((bitLenInt)s, (bitLenInt)np); break;
    case 2: q->Dispose((bitLenInt)s, (bitLenInt)np); break;
    case 3: d = mkCpu((bitLenInt)np); vp_assert(q->TryDecompose((bitLenInt)s, d, (real1_f)0.05), "a separable part can be decomposed"); break;
    }
    vp_assert(q->GetQubitCount() == nr, "the part's qubits leave the simulator");
    upToPhase(getState(q), vr, "the remainder keeps its state");
    if (!d) return;
    vp_assert(d->GetQubitCount() == np, "the part has its own qubits");
    upToPhase(getState(d), vp, "the part keeps its state");
    // both phases together
    upToPhase(kron(getState(q), getState(d), s, np), kron(vr, vp, s, np), "part and remainder recombine");
}
VP_CASE(disposeperm)
{
    int nr = (int)vp_choose("remainder", 4), np = 1 + (int)vp_choose("part", 2), s = (int)vp_choose("start", nr + 1);
    size_t k = vp_choose("perm", (size_t)1 << np);
    Vec vr(1, O1), p((size_t)1 << np);
    if (nr) vr = symVec(nr);
    p[k] = O1;
    auto q = mkCpu((bitLenInt)(nr + np));
    setState(q, kron(vr, p, s, np));
    q->Dispose((bitLenInt)s, (bitLenInt)np, (bitCapInt)k);
    vp_assert(q->GetQubitCount() == nr, "the disposed qubits leave the simulator");
    if (nr) same(getState(q), vr, TOL, "the remainder keeps its state");
    else { vp_assert(q->Allocate(1) == 0, "allocation after disposing of everything"); Vec z(2); z[0] = O1; same(getState(q), z, TOL, "a fresh qubit is |0>"); }
}
VP_CASE(tryentangled)
{
    int s = (int)vp_choose("start", 2);
    auto q = mkCpu(2, ZERO_BCI, vp_choose("doNormalize", 2));
    double t = (double)vp_f32("theta", 0.8f, 2.3f) * 0.5;
    Cx p = ei((double)vp_f32("phase", -6.2831855f, 6.2831855f) * 0.5);
    Vec v(4);
    bool anti = vp_choose("anti", 2);
    v[anti ? 1 : 0] = Cx(std::cos(t));
    v[anti ? 2 : 3] = std::sin(t) * p;
    setState(q, v);
    auto d = mkCpu(1);
    vp_assert(!q->TryDecompose((bitLenInt)s, d, (real1_f)1e-3), "an entangled part cannot be decomposed");
    vp_assert(q->GetQubitCount() == 2, "a refused decomposition keeps the qubits");
    same(getState(q), v, 1e-4, "a refused decomposition keeps the state");
}
