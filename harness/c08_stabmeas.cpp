#include "stablib.hpp"
#include "multilib.hpp"
static MX mkS(bool rgph, int n = 3)
{
    auto q = mkStab(n, rgph);
    GX g(q, basisVec(n, 0), n);
    stabPrepN(g);
    return MX{ q, g.v, n, rgph, 1e-4 };
}
VP_CASE(probs) { MX g = mkS(true); x_probs(g); }
VP_CASE(probs_ph) { MX g = mkS(false); x_probs(g); }
VP_CASE(meas) { vpq_fork = true; MX g = mkS(true); x_meas(g); }
VP_CASE(meas_ph) { vpq_fork = true; MX g = mkS(false); x_meas(g); }
static void comp(bool rg)
{
    MX g = mkS(rg, 2);
    auto b = mkStab(2, rg);
    GX h(b, basisVec(2, 0), 2);
    stabPrepK(h, (int)vp_choose("circuit2", 5));
    x_compose(g, b, h.v, 2);
}
VP_CASE(compose) { comp(true); }
VP_CASE(compose_ph) { comp(false); }
VP_CASE(split) { MX g = mkS(true); x_split(g, [](int l) { return mkStab(l, true); }); }
VP_CASE(split_ph) { MX g = mkS(false); x_split(g, [](int l) { return mkStab(l, false); }); }
// each outcome of an undetermined qubit takes half of the draws
VP_CASE(fair)
{
    MX g = mkS(vp_choose("rgph", 2));
    int t = (int)vp_choose("qubit", g.n);
    double p = pSumV(g.v, (size_t)1 << t, (size_t)1 << t);
    QInterfacePtr c = g.q->Clone();
    vpq_draws.clear();
    bool a = g.q->M((bitLenInt)t), b = c->M((bitLenInt)t);
    if (p < 1e-4 || p > 1 - 1e-4) { vp_assert(a == b && a == (p > 0.5), "a determined outcome is returned whatever the draw"); return; }
    vp_assert(vpq_draws.size() == 2, "one draw decides an undetermined outcome");
    vp_assert((a == b) == ((vpq_draws[0] < 0.5) == (vpq_draws[1] < 0.5)), "each outcome takes half of the draws");
}
// separability tests agree with the state
VP_CASE(separable)
{
    MX g = mkS(vp_choose("rgph", 2));
    int t = (int)vp_choose("qubit", g.n);
    auto s = std::dynamic_pointer_cast<QStabilizer>(g.q);
    size_t T = (size_t)1 << t;
    double z = 1 - 2 * pSumV(g.v, T, T), x = 0, y = 0;
    for (size_t i = 0; i < g.v.size(); i++) if (!(i & T)) { Cx o = cj(g.v[i]) * g.v[i | T]; x += 2 * o.r; y += 2 * o.i; }
    int want = std::fabs(z) > 0.99 ? 1 : std::fabs(x) > 0.99 ? 2 : std::fabs(y) > 0.99 ? 3 : 0;
    vp_assert(s->IsSeparable((bitLenInt)t) == want, "IsSeparable names the basis of which the qubit is an eigenstate");
    vp_assert(s->IsSeparableZ((bitLenInt)t) == (want == 1), "IsSeparableZ");
    vp_assert(s->IsSeparableX((bitLenInt)t) == (want == 2), "IsSeparableX");
    vp_assert(s->IsSeparableY((bitLenInt)t) == (want == 3), "IsSeparableY");
    Vec rest, part;
    int l = 1 + (int)vp_choose("length", g.n - t);
    bool sep = l == g.n || splitV(g.v, g.n, t, l, rest, part);
    if (s->CanDecomposeDispose((bitLenInt)t, (bitLenInt)l)) vp_assert(sep, "only separable ranges are reported as such");
    eqS(getState(g.q), g.v, g.gphase, g.tol, "separability tests leave the state unchanged");
}
// comparison of two states
VP_CASE(compare)
{
    bool rg = vp_choose("rgph", 2);
    MX g = mkS(rg, 2);
    auto b = mkStab(2, rg);
    GX h(b, basisVec(2, 0), 2);
    stabPrepN(h);
    Cx ov;
    for (size_t i = 0; i < 4; i++) ov = ov + cj(g.v[i]) * h.v[i];
    vp_close(g.q->SumSqrDiff(b), 1 - nrm(ov), 1e-3, "SumSqrDiff is one minus the fidelity");
    vp_assert(g.q->ApproxCompare(b) == (nrm(ov) > 1 - 1e-4), "ApproxCompare recognizes equal states");
    eqS(getState(g.q), g.v, g.gphase, g.tol, "comparison leaves the state unchanged");
    eqS(getState(b), h.v, g.gphase, g.tol, "comparison leaves the other state unchanged");
}
