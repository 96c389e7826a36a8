#include "gatelib.hpp"
#ifdef LAYER
#include "layers.hpp"
#undef mkCpu
#define mkCpu mkLe
#define STOL 1e-3
#else
#define STOL 5e-5
#endif
#include <set>
static Vec smallVec(int n)
{
    Vec v((size_t)1 << n);
    for (auto& c : v) { c.r = vp_f32("amp", -0.2f, 0.2f); c.i = vp_f32("amp", -0.2f, 0.2f); }
    return v;
}
static void eq(double a, double b, const char* m) { vp_close(a, b, 1e-5, m); }
template <typename F> static double pSum(const Vec& v, F f)
{
    double s = 0;
    for (size_t i = 0; i < v.size(); i++) if (f(i)) s += nrm(v[i]);
    return s;
}
// generic: `base` calls the QInterface default implementation
static void probs(bool base, int n)
{
    auto q = mkCpu((bitLenInt)n);
    Vec v = smallVec(n);
    setState(q, v);
    switch (vp_choose("query", base ? 5 : 10)) {
    case 0: {
        size_t k = vp_choose("perm", v.size());
        double p = base ? q->QInterface::ProbAll((bitCapInt)k) : q->ProbAll((bitCapInt)k);
        eq(p, nrm(v[k]), "ProbAll is the squared modulus of the amplitude");
        break;
    }
    case 1: {
        int l = 1 + (int)vp_choose("length", n), s = (int)vp_choose("start", n - l + 1);
        size_t k = vp_choose("value", (size_t)1 << l);
        double p = base ? q->QInterface::ProbReg(s, l, (bitCapInt)k) : q->ProbReg(s, l, (bitCapInt)k);
        eq(p, pSum(v, [&](size_t i) { return ((i >> s) & (((size_t)1 << l) - 1)) == k; }), "ProbReg sums the matching amplitudes");
        break;
    }
    case 2: {
        size_t m = vp_choose("mask", v.size()), k = vp_choose("value", v.size());
        if (k & ~m) vp_skip();
        double p = base ? q->QInterface::ProbMask((bitCapInt)m, (bitCapInt)k) : q->ProbMask((bitCapInt)m, (bitCapInt)k);
        eq(p, pSum(v, [&](size_t i) { return (i & m) == k; }), "ProbMask sums the matching amplitudes");
        break;
    }
    case 3: {
        size_t m = vp_choose("mask", v.size());
        vector<int> b;
        for (int i = 0; i < n; i++) if ((m >> i) & 1) b.push_back(i);
        vector<real1> o((size_t)1 << b.size(), (real1)7);
        if (base) q->QInterface::ProbMaskAll((bitCapInt)m, o.data()); else q->ProbMaskAll((bitCapInt)m, o.data());
        for (size_t k = 0; k < o.size(); k++)
            eq(o[k], pSum(v, [&](size_t i) { for (size_t j = 0; j < b.size(); j++) if (((i >> b[j]) & 1) != ((k >> j) & 1)) return false; return true; }),
                "ProbMaskAll gives the marginal distribution");
        break;
    }
    case 4: {
        unsigned used = 0;
        int l = (int)vp_choose("nbits", n + 1);
        vector<bitLenInt> b;
        for (int j = 0; j < l; j++) { int x = (int)vp_choose("bit", n); if ((used >> x) & 1) vp_skip(); used |= 1u << x; b.push_back((bitLenInt)x); }
        vector<real1> o((size_t)1 << l, (real1)7);
        if (base) q->QInterface::ProbBitsAll(b, o.data()); else q->ProbBitsAll(b, o.data());
        for (size_t k = 0; k < o.size(); k++)
            eq(o[k], pSum(v, [&](size_t i) { for (size_t j = 0; j < b.size(); j++) if (((i >> b[j]) & 1) != ((k >> j) & 1)) return false; return true; }),
                "ProbBitsAll gives the marginal distribution in the listed bit order");
        break;
    }
    case 5: {
        int t = (int)vp_choose("qubit", n);
        eq(q->Prob((bitLenInt)t), pSum(v, [&](size_t i) { return (i >> t) & 1; }), "Prob sums the amplitudes with the bit set");
        break;
    }
    case 6: {
        size_t m = vp_choose("mask", v.size());
        eq(q->ProbParity((bitCapInt)m), pSum(v, [&](size_t i) { return __builtin_parityll(i & m); }), "ProbParity sums the odd amplitudes");
        break;
    }
    case 7: {
        int l = 1 + (int)vp_choose("length", n), s = (int)vp_choose("start", n - l + 1);
        vector<real1> o((size_t)1 << l, (real1)7);
        q->ProbRegAll(s, l, o.data());
        for (size_t k = 0; k < o.size(); k++) eq(o[k], pSum(v, [&](size_t i) { return ((i >> s) & (((size_t)1 << l) - 1)) == k; }), "ProbRegAll gives the marginal distribution");
        break;
    }
    case 8: {
        vector<real1> o(v.size(), (real1)7);
        q->GetProbs(o.data());
        for (size_t k = 0; k < o.size(); k++) eq(o[k], nrm(v[k]), "GetProbs gives every squared modulus");
        break;
    }
    case 9: {
        size_t k = vp_choose("perm", v.size());
        Cx a = fromC(q->GetAmplitude((bitCapInt)k));
        eq(a.r, v[k].r, "GetAmplitude returns the amplitude");
        eq(a.i, v[k].i, "GetAmplitude returns the amplitude");
        break;
    }
    }
    same(getState(q), v, STOL, "a probability query leaves the state unchanged");
}
VP_CASE(probs) { probs(false, 3); }
VP_CASE(probs1) { probs(false, 1); }
VP_CASE(probsdefault) { probs(true, 3); }
VP_CASE(prob4) // single-qubit probability with more qubits
{
    int n = 4;
    auto q = mkCpu((bitLenInt)n);
    Vec v((size_t)1 << n);
    for (size_t i = 0; i < v.size(); i++) v[i] = (i & 1) ? Cx(0, vp_f32("amp", 0.05f, 0.15f)) : Cx(vp_f32("amp", 0.05f, 0.15f));
    setState(q, v);
    int t = (int)vp_choose("qubit", n);
    eq(q->Prob((bitLenInt)t), pSum(v, [&](size_t i) { return (i >> t) & 1; }), "Prob sums the amplitudes with the bit set");
}
#ifndef LAYER
VP_CASE(probs4) { probs(false, 4); }
#endif

// one arbitrary angle between the halves of the state picked out by qubit `t`; arbitrary phase on every amplitude
static double theta;
static Vec thetaState(int n, int t, bool phases = true)
{
    static const double w[8] = { 0.5, 0.3, 0.6, 0.2, 0.45, 0.7, 0.35, 0.15 };
    theta = (double)vp_f32("theta", 0.8f, 2.3f) * 0.5;
    double c = std::cos(theta), s = std::sin(theta);
    Vec v((size_t)1 << n);
    double nn[2] = { 0, 0 };
    for (size_t i = 0; i < v.size(); i++) nn[(i >> t) & 1] += w[i & 7] * w[i & 7];
    for (size_t i = 0; i < v.size(); i++) {
        bool b = (i >> t) & 1;
        double x = w[i & 7] / std::sqrt(nn[b]);
        v[i] = ((b ? s : c) * x) * (phases ? ei((double)vp_f32("phase", -6.2831855f, 6.2831855f) * 0.5) : Cx(1, 0));
    }
    return v;
}
static Vec project(const Vec& v, size_t mask, size_t val, double p)
{
    Vec o(v.size());
    double w = 1.0 / std::sqrt(p);
    for (size_t i = 0; i < v.size(); i++) if ((i & mask) == val) o[i] = w * v[i];
    return o;
}
static double gDraw;
static int gDraws;
static void band(double r, double lo, double hi, const char* m)
{
    vp_assert(r >= lo - 1e-4, m);
    vp_assert(r <= hi + 1e-4, m);
}
VP_CASE(m1)
{
    int n = 1 + (int)vp_choose("n", 3), t = (int)vp_choose("qubit", n);
    bool norm = vp_choose("doNormalize", 2);
    auto q = mkCpu((bitLenInt)n, ZERO_BCI, norm);
    Vec v = thetaState(n, t);
    setState(q, v);
    double c = std::cos(theta), s = std::sin(theta);
    size_t tm = (size_t)1 << t;
    int how = (int)vp_choose("how", 5);
    bool r = false, applied = true, forced = false;
    vpq_draws.clear();
    switch (how) {
    case 0: r = q->M((bitLenInt)t); break;
    case 1: r = q->ForceM((bitLenInt)t, false, false, false); applied = false; break;
    case 2: { bool w = vp_choose("want", 2); r = q->ForceM((bitLenInt)t, w, true, true); vp_assert(r == w, "forced outcome is returned"); forced = true; break; }
    case 3: r = q->MReg((bitLenInt)t, 1) != 0; break;
    case 4: r = q->M(vector<bitLenInt>{ (bitLenInt)t }) != 0; break;
    }
    if (!forced) {
        vp_assert(vpq_draws.size() == 1, "one draw per measurement");
        double d = vpq_draws[0];
        if (r) band(d, 0, s * s, "outcome 1 exactly when the draw is below its probability");
        else band(d, s * s, 1, "outcome 0 exactly when the draw is above the probability of 1");
    }
    if (!applied) { same(getState(q), v, STOL, "no collapse when not applied"); return; }
    double w = 1 / (r ? s : c);
    Vec o(v.size());
    for (size_t i = 0; i < v.size(); i++) if (((i >> t) & 1) == (r ? 1u : 0u)) o[i] = w * v[i];
    vpq_rndLo = 0.001f; vpq_rndHi = 0.999f;
    same(getState(q), o, 1e-3, "measurement leaves the normalized projection");
    vp_assert(q->M((bitLenInt)t) == r, "a repeated measurement repeats the outcome");
}
// product state: qubit t has an arbitrary angle, the others one from a table (some are basis states)
static Vec prodState(int n, int t, vector<double>* pr)
{
    static const double tab[4] = { 0, 0.6, 1.5707963267948966, 1.1 };
    theta = (double)vp_f32("theta", 0.8f, 2.3f) * 0.5;
    vector<double> c(n), s(n);
    for (int j = 0; j < n; j++) {
        if (j == t) { c[j] = std::cos(theta); s[j] = std::sin(theta); continue; }
        int k = n > 2 ? 1 + 2 * (int)vp_choose("angle2", 2) : (int)vp_choose("angle", 4);
        if (n > 2 && k == 1) k = 2;
        c[j] = k == 2 ? 0 : std::cos(tab[k]);
        s[j] = k == 0 ? 0 : k == 2 ? 1 : std::sin(tab[k]);
    }
    Vec v((size_t)1 << n);
    pr->assign(v.size(), 0);
    for (size_t i = 0; i < v.size(); i++) {
        double a = 1;
        for (int j = 0; j < n; j++) a = a * (((i >> j) & 1) ? s[j] : c[j]);
        (*pr)[i] = a * a;
        v[i] = a * ei((double)vp_f32("phase", -6.2831855f, 6.2831855f) * 0.5);
    }
    return v;
}
#ifndef LAYER // the outcome a draw selects is specified for the CPU engine only
// multi-qubit measurement
VP_CASE(mmulti)
{
    int n = 2 + (int)vp_choose("n", 2), t = (int)vp_choose("arbitraryQubit", n);
    auto q = mkCpu((bitLenInt)n);
    vector<double> pr;
    Vec v = prodState(n, t, &pr);
    setState(q, v);
    vpq_draws.clear();
    vpq_rndLo = 0.001f; vpq_rndHi = 0.999f; // away from the rounding of a certain outcome
    int how = (int)vp_choose("how", 8);
    size_t mask = 0, res = 0;
    bool applied = true, forced = false;
    vector<size_t> order; // outcomes in cumulative order
    auto deposit = [&](size_t k) { size_t r = 0; int j = 0; for (int i = 0; i < n; i++) if ((mask >> i) & 1) { if ((k >> j) & 1) r |= (size_t)1 << i; j++; } return r; };
    auto P = [&](size_t k) { double s = 0; for (size_t i = 0; i < v.size(); i++) if ((i & mask) == k) s += pr[i]; return s; };
    vector<bitLenInt> b;
    if (how < 4) {
        int l = 2 + (int)vp_choose("nbits", n - 1);
        for (int j = 0; j < l; j++) { int x = (int)vp_choose("bit", n); if ((mask >> x) & 1) vp_skip(); mask |= (size_t)1 << x; b.push_back((bitLenInt)x); }
    }
    int s = 0, l = n;
    if (how >= 4 && how < 7) { l = 1 + (int)vp_choose("length", n); s = (int)vp_choose("start", n - l + 1); mask = ((((size_t)1 << l) - 1) << s); }
    if (how == 7) mask = v.size() - 1;
    size_t want = 0;
    if (how == 2 || how == 3 || how == 5) {
        want = vp_choose("want", v.size());
        if (want & ~mask) vp_skip();
        forced = true;
        if (!(P(want) > 1e-3)) vp_skip();
    }
    vector<bool> vals;
    if (how == 2 || how == 3) for (auto x : b) vals.push_back((want >> x) & 1);
    switch (how) {
    case 0: res = (size_t)(bitCapIntOcl)q->M(b); break;
    case 1: res = (size_t)(bitCapIntOcl)q->ForceM(b, vector<bool>(), false); applied = false; break;
    case 2: res = (size_t)(bitCapIntOcl)q->ForceM(b, vals); break;
    case 3: res = (size_t)(bitCapIntOcl)q->ForceM(b, vals, false); applied = false; break;
    case 4: res = (size_t)(bitCapIntOcl)q->MReg(s, l) << s; break;
    case 5: res = (size_t)(bitCapIntOcl)q->ForceMReg(s, l, (bitCapInt)(want >> s)) << s; break;
    case 6: res = (size_t)(bitCapIntOcl)q->ForceMReg(s, l, ZERO_BCI, false, false) << s; applied = false; break;
    case 7: res = (size_t)(bitCapIntOcl)q->MAll(); break;
    }
    vp_assert(!(res & ~mask), "only measured qubits appear in the result");
    if (forced) vp_assert(res == want, "forced outcome is returned");
    else if (vpq_draws.empty()) vp_close(P(res), 1, 1e-4, "no draw only for a certain outcome");
    else {
        vp_assert(vpq_draws.size() == 1, "one draw per measurement");
        double d = vpq_draws[0], lo = 0;
        if (__builtin_popcountll(mask) == 1) { // the single-qubit rule: 1 below its probability
            if (res) band(d, 0, P(res), "outcome selected by its probability"); else band(d, P(mask), 1, "outcome selected by its probability");
        } else {
            for (size_t k = 0; deposit(k) != res; k++) lo += P(deposit(k));
            band(d, lo, lo + P(res), "outcome selected by the cumulative distribution");
        }
        vp_assert(P(res) > 1e-9, "an outcome of probability zero is never returned");
    }
    if (!applied) { same(getState(q), v, STOL, "no collapse when not applied"); return; }
    double nn = 0;
    Vec o = getState(q);
    for (size_t i = 0; i < v.size(); i++) nn += nrm(o[i]);
    vp_close(nn, 1, 2e-3, "measurement leaves a normalized state");
    if (how == 7) { vp_close(nrm(o[res]), 1, 2e-3, "MAll collapses to the measured basis state"); return; }
    // parallel to the projection of the old state
    for (size_t i = 0; i < v.size(); i++) {
        if ((i & mask) != res) { vp_close(o[i].r, 0, 1e-6, "other outcomes removed"); vp_close(o[i].i, 0, 1e-6, "other outcomes removed"); continue; }
        vp_close(nrm(o[i]) * P(res), pr[i], 2e-3, "relative weights kept");
        Cx d = o[i] * cj(v[i]);
        vp_close(d.i, 0, 2e-3, "phases kept");
        vp_assert(d.r >= -2e-3, "phases kept");
    }
}
#endif
VP_CASE(mparity)
{
    int n = 2, t = (int)vp_choose("arbitraryQubit", n);
    auto q = mkCpu((bitLenInt)n);
    vector<double> pr;
    Vec v = prodState(n, t, &pr);
    setState(q, v);
    size_t mask = 1 + vp_choose("mask", v.size() - 1);
    double odd = 0;
    for (size_t i = 0; i < v.size(); i++) if (__builtin_parityll(i & mask)) odd += pr[i];
    vpq_draws.clear();
    int how = (int)vp_choose("how", 3);
    bool r;
    if (how == 0) r = q->MParity((bitCapInt)mask);
    else {
        if (!((how == 1 ? odd : 1 - odd) > 1e-3)) vp_skip();
        r = q->ForceMParity((bitCapInt)mask, how == 1, true);
        vp_assert(r == (how == 1), "forced parity is returned");
    }
    if (how == 0) {
        vp_assert(vpq_draws.size() == 1, "one draw per measurement");
        double d = vpq_draws[0];
        if (r) { band(d, 0, odd, "odd exactly when the draw is below its probability"); vp_assert(odd > 1e-9, "an outcome of probability zero is never returned"); }
        else { band(d, odd, 1, "even exactly when the draw is above the odd probability"); if (d <= 1 - 1e-4) vp_assert(odd < 1 - 1e-9, "an outcome of probability zero is never returned"); }
    }
    double p = r ? odd : 1 - odd, nn = 0;
    Vec o = getState(q);
    for (size_t i = 0; i < v.size(); i++) nn += nrm(o[i]);
    if (p < 1e-6) return;
    vp_close(nn, 1, 2e-3, "measurement leaves a normalized state");
    for (size_t i = 0; i < v.size(); i++) {
        if ((__builtin_parityll(i & mask) != 0) != r) { vp_close(o[i].r, 0, 1e-6, "other parity removed"); vp_close(o[i].i, 0, 1e-6, "other parity removed"); continue; }
        vp_close(nrm(o[i]) * p, pr[i], 2e-3, "relative weights kept");
        Cx d = o[i] * cj(v[i]);
        vp_close(d.i, 0, 2e-3, "phases kept");
        vp_assert(d.r >= -2e-3, "phases kept");
    }
}
VP_CASE(multishot)
{
    int n = 2, t = (int)vp_choose("arbitraryQubit", n);
    auto q = mkCpu((bitLenInt)n);
    vector<double> pr;
    Vec v = prodState(n, t, &pr);
    setState(q, v);
    unsigned used = 0;
    int l = 1 + (int)vp_choose("nbits", n);
    vector<bitCapInt> pw;
    vector<int> b;
    for (int j = 0; j < l; j++) { int x = (int)vp_choose("bit", n); if ((used >> x) & 1) vp_skip(); used |= 1u << x; pw.push_back(pow2(x)); b.push_back(x); }
    auto idx = [&](size_t i) { size_t k = 0; for (int j = 0; j < l; j++) if ((i >> b[j]) & 1) k |= (size_t)1 << j; return k; };
    vector<double> m((size_t)1 << l, 0.0);
    for (size_t i = 0; i < v.size(); i++) m[idx(i)] += pr[i];
    unsigned shots = (unsigned)vp_choose("shots", 3);
    vpq_draws.clear();
    vpq_rndLo = 0.001f; vpq_rndHi = 0.999f; // std::discrete_distribution itself maps a draw of exactly 0 to the first entry
    vector<size_t> seen;
    if (vp_choose("array", 2)) {
        vector<unsigned long long> a(shots + 1, 99);
        q->MultiShotMeasureMask(pw, shots, a.data());
        vp_assert(a[shots] == 99, "writes exactly the requested shots");
        for (unsigned i = 0; i < shots; i++) seen.push_back((size_t)a[i]);
        vp_assert(vpq_draws.size() == shots, "one draw per shot");
        for (unsigned i = 0; i < shots; i++) {
            double lo = 0;
            for (size_t k = 0; k < seen[i]; k++) lo += m[k];
            band(vpq_draws[i], lo, lo + m[seen[i]], "sample selected by the cumulative distribution of the listed bits");
            vp_assert(m[seen[i]] > 1e-9, "an outcome of probability zero is never sampled");
        }
    } else {
        auto r = q->MultiShotMeasureMask(pw, shots);
        size_t tot = 0;
        for (auto& kv : r) { vp_assert(kv.second > 0, "counts are positive"); tot += kv.second; for (int c = 0; c < kv.second; c++) seen.push_back((size_t)(bitCapIntOcl)kv.first); }
        vp_assert(tot == shots, "counts sum to the number of shots");
        vp_assert(vpq_draws.size() == shots, "one draw per shot");
        for (auto k : seen) {
            double lo = 0;
            for (size_t j = 0; j < k; j++) lo += m[j];
            bool any = false;
            for (double d : vpq_draws) if (d >= lo - 1e-4 && d <= lo + m[k] + 1e-4) any = true;
            vp_assert(any, "sample selected by the cumulative distribution of the listed bits");
            vp_assert(m[k] > 1e-9, "an outcome of probability zero is never sampled");
        }
    }
    same(getState(q), v, STOL, "sampling leaves the state unchanged");
}
#ifndef LAYER
VP_CASE(cprob)
{
    int n = 2 + (int)vp_choose("n", 2), t = (int)vp_choose("control", n), u = (int)vp_choose("target", n);
    if (t == u) vp_skip();
    auto q = mkCpu((bitLenInt)n);
    Vec v = thetaState(n, t);
    setState(q, v);
    bool on = vp_choose("anti", 2) == 0;
    double both = pSum(v, [&](size_t i) { return (((i >> t) & 1) == (on ? 1u : 0u)) && ((i >> u) & 1); }), c = std::cos(theta), s = std::sin(theta);
    double p = on ? q->CProb((bitLenInt)t, (bitLenInt)u) : q->ACProb((bitLenInt)t, (bitLenInt)u);
    vp_close(p * (on ? s * s : c * c), both, 1e-3, "conditional probability of the target given the control");
    same(getState(q), v, STOL, "a probability query leaves the state unchanged");
}
#endif
