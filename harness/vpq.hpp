// Shared helpers of the harnesses: construction of simulators, symbolic states, a small reference simulator.
#pragma once
#include "vp.h"
#include "qfactory.hpp"
#include <random>

// stand-in for std::generate_canonical: any value of its documented range [0, 1)
static float vpq_rndLo = 0, vpq_rndHi = 1;
static bool vpq_fork = false; // split each draw at 1/2 (coin flips), so that what depends on it is concrete
static std::vector<double> vpq_draws; // every value drawn so far
extern "C" __attribute__((used, noinline)) inline float vp_rand_f32_impl(std::mt19937_64&)
{
    float r = vpq_rndHi < 1 ? vp_f32("rnd", vpq_rndLo, vpq_rndHi) : vp_rand_f32();
    vpq_draws.push_back((double)r);
    if (vpq_fork) vp_concrete(r >= 0.5f);
    return r;
}
extern "C" __attribute__((used, noinline)) inline double vp_rand_f64_impl(std::mt19937_64&)
{
    double r = vpq_rndHi < 1 ? vp_f64("rnd", vpq_rndLo, vpq_rndHi) : vp_rand_f64();
    vpq_draws.push_back(r);
    if (vpq_fork) vp_concrete(r >= 0.5);
    return r;
}
static void* vpq_keep[] __attribute__((used)) = { (void*)vp_rand_f32_impl, (void*)vp_rand_f64_impl };

using namespace Qrack;
using std::vector;

struct Cx {
    double r, i;
    Cx(double a = 0, double b = 0) : r(a), i(b) {}
};
static inline Cx operator+(Cx a, Cx b) { return Cx(a.r + b.r, a.i + b.i); }
static inline Cx operator-(Cx a, Cx b) { return Cx(a.r - b.r, a.i - b.i); }
static inline Cx operator*(Cx a, Cx b) { return Cx(a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r); }
static inline Cx operator*(double a, Cx b) { return Cx(a * b.r, a * b.i); }
static inline Cx cj(Cx a) { return Cx(a.r, -a.i); }
static inline double nrm(Cx a) { return a.r * a.r + a.i * a.i; }
static inline complex toC(Cx a) { return complex((real1)a.r, (real1)a.i); }
static inline Cx fromC(complex a) { return Cx((double)real(a), (double)imag(a)); }
typedef vector<Cx> Vec;
struct Mtx { Cx m[4]; };

static inline qrack_rand_gen_ptr vpRgp() { static qrack_rand_gen_ptr p = std::make_shared<qrack_rand_gen>(1U); return p; }

static inline QEngineCPUPtr mkCpu(bitLenInt n, bitCapInt perm = ZERO_BCI, bool doNorm = false, bool rgph = false)
{
    return std::make_shared<QEngineCPU>(n, perm, vpRgp(), ONE_CMPLX, doNorm, rgph, false, -1, false);
}

// 2^n arbitrary complex amplitudes, components in [-1, 1] (normalization not assumed)
static inline Vec symVec(int n, const char* nm = "amp")
{
    Vec v(1 << n);
    for (auto& c : v) {
        c.r = vp_f32(nm, -1.0f, 1.0f);
        c.i = vp_f32(nm, -1.0f, 1.0f);
    }
    return v;
}
static inline void setState(const QInterfacePtr& q, const Vec& v)
{
    vector<complex> a(v.size());
    for (size_t i = 0; i < v.size(); i++) a[i] = toC(v[i]);
    q->SetQuantumState(a.data());
}
static inline Vec getState(const QInterfacePtr& q)
{
    vector<complex> a((size_t)(bitCapIntOcl)q->GetMaxQPower());
    q->GetQuantumState(a.data());
    Vec v(a.size());
    for (size_t i = 0; i < v.size(); i++) v[i] = fromC(a[i]);
    return v;
}
static inline void same(const Vec& a, const Vec& b, double tol, const char* msg)
{
    if (a.size() != b.size()) { vp_fail(msg); return; }
    for (size_t i = 0; i < a.size(); i++) {
        vp_close(a[i].r, b[i].r, tol, msg);
        vp_close(a[i].i, b[i].i, tol, msg);
    }
}
// equal up to one global phase factor
static inline void sameUpToPhase(const Vec& a, const Vec& b, double tol, const char* msg)
{
    if (a.size() != b.size()) { vp_fail(msg); return; }
    for (size_t i = 0; i < a.size(); i++) {
        vp_close(nrm(a[i]), nrm(b[i]), tol, msg);
        for (size_t j = 0; j < i; j++) {
            Cx d = a[i] * b[j] - a[j] * b[i];
            vp_close(d.r, 0, tol, msg);
            vp_close(d.i, 0, tol, msg);
        }
    }
}
// ---- reference simulator (textbook definitions, by direct indexing)
static inline bool ctlOk(size_t i, const vector<bitLenInt>& c, size_t perm)
{
    for (size_t k = 0; k < c.size(); k++) if (((i >> c[k]) & 1) != ((perm >> k) & 1)) return false;
    return true;
}
static inline Vec refMtrx(const Vec& v, const Mtx& m, int t, const vector<bitLenInt>& c = {}, size_t perm = ~(size_t)0)
{
    Vec o(v);
    for (size_t i = 0; i < v.size(); i++) {
        if (!ctlOk(i, c, perm)) continue;
        size_t i0 = i & ~((size_t)1 << t), i1 = i0 | ((size_t)1 << t);
        bool b = (i >> t) & 1;
        o[i] = m.m[b ? 2 : 0] * v[i0] + m.m[b ? 3 : 1] * v[i1];
    }
    return o;
}
template <typename F> static inline Vec refPerm(const Vec& v, F f)
{
    Vec o(v.size());
    for (size_t i = 0; i < v.size(); i++) o[f(i)] = o[f(i)] + v[i];
    return o;
}
static inline Mtx symMtx(const char* nm = "m")
{
    Mtx m;
    for (auto& c : m.m) { c.r = vp_f32(nm, -1.0f, 1.0f); c.i = vp_f32(nm, -1.0f, 1.0f); }
    return m;
}
struct CMtx { complex m[4]; CMtx(const Mtx& a) { for (int i = 0; i < 4; i++) m[i] = toC(a.m[i]); } };
