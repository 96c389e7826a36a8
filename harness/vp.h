// Harness API. Under the symbolic executor these are intrinsics producing symbolic values and proof obligations;
// in the native replay build (lib/vp_native.cpp) they read the counterexample and report failing obligations.
#pragma once
#include <cstdint>
#include <complex>
#include <string>
extern "C" {
uint64_t vp_u64(const char* name, uint64_t lo, uint64_t hi); // arbitrary integer in [lo, hi]
uint64_t vp_choose(const char* name, uint64_t n);            // arbitrary value < n, case split by the solver
uint64_t vp_concrete(uint64_t x);                            // case split on every feasible value of x
float vp_f32(const char* name, float lo, float hi);          // arbitrary real in [lo, hi]
double vp_f64(const char* name, double lo, double hi);
float vp_rand_f32();                                         // stand-in for std::generate_canonical<float>
double vp_rand_f64();
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);
void vp_close(double a, double b, double tol, const char* msg);
void vp_cover(const char* label);
void vp_fail(const char* msg);
void vp_skip();
void vp_limit(uint64_t insns);
void vp_threads(uint64_t explore, uint64_t preemptions, uint64_t hw);
void vp_debug(const char* label, double v);
bool vp_is_sym(uint64_t x);
}
#define VP_CASE(name) extern "C" void vpcase_##name()
