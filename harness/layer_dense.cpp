// Every gate and arithmetic operation on a layer that holds arbitrary amplitudes: all amplitudes symbolic.
#include "layers.hpp"
static void run(void (*f)(GX&), int n, const char* msg)
{
    // a basis state (on paged layers the other pages are empty) or arbitrary amplitudes
    size_t perm = LAYER == 9 ? 0 : vp_choose("basis", 3);
    if (perm == 2) perm = n == 2 ? 3 : 5;
    auto q = mkL(n, perm);
    Vec v((size_t)1 << n);
    v[perm] = O1;
    if (!perm) {
        v = symVec(n);
        setState(q, v);
    }
    GX g(q, v, n);
    f(g);
    g.check(msg);
}
#define C(name, n) VP_CASE(name) { run(g_##name, n, #name " acts as on the state vector"); }
#if LAYER == 3
#define N4 4
#else
#define N4 3
#endif
C(named1, N4) C(rot1, 3) C(rot1b, 2) C(rot1c, 2) C(phase1, 3) C(mtrx, 3) C(mc, 3) C(mcphase, 3) C(named2, N4) C(named3, 3) C(rot2, 3) C(rot2b, 2) C(rot2c, 2)
C(swap, N4) C(fsim, 3) C(cswap, 4) C(mask, 3) C(flip, N4) C(ucsb, 3) C(reg, 3)
#define A(name, n, ...) VP_CASE(alu_##name) { AX g(mkL(n), n); __VA_ARGS__; g.check(#name " maps integers as documented"); }
A(inc, 4, a_inc(g)) A(carry, 4, a_carry(g)) A(less, 4, a_less(g)) A(mul, 5, a_mul(g)) A(modn, 5, a_modn<false>(g)) A(idx, 4, a_indexed(g, 1, 1)) A(hash, 3, a_hash(g)) A(fulladd, 4, a_fulladd(g))
