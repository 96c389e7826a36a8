#include "gatelib.hpp"
#ifndef NQ
#define NQ 3
#endif
static void run(void (*f)(GX&), int n, const char* msg)
{
    auto q = mkCpu((bitLenInt)n);
    Vec v = symVec(n);
    setState(q, v);
    GX g(q, v, n);
    f(g);
    g.check(msg);
}
#define C(name, n, msg) VP_CASE(name) { run(g_##name, n, msg); }
C(named1, 3, "named single-qubit gate applies its matrix")
C(rot1, 2, "single-qubit rotation applies its matrix")
C(rot1b, 1, "single-qubit two-angle rotation applies its matrix")
C(rot1c, 1, "single-qubit unitary applies its matrix")
C(phase1, 2, "Phase/Invert applies its matrix")
C(mtrx, 3, "Mtrx applies its matrix to the target qubit")
C(mc, 3, "controlled matrix acts exactly when the controls match")
C(mcphase, 3, "controlled phase/invert acts exactly when the controls match")
C(named2, 3, "named two-qubit controlled gate applies its matrix")
C(named3, 3, "named three-qubit controlled gate applies its matrix")
C(rot2, 3, "controlled rotation applies its matrix")
C(rot2b, 2, "controlled rotation applies its matrix")
C(rot2c, 2, "controlled rotation applies its matrix")
C(swap, 3, "swap family applies its matrix")
C(fsim, 3, "fSim applies its matrix")
C(cswap, 4, "controlled swap family applies its matrix")
C(mask, 3, "mask gate acts on every masked qubit")
C(flip, 3, "phase flip")
C(ucsb, 3, "uniformly controlled gate")
C(reg, 3, "register operation")
