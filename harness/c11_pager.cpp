// All dense-layer harnesses on QPager, one translation unit.
#include "layers.hpp"
#include <set>
namespace dense {
#include "layer_dense.cpp"
}
namespace meas {
#include "layer_meas.cpp"
}
#define mkCpu mkLe
namespace c05 {
#include "c05_meas.cpp"
}
#undef mkCpu
namespace c06 {
#include "c06_compose.cpp"
}

#if LAYER == 3
// many page qubits: the page index needs more than 8 bits
VP_CASE(wide)
{
    int n = 11;
    auto q = mkL(n);
    int c = 8 + (int)vp_choose("control", 3);
    bool anti = vp_choose("anti", 2);
    q->H((bitLenInt)c);
    if (anti) q->AntiCNOT((bitLenInt)c, 0); else q->CNOT((bitLenInt)c, 0);
    vp_close(q->ProbAll((bitCapInt)(anti ? 1 : 0)), 0.5, 1e-4, "a control on a high page qubit");
    vp_close(q->ProbAll((bitCapInt)(((size_t)1 << c) | (anti ? 0 : 1))), 0.5, 1e-4, "a control on a high page qubit");
}
#endif
