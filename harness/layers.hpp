// The simulator layers by number; every harness that includes this file is compiled once per layer (-DLAYER=n).
#pragma once
#include "alulib.hpp"
#include "multilib.hpp"
#ifndef LAYER
#define LAYER 1
#endif
#ifndef TH
#define TH 0
#endif
// 1 QUnit/CPU  2 QBdt  3 QPager (1-qubit pages)  4 StabilizerHybrid/CPU  5 QUnit/StabilizerHybrid  6 QTensorNetwork  7 QUnit/QBdt
// 8 QPager (2-qubit pages)  9 CPU (control)  10 QBdtHybrid
static inline QInterfacePtr mkL(int n, size_t perm = 0, bool rgph = false, bool norm = false, Cx ph = O1)
{
    bitLenInt N = (bitLenInt)n;
    bitCapInt P = (bitCapInt)perm;
    typedef vector<QInterfaceEngine> E;
    typedef vector<int64_t> D;
#define REST vpRgp(), toC(ph), norm, rgph, false, -1, false, false, (real1_f)REAL1_EPSILON
    switch (LAYER) {
    case 1: return std::make_shared<QUnit>(E{ QINTERFACE_CPU }, N, P, REST);
    case 2: return std::make_shared<QBdt>(E{ QINTERFACE_CPU }, N, P, REST);
    case 3: return std::make_shared<QPager>(E{ QINTERFACE_CPU }, N, P, REST, D{}, (bitLenInt)1U);
    case 4: return std::make_shared<QStabilizerHybrid>(E{ QINTERFACE_CPU }, N, P, REST);
    case 5: return std::make_shared<QUnit>(E{ QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU }, N, P, REST);
    case 6: return std::make_shared<QTensorNetwork>(E{ QINTERFACE_CPU }, N, P, REST);
    case 7: return std::make_shared<QUnit>(E{ QINTERFACE_BDT }, N, P, REST);
    case 8: return std::make_shared<QPager>(E{ QINTERFACE_CPU }, N, P, REST, D{}, (bitLenInt)2U);
    case 9: return mkCpu(N, P, norm, rgph);
    case 10: return std::make_shared<QBdtHybrid>(E{ QINTERFACE_CPU }, N, P, REST);
    }
    return nullptr;
}
#define DENSE (LAYER == 3 || LAYER == 8 || LAYER == 9)
static inline QInterfacePtr mkLc(int n, bitCapInt perm = ZERO_BCI, bool norm = false, bool rgph = false) { return mkL(n, (size_t)(bitCapIntOcl)perm, rgph, norm); }
#if DENSE
static inline QEnginePtr mkLe(int n, bitCapInt perm = ZERO_BCI, bool norm = false, bool rgph = false) { return std::dynamic_pointer_cast<QEngine>(mkLc(n, perm, norm, rgph)); }
#endif
