#include "alulib.hpp"
// a back end whose gates are the CPU engine's and whose arithmetic is the generic gate-by-gate one throughout
struct QGen : public QEngineCPU {
    using QEngineCPU::QEngineCPU;
    typedef bitLenInt L;
    typedef const bitCapInt& B;
    typedef const std::vector<bitLenInt>& V;
    void INC(B a, L s, L l) { QInterface::INC(a, s, l); }
    void DEC(B a, L s, L l) { QInterface::DEC(a, s, l); }
    void CINC(B a, L s, L l, V c) { QInterface::CINC(a, s, l, c); }
    void CDEC(B a, L s, L l, V c) { QInterface::CDEC(a, s, l, c); }
    void INCDECC(B a, L s, L l, L c) { QInterface::INCDECC(a, s, l, c); }
    void INCC(B a, L s, L l, L c) { QInterface::INCC(a, s, l, c); }
    void DECC(B a, L s, L l, L c) { QInterface::DECC(a, s, l, c); }
    void MULModNOut(B a, B n, L i, L o, L l) { QInterface::MULModNOut(a, n, i, o, l); }
    void IMULModNOut(B a, B n, L i, L o, L l) { QInterface::IMULModNOut(a, n, i, o, l); }
    void CMULModNOut(B a, B n, L i, L o, L l, V c) { QInterface::CMULModNOut(a, n, i, o, l, c); }
    void CIMULModNOut(B a, B n, L i, L o, L l, V c) { QInterface::CIMULModNOut(a, n, i, o, l, c); }
    void FullAdd(L a, L b, L c, L o) { QInterface::FullAdd(a, b, c, o); }
    void IFullAdd(L a, L b, L c, L o) { QInterface::IFullAdd(a, b, c, o); }
};
static inline QInterfacePtr mkGen(int n) { return std::make_shared<QGen>((bitLenInt)n, ZERO_BCI, vpRgp(), ONE_CMPLX, false, false, false, -1, false); }
#define A(name, n, msg, ...) VP_CASE(name) { AX g(mkGen(n), n); __VA_ARGS__; g.check(msg); }
A(inc, 5, "gate-based INC/DEC/CINC/CDEC add modulo 2^length", a_inc(g))
A(carry, 5, "gate-based INCC/DECC add with carry", a_carry(g))
A(modn, 5, "gate-based modular multiplication", a_modn<true>(g))
A(modn6, 6, "gate-based modular multiplication, 6 qubits", a_modn<true>(g))
A(fulladd, 5, "gate-based full adder", a_fulladd(g))
A(adc2, 7, "quantum addition over gate-based full adders", a_adc(g, 2))
VP_CASE(modn_any)
{
    AX g(mkGen(6), 6);
    int k = (int)vp_choose("op", 2), l = 2 + (int)vp_choose("length", 2), s = g.reg("inStart", l), os = g.reg("outStart", l);
    size_t N = 2 + (size_t)vp_choose("modN", ((uint64_t)1 << l) - 1);
    size_t a = 1 + (size_t)vp_choose("value", N - 1), m = rmask(s, l), om = rmask(os, l);
    auto f = [&](size_t i) { return (i & ~om) | ((((i & m) >> s) * a % N) << os); };
    g.prepN(om, 0);
    g.gphase = true;
    if (k) {
        setState(g.q, refPerm(g.v, f));
        g.q->IMULModNOut(BC(a), BC(N), s, os, l);
    } else {
        g.q->MULModNOut(BC(a), BC(N), s, os, l);
        g.pm(f);
    }
    g.check(("gate-based modular multiplication, length " + std::to_string(l) + " modulus " + std::to_string(N)).c_str());
}
