#include "alulib.hpp"
#ifdef LAYER
#include "layers.hpp"
#undef mkCpu
#define mkCpu mkLc
#endif
#define A(name, n, msg, ...) VP_CASE(name) { AX g(mkCpu((bitLenInt)(n)), n); __VA_ARGS__; g.check(msg); }
A(inc, 4, "INC/DEC/CINC/CDEC add modulo 2^length", a_inc(g))
A(carry, 4, "INCC/DECC add with carry", a_carry(g))
A(incs, 4, "INCS/DECS flip the phase on signed overflow", a_incs(g))
A(incsc, 4, "INCSC/DECSC add with carry and flip the phase on signed overflow", a_incsc(g))
A(less, 4, "PhaseFlipIfLess flips exactly the smaller values", a_less(g))
A(mul, 5, "MUL/DIV/CMUL/CDIV", a_mul(g))
A(modn, 5, "modular multiplication/exponentiation", a_modn<false>(g))
A(idx, 4, "indexed load/add/subtract with 1-qubit value", a_indexed(g, 1, 1))
A(idx2, 4, "indexed load/add/subtract with 2-qubit value", a_indexed(g, 1, 2))
A(hash, 3, "Hash applies the table permutation", a_hash(g))
A(fulladd, 5, "full adder", a_fulladd(g))
A(adc1, 5, "quantum addition, 1-qubit registers", a_adc(g, 1))
A(adc2, 7, "quantum addition, 2-qubit registers", a_adc(g, 2))
