from props import prop, STD, FP_ASSUME, RNG_ASSUME, ALLOC_ASSUME, Unit
from vp import CORE as ALL_CORE, ALL

ENG = ["src/common/functions.cpp", "src/common/parallel_for.cpp", "src/common/dispatchqueue.cpp", "src/qinterface/arithmetic.cpp", "src/qinterface/gates.cpp",
       "src/qinterface/logic.cpp", "src/qinterface/qinterface.cpp", "src/qinterface/rotational.cpp", "src/qengine/qengine.cpp", "src/qengine/arithmetic.cpp",
       "src/qengine/state.cpp", "src/qengine/utility.cpp", "src/qalu.cpp"]
ST = "arbitrary complex amplitudes in [-1,1] per basis state (not assumed normalized)"

prop("C01", "Dense CPU engine: every gate applies its documented unitary",
     "On the dense CPU state-vector engine, every gate of the public interface (single-qubit, rotation, phase, matrix, controlled and anti-controlled, two-qubit, "
     "controlled swap, mask, multiplexed, QFT and register-wide forms) transforms the amplitude vector exactly as the textbook unitary with its documented parameter "
     "convention does. Amplitudes outside the gate's control condition and all other qubits are untouched, for every choice of target, control set, control permutation, angle and matrix.",
     ["inputs", "programs"], "every amplitude vector, angle and 2x2 matrix entry symbolic; every choice of gate, targets, controls and permutations on 3-4 qubits",
     "unit tests apply a handful of gates to a handful of basis states with fixed angles; index arithmetic, control masks and phase signs must be right for all amplitudes, orders and angles",
     ENG, [("Apply2x2 kernels and mask/offset computation", "src/qengine/state.cpp"), ("gate to matrix lowering", "src/qengine/qengine.cpp, src/qinterface/gates.cpp, include/qinterface.hpp")],
     ["GetQuantumState after the gate"],
     units=lambda th: [Unit("c01_gates.cpp", budget=300 if th else 120)],
     bounds={"qubits": "2-4", "gates per run": 1, "controls": "0-3", "state": ST, "angles": "symbolic in [-4pi,4pi]; constants table for 3-angle gates"},
     assume=STD + ["mask gates and ZMask are compared up to a global phase"])

prop("C03", "Dense CPU engine: arithmetic maps integers as documented in superposition",
     "On the dense CPU engine, the register arithmetic (add, subtract, with carry, with signed overflow, compare-and-phase, multiply, divide, modular multiply and power, indexed "
     "load/add/subtract from a table, hash by a permutation table, full adders and quantum addition, and the controlled variants) acts on every basis state of a superposition as the documented integer function. "
     "Carry, borrow and overflow are right for every operand including the wrap-around values, and qubits outside the registers keep their amplitudes.",
     ["inputs"], "every amplitude symbolic; every operand value, register position, register length, carry/control position within 3-7 qubits; every lookup table of the given size",
     "tests use a few operands on fixed 8-bit registers; the carry and wrap-around cases, register overlaps in bit order and control sets are a combinatorial space of rare cases",
     ENG, [("index permutation kernels", "src/qengine/arithmetic.cpp"), ("shared carry handling", "src/qalu.cpp"), ("full adders", "src/qinterface/arithmetic.cpp")],
     ["GetQuantumState after the operation"],
     units=lambda th: [Unit("c03_alu.cpp", budget=300 if th else 150)],
     bounds={"qubits": "3-7", "register length": "1-4", "table entries": "2-4", "state": "arbitrary complex amplitudes, or (when a flag or output register is measured) equal moduli with arbitrary phases"},
     assume=STD + ["output registers start at |0>, carry qubits are classical", "signed subtraction of the most negative value is not specified and excluded",
                   "operations that measure a flag whose value is already certain: the draw is kept 0.001 away from the ends of [0,1)"])

prop("C04", "Gate-based default arithmetic equals integer arithmetic",
     "The generic gate-by-gate implementations of integer addition, subtraction, controlled addition, addition with carry, modular multiplication and full addition, which back "
     "ends without native arithmetic use, map every basis state of a superposition to the documented integer result. They do so wherever the register starts and wherever the carry and control qubits are.",
     ["inputs"], "every amplitude symbolic; every operand, register position and length, carry and control position on 4-5 qubits",
     "tests reach these only through a few stacks with fixed operands and start index 0",
     ["src/qinterface/arithmetic.cpp", "include/qinterface.hpp"], [("ripple of multiply-controlled inversions", "src/qinterface/arithmetic.cpp")],
     ["GetQuantumState after the operation"],
     units=lambda th: [Unit("c04_defaults.cpp", budget=300 if th else 120)],
     bounds={"qubits": "4-5", "register length": "1-4", "modulus": "2..2^length"},
     assume=STD + ["output registers start at |0>, carry qubits are classical"])

BI = ["include/common/big_integer.hpp", "src/common/big_integer.cpp", "src/common/functions.cpp", "include/common/qrack_functions.hpp"]
BIQ = ["addsub", "addip", "subip", "incdec", "compare", "bitops", "shift", "log2pow", "mul", "mulhalf", "divsmall", "divmod"]
prop("C15", "Wide integers: multi-word arithmetic modulo 2^N",
     "In builds with a qubit capacity above 128 bits, the multi-word integer type behaves as an unsigned integer modulo 2^N. This covers addition, subtraction, increment, decrement, "
     "comparison, shifts by less than N, bitwise operations, multiplication, multiplication and division by a half word, division with remainder, base-2 logarithm and power-of-two helpers; operands are not altered.",
     ["inputs"], "every pair of 256-bit (and, for carries and comparisons, 512-bit) operands; every shift amount",
     "carry and borrow chains across words show only for special bit patterns; the default build's tests never run the multi-word code",
     BI, [("word-wise carry loops", "include/common/big_integer.hpp"), ("shift-and-subtract division, shift-and-add multiplication", "src/common/big_integer.cpp")],
     ["return value or output argument of each operation"],
     units=lambda th: [Unit("c15_bigint.cpp", srcs=["src/common/functions.cpp", "src/common/big_integer.cpp"], over={"QBCAPPOW": 8}, cases=None if th else BIQ, budget=400 if th else 150),
                       Unit("c15_bigint.cpp", srcs=["src/common/functions.cpp", "src/common/big_integer.cpp"], over={"QBCAPPOW": 9},
                            cases=["addip", "subip", "incdec", "compare", "bitops", "mulhalf"] + (["shift", "log2pow"] if th else []), budget=400 if th else 100)],
     bounds={"width": "256 bits; 512 bits for addition, subtraction, increment, decrement, comparison, bitwise and half-word multiplication",
             "multiplication": "up to three adjacent set bits in the left factor at 9 places; right factor arbitrary in the outer four bits of each limb, constant fill between",
             "division": "divisors below 2^64 arbitrary; above, highest bit at chosen places, outer bits of each limb arbitrary, quotient in {1,2,3,5}"},
     assume=["128-bit machine words available; every vp_u64 limb is an arbitrary 64-bit value"])

prop("C16", "Bit-level helper functions compute their integer definition",
     "The integer helpers on which every back end's index arithmetic rests give the value of their mathematical definition for every argument. These are base-2 logarithm, population count, powers and masks, power-of-two tests, "
     "range checks, duplicate/out-of-range id checks, signed-overflow predicates, bit insertion at skipped positions, integer power, decimal input and output, 2x2 matrix product, inverse and diagonal exponential.",
     ["inputs"], "every 64- and 128-bit argument; every set of at most 3 skip positions from a table; every 2x2 matrix entry",
     "used with small values in tests; errors at 32/64-bit boundaries and wrap-around need rare arguments",
     ["include/common/qrack_functions.hpp", "src/common/functions.cpp"], [("bit tricks and builtins", "include/common/qrack_functions.hpp"), ("pushApartBits, intPow, overflow predicates, stream operators", "src/common/functions.cpp")],
     ["return value"],
     units=lambda th: [Unit("c16_bits.cpp", srcs=ALL_CORE, budget=300 if th else 120)],
     bounds={"intPow": "exponent < 12", "decimal io": "10^k and 10^k-1 for k < 39", "id arrays": "up to 3 ids", "inverse": "triangular matrices with unit-modulus diagonal from a table, the remaining entry arbitrary"},
     assume=STD)

prop("C02", "Dense CPU engine: logic gates, register set and shifts",
     "On the dense CPU engine, the Boolean gates with quantum or classical inputs write the Boolean function of their inputs to an output qubit that starts in |0>. An output that coincides with an input is refused without effect "
     "(XOR and XNOR also work in place). Setting a bit, a register or the whole permutation leaves that value and the rest of the state as left by measuring it; logical shifts move the register's value and fill with zeros.",
     ["inputs"], "every amplitude symbolic (or arbitrary phases where bits are measured); every choice of qubits, register, shift, value and measurement draw on 2-4 qubits",
     "tests run each gate on one or two basis states with one qubit order",
     ["src/qinterface/logic.cpp", "src/qinterface/qinterface.cpp", "include/qinterface.hpp", "src/qengine/state.cpp"],
     [("lowering to controlled inversions", "src/qinterface/logic.cpp"), ("SetReg, shifts", "src/qinterface/qinterface.cpp")], ["GetQuantumState after the operation", "the exception"],
     units=lambda th: [Unit("c02_logic.cpp", budget=200 if th else 100)],
     bounds={"qubits": "2-4", "register length": "0-4", "shift": "0-5"},
     assume=STD + ["bits shifted out of a register are classical", "arithmetic shifts and the in-place classical-input AND/OR family are not specified and excluded", "draws that decide a certain outcome are kept 0.001 away from 0 and 1"])

prop("C05", "Dense CPU engine: probabilities and measurement obey the Born rule",
     "On the dense CPU engine, every probability query (single qubit, register, mask, parity, listed bits, full distribution, conditional) returns the sum of squared amplitudes it names and leaves the state alone. "
     "Every measurement returns an outcome whose cumulative probability interval contains the random draw and leaves the normalized projection on that outcome with phases kept. Forced outcomes are returned as forced, "
     "measuring without collapse leaves the state unchanged, multi-shot sampling draws each shot from the marginal distribution, and an outcome of probability zero is never returned.",
     ["inputs", "schedules"], "every amplitude, phase and random draw symbolic; every choice of qubits, masks, registers and forced values on 1-4 qubits",
     "a test sees a handful of draws; wrong interval boundaries, wrong bit order in a mask or a wrong renormalization need particular draws and amplitudes",
     ["src/qengine/qengine.cpp", "src/qengine/state.cpp", "src/qinterface/qinterface.cpp", "include/qinterface.hpp", "include/qengine.hpp"],
     [("outcome selection loops", "src/qengine/qengine.cpp"), ("probability kernels, ApplyM", "src/qengine/state.cpp"), ("generic defaults", "src/qinterface/qinterface.cpp")],
     ["return values", "GetQuantumState afterwards"],
     units=lambda th: [Unit("c05_meas.cpp", cases=None if th else ["probs", "probs1", "prob4", "probsdefault", "m1", "mmulti", "mparity", "multishot", "cprob"], budget=300 if th else 120)],
     bounds={"qubits": "1-3 (4 in the thorough tier)", "amplitudes": "arbitrary in [-0.2,0.2] for queries; for measurement one arbitrary angle, the other qubits' angles from a table, and an arbitrary phase on every amplitude", "shots": "0-2"},
     assume=STD + ["draws that decide a certain outcome are kept 0.001 away from 0 and 1, and interval ends have a tolerance of 1e-4", "forced outcomes have nonzero probability", "a fixed value outside the queried mask is not specified"])

prop("C06", "Dense CPU engine: compose, decompose, dispose, allocate",
     "On the dense CPU engine, composing simulators gives the tensor product with the new qubits at the returned index and leaves the argument unchanged; allocating adds qubits in |0>. Decomposing or disposing a separable range leaves "
     "both parts in their own states (up to global phase), disposing a range in a known basis state keeps the remaining amplitudes, and a trial decomposition of an entangled range reports failure and changes nothing.",
     ["inputs", "histories"], "every amplitude (compose, dispose by permutation, allocate) or every phase (decompose) symbolic; every split and insertion point for up to 4 qubits",
     "index reordering for a middle insertion and phase recovery depend on amplitudes that tests do not vary; most tests use classical or real states",
     ["src/qengine/state.cpp", "src/qengine/utility.cpp", "src/qinterface/qinterface.cpp", "include/qengine_cpu.hpp"],
     [("Compose and DecomposeDispose kernels", "src/qengine/state.cpp"), ("default Compose, TryDecompose", "src/qinterface/qinterface.cpp")], ["GetQuantumState, qubit counts, returned index"],
     units=lambda th: [Unit("c06_compose.cpp", budget=200 if th else 100)],
     bounds={"qubits": "0-4 total before insertion of 1-2", "separable parts": "constant moduli (with and without zero amplitudes), arbitrary phases"},
     assume=STD)

STABC = ["one", "two", "phase", "cphase", "mtrx", "mask", "refuse"]
STABF = ["src/qstabilizer.cpp", "include/qstabilizer.hpp"]
prop("C07", "Stabilizer simulator: Clifford gates act exactly on the tableau",
     "On the stabilizer simulator, every Clifford gate of its interface (single-qubit, controlled and anti-controlled Paulis, swaps, iSWAP, fSim at its Clifford points, masks, matrix, phase and inversion forms that are Clifford) "
     "transforms the represented state exactly as the textbook unitary does, including the global phase when it is not randomized. A single-target gate it cannot represent in the current state is refused with an exception and changes nothing.",
     ["inputs", "histories"], "every stabilizer generator row symbolic for the tableau update rules; every gate, qubit choice and initial phase on a table of 2-3 qubit stabilizer states prepared through gates",
     "sign errors in a tableau update or in the phase offset show only for particular generators and superpositions; tests compare probabilities of short fixed circuits, and never the phase",
     STABF, [("tableau row updates, phase tracking", "src/qstabilizer.cpp"), ("row arithmetic", "include/qstabilizer.hpp")], ["GetQuantumState after the gate", "the exception"],
     units=lambda th: [Unit("c07_stab.cpp", cases=[c + s for c in STABC for s in ("", "_ph", "_3", "_ph3")], budget=400 if th else 150, extra=["-DTH=1"] if th else []),
                       Unit("c07_stab.cpp", cases=["globalphase"], args=["--real"], budget=150, extra=["-DTH=1"] if th else []),
                       Unit("c07_rows.cpp", extra=["-fno-access-control"], optional=True, budget=100)],
     bounds={"qubits": "2-3", "states": "2 qubits: products of 4 (thorough: 6) single-qubit states, entangler, local layer; 3 qubits: a table of 12 circuits", "row harness": "3 qubits, one generator row of arbitrary bits and sign"},
     assume=STD + ["the row harness names private members; it is dropped, and the evidence says so, if it no longer compiles"])

prop("C08", "Stabilizer simulator: queries, measurement and structure agree with the state",
     "On the stabilizer simulator, probabilities, amplitudes, expectation values and variances are those of the represented state, and querying leaves it alone. Measurement returns a possible outcome, fair when undetermined, and leaves the "
     "projection; resets, sampling and forced outcomes behave likewise. Compose, decompose, dispose, allocate and clone act as the tensor product structure demands for every separable range, "
     "separability tests name the basis correctly, and comparison gives the infidelity.",
     ["inputs", "histories"], "every query, range, forced value and random draw on a table of 2-3 qubit stabilizer states prepared through gates",
     "row reduction picks pivots by position, so a wrong sign or a row left behind shows only for particular generator orders; tests use GHZ-like states",
     STABF, [("gaussian elimination, seed, basis state enumeration", "src/qstabilizer.cpp"), ("ForceM, Compose, DecomposeDispose, IsSeparable", "src/qstabilizer.cpp")], ["return values", "GetQuantumState afterwards"],
     units=lambda th: [Unit("c08_stabmeas.cpp", budget=400 if th else 150)],
     bounds={"qubits": "2-3, composed to 4-5", "states": "a table of 12 circuits (5 for the second operand)", "shots": "2"},
     assume=STD + ["forced outcomes have nonzero probability", "each draw is split at 1/2 by the solver, both halves explored"])

PAGF = ["src/qpager.cpp", "include/qpager.hpp", "src/qengine/qengine.cpp"]
prop("C11", "Paged simulator agrees with the state vector",
     "A simulator split into pages acts as one state vector. It starts in the basis state it is given; every gate, register arithmetic operation, probability query, measurement, amplitude and amplitude-page access, "
     "comparison, compose, decompose, dispose and allocate has the effect and result it has on the whole amplitude vector, wherever the qubits lie relative to the page boundary, and cloning gives an independent copy.",
     ["inputs", "histories"], "every amplitude (or phase) and random draw symbolic; every operation and qubit choice on 2-5 qubits with pages of one (thorough: also two) qubits",
     "a page boundary inside, above or below a gate's qubits selects a different code path; tests run at the default page size, where small states fit into one page",
     PAGF, [("meta-qubit gates across pages", "src/qpager.cpp"), ("combining and separating pages", "src/qpager.cpp")], ["return values, GetQuantumState afterwards"],
     units=lambda th: [Unit("c11_pager.cpp", extra=["-DLAYER=3"], budget=400 if th else 150)] + ([Unit("c11_pager.cpp", extra=["-DLAYER=8"], budget=400)] if th else []),
     bounds={"qubits": "1-5", "page size": "1 qubit; 2 qubits in the thorough tier", "gates per run": 1, "state": "arbitrary amplitudes for gates, arithmetic and queries; arbitrary phases on table moduli for measurement and decomposition"},
     assume=STD + ["page engines run to completion in the order they are waited for", "fSim angles: special values or an interval between them", "multiplexed matrices: full, diagonal or anti-diagonal with entries bounded away from zero"])
