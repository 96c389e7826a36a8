// Bit-level helpers of the default configuration.
#include "vpq.hpp"
#include <sstream>
typedef unsigned __int128 u128;
static u128 symW(const char* nm) { uint64_t h = vp_u64(nm, 0, ~0ULL); return ((u128)h << 64) | vp_u64(nm, 0, ~0ULL); }
VP_CASE(log2)
{
    int k = (int)vp_choose("bit", 128);
    u128 p = (u128)1 << k, x = (symW("x") & (p - 1)) | p;
    vp_assert(Qrack::log2((bitCapInt)x) == k && bi_log2((bitCapInt)x) == k, "log2 is the index of the highest set bit");
    vp_assert(isPowerOfTwo((bitCapInt)x) == !(x & (p - 1)), "isPowerOfTwo");
    vp_assert(!isPowerOfTwo(ZERO_BCI), "zero is no power of two");
    if (k < 64) {
        uint64_t y = (uint64_t)x;
        vp_assert(log2Ocl(y) == k, "log2Ocl is the index of the highest set bit");
        vp_assert(isPowerOfTwoOcl(y) == !(y & ((uint64_t)p - 1)), "isPowerOfTwoOcl");
    }
    vp_assert(pow2((bitLenInt)k) == p && pow2Mask((bitLenInt)k) == p - 1, "pow2 and pow2Mask");
    vp_assert(bitSlice((bitLenInt)k, (bitCapInt)x) == p, "bitSlice of a set bit");
    vp_assert(bitSlice((bitLenInt)k, (bitCapInt)(x ^ p)) == 0, "bitSlice of a clear bit");
    if (k < 64) {
        vp_assert(pow2Ocl((bitLenInt)k) == (uint64_t)p && pow2MaskOcl((bitLenInt)k) == (uint64_t)p - 1, "pow2Ocl and pow2MaskOcl");
        vp_assert(bitSliceOcl((bitLenInt)k, (uint64_t)x) == (uint64_t)p, "bitSliceOcl");
    }
}
VP_CASE(popcount)
{
    uint64_t x = vp_u64("x", 0, ~0ULL), n = 0;
    for (int i = 0; i < 64; i++) n += (x >> i) & 1;
    vp_assert(popCountOcl(x) == n, "popCountOcl counts the set bits");
}
VP_CASE(ranges)
{
    uint64_t s = vp_u64("start", 0, 255), l = vp_u64("length", 0, 255), n = vp_u64("qubits", 0, 255);
    vp_assert(isBadBitRange((bitLenInt)s, (bitLenInt)l, (bitLenInt)n) == (s + l > n), "isBadBitRange");
    uint64_t a = vp_u64("permStart", 0, ~0ULL), b = vp_u64("permLength", 0, ~0ULL), c = vp_u64("permMax", 0, ~0ULL);
    vp_assert(isBadPermRange(a, b, c) == ((u128)a + b > c), "isBadPermRange");
}
VP_CASE(regmask)
{
    int s = (int)vp_choose("start", 64), l = (int)vp_choose("length", 64);
    if (s + l > 128) vp_skip();
    u128 i = (u128)1 << vp_u64("bit", 0, 127);
    u128 m = bitRegMask((bitLenInt)s, (bitLenInt)l);
    u128 want = 0;
    for (int j = s; j < s + l; j++) want |= (u128)1 << j;
    vp_assert((m & i) == (want & i), "bitRegMask");
    if (s + l <= 64) vp_assert(bitRegMaskOcl((bitLenInt)s, (bitLenInt)l) == (uint64_t)want, "bitRegMaskOcl");
}
VP_CASE(idarray)
{
    size_t n = vp_choose("count", 4);
    std::vector<bitLenInt> v(n);
    for (auto& x : v) x = (bitLenInt)vp_u64("id", 0, 255);
    bitLenInt qc = (bitLenInt)vp_u64("qubits", 0, 255);
    bool bad = false, thrown = false;
    for (size_t i = 0; i < n; i++) {
        bad |= v[i] >= qc;
        for (size_t j = 0; j < i; j++) bad |= v[i] == v[j];
    }
    try { ThrowIfQbIdArrayIsBad(v, qc, "bad"); } catch (const std::invalid_argument&) { thrown = true; }
    vp_assert(thrown == bad, "ThrowIfQbIdArrayIsBad rejects exactly out-of-range and duplicate ids");
}
VP_CASE(overflow)
{
    int l = 1 + (int)vp_choose("length", 63);
    uint64_t p = (uint64_t)1 << l, s = p >> 1, a = vp_u64("a", 0, ~0ULL) & (p - 1), b = vp_u64("b", 0, ~0ULL) & (p - 1);
    uint64_t r = (a + b) & (p - 1), d = (a - b) & (p - 1);
    vp_assert(isOverflowAdd(a, b, s, p) == (((~(a ^ b)) & (a ^ r) & s) != 0), "signed addition overflow");
    vp_assert(isOverflowSub(a, b, s, p) == (((a ^ b) & (a ^ d) & s) != 0), "signed subtraction overflow");
}
VP_CASE(pushapart)
{
    // skip powers ascending: the bits of perm in order, with a zero inserted at each skipped position
    size_t n = vp_choose("count", 4);
    std::vector<bitCapInt> sp;
    std::vector<int> pos;
    for (size_t i = 0; i < n; i++) {
        static const int ps[] = { 0, 1, 2, 31, 32, 63, 64, 65, 100 };
        int q = ps[vp_choose("skip", 9)];
        if (!pos.empty() && q <= pos.back()) vp_skip();
        pos.push_back(q);
        sp.push_back(pow2((bitLenInt)q));
    }
    u128 x = symW("perm") >> n, want = 0;
    int src = 0;
    for (int d = 0; d < 128; d++) {
        bool skip = false;
        for (int q : pos) skip |= q == d;
        if (skip) continue;
        want |= ((x >> src) & 1) << d;
        src++;
    }
    vp_assert(pushApartBits((bitCapInt)x, sp) == want, "pushApartBits inserts zero bits at the skipped positions");
}
VP_CASE(intpow)
{
    uint64_t b = vp_u64("base", 0, ~0ULL), e = vp_choose("power", 12), r = 1;
    u128 r2 = 1, b2 = ((u128)vp_u64("baseHigh", 0, ~0ULL) << 64) | b;
    for (uint64_t i = 0; i < e; i++) { r *= b; r2 *= b2; }
    // equal as polynomials: checked on all bases below 16 (wrap-around included through the high word) and on arbitrary bases up to power 3
    if (e > 3) {
        b &= 15;
        r = 1;
        for (uint64_t i = 0; i < e; i++) r *= b;
        vp_assert(intPowOcl(b, e) == r, "intPowOcl");
        vp_assert((uint64_t)intPow((bitCapInt)b, (bitCapInt)e) == r, "intPow");
        return;
    }
    vp_assert(intPowOcl(b, e) == r, "intPowOcl");
    vp_assert(intPow((bitCapInt)b2, (bitCapInt)e) == r2, "intPow");
}
VP_CASE(mat)
{
    Mtx a = symMtx("a"), b = symMtx("b");
    CMtx x(a), y(b);
    complex o[4];
    mul2x2(x.m, y.m, o);
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) {
            Cx w = a.m[2 * i] * b.m[j] + a.m[2 * i + 1] * b.m[2 + j];
            vp_close(fromC(o[2 * i + j]).r, w.r, 1e-5, "mul2x2 is the matrix product");
            vp_close(fromC(o[2 * i + j]).i, w.i, 1e-5, "mul2x2 is the matrix product");
        }
}
VP_CASE(inv)
{
    // triangular or anti-triangular with constant unit entries and an arbitrary remaining entry
    static const double u[5][2] = { { 1, 0 }, { 0, 1 }, { -1, 0 }, { 0.6, 0.8 }, { 0.28, -0.96 } };
    int a1 = (int)vp_choose("a", 5), b1 = (int)vp_choose("b", 5);
    bool anti = vp_choose("anti", 2);
    Cx off(vp_f32("o", -2, 2), vp_f32("o", -2, 2)), d(u[a1][0], u[a1][1]), e1(u[b1][0], u[b1][1]);
    complex m[4], o[4];
    if (anti) { m[0] = toC(off); m[1] = toC(d); m[2] = toC(e1); m[3] = 0; } else { m[0] = toC(d); m[1] = toC(off); m[2] = 0; m[3] = toC(e1); }
    inv2x2(m, o);
    Cx M[4], O[4];
    for (int i = 0; i < 4; i++) { M[i] = fromC(m[i]); O[i] = fromC(o[i]); }
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) {
            Cx w = M[2 * i] * O[j] + M[2 * i + 1] * O[2 + j];
            vp_close(w.r, i == j, 1e-4, "inv2x2 is the inverse");
            vp_close(w.i, 0, 1e-4, "inv2x2 is the inverse");
        }
}
VP_CASE(expdiag)
{
    // exp of i*diag(a, b)
    float a = vp_f32("a", -3, 3), b = vp_f32("b", -3, 3);
    complex m[4] = { complex(0, a), 0, 0, complex(0, b) }, o[4];
    exp2x2(m, o);
    vp_close(real(o[0]), cos(a), 1e-5, "exp2x2 of a diagonal matrix");
    vp_close(imag(o[0]), sin(a), 1e-5, "exp2x2 of a diagonal matrix");
    vp_close(real(o[3]), cos(b), 1e-5, "exp2x2 of a diagonal matrix");
    vp_close(imag(o[3]), sin(b), 1e-5, "exp2x2 of a diagonal matrix");
    vp_close(norm(o[1]) + norm(o[2]), 0, 1e-5, "exp2x2 of a diagonal matrix");
}
VP_CASE(io)
{
    int d = (int)vp_choose("digits", 39);
    u128 x = 1;
    std::string want = "1";
    for (int i = 0; i < d; i++) { x *= 10; want += "0"; }
    int k = (int)vp_choose("off", 2);
    if (k) { x -= 1; want = d ? std::string((size_t)d, '9') : std::string("0"); }
    std::ostringstream os;
    Qrack::operator<<(os, (bitCapInt)x);
    vp_assert(os.str() == want, "operator<< prints the decimal digits");
    std::istringstream is(want);
    bitCapInt y = 77U;
    Qrack::operator>>(is, y);
    vp_assert(y == x, "operator>> reads the decimal digits");
}
