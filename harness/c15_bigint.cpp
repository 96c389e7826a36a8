// Multi-word integers against a digit-by-digit reference on 64-bit limbs.
#include "vp.h"
#include "common/qrack_functions.hpp"
#include <sstream>
#include <vector>
typedef unsigned __int128 u128;
constexpr int L = (1 << QBCAPPOW) / 64, W = BIG_INTEGER_WORD_SIZE, N = 1 << QBCAPPOW;
struct R { uint64_t d[L]; };
static R sym(const char* nm)
{
    R r;
    for (auto& x : r.d) x = vp_u64(nm, 0, ~0ULL);
    return r;
}
static BigInteger mk(const R& r)
{
    BigInteger b;
    for (int i = 0; i < W; i++) b.bits[i] = ((u128)r.d[2 * i + 1] << 64) | r.d[2 * i];
    return b;
}
static bool eq(const BigInteger& b, const R& r)
{
    uint64_t d = 0;
    for (int i = 0; i < W; i++) d |= ((uint64_t)b.bits[i] ^ r.d[2 * i]) | ((uint64_t)(b.bits[i] >> 64) ^ r.d[2 * i + 1]);
    return d == 0;
}
static R add(const R& a, const R& b)
{
    R r;
    u128 c = 0;
    for (int i = 0; i < L; i++) { c += (u128)a.d[i] + b.d[i]; r.d[i] = (uint64_t)c; c >>= 64; }
    return r;
}
static R sub(const R& a, const R& b)
{
    R r, nb;
    for (int i = 0; i < L; i++) nb.d[i] = ~b.d[i];
    u128 c = 1;
    for (int i = 0; i < L; i++) { c += (u128)a.d[i] + nb.d[i]; r.d[i] = (uint64_t)c; c >>= 64; }
    return r;
}
static R one(uint64_t x) { R r = {}; r.d[0] = x; return r; }
static R two(u128 x) { R r = {}; r.d[0] = (uint64_t)x; r.d[1] = (uint64_t)(x >> 64); return r; }
static R shl(const R& a, int s)
{
    R r = {};
    int w = s / 64, m = s % 64;
    for (int i = w; i < L; i++) {
        r.d[i] = a.d[i - w] << m;
        if (m && i > w) r.d[i] |= a.d[i - w - 1] >> (64 - m);
    }
    return r;
}
static R shr(const R& a, int s)
{
    R r = {};
    int w = s / 64, m = s % 64;
    for (int i = 0; i + w < L; i++) {
        r.d[i] = a.d[i + w] >> m;
        if (m && i + w + 1 < L) r.d[i] |= a.d[i + w + 1] << (64 - m);
    }
    return r;
}
static bool lt(const R& a, const R& b)
{
    bool r = false;
    for (int i = 0; i < L; i++) r = (a.d[i] < b.d[i]) | ((a.d[i] == b.d[i]) & r);
    return r;
}
static bool same(const R& a, const R& b)
{
    uint64_t d = 0;
    for (int i = 0; i < L; i++) d |= a.d[i] ^ b.d[i];
    return d == 0;
}
static u128 symW(const char* nm) { uint64_t h = vp_u64(nm, 0, ~0ULL); return ((u128)h << 64) | vp_u64(nm, 0, ~0ULL); }

VP_CASE(addsub)
{
    R a = sym("a"), b = sym("b");
    BigInteger x = mk(a), y = mk(b);
    vp_assert(eq(x + y, add(a, b)), "operator+ is addition modulo 2^N");
    vp_assert(eq(x - y, sub(a, b)), "operator- is subtraction modulo 2^N");
    vp_assert(eq(x, a) && eq(y, b), "operands are not changed");
}
VP_CASE(addip)
{
    R a = sym("a"), b = sym("b");
    BigInteger x = mk(a);
    bi_add_ip(&x, mk(b));
    vp_assert(eq(x, add(a, b)), "bi_add_ip is addition modulo 2^N");
}
VP_CASE(subip)
{
    R a = sym("a"), b = sym("b");
    BigInteger x = mk(a);
    bi_sub_ip(&x, mk(b));
    vp_assert(eq(x, sub(a, b)), "bi_sub_ip is subtraction modulo 2^N");
}
VP_CASE(incdec)
{
    R a = sym("a");
    u128 v = symW("v");
    BigInteger x = mk(a);
    switch (vp_choose("op", 4)) {
    case 0: bi_increment(&x, v); vp_assert(eq(x, add(a, two(v))), "bi_increment adds a word"); break;
    case 1: bi_decrement(&x, v); vp_assert(eq(x, sub(a, two(v))), "bi_decrement subtracts a word"); break;
    case 2: ++x; vp_assert(eq(x, add(a, one(1))), "++ adds one"); break;
    case 3: --x; vp_assert(eq(x, sub(a, one(1))), "-- subtracts one"); break;
    }
}
VP_CASE(compare)
{
    R a = sym("a"), b = sym("b");
    BigInteger x = mk(a), y = mk(b);
    const bool l = lt(a, b), e = same(a, b), z = same(a, one(0)), o = same(a, one(1));
    switch (vp_choose("op", 8)) {
    case 0: { int c = bi_compare(x, y); vp_assert(c == (e ? 0 : (l ? -1 : 1)), "bi_compare"); break; }
    case 1: vp_assert((bi_compare_0(x) != 0) == !z, "bi_compare_0 tells zero"); break;
    case 2: { int c = bi_compare_1(x); vp_assert(c == (o ? 0 : (z ? -1 : 1)), "bi_compare_1 compares with one"); break; }
    case 3: vp_assert((x < y) == l, "operator<"); break;
    case 4: vp_assert((x <= y) == (l || e), "operator<="); break;
    case 5: vp_assert((x > y) == !(l || e), "operator>"); break;
    case 6: vp_assert((x >= y) == !l, "operator>="); break;
    case 7: vp_assert((x == y) == e, "operator=="); break;
    }
}
VP_CASE(bitops)
{
    R a = sym("a"), b = sym("b"), r;
    BigInteger x = mk(a), y = mk(b), z = mk(a), lo(symW("w"));
#define BO(op, ip, m)                                                                                                                                          \
    for (int i = 0; i < L; i++) r.d[i] = a.d[i] op b.d[i];                                                                                                    \
    z = mk(a);                                                                                                                                                 \
    ip(&z, y);                                                                                                                                                 \
    vp_assert(eq(x op y, r) && eq(z, r), m);
    BO(&, bi_and_ip, "bitwise and")
    BO(|, bi_or_ip, "bitwise or")
    BO(^, bi_xor_ip, "bitwise xor")
    for (int i = 0; i < L; i++) r.d[i] = ~a.d[i];
    z = mk(a);
    bi_not_ip(&z);
    vp_assert(eq(~x, r) && eq(z, r), "bitwise not");
    vp_assert(bi_and_1(x) == (int)(a.d[0] & 1), "lowest bit");
    bi_copy_ip(x, &z);
    vp_assert(eq(bi_copy(x), a) && eq(z, a), "copy");
    bi_set_0(&z);
    vp_assert(eq(z, one(0)), "set to zero");
    vp_assert(eq(bi_load(x.bits), a), "load");
    vp_assert((uint64_t)x == a.d[0] && (uint32_t)x == (uint32_t)a.d[0] && (u128)x == x.bits[0], "narrowing takes the low bits");
    bool hi = false;
    for (int i = 1; i < W; i++) hi |= lo.bits[i] != 0;
    vp_assert(!hi, "widening clears the high words");
}
VP_CASE(shift)
{
    R a = sym("a");
    int s = (int)vp_choose("shift", N);
    BigInteger x = mk(a), y = mk(a), z = mk(a);
    R l = shl(a, s), r = shr(a, s);
    vp_assert(eq(x << s, l), "operator<< shifts left");
    bi_lshift_ip(&y, s);
    vp_assert(eq(y, l), "bi_lshift_ip shifts left");
    vp_assert(eq(x >> s, r), "operator>> shifts right");
    bi_rshift_ip(&z, s);
    vp_assert(eq(z, r), "bi_rshift_ip shifts right");
    if (!(s % BIG_INTEGER_WORD_BITS)) {
        BigInteger u = mk(a), w = mk(a);
        bi_lshift_word_ip(&u, s / BIG_INTEGER_WORD_BITS);
        bi_rshift_word_ip(&w, s / BIG_INTEGER_WORD_BITS);
        vp_assert(eq(u, l) && eq(w, r), "whole-word shifts");
        vp_assert(eq(bi_lshift_word(x, s / BIG_INTEGER_WORD_BITS), l) && eq(bi_rshift_word(x, s / BIG_INTEGER_WORD_BITS), r), "whole-word shift copies");
    }
}
static void log2pow(int k)
{
    R a = sym("a"), p = shl(one(1), k), m = sub(p, one(1));
    for (int i = 0; i < L; i++) a.d[i] = (a.d[i] & m.d[i]) | p.d[i];
    vp_assert(bi_log2(mk(a)) == k, "bi_log2 is the index of the highest set bit");
    if (k < 256) {
        vp_assert(Qrack::log2(mk(a)) == k, "log2 is the index of the highest set bit");
        vp_assert(eq(Qrack::pow2((bitLenInt)k), p), "pow2");
        vp_assert(eq(Qrack::pow2Mask((bitLenInt)k), m), "pow2Mask");
        vp_assert(eq(Qrack::bitSlice((bitLenInt)k, mk(a)), p), "bitSlice");
        bool low = false;
        for (int i = 0; i < L; i++) low |= (a.d[i] & m.d[i]) != 0;
        vp_assert(Qrack::isPowerOfTwo(mk(a)) == !low, "isPowerOfTwo");
        int s = (int)vp_u64("start", 0, 0) + (k ? (k * 7) % (N - k > 0 ? (N - k < 256 ? N - k : 256) : 1) : 0);
        vp_assert(eq(Qrack::bitRegMask((bitLenInt)s, (bitLenInt)k), shl(m, s)), "bitRegMask");
    }
}
VP_CASE(log2pow)
{
    static const int ks[] = { 0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 96, 126, 127, 128, 129, 160, 191, 192, 254, 255 };
    log2pow(ks[vp_choose("bit", 20)]);
}
VP_CASE(log2pow_all) { log2pow((int)vp_choose("bit", N < 256 ? N : 256)); }
// left * right where right is arbitrary (outer four bits of each limb) above its lowest set bit, which is at a chosen place, and left has up to three set bits in a window
VP_CASE(mul)
{
    static const int tz[] = { 0, 1, 63, 127, 128, 200, 255 }, win[] = { 0, 1, 62, 63, 64, 126, 127, 190, 253 };
    int k = tz[vp_choose("lowestBit", 7)], p = win[vp_choose("window", 9)];
    R b = sym("b"), t = shl(one(1), k);
    const uint64_t F = 0xF00000000000000FULL, fill = vp_choose("fill", 2) ? ~F : 0;
    for (int i = 0; i < L; i++) b.d[i] = (b.d[i] & F) | fill;
    b = shl(b, k);
    for (int i = 0; i < L; i++) b.d[i] |= t.d[i];
    uint64_t w = vp_choose("bits", 8);
    R a = shl(one(w), p), r = one(0);
    for (int j = 0; j < 3; j++) if ((w >> j) & 1 && p + j < N) r = add(r, shl(b, p + j));
    vp_assert(eq(mk(a) * mk(b), r), "operator* is multiplication modulo 2^N");
    vp_assert(eq(mk(b) * mk(one(1)), b) && eq(mk(b) * mk(one(0)), one(0)), "multiplication by one and zero");
}
VP_CASE(mulhalf)
{
    R a = sym("a"), r;
    uint64_t h = vp_u64("h", 0, ~0ULL);
    u128 c = 0;
    for (int i = 0; i < L; i++) { c += (u128)a.d[i] * h; r.d[i] = (uint64_t)c; c >>= 64; }
    vp_assert(eq(mk(a) * h, r), "multiplication by a half word");
}
VP_CASE(divsmall)
{
    R a = sym("a"), q;
    uint64_t h = vp_u64("h", 1, ~0ULL), rem = 0, r2 = 0;
    u128 c = 0;
    for (int i = L - 1; i >= 0; i--) { c = (c << 64) | a.d[i]; q.d[i] = (uint64_t)(c / h); c %= h; }
    BigInteger x = mk(a), y;
    bi_div_mod_small(x, h, &y, &rem);
    vp_assert(eq(y, q) && rem == (uint64_t)c, "bi_div_mod_small");
    bi_div_mod_small(x, h, 0, &r2);
    vp_assert(r2 == (uint64_t)c, "bi_div_mod_small without quotient");
}
// the divisor has its highest bit at a chosen place. Below 2^64: any dividend, against long division by limbs.
// Otherwise: dividend = q * divisor + r with r < divisor and q up to 5; the outer bits of every limb of the divisor and of r are arbitrary.
static void divmod(int k)
{
    R b = sym("b"), t = shl(one(1), k), m = sub(t, one(1)), r, a, q = {};
    for (int i = 0; i < L; i++) b.d[i] = (b.d[i] & m.d[i]) | t.d[i];
    if (k < 64) {
        a = sym("a");
        if (vp_choose("sameHigh", 2)) for (int i = 1; i < L; i++) a.d[i] = 0;
        r = {};
        u128 c = 0;
        for (int i = L - 1; i >= 0; i--) { c = (c << 64) | a.d[i]; q.d[i] = (uint64_t)(c / b.d[0]); c %= b.d[0]; }
        r.d[0] = (uint64_t)c;
        // the cases left <= right are decided before any division
        if (vp_choose("larger", 2)) vp_assume(lt(b, a));
        else {
            vp_assume(!lt(b, a));
            q = one(same(a, b));
            r = same(a, b) ? one(0) : a;
        }
    } else {
        const uint64_t F = 0x8000000000000001ULL, fill = vp_choose("fill", 2) ? ~F : 0;
        r = sym("rem");
        for (int i = 0; i < L; i++) {
            r.d[i] = ((r.d[i] & F) | fill) & (m.d[i] | t.d[i]);
            b.d[i] = ((b.d[i] & F) | fill) & m.d[i] | t.d[i];
        }
        vp_assume(lt(r, b));
        static const uint64_t qs[] = { 1, 2, 3, 5 };
        q = one(qs[vp_choose("quotient", 4)]);
        a = r;
        for (uint64_t j = 0; j < q.d[0]; j++) a = add(a, b);
    }
    BigInteger x = mk(a), y = mk(b), quo, rem;
    if (vp_choose("outputs", 2)) {
        bi_div_mod(x, y, &quo, &rem);
        vp_assert(eq(quo, q), "bi_div_mod quotient");
        vp_assert(eq(rem, r), "bi_div_mod remainder");
    } else {
        bi_div_mod(x, y, 0, &rem);
        vp_assert(eq(rem, r), "bi_div_mod remainder only");
        if (k < 64 && q.d[0] == 1) { bi_div_mod(x, y, &quo, 0); vp_assert(eq(quo, q), "bi_div_mod quotient only"); }
    }
}
VP_CASE(divmod)
{
    static const int ks[] = { 0, 2, 63, 64, 128 };
    divmod(ks[vp_choose("rightLog2", 5)]);
}
VP_CASE(divmod_more)
{
    static const int ks[] = { 1, 62, 65, 90, 126, 127, 129, 191, 192, 250 };
    divmod(ks[vp_choose("rightLog2", 10)]);
}
