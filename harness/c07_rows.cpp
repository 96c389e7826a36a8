// Every tableau row: one generator of the tableau is arbitrary (symbolic Pauli and sign); each gate must conjugate it.
// Needs the tableau fields (compiled with access control off).
#include "stablib.hpp"
struct Row { uint64_t x[3], z[3], r; };
static void rH(Row& w, int t) { w.r = (w.r + 2 * (w.x[t] & w.z[t])) & 3; uint64_t a = w.x[t]; w.x[t] = w.z[t]; w.z[t] = a; }
static void rS(Row& w, int t) { w.r = (w.r + 2 * (w.x[t] & w.z[t])) & 3; w.z[t] ^= w.x[t]; }
static void rCX(Row& w, int c, int t) { w.r = (w.r + 2 * (w.x[c] & w.z[t] & (1 ^ w.x[t] ^ w.z[c]))) & 3; w.x[t] ^= w.x[c]; w.z[c] ^= w.z[t]; }
static void rZ(Row& w, int t) { rS(w, t); rS(w, t); }
static void rX(Row& w, int t) { rH(w, t); rZ(w, t); rH(w, t); }
static void rIS(Row& w, int t) { rS(w, t); rZ(w, t); }
static void rCZ(Row& w, int c, int t) { rH(w, t); rCX(w, c, t); rH(w, t); }
static void rCY(Row& w, int c, int t) { rIS(w, t); rCX(w, c, t); rS(w, t); }
static void rSwap(Row& w, int c, int t) { rCX(w, c, t); rCX(w, t, c); rCX(w, c, t); }
VP_CASE(rows)
{
    const int n = 3;
    auto s = std::dynamic_pointer_cast<QStabilizer>(mkStab(n, true));
    int row = (int)vp_choose("row", 2 * n);
    Row w;
    uint64_t wx = vp_u64("x", 0, 7), wz = vp_u64("z", 0, 7);
    *s->x[row].begin()._M_p = wx; // (written as words so that the bits stay symbolic)
    *s->z[row].begin()._M_p = wz;
    for (int j = 0; j < n; j++) {
        w.x[j] = (wx >> j) & 1;
        w.z[j] = (wz >> j) & 1;
    }
    w.r = 2 * vp_u64("sign", 0, 1);
    s->r[row] = (uint8_t)w.r;
    int k = (int)vp_choose("gate", 15), c = (int)vp_choose("q1", n), t = (int)vp_choose("q2", n);
    if (c == t) vp_skip();
    if (k < 6 && c != (t + 1) % n) vp_skip();
    bitLenInt d = (bitLenInt)c, b = (bitLenInt)t;
    QInterfacePtr q = s;
    switch (k) {
    case 0: q->H(b); rH(w, t); break;
    case 1: q->S(b); rS(w, t); break;
    case 2: q->IS(b); rIS(w, t); break;
    case 3: q->X(b); rX(w, t); break;
    case 4: q->Y(b); rX(w, t); rZ(w, t); break;
    case 5: q->Z(b); rZ(w, t); break;
    case 6: q->CNOT(d, b); rCX(w, c, t); break;
    case 7: q->AntiCNOT(d, b); rX(w, c); rCX(w, c, t); rX(w, c); break;
    case 8: q->CY(d, b); rCY(w, c, t); break;
    case 9: q->AntiCY(d, b); rX(w, c); rCY(w, c, t); rX(w, c); break;
    case 10: q->CZ(d, b); rCZ(w, c, t); break;
    case 11: q->AntiCZ(d, b); rX(w, c); rCZ(w, c, t); rX(w, c); break;
    case 12: q->Swap(d, b); rSwap(w, c, t); break;
    case 13: q->ISwap(d, b); rSwap(w, c, t); rCZ(w, c, t); rS(w, c); rS(w, t); break;
    case 14: q->IISwap(d, b); rIS(w, c); rIS(w, t); rCZ(w, c, t); rSwap(w, c, t); break;
    }
    uint64_t ex = 0, ez = 0;
    for (int j = 0; j < n; j++) { ex |= w.x[j] << j; ez |= w.z[j] << j; }
    vp_assert(((*s->x[row].begin()._M_p & 7) == ex) & ((*s->z[row].begin()._M_p & 7) == ez) & ((uint64_t)s->r[row] == w.r), "gate conjugates every generator and its sign");
}
