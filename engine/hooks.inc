// ------------------------------------------------------------------ inputs
static bool fixedNext(const std::string& name, u128& v)
{
    if (!g_concrete) return false;
    if (g_fixedPos < g_fixedSeq.size()) {
        auto& p = g_fixedSeq[g_fixedPos++];
        if (p.first != name) { fprintf(stderr, "replay: input mismatch %s vs %s\n", p.first.c_str(), name.c_str()); }
        v = p.second;
    } else v = 0;
    return true;
}
static Expr* newBV(const std::string& name, unsigned w, u64 lo, u64 hi, unsigned outw)
{
    u128 fv;
    if (fixedNext(name, fv)) { g_inputs.push_back({ name, 2, (int)outw, 0, 0, 0, fv }); return mkConst(fv, outw); }
    Expr* v = mkVar(name, w);
    g_inputs.push_back({ name, 0, (int)w, v->name, (double)lo, (double)hi, 0 });
    S.model.bv[v->name] = lo;
    Expr* r = mkZext(v, outw);
    if (lo > 0) addPC(mkNot(mkBin(E_ULT, v, mkConst(lo, w))));
    if ((u128)hi < maskW(w)) addPC(mkBin(E_ULE, v, mkConst(hi, w)));
    return r;
}
static unsigned bitsFor(u64 hi) { unsigned w = 1; while (w < 64 && (hi >> w)) w++; return w; }
static Expr* newFP(const std::string& name, double lo, double hi, int w)
{
    u128 fv;
    if (fixedNext(name, fv)) { g_inputs.push_back({ name, 2, w, 0, 0, 0, fv }); return mkConst(fv, w); }
    if (lo == hi) { u128 b = dToBits(lo, w); g_inputs.push_back({ name, 2, w, 0, 0, 0, b }); return mkConst(b, w); }
    uint32_t a = newAtom(name, lo, hi, AK_INPUT);
    g_atoms[a].inWidth = w;
    g_inputs.push_back({ name, 1, w, a, lo, hi, 0 });
    S.model.in[a] = lo + (hi - lo) * 0.37;
    return mkFP(pMono(monoOf({ a })), 0, w);
}
static void assertTrue(Expr* c, const std::string& msg)
{
    __sync_fetch_and_add(&g_st->asserts, 1);
    if (isC(c) && c->cv) { __sync_fetch_and_add(&g_st->assertsTrivial, 1); return; }
    Expr* nc = mkNot(c);
    Model m;
    SRes r;
    if (isC(nc)) { ensureModel(); m = S.model; r = S_SAT; if (!S.modelOk) { r = S.check(nullptr, &m); } }
    else { S.deciding = true; r = S.check(nc, &m); S.deciding = false; }
    if (r == S_UNSAT) { __sync_fetch_and_add(&g_st->assertsUnsat, 1); return; }
    if (r == S_SAT) {
        violation("assert", msg, &m);
        // continue on the side where it holds, if any
        if (isC(nc)) endPath();
        SRes q = S.check(c, &m);
        if (q == S_UNSAT) endPath();
        if (q == S_SAT) S.model = m; else S.modelOk = false;
        addPC(c);
        return;
    }
    __sync_fetch_and_add(&g_st->assertsUnk, 1);
    if (tabBump("unk:" + g_case + msg) < 2) logLine("{\"t\":\"unknown\",\"case\":\"" + jsonEsc(g_case) + "\",\"msg\":\"" + jsonEsc(msg) + "\"}");
}
#define HOOK(n) static void n(CallInfo* ci, std::vector<Val>& a, std::vector<Val>& ret)
HOOK(h_vp_u64)
{
    std::string nm = readStr(a[0].lo);
    u64 lo = cv64(a[1]), hi = cv64(a[2]);
    if (lo == hi) { u128 v; if (!fixedNext(nm, v)) v = lo; g_inputs.push_back({ nm, 2, 64, 0, 0, 0, v }); ret = { mkV(v) }; return; }
    ret = { fromE(newBV(nm, bitsFor(hi), lo, hi, 64)) };
}
HOOK(h_vp_choose)
{
    std::string nm = readStr(a[0].lo);
    u64 n = cv64(a[1]);
    if (n <= 1) { ret = { mkV64(0) }; u128 v; fixedNext(nm, v); g_inputs.push_back({ nm, 2, 64, 0, 0, 0, 0 }); return; }
    u128 fv;
    if (fixedNext(nm, fv)) { g_inputs.push_back({ nm, 2, 64, 0, 0, 0, fv }); ret = { mkV(fv) }; return; }
    // a fresh variable: every value is feasible, so the case split needs no query
    checkDeadline();
    u64 v = 0;
    for (; v + 1 < n; v++) { __sync_fetch_and_add(&g_st->concretized, 1); if (doFork()) break; }
    g_inputs.push_back({ nm, 2, 64, 0, 0, 0, v });
    ret = { mkV64(v) };
}
HOOK(h_vp_concrete) { ret = { mkV64(cv64(a[0])) }; }
HOOK(h_vp_f32) { std::string nm = readStr(a[0].lo); ret = { fromE(newFP(nm, asF(a[1].lo), asF(a[2].lo), 32)) }; }
HOOK(h_vp_f64) { std::string nm = readStr(a[0].lo); ret = { fromE(newFP(nm, asD(a[1].lo), asD(a[2].lo), 64)) }; }
HOOK(h_vp_assume)
{
    if (!a[0].s) { if (!(a[0].lo & 1)) endPath(); return; }
    Expr* c = a[0].s->w == 1 ? a[0].s : mkExtract(a[0].s, 0, 1);
    if (isC(c)) { if (!c->cv) endPath(); return; }
    Model m;
    SRes r = S.check(c, &m);
    if (r == S_UNSAT) endPath();
    if (r == S_SAT) { S.model = m; } else S.modelOk = false;
    addPC(c);
}
HOOK(h_vp_assert) { std::string msg = readStr(a[1].lo); assertTrue(a[0].s ? (a[0].s->w == 1 ? a[0].s : mkExtract(a[0].s, 0, 1)) : mkBool(a[0].lo & 1), msg); }
HOOK(h_vp_close)
{
    // |a - b| <= tol, all doubles
    std::string msg = readStr(a[3].lo);
    double tol = asD(a[2].lo);
    if (!a[0].s && !a[1].s) {
        double d = asD(a[0].lo) - asD(a[1].lo);
        assertTrue(mkBool(std::fabs(d) <= tol), msg);
        return;
    }
    Expr *x = toFP(toE(a[0], 64)), *y = toFP(toE(a[1], 64));
    for (Expr* e : { x, y }) if (isC(e) && !std::isfinite(bitsToD(e->cv, 64))) { assertTrue(mkBool(false), msg); return; }
    if (x == y) { assertTrue(mkBool(true), msg); return; }
    FPView p, q;
    fpView(x, p); fpView(y, q);
    double e = p.err + q.err;
    Poly d = pAdd(p.p, q.p, -1, e);
    Expr* dv = mkFP(d, e, 64);
    if (dv->k == E_CONST) { assertTrue(mkBool(std::fabs(bitsToD(dv->cv, 64)) <= tol), msg); return; }
    if (getenv("QSE_SHOW")) { fprintf(stderr, "close %s: err=%g terms=%zu range [%g,%g]\n", msg.c_str(), e, d.t.size(), dv->fp->lo, dv->fp->hi); }
    // prefer a clear counterexample
    Expr *bigp = mkNot(mkRcmp(dv->fp, -std::max(8 * tol, tol + 4 * e), 1)), *bign = mkRcmp(dv->fp, std::max(8 * tol, tol + 4 * e), 0);
    Expr *hi = mkNot(mkRcmp(dv->fp, -tol, 1)), *lo = mkRcmp(dv->fp, tol, 0);
    Expr* bad = mkOr(hi, lo);
    if (isC(bad) && !bad->cv) {
        // decided by interval propagation over the polynomial; confirm with the solver nevertheless
        __sync_fetch_and_add(&g_st->asserts, 1);
        Expr t{}; t.k = E_RCMP; t.w = 1; t.fp = dv->fp; t.aux = 0; t.cv = dToBits(tol, 64);
        Expr* l2 = intern(t);
        Expr u{}; u.k = E_RCMP; u.w = 1; u.fp = dv->fp; u.aux = 1; u.cv = dToBits(-tol, 64);
        Expr* h2 = raw(E_XOR, 1, intern(u), mkBool(true));
        Model m;
        SRes r = S.check(raw(E_OR, 1, l2, h2), &m);
        if (r == S_UNSAT) __sync_fetch_and_add(&g_st->assertsUnsat, 1); else __sync_fetch_and_add(&g_st->assertsTrivial, 1);
        return;
    }
    Expr* big = mkOr(bigp, bign);
    if (!isC(big) || big->cv) {
        Model m;
        SRes r = isC(big) ? S_SAT : S.check(big, &m);
        if (r == S_SAT) {
            if (isC(big)) { ensureModel(); m = S.model; }
            __sync_fetch_and_add(&g_st->asserts, 1);
            violation("assert", msg, &m);
            Expr* ok = mkNot(bad);
            if (isC(ok)) endPath();
            SRes q2 = S.check(ok, &m);
            if (q2 == S_UNSAT) endPath();
            if (q2 == S_SAT) S.model = m; else S.modelOk = false;
            addPC(ok);
            return;
        }
    }
    assertTrue(mkNot(bad), msg);
}
HOOK(h_vp_cover)
{
    std::string l = readStr(a[0].lo);
    if (tabBump("cover:" + g_case + ":" + l) == 0) logLine("{\"t\":\"cover\",\"case\":\"" + jsonEsc(g_case) + "\",\"label\":\"" + jsonEsc(l) + "\"}");
}
HOOK(h_vp_skip) { endPath(); }
HOOK(h_vp_fail) { ensureModel(); violation("assert", readStr(a[0].lo), nullptr); endPath(); }
HOOK(h_vp_limit) { g_maxInsns = cv64(a[0]); g_insBase = g_insns; }
HOOK(h_vp_threads) { g_explSched = cv64(a[0]) != 0; g_preemptLeft = (int)cv64(a[1]); if (a.size() > 2 && cv64(a[2])) g_hw = (int)cv64(a[2]); }
HOOK(h_vp_debug)
{
    std::string s = readStr(a[0].lo);
    Val v = a[1];
    if (!v.s) fprintf(stderr, "[debug] %s = %g\n", s.c_str(), asD(v.lo));
    else if (v.s->k == E_FP) {
        fprintf(stderr, "[debug] %s = fp err=%g [%g,%g]:", s.c_str(), v.s->fp->err, v.s->fp->lo, v.s->fp->hi);
        int n = 0;
        for (auto& t : v.s->fp->p.t) { fprintf(stderr, " %+g", t.second); for (auto x : g_monos[t.first].at) fprintf(stderr, "*%s%u", g_atoms[x].name.c_str(), x); if (++n > 12) break; }
        fprintf(stderr, "\n");
    } else fprintf(stderr, "[debug] %s = symbolic\n", s.c_str());
}
HOOK(h_vp_is_sym) { ret = { mkV64(a[0].s != nullptr) }; }
HOOK(h_vp_rand_f32) { ret = { fromE(newFP("rnd", 0, 1 - 5.9604644775390625e-08, 32)) }; }
HOOK(h_vp_rand_f64) { ret = { fromE(newFP("rnd", 0, 1 - 1.1102230246251565e-16, 64)) }; }

// ------------------------------------------------------------------ libc
HOOK(h_malloc) { ret = { mkV64(heapAlloc(cv64(a[0]))) }; }
HOOK(h_new)
{
    u64 n = cv64(a[0]);
    u64 p = heapAlloc(n);
    if (!p) { u64 obj = heapAlloc(16); static u64 vt = (u64)dlsym(RTLD_DEFAULT, "_ZTVSt9bad_alloc"); *(u64*)obj = vt + 16; g_exc.push_back({ obj, (u64)dlsym(RTLD_DEFAULT, "_ZTISt9bad_alloc"), 0, 0 }); throw RaiseExc{ obj }; }
    ret = { mkV64(p) };
}
static u64 alignedAlloc(u64 n, u64 al) { if (al > 16) { g_heap = (g_heap + 32 + al - 1) / al * al - 32; while (((g_heap + 32 + 15) & ~15ull) % al) g_heap += 16; } return heapAlloc(n); }
HOOK(h_newAl) { u64 al = cv64(a[1]); ret = { mkV64(alignedAlloc(cv64(a[0]), al)) }; }
HOOK(h_alAlloc) { u64 al = cv64(a[0]); ret = { mkV64(alignedAlloc(cv64(a[1]), al)) }; }
HOOK(h_posixMemalign) { u64 p = cv64(a[0]); u64 r = alignedAlloc(cv64(a[2]), cv64(a[1])); storeC(p, 64, mkV64(r)); ret = { mkV64(0) }; }
HOOK(h_free) { heapFree(cv64(a[0])); }
HOOK(h_calloc) { u64 n = cv64(a[0]) * cv64(a[1]); u64 p = heapAlloc(n); if (p) memset((void*)p, 0, n); ret = { mkV64(p) }; }
HOOK(h_realloc)
{
    u64 p = cv64(a[0]), n = cv64(a[1]);
    u64 q = heapAlloc(n);
    if (p) { auto it = g_allocs.find(p); u64 o = it != g_allocs.end() ? it->second : 0; memCopy(q, p, std::min(o, n)); heapFree(p); }
    ret = { mkV64(q) };
}
HOOK(h_memcpy) { u64 d = cv64(a[0]), s = cv64(a[1]), n = cv64(a[2]); memCopy(d, s, n); ret = { mkV64(d) }; }
HOOK(h_memset) { u64 d = cv64(a[0]), n = cv64(a[2]); Val v = a[1]; if (v.s) v = fromE(mkExtract(v.s, 0, 8)); memFill(d, v, n); ret = { mkV64(d) }; }
HOOK(h_memcmp)
{
    u64 p = cv64(a[0]), q = cv64(a[1]), n = cv64(a[2]);
    if (n && (!memValid(p, n) || !memValid(q, n))) memViolation("read", p, n);
    bool sym = false;
    for (u64 i = 0; i < n && !sym; i++) if ((inArena(p + i) && *sh(p + i) == 2) || (inArena(q + i) && *sh(q + i) == 2)) sym = true;
    if (!sym) { ret = { mkV64((u64)(uint32_t)memcmp((void*)p, (void*)q, n)) }; return; }
    Expr* r = mkConst(0, 32);
    for (u64 i = n; i-- > 0;) {
        Expr *x = byteE(p + i), *y = byteE(q + i);
        r = mkIte(mkBin(E_EQ, x, y), r, mkIte(mkBin(E_ULT, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
    }
    ret = { fromE(r) };
}
HOOK(h_strlen) { u64 p = cv64(a[0]); u64 n = 0; while (*(char*)(p + n)) { if (!memValid(p + n, 1)) memViolation("read", p + n, 1); n++; } ret = { mkV64(n) }; }
HOOK(h_abort) { ensureModel(); violation("abort", "abort/terminate called from " + shortFn(T->st.back().f->name), nullptr); endPath(); }
HOOK(h_ret0) { ret = ci->ret.empty() ? std::vector<Val>() : std::vector<Val>{ mkV64(0) }; }
HOOK(h_nop) { if (!ci->ret.empty()) ret = { a.empty() ? mkV64(0) : a[0] }; }
HOOK(h_getenv) { ret = { mkV64(0) }; }
HOOK(h_clock) { ret = { mkV64(1000000) }; }

// ------------------------------------------------------------------ C++ runtime
HOOK(h_cxaAlloc) { ret = { mkV64(heapAlloc(cv64(a[0]))) }; }
HOOK(h_cxaFree) { heapFree(cv64(a[0])); }
HOOK(h_cxaThrow) { u64 o = cv64(a[0]); g_exc.push_back({ o, cv64(a[1]), cv64(a[2]), 0 }); throw RaiseExc{ o }; }
HOOK(h_cxaBegin) { u64 o = cv64(a[0]); T->caught.push_back(o); if (auto* e = excOf(o)) e->handlers++; ret = { mkV64(o) }; }
HOOK(h_cxaEnd) { if (!T->caught.empty()) T->caught.pop_back(); }
HOOK(h_cxaRethrow) { if (T->caught.empty()) h_abort(ci, a, ret); u64 o = T->caught.back(); throw RaiseExc{ o }; }
HOOK(h_guardAcq) { u64 p = cv64(a[0]); Val v = loadC(p, 8); ret = { mkV64(v.lo ? 0 : 1) }; }
HOOK(h_guardRel) { u64 p = cv64(a[0]); storeC(p, 8, mkV64(1)); }
HOOK(h_throwOOR) { throwStd("_ZTISt12out_of_range", "_ZNSt12out_of_rangeC1EPKc", "out_of_range"); }
HOOK(h_throwLen) { throwStd("_ZTISt12length_error", "_ZNSt12length_errorC1EPKc", "length_error"); }
HOOK(h_throwInv) { throwStd("_ZTISt16invalid_argument", "_ZNSt16invalid_argumentC1EPKc", "invalid_argument"); }
HOOK(h_throwLogic) { throwStd("_ZTISt11logic_error", "_ZNSt11logic_errorC1EPKc", "logic_error"); }
HOOK(h_throwBadFn) { throwStd("_ZTISt17bad_function_call", "_ZNSt13runtime_errorC1EPKc", "bad_function_call"); }
HOOK(h_throwSys) { throwStd("_ZTISt12system_error", "_ZNSt13runtime_errorC1EPKc", "system_error"); }
HOOK(h_throwBadAlloc) { throwStd("_ZTISt9bad_alloc", "_ZNSt13runtime_errorC1EPKc", "bad_alloc"); }

// dynamic_cast over single-inheritance chains (and __vmi with public bases), following the Itanium RTTI layout
static bool isBase(u64 ti, u64 want, int depth = 0)
{
    if (depth > 20) return false;
    const char *x = *(const char**)(ti + 8), *y = *(const char**)(want + 8);
    if (ti == want || !strcmp(x, y)) return true;
    u64 vt = *(u64*)ti;
    static u64 siv = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv120__si_class_type_infoE");
    static u64 vmi = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    if (vt == siv + 16) return isBase(*(u64*)(ti + 16), want, depth + 1);
    if (vt == vmi + 16) { uint32_t n = *(uint32_t*)(ti + 20); for (uint32_t i = 0; i < n; i++) if (isBase(*(u64*)(ti + 24 + 16 * i), want, depth + 1)) return true; }
    return false;
}

// ------------------------------------------------------------------ math
static double mathC1(const std::string& n, double x)
{
    if (n == "sin") return sin(x); if (n == "cos") return cos(x); if (n == "tan") return tan(x);
    if (n == "exp") return exp(x); if (n == "exp2") return exp2(x); if (n == "log") return log(x); if (n == "log2") return log2(x); if (n == "log10") return log10(x); if (n == "log1p") return log1p(x); if (n == "expm1") return expm1(x);
    if (n == "sqrt") return sqrt(x); if (n == "fabs") return fabs(x); if (n == "floor") return floor(x); if (n == "ceil") return ceil(x);
    if (n == "trunc") return trunc(x); if (n == "round") return round(x); if (n == "rint") return rint(x);
    if (n == "asin") return asin(x); if (n == "acos") return acos(x); if (n == "atan") return atan(x); if (n == "tanh") return tanh(x); if (n == "sinh") return sinh(x); if (n == "cosh") return cosh(x);
    if (n == "cbrt") return cbrt(x);
    return NAN;
}
static float mathC1f(const std::string& n, float x)
{
    if (n == "sin") return sinf(x); if (n == "cos") return cosf(x); if (n == "tan") return tanf(x);
    if (n == "exp") return expf(x); if (n == "exp2") return exp2f(x); if (n == "log") return logf(x); if (n == "log2") return log2f(x); if (n == "log10") return log10f(x);
    if (n == "sqrt") return sqrtf(x); if (n == "fabs") return fabsf(x); if (n == "floor") return floorf(x); if (n == "ceil") return ceilf(x);
    if (n == "trunc") return truncf(x); if (n == "round") return roundf(x); if (n == "rint") return rintf(x);
    if (n == "asin") return asinf(x); if (n == "acos") return acosf(x); if (n == "atan") return atanf(x); if (n == "tanh") return tanhf(x); if (n == "sinh") return sinhf(x); if (n == "cosh") return coshf(x);
    return mathC1(n, x);
}
static bool mathHook(const std::string& n, std::vector<Val>& a, unsigned w, Val& r)
{
    bool sym = false;
    for (auto& v : a) if (v.s) { Expr* e = toFP(v.s); v = fromE(e); if (!isC(e)) sym = true; }
    if (!sym) {
        if (n == "powi") { double y = pow(bitsToD(a[0].lo, w), (double)(int)a[1].lo); r = mkV(dToBits(y, w)); return true; }
        if (a.size() == 1) { r = w == 32 ? mkV64(fromF(mathC1f(n, asF(a[0].lo)))) : mkV64(fromD(mathC1(n, asD(a[0].lo)))); return true; }
        if (w == 32) {
            float x = asF(a[0].lo), y = asF(a[1].lo), z;
            if (n == "pow") z = powf(x, y); else if (n == "atan2") z = atan2f(x, y); else if (n == "hypot") z = hypotf(x, y); else if (n == "fmod") z = fmodf(x, y);
            else if (n == "fmin") z = fminf(x, y); else if (n == "fmax") z = fmaxf(x, y); else return false;
            r = mkV64(fromF(z));
        } else {
            double x = asD(a[0].lo), y = asD(a[1].lo), z;
            if (n == "pow") z = pow(x, y); else if (n == "atan2") z = atan2(x, y); else if (n == "hypot") z = hypot(x, y); else if (n == "fmod") z = fmod(x, y);
            else if (n == "fmin") z = fmin(x, y); else if (n == "fmax") z = fmax(x, y); else return false;
            r = mkV64(fromD(z));
        }
        return true;
    }
    Expr* x = toE(a[0], w);
    if (n == "sin" || n == "cos") { r = fromE(fpTrig(x, n == "sin")); return true; }
    if (n == "sqrt") { r = fromE(fpSqrtE(x)); return true; }
    if (n == "fabs") { r = fromE(fpAbsE(x)); return true; }
    if (n == "hypot") {
        Expr* y = toE(a[1], w);
        // evaluated with one rounding in hardware; ours is at least as wide
        Expr* s = fpAddSub(fpMul(x, x), fpMul(y, y), false);
        r = fromE(fpSqrtE(s));
        return true;
    }
    if (n == "atan2") {
        Expr* X = toE(a[1], w);
        FPView vx, vy;
        Poly L;
        double e;
        if (fpView(X, vx) && fpView(x, vy) && (g_real || getenv("QSE_LIN")) && atan2Lin(vy, vx, L, e)) {
            double lo, hi, e2 = 0;
            pBounds(L, lo, hi);
            int m0 = (int)std::ceil((-M_PI - 1e-3 - hi) / (2 * M_PI)), m1 = (int)std::floor((M_PI + 1e-3 - lo) / (2 * M_PI));
            for (int m = m0; m <= m1; m++) {
                Expr* v = mkFP(pAdd(L, pConst(2 * M_PI * m), 1, e2), e + 4 * uround(w) * 3.2, w);
                if (m == m1 || branch(fpCmp(mkConst(dToBits(-M_PI, w), w), v, 0))) { r = fromE(v); return true; }
            }
        }
        r = fromE(fpAtan2(x, X)); return true;
    }
    if (n == "pow" && !a[1].s) {
        double p = bitsToD(a[1].lo, w);
        if (p == 2) { r = fromE(fpMul(x, x)); return true; }
        if (p == 1) { r = a[0]; return true; }
        if (p == 0.5) { r = fromE(fpSqrtE(x)); return true; }
    }
    if (n == "fmin" || n == "fmax") {
        Expr* y = toE(a[1], w);
        bool lt = branch(fpCmp(x, y, 0));
        r = fromE((lt == (n == "fmin")) ? x : y);
        return true;
    }
    if (n == "floor" || n == "trunc" || n == "round" || n == "ceil" || n == "rint") {
        Expr* y = x;
        double sh2 = 0;
        if (n == "floor") { // fork on the integer part
            double lo = x->fp->lo - x->fp->err, hi = x->fp->hi + x->fp->err;
            i64 f0 = (i64)std::floor(lo), f1 = (i64)std::floor(hi);
            if (f1 - f0 > 300) return false;
            for (i64 k = f0; k < f1; k++) if (branch(fpCmp(x, mkConst(dToBits((double)(k + 1), w), w), 0))) { r = mkV(dToBits((double)k, w)); return true; }
            r = mkV(dToBits((double)f1, w));
            return true;
        }
        if (n == "trunc") { Val v = fpToInt(fromE(y), w, 64, true); r = mkV(dToBits((double)(i64)v.lo, w)); return true; }
        (void)sh2;
    }
    return false;
}
static std::string g_mathName;
template <int N> struct MName { static std::string s; };
static std::unordered_map<FuncInfo*, std::string> g_mathFn;
static void h_math(CallInfo* ci, std::vector<Val>& a, std::vector<Val>& ret)
{
    std::string n = ci->direct ? ci->direct->name : "";
    unsigned w = ci->ret.empty() ? 64 : ci->ret[0].w;
    if (w == 80) { nativeCall(ci->direct, dlsym(RTLD_DEFAULT, n.c_str()), ci, a, ret); return; }
    if (w == 32 && n.size() > 1 && n.back() == 'f') n.pop_back();
    Val r;
    if (!mathHook(n, a, w, r)) unsupported("math function " + n + " of a symbolic value");
    ret = { r };
}
HOOK(h_sincos)
{
    unsigned w = ci->args[0].ts[0].w;
    std::vector<Val> x{ a[0] };
    Val s, c;
    mathHook("sin", x, w, s);
    x = { a[0] };
    mathHook("cos", x, w, c);
    storeC(cv64(a[1]), w, s);
    storeC(cv64(a[2]), w, c);
}
static bool symAny(std::vector<Val>& a) { bool s = false; for (auto& v : a) if (v.s) { Expr* e = toFP(v.s); v = fromE(e); if (v.s) s = true; } return s; }
// complex functions: arguments are (re, im) pairs, flattened
static void cplxRet(CallInfo* ci, std::vector<Val>& ret, const Val& re, const Val& im) { (void)ci; ret = { re, im }; }
HOOK(h_cexp)
{
    unsigned w = ci->args[0].ts[0].w;
    if (!symAny(a)) { nativeCall(ci->direct, dlsym(RTLD_DEFAULT, ci->direct->name.c_str()), ci, a, ret); return; }
    Val er = mkV(dToBits(1.0, w));
    if (a[0].s) unsupported("exp of a symbolic real part");
    double x = bitsToD(a[0].lo, w);
    if (x != 0) er = mkV(dToBits(w == 32 ? (double)expf((float)x) : exp(x), w));
    std::vector<Val> y{ a[1] };
    Val s, c;
    mathHook("sin", y, w, s); y = { a[1] }; mathHook("cos", y, w, c);
    cplxRet(ci, ret, binFP(O_FMUL, er, c, w), binFP(O_FMUL, er, s, w));
}
HOOK(h_cabs) { unsigned w = ci->ret[0].w; symAny(a); Val r; if (!mathHook("hypot", a, w, r)) unsupported("cabs"); ret = { r }; }
HOOK(h_carg) { unsigned w = ci->ret[0].w; symAny(a); std::vector<Val> b{ a[1], a[0] }; Val r; if (!mathHook("atan2", b, w, r)) unsupported("carg"); ret = { r }; }
HOOK(h_csqrtEtc)
{
    if (symAny(a)) unsupported(ci->direct->name + " of a symbolic value");
    nativeCall(ci->direct, dlsym(RTLD_DEFAULT, ci->direct->name.c_str()), ci, a, ret);
}
HOOK(h_mulsc3)
{ // only reached when the naive product is NaN
    unsigned w = ci->args[0].ts[0].w;
    if (!symAny(a)) { nativeCall(ci->direct, dlsym(RTLD_DEFAULT, ci->direct->name.c_str()), ci, a, ret); return; }
    Val re = binFP(O_FSUB, binFP(O_FMUL, a[0], a[2], w), binFP(O_FMUL, a[1], a[3], w), w);
    Val im = binFP(O_FADD, binFP(O_FMUL, a[0], a[3], w), binFP(O_FMUL, a[1], a[2], w), w);
    ret = { re, im };
}
HOOK(h_divsc3)
{
    unsigned w = ci->args[0].ts[0].w;
    if (!symAny(a)) {
        double x = bitsToD(a[0].lo, w), y = bitsToD(a[1].lo, w), c = bitsToD(a[2].lo, w), d = bitsToD(a[3].lo, w);
        double den = c * c + d * d, re, im;
        if (w == 32) {
            float _Complex z = __builtin_complex((float)x, (float)y) / __builtin_complex((float)c, (float)d);
            re = __real__ z; im = __imag__ z;
        } else {
            double _Complex z = __builtin_complex(x, y) / __builtin_complex(c, d);
            re = __real__ z; im = __imag__ z;
        }
        (void)den;
        ret = { mkV(dToBits(re, w)), mkV(dToBits(im, w)) };
        return;
    }
    Val den = binFP(O_FADD, binFP(O_FMUL, a[2], a[2], w), binFP(O_FMUL, a[3], a[3], w), w);
    Val nr = binFP(O_FADD, binFP(O_FMUL, a[0], a[2], w), binFP(O_FMUL, a[1], a[3], w), w);
    Val ni = binFP(O_FSUB, binFP(O_FMUL, a[1], a[2], w), binFP(O_FMUL, a[0], a[3], w), w);
    ret = { binFP(O_FDIV, nr, den, w), binFP(O_FDIV, ni, den, w) };
}

// ------------------------------------------------------------------ threads
static Thread* newThread(int chunkVals)
{
    Thread* t = new Thread();
    t->id = g_threads.size();
    static u64 stackTop = ARENA + ARENA_SZ - (64ull << 20);
    u64 sz = t->id == 0 ? (64ull << 20) : (4ull << 20);
    t->stHi = stackTop;
    t->stLo = stackTop - sz;
    stackTop = t->stLo - (1ull << 20);
    t->sp = t->stHi - 64;
    u64 n = chunkVals;
    t->rtop = (Val*)mmap(nullptr, n * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    t->rend = t->rtop + n;
    t->ptid = 1000 + t->id;
    g_threads.push_back(t);
    return t;
}
static bool runnable(Thread* t)
{
    switch (t->wait) {
    case TW_RUN: return true;
    case TW_MUTEX: return !g_mtx.count(t->wobj) || g_mtx[t->wobj] == 0;
    case TW_JOIN: return g_threads[t->wobj]->wait == TW_DONE;
    case TW_ONCE: return g_once[t->wobj] == 2;
    default: return false;
    }
}
static void wake(Thread* t)
{
    // conditions satisfied: complete the blocking operation
    if (t->wait == TW_MUTEX) g_mtx[t->wobj] = t->id + 1;
    t->wait = TW_RUN;
}
static void pickThread(bool curOk)
{
    std::vector<Thread*> c;
    for (auto* t : g_threads) if ((t != T || curOk) && runnable(t)) c.push_back(t);
    if (c.empty()) {
        ensureModel();
        violation("deadlock", "all threads blocked", nullptr);
        endPath();
    }
    Thread* n = c[0];
    if (curOk) n = T;
    else for (auto* t : c) if (t->id > T->id) { n = t; break; }
    if (g_explSched && c.size() > 1) {
        bool preempt = curOk;
        if (!preempt || g_preemptLeft > 0) {
            std::string nm = "sched" + std::to_string(g_schedNo++);
            u64 k = (u64)concretize(newBV(nm, bitsFor(c.size() - 1), 0, c.size() - 1, 8));
            n = c[k];
            if (preempt && n != T) g_preemptLeft--;
        }
    }
    if (n != T) { T = n; }
    wake(T);
}
static void schedPoint()
{
    if (g_threads.size() < 2 || !g_explSched) return;
    if (T->justResumed) { T->justResumed = false; return; }
    Thread* o = T;
    pickThread(true);
    if (T != o) o->justResumed = true;
}
static void threadDone()
{
    T->wait = TW_DONE;
    pickThread(false);
}
// finishing a blocking hook: deliver the result first, then switch away
static void blockOn(CallInfo* ci, TWait w, u64 obj, std::vector<Val> r)
{
    if (r.size() < ci->ret.size()) r.resize(ci->ret.size(), mkV64(0));
    afterCall(ci, r);
    T->wait = w;
    T->wobj = obj;
    if (runnable(T)) { wake(T); throw Reenter{}; }
    pickThread(false);
    throw Reenter{};
}
// run a scheduling choice before the visible operation: re-executes the call instruction when switched away
static void visible()
{
    if (g_threads.size() < 2 || !g_explSched) return;
    if (T->justResumed) { T->justResumed = false; return; }
    Thread* o = T;
    pickThread(true);
    if (T != o) { o->justResumed = true; o->st.back().pc--; throw Reenter{}; }
}
HOOK(h_threadStart)
{
    // std::thread::_M_start_thread(this, unique_ptr<_State>*, void(*)())
    u64 self = cv64(a[0]), up = cv64(a[1]);
    u64 st = loadC(up, 64).lo;
    storeC(up, 64, mkV64(0));
    int chunk = 4 << 20;
    Thread* t = newThread(chunk);
    storeC(self, 64, mkV64(t->ptid));
    u64 vt = loadC(st, 64).lo, run = loadC(vt + 16, 64).lo;
    FuncInfo* f = fiByAddr(run);
    if (!f) unsupported("thread entry");
    t->runState = st;
    Thread* o = T;
    T = t;
    pushFrame(f, { mkV64(st) }, nullptr, 2);
    T = o;
    if (g_explSched) {
        afterCall(ci, {});
        pickThread(true);
        throw Reenter{};
    }
}
HOOK(h_threadJoin)
{
    u64 self = cv64(a[0]);
    u64 id = loadC(self, 64).lo;
    storeC(self, 64, mkV64(0));
    if (id < 1000 || id - 1000 >= g_threads.size()) unsupported("join of unknown thread");
    blockOn(ci, TW_JOIN, id - 1000, {});
}
HOOK(h_threadDetach) { storeC(cv64(a[0]), 64, mkV64(0)); }
HOOK(h_hw) { ret = { mkV64(g_hw) }; }
HOOK(h_self) { ret = { mkV64(T->ptid) }; }
HOOK(h_mtxLock)
{
    visible();
    u64 m = cv64(a[0]);
    if (g_mtx[m] == 0) { g_mtx[m] = T->id + 1; ret = { mkV64(0) }; return; }
    if (g_mtx[m] == T->id + 1) { ensureModel(); violation("deadlock", "relock of a held mutex", nullptr); endPath(); }
    blockOn(ci, TW_MUTEX, m, { mkV64(0) });
}
HOOK(h_mtxTry)
{
    visible();
    u64 m = cv64(a[0]);
    if (g_mtx[m] == 0) { g_mtx[m] = T->id + 1; ret = { mkV64(0) }; } else ret = { mkV64(16) };
}
HOOK(h_mtxUnlock) { g_mtx[cv64(a[0])] = 0; ret = { mkV64(0) }; }
HOOK(h_condWait)
{ // std::condition_variable::wait(this, unique_lock&)
    u64 cv = cv64(a[0]), lk = cv64(a[1]);
    u64 m = loadC(lk, 64).lo;
    g_mtx[m] = 0;
    T->wobj2 = m;
    if (ci->d >= 0) ret = { mkV64(0) };
    afterCall(ci, ret);
    T->wait = TW_COND;
    T->wobj = cv;
    pickThread(false);
    throw Reenter{};
}
HOOK(h_notifyAll) { u64 cv = cv64(a[0]); for (auto* t : g_threads) if (t->wait == TW_COND && t->wobj == cv) { t->wait = TW_MUTEX; t->wobj = t->wobj2; } }
HOOK(h_notifyOne)
{
    u64 cv = cv64(a[0]);
    for (auto* t : g_threads) if (t->wait == TW_COND && t->wobj == cv) { t->wait = TW_MUTEX; t->wobj = t->wobj2; break; }
}
HOOK(h_futexWait)
{ // bool _M_futex_wait_until(this, unsigned* addr, unsigned val, bool has_timeout, secs, ns)
    u64 p = cv64(a[1]);
    u64 val = cv64(a[2]);
    if (loadC(p, 32).lo != val) { ret = { mkV64(1) }; return; }
    if (cv64(a[3])) { ret = { mkV64(0) }; return; } // timed wait: may time out at once
    std::vector<Val> r{ mkV64(1) };
    afterCall(ci, r);
    T->wait = TW_FUTEX;
    T->wobj = p;
    pickThread(false);
    throw Reenter{};
}
HOOK(h_futexNotify) { u64 p = cv64(a[0]); for (auto* t : g_threads) if (t->wait == TW_FUTEX && t->wobj == p) t->wait = TW_RUN; }
HOOK(h_once)
{
    u64 fl = cv64(a[0]);
    int& s = g_once[fl];
    if (s == 2) { ret = { mkV64(0) }; return; }
    if (s == 1) { blockOn(ci, TW_ONCE, fl, { mkV64(0) }); }
    s = 1;
    static u64 pc = (u64)dlsym(RTLD_DEFAULT, "_ZSt11__once_call");
    u64 fn = pc ? *(u64*)pc : 0;
    u64 init = cv64(a[1]);
    FuncInfo* f = fiByAddr(fn);
    if (!f) { f = fiByAddr(init); if (!f) unsupported("call_once target"); }
    if (!f->F->isDeclaration()) { pushFrame(f, {}, ci, 1, fl); throw Reenter{}; }
    unsupported("call_once of native function");
}

static void initHooks()
{
    auto& H = g_hooks;
    H["vp_u64"] = h_vp_u64; H["vp_choose"] = h_vp_choose; H["vp_concrete"] = h_vp_concrete; H["vp_f32"] = h_vp_f32; H["vp_f64"] = h_vp_f64;
    H["vp_assume"] = h_vp_assume; H["vp_assert"] = h_vp_assert; H["vp_close"] = h_vp_close; H["vp_cover"] = h_vp_cover; H["vp_skip"] = h_vp_skip;
    H["vp_fail"] = h_vp_fail; H["vp_limit"] = h_vp_limit; H["vp_threads"] = h_vp_threads; H["vp_debug"] = h_vp_debug; H["vp_is_sym"] = h_vp_is_sym;
    H["vp_rand_f32"] = h_vp_rand_f32; H["vp_rand_f64"] = h_vp_rand_f64;
    H["malloc"] = h_malloc; H["free"] = h_free; H["calloc"] = h_calloc; H["realloc"] = h_realloc; H["aligned_alloc"] = h_alAlloc; H["memalign"] = h_alAlloc; H["posix_memalign"] = h_posixMemalign;
    H["_Znwm"] = h_new; H["_Znam"] = h_new; H["_ZnwmRKSt9nothrow_t"] = h_malloc; H["_ZnamRKSt9nothrow_t"] = h_malloc;
    H["_ZnwmSt11align_val_t"] = h_newAl; H["_ZnamSt11align_val_t"] = h_newAl;
    for (auto n : { "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t" }) H[n] = h_free;
    H["memcpy"] = h_memcpy; H["memmove"] = h_memcpy; H["memset"] = h_memset; H["memcmp"] = h_memcmp; H["bcmp"] = h_memcmp; H["strlen"] = h_strlen;
    H["abort"] = h_abort; H["_ZSt9terminatev"] = h_abort; H["__cxa_pure_virtual"] = h_abort; H["__stack_chk_fail"] = h_abort; H["__assert_fail"] = h_abort; H["_Unwind_Resume"] = h_abort;
    H["__clang_call_terminate"] = h_abort;
    H["exit"] = h_abort; H["_exit"] = h_abort;
    H["__cxa_atexit"] = h_ret0; H["atexit"] = h_ret0; H["__cxa_thread_atexit"] = h_ret0;
    H["getenv"] = h_getenv; H["secure_getenv"] = h_getenv;
    H["time"] = h_clock; H["clock"] = h_clock; H["_ZNSt6chrono3_V212system_clock3nowEv"] = h_clock; H["_ZNSt6chrono3_V212steady_clock3nowEv"] = h_clock;
    H["__cxa_allocate_exception"] = h_cxaAlloc; H["__cxa_free_exception"] = h_cxaFree; H["__cxa_throw"] = h_cxaThrow; H["__cxa_begin_catch"] = h_cxaBegin;
    H["__cxa_end_catch"] = h_cxaEnd; H["__cxa_rethrow"] = h_cxaRethrow; H["__cxa_guard_acquire"] = h_guardAcq; H["__cxa_guard_release"] = h_guardRel; H["__cxa_guard_abort"] = h_ret0;
    H["_ZSt20__throw_out_of_rangePKc"] = h_throwOOR; H["_ZSt24__throw_out_of_range_fmtPKcz"] = h_throwOOR; H["_ZSt20__throw_length_errorPKc"] = h_throwLen;
    H["_ZSt24__throw_invalid_argumentPKc"] = h_throwInv; H["_ZSt19__throw_logic_errorPKc"] = h_throwLogic; H["_ZSt25__throw_bad_function_callv"] = h_throwBadFn;
    H["_ZSt20__throw_system_errori"] = h_throwSys; H["_ZSt17__throw_bad_allocv"] = h_throwBadAlloc; H["_ZSt28__throw_bad_array_new_lengthv"] = h_throwBadAlloc;
    H["_ZSt20__throw_future_errori"] = h_throwSys;
    for (auto n : { "sin", "cos", "tan", "exp", "exp2", "log", "log2", "log10", "log1p", "expm1", "sqrt", "fabs", "floor", "ceil", "trunc", "round", "rint", "asin", "acos", "atan", "tanh", "sinh", "cosh", "cbrt", "pow", "atan2", "hypot", "fmod", "fmin", "fmax" }) {
        H[n] = h_math;
        H[std::string(n) + "f"] = h_math;
    }
    H["sincos"] = h_sincos; H["sincosf"] = h_sincos;
    H["cexpf"] = h_cexp; H["cexp"] = h_cexp; H["cabsf"] = h_cabs; H["cabs"] = h_cabs; H["cargf"] = h_carg; H["carg"] = h_carg;
    for (auto n : { "csqrtf", "csqrt", "cpowf", "cpow", "clogf", "clog" }) H[n] = h_csqrtEtc;
    H["__mulsc3"] = h_mulsc3; H["__muldc3"] = h_mulsc3; H["__divsc3"] = h_divsc3; H["__divdc3"] = h_divsc3;
    H["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = h_threadStart;
    H["_ZNSt6thread4joinEv"] = h_threadJoin; H["_ZNSt6thread6detachEv"] = h_threadDetach; H["_ZNSt6thread20hardware_concurrencyEv"] = h_hw;
    H["_ZNSt6thread6_StateD2Ev"] = h_nop;
    H["pthread_self"] = h_self; H["pthread_mutex_lock"] = h_mtxLock; H["pthread_mutex_trylock"] = h_mtxTry; H["pthread_mutex_unlock"] = h_mtxUnlock;
    H["pthread_mutex_init"] = h_ret0; H["pthread_mutex_destroy"] = h_ret0;
    H["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = h_condWait; H["_ZNSt18condition_variable10notify_allEv"] = h_notifyAll;
    H["_ZNSt18condition_variable10notify_oneEv"] = h_notifyOne; H["_ZNSt18condition_variableC1Ev"] = h_nop; H["_ZNSt18condition_variableD1Ev"] = h_nop;
    H["pthread_cond_destroy"] = h_ret0; H["pthread_cond_init"] = h_ret0;
    H["_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE"] = h_futexWait;
    H["_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj"] = h_futexNotify;
    H["pthread_once"] = h_once; H["__pthread_once"] = h_once;
    H["sched_yield"] = h_ret0; H["nanosleep"] = h_ret0;
}
