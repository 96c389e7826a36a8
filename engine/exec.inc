// ------------------------------------------------------------------ execution
typedef void (*HookFn)(CallInfo* ci, std::vector<Val>& a, std::vector<Val>& ret);
static std::unordered_map<std::string, HookFn> g_hooks;
struct RaiseExc { u64 obj; };
struct Reenter { }; // a hook changed the frame stack / thread; nothing to return

static void pushFrame(FuncInfo* f, const std::vector<Val>& args, CallInfo* ci, int cont = 0, u64 contArg = 0)
{
    if (!f->decoded) decodeFn(f);
    f->calls++;
    if (T->st.size() > g_maxDepth) { violation("hang", "call depth limit exceeded in " + shortFn(f->name), nullptr); endPath(); }
    Frame fr{};
    fr.f = f; fr.pc = 0; fr.ci = ci; fr.sp = T->sp; fr.cont = cont; fr.contArg = contArg;
    if (T->rtop + f->nregs + 8 > T->rend) unsupported("register stack exhausted");
    fr.r = T->rtop;
    T->rtop += f->nregs;
    int n = std::min<int>(args.size(), f->nargs);
    for (int i = 0; i < n; i++) fr.r[i] = args[i];
    // byval copies
    if (ci) {
        size_t k = 0;
        for (size_t i = 0; i < ci->args.size() && i < f->argByval.size(); i++) {
            if (f->argByval[i]) {
                u64 sz = f->argByval[i];
                T->sp = (T->sp - sz - 48) & ~15ull;
                memset(sh(T->sp), 1, sz);
                memCopy(T->sp, cv64(fr.r[k]), sz);
                fr.r[k] = mkV64(T->sp);
            }
            k += ci->args[i].ts.size();
        }
    }
    if (f->vararg && ci) {
        // build a va area holding the variadic arguments as 8-byte slots
        size_t fixed = f->F->arg_size();
        u64 n2 = 0;
        for (size_t i = fixed; i < ci->args.size(); i++) n2 += 8 * ci->args[i].ts.size();
        T->sp = (T->sp - n2 - 64) & ~15ull;
        memset(sh(T->sp), 1, n2 + 8);
        u64 p = T->sp;
        size_t k = f->nargs;
        for (size_t i = fixed; i < ci->args.size(); i++)
            for (size_t j = 0; j < ci->args[i].ts.size(); j++) { storeC(p, 64, args[k++]); p += 8; }
        fr.va = T->sp;
    }
    T->st.push_back(fr);
    if (g_fnHit && !f->noInstr) g_fnHit[(f->fakeAddr - FUNC_BASE) / 16] = 1;
}
static void applyEdge(Frame& fr, const Edge& e)
{
    Val* C = fr.f->consts.data();
    for (auto& m : e.mv) fr.r[m.d] = m.s >= 0 ? fr.r[m.s] : C[~m.s];
    fr.pc = e.pc;
}
static void popFrame()
{
    Frame& fr = T->st.back();
    // invalidate the dead stack area
    if (fr.sp > T->sp) {
        u64 n = fr.sp - T->sp;
        if (memchr(sh(T->sp), 2, n)) for (u64 i = 0; i < n; i++) if (*sh(T->sp + i) == 2) g_sym.erase(T->sp + i);
        memset(sh(T->sp), 0, n);
    }
    T->sp = fr.sp;
    T->rtop = fr.r;
    T->st.pop_back();
}
static void threadDone();
static void afterCall(CallInfo* ci, const std::vector<Val>& ret)
{ // deliver results of a finished call to the (now top) frame
    Frame& fr = T->st.back();
    if (ci->d >= 0) for (size_t i = 0; i < ret.size() && i < ci->ret.size(); i++) fr.r[ci->d + i] = ret[i];
    if (ci->invoke) applyEdge(fr, ci->normal);
}
// ---- exceptions
static ExcInfo* excOf(u64 obj) { for (auto& e : g_exc) if (e.obj == obj) return &e; return nullptr; }
static bool tiMatches(u64 thrown, u64 want)
{
    if (!want) return true;
    u64 t = thrown;
    for (int d = 0; d < 16 && t; d++) {
        if (t == want) return true;
        const char* a = *(const char**)(t + 8);
        const char* b = *(const char**)(want + 8);
        if (a && b && !strcmp(a[0] == '*' ? a + 1 : a, b[0] == '*' ? b + 1 : b)) return true;
        // single inheritance only: __si_class_type_info has a base pointer at +16
        u64 vt = *(u64*)t;
        static u64 siv = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv120__si_class_type_infoE");
        if (vt == siv + 16) t = *(u64*)(t + 16);
        else break;
    }
    return false;
}
static std::map<u64, int> g_tiSel;
static int selOf(u64 ti) { auto it = g_tiSel.find(ti); if (it != g_tiSel.end()) return it->second; int n = g_tiSel.size() + 1; g_tiSel[ti] = n; return n; }
static std::string g_uncaught;
static void raise_(u64 obj, CallInfo* at)
{
    for (;;) {
        if (at && at->invoke) {
            Frame& fr = T->st.back();
            // find the landing pad clauses: the landingpad is the first non-phi instruction of the unwind block
            int pc = at->unwind.pc;
            while (fr.f->code[pc].op != O_LANDING) pc++;
            LandInfo* li = (LandInfo*)fr.f->code[pc].x;
            ExcInfo* ex = excOf(obj);
            int sel = 0;
            bool hit = false;
            for (auto& c : li->clauses) {
                if (c.first == 0) { if (tiMatches(ex ? ex->ti : 0, c.second)) { sel = selOf(c.second); hit = true; break; } }
                else { bool any = false; for (u64 t : li->filters[c.second]) if (tiMatches(ex->ti, t)) any = true; if (!any) { sel = -1; hit = true; break; } }
            }
            if (hit || li->cleanup) {
                applyEdge(fr, at->unwind);
                fr.excCur = obj;
                fr.excSel = hit ? sel : 0;
                return;
            }
        }
        Frame& fr = T->st.back();
        at = fr.ci;
        int cont = fr.cont;
        popFrame();
        if (T->st.empty() || cont == 2) {
            ExcInfo* ex = excOf(obj);
            std::string nm = ex ? demangle(*(const char**)(ex->ti + 8)) : "?";
            std::string what;
            ensureModel();
            static u64 te = (u64)dlsym(RTLD_DEFAULT, "_ZTISt9exception");
            if (ex && tiMatches(ex->ti, te)) {
                try { u64 vt = *(u64*)obj; if (!inArena(vt)) what = ((std::exception*)obj)->what(); } catch (...) { }
            }
            violation("exception", "uncaught exception " + nm + (what.empty() ? "" : ": " + what), nullptr);
            endPath();
        }
    }
}
static void throwStd(const char* ti, const char* ctor, const char* msg)
{
    u64 obj = heapAlloc(128);
    typedef void (*CF)(void*, const char*);
    CF c = (CF)dlsym(RTLD_DEFAULT, ctor);
    if (c) c((void*)obj, msg);
    g_exc.push_back({ obj, (u64)dlsym(RTLD_DEFAULT, ti), 0, 0 });
    throw RaiseExc{ obj };
}

// ---- native calls
static void nativeCall(FuncInfo* f, void* fn, CallInfo* ci, std::vector<Val>& args, std::vector<Val>& ret)
{
    std::vector<ffi_type*> ty;
    std::vector<u64> store(args.size() * 2 + 4);
    std::vector<void*> ptr;
    size_t k = 0, s = 0;
    std::vector<long double> lds(8);
    size_t ldn = 0;
    unsigned nfixed = 0, idx = 0;
    unsigned fixedArgs = ci->cb->getFunctionType()->getNumParams();
    for (auto& a : ci->args) {
        if (idx < fixedArgs) { /* counted below */ }
        if (a.byval) unsupported("native byval argument: " + (f ? f->name : std::string("?")));
        for (size_t j = 0; j < a.ts.size();) {
            SType& t = a.ts[j];
            Val& v = args[k];
            if (t.k == SK_F32 && a.ts.size() == 2 && a.ts[1].k == SK_F32) {
                if (v.s || args[k + 1].s) unsupported("symbolic float passed to " + (f ? f->name : std::string("native")));
                store[s] = (v.lo & 0xffffffff) | (args[k + 1].lo << 32);
                ty.push_back(&ffi_type_double); ptr.push_back(&store[s]); s++;
                k += 2; j += 2;
                continue;
            }
            if (v.s && (t.k == SK_F32 || t.k == SK_F64)) {
                Expr* e = toFP(v.s);
                if (!isC(e)) unsupported("symbolic float passed to " + (f ? f->name : std::string("native")));
                v = mkV(e->cv);
            }
            if (t.k == SK_F80) { long double x = 0; memcpy(&x, &v.lo, 10); lds[ldn] = x; ty.push_back(&ffi_type_longdouble); ptr.push_back(&lds[ldn++]); }
            else if (t.k == SK_F32) { store[s] = v.lo; ty.push_back(&ffi_type_float); ptr.push_back(&store[s]); s++; }
            else if (t.k == SK_F64) { store[s] = v.lo; ty.push_back(&ffi_type_double); ptr.push_back(&store[s]); s++; }
            else {
                u128 c = v.s ? concretize(v.s) : v128(v);
                store[s] = (u64)c; ty.push_back(&ffi_type_uint64); ptr.push_back(&store[s]); s++;
                if (t.w > 64) { store[s] = (u64)(c >> 64); ty.push_back(&ffi_type_uint64); ptr.push_back(&store[s]); s++; }
                if (t.k == SK_PTR && inArena((u64)c)) {
                    u64 p = (u64)c;
                    int lim = f && f->name.find("_Rb_tree") != std::string::npos ? 32 : f && f->name.find("12_Result_base") != std::string::npos ? 16 : 64; // node header; future result header
                    for (int q = 0; q < lim && *sh(p + q); q++) if (*sh(p + q) == 2) unsupported("symbolic memory passed to native " + (f ? shortFn(f->name) : std::string("?")));
                }
            }
            k++; j++;
        }
        idx++;
        if (idx <= fixedArgs) nfixed = ty.size();
    }
    ffi_cif cif;
    ffi_type* rt = &ffi_type_void;
    ffi_type st{};
    std::vector<ffi_type*> el;
    bool v2f = false;
    if (ci->ret.size() == 1) {
        SType& t = ci->ret[0];
        rt = t.k == SK_F32 ? &ffi_type_float : t.k == SK_F64 ? &ffi_type_double : t.k == SK_F80 ? &ffi_type_longdouble : &ffi_type_uint64;
        if (t.w > 64 && t.k == SK_INT) { el = { &ffi_type_uint64, &ffi_type_uint64, nullptr }; st.type = FFI_TYPE_STRUCT; st.elements = el.data(); rt = &st; }
    } else if (ci->ret.size() == 2 && ci->ret[0].k == SK_F32 && ci->ret[1].k == SK_F32) { rt = &ffi_type_double; v2f = true; }
    else if (ci->ret.size() > 1) {
        for (auto& t : ci->ret) el.push_back(t.k == SK_F32 ? &ffi_type_float : t.k == SK_F64 ? &ffi_type_double : t.w <= 8 ? &ffi_type_uint8 : t.w <= 32 ? &ffi_type_uint32 : &ffi_type_uint64);
        el.push_back(nullptr);
        st.type = FFI_TYPE_STRUCT; st.elements = el.data(); rt = &st;
    }
    if (ci->cb->getFunctionType()->isVarArg()) ffi_prep_cif_var(&cif, FFI_DEFAULT_ABI, nfixed, ty.size(), rt, ty.data());
    else ffi_prep_cif(&cif, FFI_DEFAULT_ABI, ty.size(), rt, ty.data());
    alignas(16) unsigned char rb[256] = { 0 };
    bool saved = g_inVM;
    g_inVM = true;
    ffi_call(&cif, FFI_FN(fn), rb, ptr.data());
    g_inVM = saved;
    if (v2f) { uint32_t x[2]; memcpy(x, rb, 8); ret = { mkV64(x[0]), mkV64(x[1]) }; }
    else if (ci->ret.size() == 1) {
        Val v{ 0, 0, nullptr };
        SType& t = ci->ret[0];
        memcpy(&v.lo, rb, t.w > 64 ? (t.k == SK_F80 ? 10 : 16) : 8);
        if (t.w < 64) v.lo &= (1ull << t.w) - 1;
        ret = { v };
    } else
        for (size_t i = 0; i < ci->ret.size(); i++) { Val v{ 0, 0, nullptr }; memcpy(&v.lo, rb + ci->ret[i].off, ci->ret[i].size); ret.push_back(v); }
}
static FuncInfo* fiByAddr(u64 a)
{
    u64 i = (a - FUNC_BASE) / 16;
    if (a < FUNC_BASE || i >= g_fns.size() || (a & 15)) return nullptr;
    return g_fns[i];
}
static void doCall(FuncInfo* f, void* native, CallInfo* ci, std::vector<Val>& args)
{
    std::vector<Val> ret;
    if (f) {
        if (!f->resolved) {
            f->resolved = true;
            auto it = g_hooks.find(f->name);
            if (it != g_hooks.end() && f->F->isDeclaration()) f->hook = 1, f->native = (void*)it->second;
            else if (f->F->isDeclaration()) {
                f->native = dlsym(RTLD_DEFAULT, f->name.c_str());
                f->hook = f->native ? 2 : 3;
            } else f->hook = 0;
        }
        if (f->hook == 0) { pushFrame(f, args, ci); return; }
        try {
            if (f->hook == 1) ((HookFn)f->native)(ci, args, ret);
            else if (f->hook == 2) nativeCall(f, f->native, ci, args, ret);
            else unsupported("external function " + shortFn(f->name) + " unavailable");
        } catch (RaiseExc& e) { raise_(e.obj, ci); return; }
        catch (Reenter&) { return; }
    } else {
        nativeCall(nullptr, native, ci, args, ret);
    }
    if (ret.size() < ci->ret.size()) ret.resize(ci->ret.size(), mkV64(0));
    afterCall(ci, ret);
}

// ---- scalar helpers
static Val binInt(int op, const Val& a, const Val& b, unsigned w)
{
    if (!a.s && !b.s) {
        if (w <= 64) {
            u64 x = a.lo, y = b.lo, m = w == 64 ? ~0ull : ((1ull << w) - 1), r = 0;
            switch (op) {
            case O_ADD: r = x + y; break;
            case O_SUB: r = x - y; break;
            case O_MUL: r = x * y; break;
            case O_AND: r = x & y; break;
            case O_OR: r = x | y; break;
            case O_XOR: r = x ^ y; break;
            case O_SHL: r = x << (y & (w > 32 ? 63 : 31)); if (y >= w && w != 32 && w != 64) r = 0; break;
            case O_LSHR: r = x >> (y & (w > 32 ? 63 : 31)); if (y >= w && w != 32 && w != 64) r = 0; break;
            case O_ASHR: { i64 s = (i64)sextW(x, w); unsigned k = y & (w > 32 ? 63 : 31); r = (u64)(s >> k); break; }
            case O_UDIV: case O_UREM: case O_SDIV: case O_SREM:
                if (!y) { violation("arith", "division by zero in " + shortFn(T->st.back().f->name), nullptr); endPath(); }
                if (op == O_UDIV) r = x / y;
                else if (op == O_UREM) r = x % y;
                else { i64 p = (i64)sextW(x, w), q = (i64)sextW(y, w); if (q == -1) r = op == O_SDIV ? (u64)(0 - (u64)p) : 0; else r = op == O_SDIV ? p / q : p % q; }
                break;
            }
            return mkV64(r & m);
        }
        u128 x = v128(a), y = v128(b), r = 0;
        bool ok;
        switch (op) {
        case O_SUB: r = x - y; break;
        case O_ADD: r = x + y; break;
        case O_MUL: r = x * y; break;
        case O_SHL: r = y >= w ? 0 : x << (unsigned)y; break;
        case O_LSHR: r = y >= w ? 0 : x >> (unsigned)y; break;
        case O_ASHR: r = foldBin(E_ASHR, x, y, w, ok); break;
        case O_AND: r = x & y; break;
        case O_OR: r = x | y; break;
        case O_XOR: r = x ^ y; break;
        default:
            if (!y) { violation("arith", "division by zero in " + shortFn(T->st.back().f->name), nullptr); endPath(); }
            r = foldBin(op == O_UDIV ? E_UDIV : op == O_UREM ? E_UREM : op == O_SDIV ? E_SDIV : E_SREM, x, y, w, ok);
        }
        return mkV(r & maskW(w));
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    if (x->k == E_FP || y->k == E_FP) {
        // sign manipulation of float bits
        if (op == O_XOR || op == O_AND || op == O_OR) {
            Expr* c = isC(x) ? x : isC(y) ? y : nullptr;
            if (!c) unsupported("bit operation on symbolic floats");
        } else unsupported("integer arithmetic on symbolic float bits");
    }
    switch (op) {
    case O_ADD: return fromE(mkBin(E_ADD, x, y));
    case O_SUB: return fromE(mkSub(x, y));
    case O_MUL: return fromE(mkBin(E_MUL, x, y));
    case O_AND: return fromE(mkBin(E_AND, x, y));
    case O_OR: return fromE(mkBin(E_OR, x, y));
    case O_XOR: return fromE(mkBin(E_XOR, x, y));
    case O_SHL: return fromE(mkBin(E_SHL, x, y));
    case O_LSHR: return fromE(mkBin(E_LSHR, x, y));
    case O_ASHR: return fromE(mkBin(E_ASHR, x, y));
    default: break;
    }
    if (branch(mkBin(E_EQ, y, mkConst(0, w)))) { ensureModel(); violation("arith", "division by zero in " + shortFn(T->st.back().f->name), nullptr); endPath(); }
    EK k = op == O_UDIV ? E_UDIV : op == O_UREM ? E_UREM : op == O_SDIV ? E_SDIV : E_SREM;
    return fromE(mkBin(k, x, y));
}
static float asF(u64 x) { uint32_t y = (uint32_t)x; float f; memcpy(&f, &y, 4); return f; }
static double asD(u64 x) { double f; memcpy(&f, &x, 8); return f; }
static u64 fromF(float f) { uint32_t y; memcpy(&y, &f, 4); return y; }
static u64 fromD(double f) { u64 y; memcpy(&y, &f, 8); return y; }
static long double asL(const Val& v) { long double r = 0; memcpy(&r, &v.lo, 10); return r; }
static Val fromL(long double d) { Val v{ 0, 0, nullptr }; memcpy(&v.lo, &d, 10); return v; }
static Val binFP(int op, const Val& a, const Val& b, unsigned w)
{
    if (!a.s && !b.s) {
        if (w == 32) {
            float x = asF(a.lo), y = asF(b.lo), r = 0;
            switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; case O_FREM: r = fmodf(x, y); break; }
            return mkV64(fromF(r));
        }
        if (w == 64) {
            double x = asD(a.lo), y = asD(b.lo), r = 0;
            switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; case O_FREM: r = fmod(x, y); break; }
            return mkV64(fromD(r));
        }
        long double x = asL(a), y = asL(b), r = 0;
        switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; case O_FREM: r = fmodl(x, y); break; }
        return fromL(r);
    }
    if (w == 80) unsupported("symbolic long double");
    Expr *x = toFP(toE(a, w)), *y = toFP(toE(b, w));
    switch (op) {
    case O_FADD: return fromE(fpAddSub(x, y, false));
    case O_FSUB: return fromE(fpAddSub(x, y, true));
    case O_FMUL: return fromE(fpMul(x, y));
    case O_FDIV: {
        if (isC(x) && isC(y)) return binFP(op, fromE(x), fromE(y), w);
        if (isC(y)) { if (bitsToD(y->cv, w) == 0) unsupported("division of a symbolic float by zero"); return fromE(fpDiv(x, y)); }
        // zero denominators produce inf/nan, which the encoding does not represent
        return fromE(fpDiv(x, y));
    }
    default: unsupported("symbolic frem");
    }
    return mkV64(0);
}
static Expr* icmpE(int pred, Expr* x, Expr* y)
{
    if (x->k == E_FP || y->k == E_FP) {
        if ((pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) && isC(x->k == E_FP ? y : x)) {
            // bitwise comparison with a constant: treat as value comparison (signed zeros are identified)
            Expr* r = fpCmp(x, y, 2);
            return pred == CmpInst::ICMP_EQ ? r : mkNot(r);
        }
        Expr* f = x->k == E_FP ? x : y;
        Expr* c = x->k == E_FP ? y : x;
        if (isC(c) && f == x && pred == CmpInst::ICMP_SLT && c->cv == 0) return fpCmp(f, mkConst(0, f->w), 0);
        if (isC(c) && f == x && pred == CmpInst::ICMP_SGT && c->cv == maskW(c->w)) return mkNot(fpCmp(f, mkConst(0, f->w), 0));
        unsupported("integer comparison of symbolic float bits");
    }
    switch (pred) {
    case CmpInst::ICMP_EQ: return mkBin(E_EQ, x, y);
    case CmpInst::ICMP_NE: return mkNot(mkBin(E_EQ, x, y));
    case CmpInst::ICMP_ULT: return mkBin(E_ULT, x, y);
    case CmpInst::ICMP_ULE: return mkBin(E_ULE, x, y);
    case CmpInst::ICMP_UGT: return mkBin(E_ULT, y, x);
    case CmpInst::ICMP_UGE: return mkBin(E_ULE, y, x);
    case CmpInst::ICMP_SLT: return mkBin(E_SLT, x, y);
    case CmpInst::ICMP_SLE: return mkBin(E_SLE, x, y);
    case CmpInst::ICMP_SGT: return mkBin(E_SLT, y, x);
    default: return mkBin(E_SLE, y, x);
    }
}
static Val doIcmp(int pred, const Val& a, const Val& b, unsigned w)
{
    if (!a.s && !b.s) {
        u128 x = v128(a), y = v128(b);
        bool r = false;
        switch (pred) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        default: {
            i128 p = sextW(x, w), q = sextW(y, w);
            r = pred == CmpInst::ICMP_SLT ? p < q : pred == CmpInst::ICMP_SLE ? p <= q : pred == CmpInst::ICMP_SGT ? p > q : p >= q;
        }
        }
        return mkV64(r);
    }
    return fromE(icmpE(pred, toE(a, w), toE(b, w)));
}
static Val doFcmp(int pred, const Val& a, const Val& b, unsigned w)
{
    if (!a.s && !b.s) {
        long double x, y;
        if (w == 32) { x = asF(a.lo); y = asF(b.lo); } else if (w == 64) { x = asD(a.lo); y = asD(b.lo); } else { x = asL(a); y = asL(b); }
        bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (pred) {
        case CmpInst::FCMP_FALSE: r = false; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        }
        return mkV64(r);
    }
    if (pred == CmpInst::FCMP_ORD || pred == CmpInst::FCMP_UNO) {
        // symbolic values are finite; the other side may be a NaN constant
        bool nan = false;
        for (const Val* v : { &a, &b }) if (!v->s) { double d = bitsToD(v->lo, w); if (std::isnan(d)) nan = true; }
        return mkV64(pred == CmpInst::FCMP_ORD ? !nan : nan);
    }
    if (w == 80) unsupported("symbolic long double");
    Expr *x = toFP(toE(a, w)), *y = toFP(toE(b, w));
    for (Expr* e : { x, y }) if (isC(e) && std::isnan(bitsToD(e->cv, w))) return mkV64(pred >= CmpInst::FCMP_UNO);
    Expr* r;
    switch (pred) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = fpCmp(x, y, 2); break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot(fpCmp(x, y, 2)); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = fpCmp(x, y, 0); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = fpCmp(x, y, 1); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = fpCmp(y, x, 0); break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = fpCmp(y, x, 1); break;
    default: r = mkBool(pred == CmpInst::FCMP_TRUE);
    }
    return fromE(r);
}
static Val fpToInt(const Val& a, unsigned wf, unsigned wi, bool sgn)
{
    if (!a.s) {
        long double x = wf == 32 ? asF(a.lo) : wf == 64 ? asD(a.lo) : asL(a);
        u128 r;
        if (!std::isfinite(x) || std::fabs(x) > 1.8e38L) r = sgn ? (u128)1 << (wi - 1) : 0;
        else if (x < 0) r = (u128)(-(i128)(u128)(-x));
        else r = (u128)x;
        return mkV(r & maskW(wi));
    }
    Expr* x = toFP(a.s);
    if (isC(x)) return fpToInt(fromE(x), wf, wi, sgn);
    double lo = x->fp->lo - x->fp->err, hi = x->fp->hi + x->fp->err;
    i64 a0 = (i64)std::trunc(lo), a1 = (i64)std::trunc(hi);
    if (a1 - a0 > 300) unsupported("float to integer conversion with a wide range");
    for (i64 k = a0; k < a1; k++) {
        // trunc(x) == k  <=>  x < k+1 (k>=0) / x <= k  (k<0, i.e. x in (k-1,k])
        Expr* c = k >= 0 ? fpCmp(x, mkConst(dToBits((double)(k + 1), x->w), x->w), 0) : fpCmp(x, mkConst(dToBits((double)k, x->w), x->w), 1);
        if (branch(c)) return mkV((u128)(i128)k & maskW(wi));
    }
    return mkV((u128)(i128)a1 & maskW(wi));
}
static Val intToFp(const Val& a, unsigned wi, unsigned wf, bool sgn)
{
    u128 v = a.s ? concretize(a.s) : v128(a);
    if (sgn) {
        i128 s = sextW(v, wi);
        if (wf == 32) return mkV64(fromF((float)s));
        if (wf == 64) return mkV64(fromD((double)s));
        return fromL((long double)s);
    }
    if (wf == 32) return mkV64(fromF((float)v));
    if (wf == 64) return mkV64(fromD((double)v));
    return fromL((long double)v);
}
static Expr* popcntE(Expr* x)
{
    Expr* s = mkConst(0, x->w);
    if (x->w == 1) return x;
    for (unsigned i = 0; i < x->w; i++) {
        if ((x->kz >> i) & 1) continue;
        s = mkBin(E_ADD, s, mkZext(mkExtract(x, i, 1), x->w));
    }
    if (!isC(s)) g_pop[s] = x;
    return s;
}
static bool mathHook(const std::string& nm, std::vector<Val>& a, unsigned w, Val& r);

static void execIntrin(CallInfo* ci, Frame& fr)
{
    Val* C = fr.f->consts.data();
    auto V = [&](int i, int k = 0) -> Val& { int s = ci->args[i].slots[k]; return s >= 0 ? fr.r[s] : C[~s]; };
    int n = ci->ret.size();
    int d = ci->d;
    switch (ci->intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 x = cv64(V(0)), y = cv64(V(1)), z = cv64(V(2)); memCopy(x, y, z); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 x = cv64(V(0)), z = cv64(V(2)); memFill(x, V(1), z); return; }
    case Intrinsic::eh_typeid_for: fr.r[d] = mkV64(selOf(cv64(V(0)))); return;
    case Intrinsic::trap: violation("abort", "trap in " + shortFn(fr.f->name), nullptr); endPath();
    case Intrinsic::stacksave: fr.r[d] = mkV64(T->sp); return;
    case Intrinsic::stackrestore: return;
    case Intrinsic::vastart: {
        u64 p = cv64(V(0));
        storeC(p, 32, mkV64(48)); storeC(p + 4, 32, mkV64(176)); storeC(p + 8, 64, mkV64(fr.va)); storeC(p + 16, 64, mkV64(0));
        return;
    }
    case Intrinsic::vaend: return;
    case Intrinsic::vacopy: { u64 x = cv64(V(0)), y = cv64(V(1)); memCopy(x, y, 24); return; }
    case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: fr.r[d] = V(0); return;
    case Intrinsic::objectsize: fr.r[d] = mkV64(~0ull); return;
    case Intrinsic::is_constant: fr.r[d] = mkV64(0); return;
    case Intrinsic::frameaddress: case Intrinsic::returnaddress: fr.r[d] = mkV64(0); return;
    case Intrinsic::is_fpclass: {
        // only NaN/Inf style tests occur; symbolic values are finite
        u64 m = V(1).lo;
        Val& v = V(0);
        unsigned w = ci->args[0].ts[0].w;
        if (v.s) { if (m & ~(0x3ull | 0x204ull)) unsupported("is.fpclass"); fr.r[d] = mkV64(0); return; }
        double x = bitsToD(v.lo, w);
        bool r = ((m & 3) && std::isnan(x)) || ((m & 0x4) && std::isinf(x) && x < 0) || ((m & 0x200) && std::isinf(x) && x > 0) || ((m & 0x60) && x == 0);
        if (m & ~(0x267ull)) r = r || (std::isfinite(x) && x != 0);
        fr.r[d] = mkV64(r);
        return;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: fr.r[d] = V(0); return;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned w = ci->ret[0].w;
        if (w > 63 && (ci->intrin == Intrinsic::umul_with_overflow || ci->intrin == Intrinsic::smul_with_overflow) && w > 64) { unsupported("wide mul overflow"); }
        Expr *x = toE(V(0), w), *y = toE(V(1), w);
        bool sg = ci->intrin == Intrinsic::sadd_with_overflow || ci->intrin == Intrinsic::ssub_with_overflow || ci->intrin == Intrinsic::smul_with_overflow;
        unsigned W2 = (ci->intrin == Intrinsic::umul_with_overflow || ci->intrin == Intrinsic::smul_with_overflow) ? 2 * w : w + 1;
        if (W2 > 128) W2 = 128;
        Expr *X = sg ? mkSext(x, W2) : mkZext(x, W2), *Y = sg ? mkSext(y, W2) : mkZext(y, W2), *R;
        switch (ci->intrin) {
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: R = mkBin(E_ADD, X, Y); break;
        case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: R = mkSub(X, Y); break;
        default: R = mkBin(E_MUL, X, Y);
        }
        Expr* lo = mkExtract(R, 0, w);
        fr.r[d] = fromE(lo);
        fr.r[d + 1] = fromE(mkNot(mkBin(E_EQ, sg ? mkSext(lo, W2) : mkZext(lo, W2), R)));
        return;
    }
    default: break;
    }
    // element-wise
    for (int i = 0; i < n; i++) {
        unsigned w = ci->ret[i].w;
        auto A = [&](int k) -> Val& { int m = ci->args[k].slots.size(); return V(k, m > 1 ? i : 0); };
        Val r{ 0, 0, nullptr };
        switch (ci->intrin) {
        case Intrinsic::ctpop: r = A(0).s ? fromE(popcntE(A(0).s)) : mkV64(ctpop128(v128(A(0)))); break;
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            bool tz = ci->intrin == Intrinsic::cttz;
            if (!A(0).s) {
                u128 x = v128(A(0)); unsigned k = 0;
                if (tz) while (k < w && !((x >> k) & 1)) k++;
                else while (k < w && !((x >> (w - 1 - k)) & 1)) k++;
                r = mkV64(k);
            } else {
                Expr* e = mkConst(w, w);
                for (unsigned k = 0; k < w; k++) { unsigned b = tz ? w - 1 - k : k; e = mkIte(mkExtract(A(0).s, b, 1), mkConst(tz ? b : w - 1 - b, w), e); }
                r = fromE(e);
            }
            break;
        }
        case Intrinsic::bswap: case Intrinsic::bitreverse: {
            Expr* x = toE(A(0), w); Expr* e = nullptr;
            unsigned st = ci->intrin == Intrinsic::bswap ? 8 : 1;
            for (unsigned k = 0; k < w; k += st) { Expr* b = mkExtract(x, k, st); e = e ? mkConcat(e, b) : b; }
            r = fromE(e);
            break;
        }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
            Expr *x = toE(A(0), w), *y = toE(A(1), w);
            bool sg = ci->intrin == Intrinsic::smin || ci->intrin == Intrinsic::smax, mn = ci->intrin == Intrinsic::umin || ci->intrin == Intrinsic::smin;
            Expr* lt = mkBin(sg ? E_SLT : E_ULT, x, y);
            r = fromE(mkIte(lt, mn ? x : y, mn ? y : x));
            break;
        }
        case Intrinsic::abs: { Expr* x = toE(A(0), w); r = fromE(mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkNeg(x), x)); break; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            Expr *x = toE(A(0), w), *y = toE(A(1), w), *s = toE(A(2), w);
            if (!isC(s)) s = mkConst(concretize(s), w);
            unsigned k = (unsigned)(s->cv % w);
            if (ci->intrin == Intrinsic::fshl) r = fromE(k ? mkBin(E_OR, mkBin(E_SHL, x, mkConst(k, w)), mkBin(E_LSHR, y, mkConst(w - k, w))) : x);
            else r = fromE(k ? mkBin(E_OR, mkBin(E_SHL, x, mkConst(w - k, w)), mkBin(E_LSHR, y, mkConst(k, w))) : y);
            break;
        }
        case Intrinsic::usub_sat: { Expr *x = toE(A(0), w), *y = toE(A(1), w); r = fromE(mkIte(mkBin(E_ULT, x, y), mkConst(0, w), mkSub(x, y))); break; }
        case Intrinsic::uadd_sat: { Expr *x = toE(A(0), w), *y = toE(A(1), w); Expr* q = mkBin(E_ADD, x, y); r = fromE(mkIte(mkBin(E_ULT, q, x), mkConst(maskW(w), w), q)); break; }
        case Intrinsic::fabs: if (w == 80) { r = fromL(fabsl(asL(A(0)))); } else r = fromE(fpAbsE(toE(A(0), w))); break;
        case Intrinsic::sqrt: if (w == 80) { r = fromL(sqrtl(asL(A(0)))); } else r = fromE(fpSqrtE(toE(A(0), w))); break;
        case Intrinsic::fmuladd: case Intrinsic::fma:
            if (A(0).s || A(1).s || A(2).s || ci->intrin == Intrinsic::fmuladd) r = binFP(O_FADD, binFP(O_FMUL, A(0), A(1), w), A(2), w);
            else r = w == 32 ? mkV64(fromF(fmaf(asF(A(0).lo), asF(A(1).lo), asF(A(2).lo)))) : mkV64(fromD(fma(asD(A(0).lo), asD(A(1).lo), asD(A(2).lo))));
            break;
        case Intrinsic::minnum: case Intrinsic::maxnum: {
            bool mn = ci->intrin == Intrinsic::minnum;
            Val c = doFcmp(CmpInst::FCMP_OLT, A(0), A(1), w);
            bool lt = c.s ? branch(c.s) : c.lo;
            r = lt == mn ? A(0) : A(1);
            break;
        }
        case Intrinsic::copysign: {
            if (A(1).s) { Expr* e = toFP(A(1).s); if (!isC(e)) { bool neg = branch(fpCmp(e, mkConst(0, w), 0)); Expr* m = fpAbsE(toE(A(0), w)); r = fromE(neg ? fpNeg(m) : m); break; } }
            bool neg = (v128(A(1)) >> (w - 1)) & 1;
            Expr* m = fpAbsE(toE(A(0), w));
            r = fromE(neg ? fpNeg(m) : m);
            break;
        }
        case Intrinsic::ptrmask: r = binInt(O_AND, A(0), A(1), 64); break;
        default: {
            const char* nm = nullptr;
            switch (ci->intrin) {
            case Intrinsic::floor: nm = "floor"; break;
            case Intrinsic::ceil: nm = "ceil"; break;
            case Intrinsic::trunc: nm = "trunc"; break;
            case Intrinsic::round: nm = "round"; break;
            case Intrinsic::rint: case Intrinsic::nearbyint: nm = "rint"; break;
            case Intrinsic::sin: nm = "sin"; break;
            case Intrinsic::cos: nm = "cos"; break;
            case Intrinsic::exp: nm = "exp"; break;
            case Intrinsic::exp2: nm = "exp2"; break;
            case Intrinsic::log: nm = "log"; break;
            case Intrinsic::log2: nm = "log2"; break;
            case Intrinsic::log10: nm = "log10"; break;
            case Intrinsic::pow: nm = "pow"; break;
            case Intrinsic::powi: nm = "powi"; break;
            default: break;
            }
            if (!nm) { unsupported("intrinsic " + ci->cb->getCalledFunction()->getName().str()); }
            std::vector<Val> as;
            for (size_t k = 0; k < ci->args.size(); k++) as.push_back(A(k));
            if (!mathHook(nm, as, w, r)) unsupported(std::string("math function ") + nm);
        }
        }
        fr.r[d + i] = r;
    }
    if (ci->invoke) applyEdge(fr, ci->normal);
}

static void schedPoint();
// ---- main interpreter loop: runs until the root frame of the main thread returns
static void interp()
{
    for (;;) {
        Frame* fr = &T->st.back();
        FuncInfo* f = fr->f;
        Val* R = fr->r;
        Val* C = f->consts.data();
        const Ins* code = f->code.data();
        int pc = fr->pc;
#define G(i) ((i) >= 0 ? R[i] : C[~(i)])
        bool reload = false;
        while (!reload) {
            const Ins& I = code[pc++];
            if ((++g_insns & 0xfffff) == 0) {
                checkDeadline();
                if (g_insns - g_insBase > g_maxInsns) {
                    fr->pc = pc;
                    ensureModel();
                    __sync_fetch_and_add(&g_st->hangs, 1);
                    std::string fn;
                    for (int i = (int)T->st.size() - 1; i >= 0; i--) { std::string d = shortFn(T->st[i].f->name); if (d.find("Qrack::") != std::string::npos) { fn = d; break; } }
                    violation("hang", "instruction limit exceeded (possible non-termination) in " + fn, nullptr);
                    endPath();
                }
            }
            switch (I.op) {
            case O_NOP: break;
            case O_MOV: R[I.d] = G(I.a); break;
            case O_ADD: { const Val &a = G(I.a), &b = G(I.b); if (!a.s && !b.s && I.w <= 64) { u64 r = a.lo + b.lo; R[I.d] = { I.w == 64 ? r : r & ((1ull << I.w) - 1), 0, nullptr }; } else R[I.d] = binInt(O_ADD, a, b, I.w); break; }
            case O_SUB: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR:
            case O_UDIV: case O_SDIV: case O_UREM: case O_SREM:
                fr->pc = pc;
                R[I.d] = binInt(I.op, G(I.a), G(I.b), I.w);
                break;
            case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM:
                fr->pc = pc;
                R[I.d] = binFP(I.op, G(I.a), G(I.b), I.w);
                break;
            case O_FNEG: {
                const Val& a = G(I.a);
                if (I.w == 80) R[I.d] = fromL(-asL(a));
                else R[I.d] = a.s ? fromE(fpNeg(toFP(a.s))) : mkV64(a.lo ^ (I.w == 32 ? 0x80000000ull : 0x8000000000000000ull));
                break;
            }
            case O_ICMP: { const Val &a = G(I.a), &b = G(I.b); R[I.d] = doIcmp(I.aux, a, b, I.w); break; }
            case O_FCMP: R[I.d] = doFcmp(I.aux, G(I.a), G(I.b), I.w); break;
            case O_ITRUNC: {
                const Val& a = G(I.a);
                if (a.s) { R[I.d] = fromE(mkExtract(a.s, 0, I.w)); }
                else R[I.d] = mkV(v128(a) & maskW(I.w));
                break;
            }
            case O_ZEXT: { const Val& a = G(I.a); R[I.d] = a.s ? fromE(mkZext(a.s, I.w)) : a; break; }
            case O_SEXT: { const Val& a = G(I.a); R[I.d] = a.s ? fromE(mkSext(a.s, I.w)) : mkV((u128)sextW(v128(a), I.w2) & maskW(I.w)); break; }
            case O_FPTRUNC: case O_FPEXT: {
                const Val& a = G(I.a);
                if (a.s) { if (I.w == 80) unsupported("symbolic long double"); R[I.d] = fromE(fpResize(toFP(a.s), I.w)); }
                else {
                    long double x = I.w2 == 32 ? asF(a.lo) : I.w2 == 64 ? asD(a.lo) : asL(a);
                    R[I.d] = I.w == 32 ? mkV64(fromF((float)x)) : I.w == 64 ? mkV64(fromD((double)x)) : fromL(x);
                }
                break;
            }
            case O_FPTOUI: R[I.d] = fpToInt(G(I.a), I.w2, I.w, false); break;
            case O_FPTOSI: R[I.d] = fpToInt(G(I.a), I.w2, I.w, true); break;
            case O_UITOFP: R[I.d] = intToFp(G(I.a), I.w2, I.w, false); break;
            case O_SITOFP: R[I.d] = intToFp(G(I.a), I.w2, I.w, true); break;
            case O_SELECT: {
                const Val& c = G(I.c);
                if (!c.s) { R[I.d] = c.lo & 1 ? G(I.a) : G(I.b); break; }
                const Val &a = G(I.a), &b = G(I.b);
                if (I.aux == SK_INT && !(a.s && a.s->k == E_FP) && !(b.s && b.s->k == E_FP)) {
                    R[I.d] = fromE(mkIte(c.s, toE(a, I.w), toE(b, I.w)));
                } else {
                    if (a.lo == b.lo && a.hi == b.hi && a.s == b.s) { R[I.d] = a; break; }
                    fr->pc = pc;
                    R[I.d] = branch(c.s) ? a : b;
                }
                break;
            }
            case O_LOAD: {
                const Val& p = G(I.a);
                fr->pc = pc;
                if (!p.s) {
                    R[I.d] = loadC(p.lo + (i64)I.b, I.w);
                } else {
                    Val q = binInt(O_ADD, p, mkV64((i64)I.b), 64);
                    R[I.d] = loadMem(q, I.w, I.aux != SK_INT);
                }
                break;
            }
            case O_STORE: {
                const Val& p = G(I.a);
                fr->pc = pc;
                if (!p.s) storeC(p.lo + (i64)I.b, I.w, G(I.d));
                else storeMem(binInt(O_ADD, p, mkV64((i64)I.b), 64), I.w, G(I.d), I.aux != SK_INT);
                break;
            }
            case O_GEP: {
                GepInfo* gi = (GepInfo*)I.x;
                Val b = G(I.a);
                if (!b.s) {
                    u64 a = b.lo + gi->off;
                    Expr* sym = nullptr;
                    for (auto& t : gi->idx) {
                        const Val& v = G(std::get<0>(t));
                        if (v.s) {
                            Expr* e = mkSext(v.s, 64);
                            if (v.s->w > 64) e = mkExtract(v.s, 0, 64);
                            e = mkBin(E_MUL, e, mkConst(std::get<1>(t), 64));
                            sym = sym ? mkBin(E_ADD, sym, e) : e;
                        } else a += (u64)sextW(v.lo, std::get<2>(t) > 64 ? 64 : std::get<2>(t)) * std::get<1>(t);
                    }
                    R[I.d] = sym ? fromE(mkBin(E_ADD, sym, mkConst(a, 64))) : mkV64(a);
                } else {
                    Expr* e = mkBin(E_ADD, b.s, mkConst(gi->off, 64));
                    for (auto& t : gi->idx) {
                        const Val& v = G(std::get<0>(t));
                        Expr* x = toE(v, std::get<2>(t));
                        x = x->w > 64 ? mkExtract(x, 0, 64) : mkSext(x, 64);
                        e = mkBin(E_ADD, e, mkBin(E_MUL, x, mkConst(std::get<1>(t), 64)));
                    }
                    R[I.d] = fromE(e);
                }
                break;
            }
            case O_ALLOCA: {
                u64 n = cv64(G(I.b)) * (u64)I.x;
                u64 al = std::max<u64>(16, I.aux);
                u64 a = (T->sp - n - 32) & ~(al - 1);
                if (a < T->stLo) { fr->pc = pc; violation("hang", "stack overflow in " + shortFn(f->name), nullptr); endPath(); }
                T->sp = a;
                memset(sh(a), 1, n);
                R[I.d] = mkV64(a);
                break;
            }
            case O_BR: { const Edge& e = ((BrInfo*)I.x)->t; for (auto& m : e.mv) R[m.d] = G(m.s); pc = e.pc; break; }
            case O_CBR: {
                BrInfo* bi = (BrInfo*)I.x;
                const Val& c = G(I.a);
                bool t;
                if (c.s) { fr->pc = pc; t = branch(c.s); } else t = c.lo & 1;
                const Edge& e = t ? bi->t : bi->f;
                for (auto& m : e.mv) R[m.d] = G(m.s);
                pc = e.pc;
                break;
            }
            case O_SWITCH: {
                SwInfo* si = (SwInfo*)I.x;
                const Val& c = G(I.a);
                const Edge* e = &si->def;
                if (!c.s) { u128 v = v128(c); for (auto& k : si->cs) if (k.first == v) { e = &k.second; break; } }
                else {
                    fr->pc = pc;
                    Expr* ce = c.s;
                    for (auto& k : si->cs) if (branch(mkBin(E_EQ, ce, mkConst(k.first, I.w)))) { e = &k.second; break; }
                }
                for (auto& m : e->mv) R[m.d] = G(m.s);
                pc = e->pc;
                break;
            }
            case O_RET: {
                std::vector<Val> ret;
                for (int i = 0; i < I.b; i++) ret.push_back(I.a >= 0 ? R[I.a + i] : C[~I.a + i]);
                CallInfo* ci = fr->ci;
                int cont = fr->cont;
                u64 ca = fr->contArg;
                popFrame();
                if (cont == 3) return; // root of a synchronous run
                if (cont == 2) { threadDone(); reload = true; break; }
                if (cont == 1) { g_once[ca] = 2; ret = { mkV64(0) }; }
                afterCall(ci, ret);
                reload = true;
                break;
            }
            case O_CALL: {
                CallInfo* ci = (CallInfo*)I.x;
                fr->pc = pc;
                std::vector<Val> args;
                args.reserve(8);
                for (auto& a : ci->args) for (int s : a.slots) args.push_back(G(s));
                FuncInfo* cf = ci->direct;
                void* nat = nullptr;
                if (!cf) {
                    Val t = G(ci->calleeSlot);
                    u64 a = cv64(t);
                    cf = fiByAddr(a);
                    if (!cf) {
                        if (inArena(a) || a < 4096) memViolation("call target", a, 0);
                        nat = (void*)a;
                        // native address of something we model
                        Dl_info di;
                        if (dladdr(nat, &di) && di.dli_sname && g_hooks.count(di.dli_sname) && di.dli_saddr == nat) {
                            std::vector<Val> ret;
                            g_hooks[di.dli_sname](ci, args, ret);
                            if (ret.size() < ci->ret.size()) ret.resize(ci->ret.size(), mkV64(0));
                            afterCall(ci, ret);
                            reload = true;
                            break;
                        }
                    }
                }
                doCall(cf, nat, ci, args);
                reload = true;
                break;
            }
            case O_INTRIN:
                fr->pc = pc;
                execIntrin((CallInfo*)I.x, *fr);
                pc = fr->pc;
                break;
            case O_UNREACH:
                fr->pc = pc;
                ensureModel();
                violation("abort", "unreachable code executed in " + shortFn(f->name), nullptr);
                endPath();
            case O_RESUME: {
                u64 obj = cv64(G(I.a));
                CallInfo* at = fr->ci;
                int cont = fr->cont;
                if (cont == 2 || cont == 3) { raise_(obj, nullptr); reload = true; break; }
                popFrame();
                raise_(obj, at);
                reload = true;
                break;
            }
            case O_LANDING: R[I.d] = mkV64(fr->excCur); R[I.d + 1] = mkV64((u64)(uint32_t)fr->excSel); break;
            case O_BITCAST: {
                BitcastInfo* bi = (BitcastInfo*)I.x;
                std::vector<Expr*> dummy;
                bool sym = false;
                for (int s : bi->src) if (G(s).s) sym = true;
                if (!sym) {
                    unsigned char buf[256] = { 0 };
                    unsigned bit = 0;
                    for (size_t i = 0; i < bi->src.size(); i++) { u128 v = v128(G(bi->src[i])); for (unsigned b = 0; b < bi->st[i].w; b++, bit++) if ((v >> b) & 1) buf[bit / 8] |= 1 << (bit & 7); }
                    bit = 0;
                    for (size_t i = 0; i < bi->dt.size(); i++) { u128 v = 0; for (unsigned b = 0; b < bi->dt[i].w; b++, bit++) if (buf[bit / 8] & (1 << (bit & 7))) v |= (u128)1 << b; R[I.d + i] = mkV(v); }
                } else {
                    Expr* e = nullptr;
                    for (size_t i = 0; i < bi->src.size(); i++) { Expr* x = toE(G(bi->src[i]), bi->st[i].w); e = e ? mkConcat(x, e) : x; }
                    unsigned off = 0;
                    for (size_t i = 0; i < bi->dt.size(); i++) { R[I.d + i] = fromE(mkExtract(e, off, bi->dt[i].w)); off += bi->dt[i].w; }
                }
                break;
            }
            case O_EXTDYN: { DynIdx* di = (DynIdx*)I.x; fr->pc = pc; u64 k = cv64(G(di->idx)); R[I.d] = G(di->src[k % di->src.size()]); break; }
            case O_INSDYN: {
                DynIdx* di = (DynIdx*)I.x;
                fr->pc = pc;
                u64 k = cv64(G(di->idx));
                for (size_t i = 0; i < di->src.size(); i++) R[I.d + i] = G(di->src[i]);
                R[I.d + k % di->src.size()] = G(di->val);
                break;
            }
            case O_RMW: {
                fr->pc = pc - 1;
                schedPoint();
                if (&T->st.back() != fr) { reload = true; break; }
                fr->pc = pc;
                u64 p = cv64(G(I.a));
                Val o = loadC(p, I.w), v = G(I.b), n = v;
                switch (I.aux) {
                case AtomicRMWInst::Xchg: break;
                case AtomicRMWInst::Add: n = binInt(O_ADD, o, v, I.w); break;
                case AtomicRMWInst::Sub: n = binInt(O_SUB, o, v, I.w); break;
                case AtomicRMWInst::And: n = binInt(O_AND, o, v, I.w); break;
                case AtomicRMWInst::Or: n = binInt(O_OR, o, v, I.w); break;
                case AtomicRMWInst::Xor: n = binInt(O_XOR, o, v, I.w); break;
                default: unsupported("atomicrmw kind");
                }
                storeC(p, I.w, n);
                R[I.d] = o;
                break;
            }
            case O_CMPXCHG: {
                fr->pc = pc - 1;
                schedPoint();
                if (&T->st.back() != fr) { reload = true; break; }
                fr->pc = pc;
                u64 p = cv64(G(I.a));
                Val o = loadC(p, I.w);
                Val eq = doIcmp(CmpInst::ICMP_EQ, o, G(I.b), I.w);
                bool t = eq.s ? branch(eq.s) : eq.lo;
                if (t) storeC(p, I.w, G(I.c));
                R[I.d] = o;
                R[I.d + 1] = mkV64(t);
                break;
            }
            case O_UNSUP: fr->pc = pc; unsupported(std::string("instruction ") + (const char*)I.x);
            default: fr->pc = pc; unsupported("opcode");
            }
        }
    }
}
