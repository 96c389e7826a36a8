// ------------------------------------------------------------------ types
static void flatTypes(Type* t, std::vector<SType>& o, u64 off = 0)
{
    if (t->isVoidTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = g_dl->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) flatTypes(st->getElementType(i), o, off + sl->getElementOffset(i));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        u64 es = g_dl->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) flatTypes(at->getElementType(), o, off + i * es);
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        u64 bits = g_dl->getTypeSizeInBits(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); i++) flatTypes(vt->getElementType(), o, off + (bits * i) / 8);
        return;
    }
    SType s;
    s.off = off;
    if (t->isPointerTy()) { s.k = SK_PTR; s.w = 64; }
    else if (t->isFloatTy()) { s.k = SK_F32; s.w = 32; }
    else if (t->isDoubleTy()) { s.k = SK_F64; s.w = 64; }
    else if (t->isX86_FP80Ty()) { s.k = SK_F80; s.w = 80; }
    else if (t->isIntegerTy()) { s.k = SK_INT; s.w = t->getIntegerBitWidth(); }
    else { s.k = SK_INT; s.w = 64; }
    s.size = (s.w + 7) / 8;
    o.push_back(s);
}
static std::vector<SType> flat(Type* t) { std::vector<SType> o; flatTypes(t, o); return o; }
static SType scalarOf(Type* t) { if (auto* v = dyn_cast<VectorType>(t)) t = v->getElementType(); std::vector<SType> o; flatTypes(t, o); if (o.empty()) return SType{ SK_INT, 1, 0, 0 }; return o[0]; }

// ------------------------------------------------------------------ constants
static FuncInfo* fiOf(Function* F)
{
    auto it = g_fi.find(F);
    if (it != g_fi.end()) return it->second;
    FuncInfo* f = new FuncInfo();
    f->F = F;
    f->name = F->getName().str();
    f->fakeAddr = FUNC_BASE + g_fns.size() * 16;
    g_fns.push_back(f);
    g_fi[F] = f;
    return f;
}
static u64 globAlloc(u64 n, u64 al)
{
    if (al < 16) al = 16;
    u64 a = (g_glob + 32 + al - 1) & ~(al - 1);
    memset(sh(a), 1, n);
    g_glob = a + n;
    return a;
}
static void writeConst(Constant* c, u64 a);
static u64 globalAddr(GlobalVariable* g)
{
    auto it = g_gaddr.find(g);
    if (it != g_gaddr.end()) return it->second;
    u64 a;
    if (!g->hasInitializer()) {
        void* p = dlsym(RTLD_DEFAULT, g->getName().str().c_str());
        if (p) { g_gaddr[g] = (u64)p; return (u64)p; }
        if (g->getName() == "__dso_handle") { static u64 dummy; g_gaddr[g] = (u64)&dummy; return (u64)&dummy; }
        if (g->hasExternalWeakLinkage()) { g_gaddr[g] = 0; return 0; }
        fprintf(stderr, "qse: external global %s not found\n", g->getName().str().c_str());
        a = globAlloc(std::max<u64>(64, g->getValueType()->isSized() ? (u64)g_dl->getTypeAllocSize(g->getValueType()) : 64), 16);
        g_gaddr[g] = a;
        return a;
    }
    u64 n = g_dl->getTypeAllocSize(g->getValueType());
    a = globAlloc(n, g->getAlign() ? g->getAlign()->value() : 16);
    g_gaddr[g] = a;
    writeConst(g->getInitializer(), a);
    return a;
}
static void evalConst(Constant* c, std::vector<Val>& o);
static u128 constScalar(Constant* c)
{
    std::vector<Val> v;
    evalConst(c, v);
    return v.empty() ? 0 : v128(v[0]);
}
static void evalConst(Constant* c, std::vector<Val>& o)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
        auto f = flat(t);
        for (size_t i = 0; i < f.size(); i++) o.push_back(mkV64(0));
        return;
    }
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        const APInt& v = ci->getValue();
        u128 x = v.getRawData()[0];
        if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
        o.push_back(mkV(x));
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt v = cf->getValueAPF().bitcastToAPInt();
        u128 x = v.getRawData()[0];
        if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
        o.push_back(mkV(x));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), o);
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); i++) evalConst(ca->getOperand(i), o);
        return;
    }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { o.push_back(mkV64(globalAddr(g))); return; }
    if (auto* f = dyn_cast<Function>(c)) {
        if (f->isDeclaration() && f->hasExternalWeakLinkage() && !dlsym(RTLD_DEFAULT, f->getName().str().c_str())) { o.push_back(mkV64(0)); return; }
        o.push_back(mkV64(fiOf(f)->fakeAddr));
        return;
    }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) { evalConst(ga->getAliasee(), o); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* gep = cast<GEPOperator>(ce);
            u64 base = (u64)constScalar(cast<Constant>(gep->getPointerOperand()));
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*g_dl, off)) { fprintf(stderr, "qse: nonconstant gep expr\n"); }
            o.push_back(mkV64(base + off.getZExtValue()));
            return;
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
            { std::vector<Val> v; evalConst(ce->getOperand(0), v); o.insert(o.end(), v.begin(), v.end()); return; }
        case Instruction::Trunc: { u128 v = constScalar(ce->getOperand(0)); o.push_back(mkV(v & maskW(t->getIntegerBitWidth()))); return; }
        case Instruction::Add: o.push_back(mkV((constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & maskW(t->getIntegerBitWidth()))); return;
        case Instruction::Sub: o.push_back(mkV((constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & maskW(t->getIntegerBitWidth()))); return;
        default: break;
        }
    }
    if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) { evalConst(const_cast<GlobalValue*>(d->getGlobalValue()), o); return; }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    fprintf(stderr, "qse: unsupported constant %s\n", os.str().c_str());
    for (auto& x : flat(t)) { (void)x; o.push_back(mkV64(0)); }
}
static void writeConst(Constant* c, u64 a)
{
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy((void*)a, r.data(), r.size());
        return;
    }
    auto ts = flat(c->getType());
    std::vector<Val> vs;
    evalConst(c, vs);
    for (size_t i = 0; i < ts.size() && i < vs.size(); i++) { u128 v = v128(vs[i]); memcpy((void*)(a + ts[i].off), &v, ts[i].size); }
}

// ------------------------------------------------------------------ decoding
struct Decoder {
    FuncInfo* f;
    DenseMap<Value*, int> slot;
    DenseMap<BasicBlock*, int> bbpc;
    DenseMap<Constant*, int> cslot;
    std::vector<std::pair<Edge*, std::pair<BasicBlock*, BasicBlock*>>> edges;
    std::vector<Ins>& code() { return f->code; }
    int newSlots(int n) { int r = f->nregs; f->nregs += n; return r; }
    int S(Value* v)
    { // base slot (negative: constant pool)
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = cslot.find(c);
            if (it != cslot.end()) return it->second;
            int b = f->consts.size();
            evalConst(c, f->consts);
            if ((int)f->consts.size() == b) f->consts.push_back(mkV64(0));
            cslot[c] = ~b;
            return ~b;
        }
        auto it = slot.find(v);
        if (it != slot.end()) return it->second;
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return 0;
        auto ts = flat(v->getType());
        int n = ts.size();
        int b = newSlots(n ? n : 1);
        slot[v] = b;
        return b;
    }
    static int at(int base, int i) { return base >= 0 ? base + i : ~(~base + i); }
    Ins& emit(OP op, int w = 0)
    {
        Ins i{};
        i.op = op; i.w = w;
        code().push_back(i);
        return code().back();
    }
    void edge(Edge& e, BasicBlock* from, BasicBlock* to)
    {
        // phi moves
        std::vector<Move> mv;
        for (PHINode& p : to->phis()) {
            Value* in = p.getIncomingValueForBlock(from);
            int n = flat(p.getType()).size();
            int d = S(&p), s = S(in);
            for (int i = 0; i < n; i++) mv.push_back({ at(d, i), at(s, i) });
        }
        // parallel copy: use temporaries when a destination is also a source
        bool conflict = false;
        for (size_t i = 0; i < mv.size() && !conflict; i++)
            for (size_t j = 0; j < mv.size(); j++)
                if (i != j && mv[i].d == mv[j].s) { conflict = true; break; }
        if (conflict) {
            std::vector<Move> a, b;
            for (auto& m : mv) { int t = newSlots(1); a.push_back({ t, m.s }); b.push_back({ m.d, t }); }
            a.insert(a.end(), b.begin(), b.end());
            mv.swap(a);
        }
        e.mv = mv;
        e.pc = -1;
        edges.push_back({ &e, { from, to } });
    }
    void run()
    {
        Function& F = *f->F;
        f->vararg = F.isVarArg();
        for (Argument& a : F.args()) {
            S(&a);
            f->argByval.push_back(a.hasByValAttr() ? (u64)g_dl->getTypeAllocSize(a.getParamByValType()) : 0);
        }
        f->nargs = f->nregs;
        for (BasicBlock& B : F) {
            bbpc[&B] = code().size();
            for (Instruction& I : B) ins(I);
        }
        for (auto& e : edges) e.first->pc = bbpc[e.second.second];
        f->decoded = true;
    }
    void bin(OP op, Instruction& I)
    {
        SType st = scalarOf(I.getType());
        int n = flat(I.getType()).size(), d = S(&I), a = S(I.getOperand(0)), b = S(I.getOperand(1));
        for (int i = 0; i < n; i++) { Ins& x = emit(op, st.w); x.d = d + i; x.a = at(a, i); x.b = at(b, i); x.aux = st.k; }
    }
    void cast_(OP op, Instruction& I)
    {
        SType st = scalarOf(I.getType()), so = scalarOf(I.getOperand(0)->getType());
        int n = flat(I.getType()).size(), d = S(&I), a = S(I.getOperand(0));
        for (int i = 0; i < n; i++) { Ins& x = emit(op, st.w); x.w2 = so.w; x.d = d + i; x.a = at(a, i); }
    }
    void moves(int d, int s, int n) { for (int i = 0; i < n; i++) { Ins& x = emit(O_MOV); x.d = d + i; x.a = at(s, i); } }
    void ins(Instruction& I)
    {
        if (isa<PHINode>(I)) { S(&I); return; }
        switch (I.getOpcode()) {
        case Instruction::Add: bin(O_ADD, I); break;
        case Instruction::Sub: bin(O_SUB, I); break;
        case Instruction::Mul: bin(O_MUL, I); break;
        case Instruction::UDiv: bin(O_UDIV, I); break;
        case Instruction::SDiv: bin(O_SDIV, I); break;
        case Instruction::URem: bin(O_UREM, I); break;
        case Instruction::SRem: bin(O_SREM, I); break;
        case Instruction::And: bin(O_AND, I); break;
        case Instruction::Or: bin(O_OR, I); break;
        case Instruction::Xor: bin(O_XOR, I); break;
        case Instruction::Shl: bin(O_SHL, I); break;
        case Instruction::LShr: bin(O_LSHR, I); break;
        case Instruction::AShr: bin(O_ASHR, I); break;
        case Instruction::FAdd: bin(O_FADD, I); break;
        case Instruction::FSub: bin(O_FSUB, I); break;
        case Instruction::FMul: bin(O_FMUL, I); break;
        case Instruction::FDiv: bin(O_FDIV, I); break;
        case Instruction::FRem: bin(O_FREM, I); break;
        case Instruction::FNeg: cast_(O_FNEG, I); break;
        case Instruction::Trunc: cast_(O_ITRUNC, I); break;
        case Instruction::ZExt: cast_(O_ZEXT, I); break;
        case Instruction::SExt: cast_(O_SEXT, I); break;
        case Instruction::FPTrunc: cast_(O_FPTRUNC, I); break;
        case Instruction::FPExt: cast_(O_FPEXT, I); break;
        case Instruction::FPToUI: cast_(O_FPTOUI, I); break;
        case Instruction::FPToSI: cast_(O_FPTOSI, I); break;
        case Instruction::UIToFP: cast_(O_UITOFP, I); break;
        case Instruction::SIToFP: cast_(O_SITOFP, I); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
            SType st = scalarOf(I.getType()), so = scalarOf(I.getOperand(0)->getType());
            int n = flat(I.getType()).size(), d = S(&I), a = S(I.getOperand(0));
            for (int i = 0; i < n; i++) { Ins& x = emit(st.w > so.w ? O_ZEXT : st.w < so.w ? O_ITRUNC : O_MOV, st.w); x.w2 = so.w; x.d = d + i; x.a = at(a, i); }
            break;
        }
        case Instruction::Freeze: moves(S(&I), S(I.getOperand(0)), flat(I.getType()).size()); break;
        case Instruction::BitCast: {
            auto st = flat(I.getOperand(0)->getType()), dt = flat(I.getType());
            int d = S(&I), s = S(I.getOperand(0));
            if (st.size() == dt.size() && (st.empty() || st[0].w == dt[0].w)) { moves(d, s, dt.size()); break; }
            auto* bi = new BitcastInfo();
            bi->st = st; bi->dt = dt;
            for (size_t i = 0; i < st.size(); i++) bi->src.push_back(at(s, i));
            Ins& x = emit(O_BITCAST); x.d = d; x.x = bi;
            break;
        }
        case Instruction::ICmp: {
            auto& c = cast<ICmpInst>(I);
            SType st = scalarOf(c.getOperand(0)->getType());
            int n = flat(I.getType()).size(), d = S(&I), a = S(I.getOperand(0)), b = S(I.getOperand(1));
            for (int i = 0; i < n; i++) { Ins& x = emit(O_ICMP, st.w); x.d = d + i; x.a = at(a, i); x.b = at(b, i); x.aux = c.getPredicate(); }
            break;
        }
        case Instruction::FCmp: {
            auto& c = cast<FCmpInst>(I);
            SType st = scalarOf(c.getOperand(0)->getType());
            int n = flat(I.getType()).size(), d = S(&I), a = S(I.getOperand(0)), b = S(I.getOperand(1));
            for (int i = 0; i < n; i++) { Ins& x = emit(O_FCMP, st.w); x.d = d + i; x.a = at(a, i); x.b = at(b, i); x.aux = c.getPredicate(); }
            break;
        }
        case Instruction::Select: {
            auto ts = flat(I.getType());
            int n = ts.size(), d = S(&I), c = S(I.getOperand(0)), a = S(I.getOperand(1)), b = S(I.getOperand(2));
            bool vc = I.getOperand(0)->getType()->isVectorTy();
            for (int i = 0; i < n; i++) { Ins& x = emit(O_SELECT, ts[i].w); x.d = d + i; x.a = at(a, i); x.b = at(b, i); x.c = vc ? at(c, i) : c; x.aux = ts[i].k; }
            break;
        }
        case Instruction::Load: {
            auto ts = flat(I.getType());
            int d = S(&I), p = S(I.getOperand(0));
            for (size_t i = 0; i < ts.size(); i++) { Ins& x = emit(O_LOAD, ts[i].w); x.aux = ts[i].k; x.d = d + i; x.a = p; x.b = ts[i].off; }
            break;
        }
        case Instruction::Store: {
            auto ts = flat(I.getOperand(0)->getType());
            int v = S(I.getOperand(0)), p = S(I.getOperand(1));
            for (size_t i = 0; i < ts.size(); i++) { Ins& x = emit(O_STORE, ts[i].w); x.aux = ts[i].k; x.d = at(v, i); x.a = p; x.b = ts[i].off; }
            break;
        }
        case Instruction::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(I);
            if (g.getType()->isVectorTy()) { unsup(I, "vector gep"); break; }
            auto* gi = new GepInfo();
            gi->off = 0;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                Value* op = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull()) {
                    gi->off += g_dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
                } else {
                    i64 sc = g_dl->getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(op)) gi->off += sc * ci->getSExtValue();
                    else gi->idx.push_back({ S(op), sc, (int)op->getType()->getIntegerBitWidth() });
                }
            }
            Ins& x = emit(O_GEP); x.d = S(&I); x.a = S(g.getPointerOperand()); x.x = gi;
            break;
        }
        case Instruction::Alloca: {
            auto& al = cast<AllocaInst>(I);
            Ins& x = emit(O_ALLOCA); x.d = S(&I);
            int b = S(al.getArraySize());
            Ins& y = code().back(); y.b = b; y.x = (void*)(u64)g_dl->getTypeAllocSize(al.getAllocatedType()); y.aux = al.getAlign().value();
            (void)x;
            break;
        }
        case Instruction::Br: {
            auto& b = cast<BranchInst>(I);
            auto* bi = new BrInfo();
            if (b.isConditional()) {
                edge(bi->t, I.getParent(), b.getSuccessor(0));
                edge(bi->f, I.getParent(), b.getSuccessor(1));
                int c = S(b.getCondition());
                Ins& x = emit(O_CBR); x.a = c; x.x = bi;
            } else {
                edge(bi->t, I.getParent(), b.getSuccessor(0));
                Ins& x = emit(O_BR); x.x = bi;
            }
            break;
        }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(I);
            auto* si = new SwInfo();
            si->cs.resize(s.getNumCases());
            unsigned k = 0;
            for (auto& c : s.cases()) { si->cs[k].first = constScalar(c.getCaseValue()); edge(si->cs[k].second, I.getParent(), c.getCaseSuccessor()); k++; }
            edge(si->def, I.getParent(), s.getDefaultDest());
            int c = S(s.getCondition());
            Ins& x = emit(O_SWITCH, s.getCondition()->getType()->getIntegerBitWidth()); x.a = c; x.x = si;
            break;
        }
        case Instruction::Ret: {
            auto& r = cast<ReturnInst>(I);
            int a = 0, n = 0;
            if (r.getReturnValue()) { a = S(r.getReturnValue()); n = flat(r.getReturnValue()->getType()).size(); }
            Ins& x = emit(O_RET); x.a = a; x.b = n;
            break;
        }
        case Instruction::Unreachable: emit(O_UNREACH); break;
        case Instruction::Resume: { int a = S(I.getOperand(0)); Ins& x = emit(O_RESUME); x.a = a; break; }
        case Instruction::LandingPad: {
            auto& lp = cast<LandingPadInst>(I);
            auto* li = new LandInfo();
            li->cleanup = lp.isCleanup();
            for (unsigned i = 0; i < lp.getNumClauses(); i++) {
                if (lp.isCatch(i)) li->clauses.push_back({ 0, (u64)constScalar(lp.getClause(i)) });
                else { std::vector<Val> v; evalConst(lp.getClause(i), v); std::vector<u64> ts; for (auto& z : v) ts.push_back(z.lo); li->clauses.push_back({ 1, li->filters.size() }); li->filters.push_back(ts); }
            }
            int d = S(&I);
            Ins& x = emit(O_LANDING); x.d = d; x.x = li;
            break;
        }
        case Instruction::ExtractValue: {
            auto& e = cast<ExtractValueInst>(I);
            int off = aggIndex(e.getAggregateOperand()->getType(), e.getIndices());
            moves(S(&I), at(S(e.getAggregateOperand()), off), flat(I.getType()).size());
            break;
        }
        case Instruction::InsertValue: {
            auto& e = cast<InsertValueInst>(I);
            int off = aggIndex(e.getType(), e.getIndices());
            int n = flat(I.getType()).size(), d = S(&I);
            moves(d, S(e.getAggregateOperand()), n);
            moves(d + off, S(e.getInsertedValueOperand()), flat(e.getInsertedValueOperand()->getType()).size());
            break;
        }
        case Instruction::ExtractElement: {
            if (auto* ci = dyn_cast<ConstantInt>(I.getOperand(1))) { moves(S(&I), at(S(I.getOperand(0)), ci->getZExtValue()), 1); break; }
            auto* di = new DynIdx();
            int n = flat(I.getOperand(0)->getType()).size(), s = S(I.getOperand(0));
            for (int i = 0; i < n; i++) di->src.push_back(at(s, i));
            di->idx = S(I.getOperand(1));
            int d = S(&I);
            Ins& x = emit(O_EXTDYN); x.d = d; x.x = di;
            break;
        }
        case Instruction::InsertElement: {
            int n = flat(I.getType()).size(), d = S(&I);
            if (auto* ci = dyn_cast<ConstantInt>(I.getOperand(2))) {
                moves(d, S(I.getOperand(0)), n);
                moves(d + ci->getZExtValue(), S(I.getOperand(1)), 1);
                break;
            }
            auto* di = new DynIdx();
            int s = S(I.getOperand(0));
            for (int i = 0; i < n; i++) di->src.push_back(at(s, i));
            di->idx = S(I.getOperand(2));
            di->val = S(I.getOperand(1));
            Ins& x = emit(O_INSDYN); x.d = d; x.x = di;
            break;
        }
        case Instruction::ShuffleVector: {
            auto& sv = cast<ShuffleVectorInst>(I);
            int d = S(&I), a = S(sv.getOperand(0)), b = S(sv.getOperand(1));
            int n0 = flat(sv.getOperand(0)->getType()).size();
            ArrayRef<int> m = sv.getShuffleMask();
            for (size_t i = 0; i < m.size(); i++) {
                Ins& x = emit(O_MOV);
                x.d = d + i;
                int k = m[i] < 0 ? 0 : m[i];
                x.a = k < n0 ? at(a, k) : at(b, k - n0);
            }
            break;
        }
        case Instruction::AtomicRMW: {
            auto& r = cast<AtomicRMWInst>(I);
            SType st = scalarOf(r.getType());
            int d = S(&I), p = S(r.getPointerOperand()), v = S(r.getValOperand());
            Ins& x = emit(O_RMW, st.w); x.d = d; x.a = p; x.b = v; x.aux = r.getOperation();
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto& r = cast<AtomicCmpXchgInst>(I);
            SType st = scalarOf(r.getCompareOperand()->getType());
            int d = S(&I), p = S(r.getPointerOperand()), c = S(r.getCompareOperand()), v = S(r.getNewValOperand());
            Ins& x = emit(O_CMPXCHG, st.w); x.d = d; x.a = p; x.b = c; x.c = v;
            break;
        }
        case Instruction::Fence: break;
        case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); break;
        default: unsup(I, I.getOpcodeName()); break;
        }
    }
    void unsup(Instruction& I, const char* why)
    {
        if (!I.getType()->isVoidTy()) S(&I);
        Ins& x = emit(O_UNSUP);
        x.x = (void*)strdup(why);
    }
    int aggIndex(Type* t, ArrayRef<unsigned> idx)
    {
        int off = 0;
        for (unsigned k : idx) {
            if (auto* st = dyn_cast<StructType>(t)) {
                for (unsigned i = 0; i < k; i++) off += flat(st->getElementType(i)).size();
                t = st->getElementType(k);
            } else {
                auto* a = cast<ArrayType>(t);
                off += k * flat(a->getElementType()).size();
                t = a->getElementType();
            }
        }
        return off;
    }
    void call(CallBase& cb)
    {
        if (isa<DbgInfoIntrinsic>(cb)) return;
        Function* cf = cb.getCalledFunction();
        if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(cb.getCalledOperand())) cf = dyn_cast<Function>(ga->getAliaseeObject());
        unsigned iid = cf ? cf->getIntrinsicID() : 0;
        switch (iid) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start:
        case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing:
        case Intrinsic::var_annotation:
            if (iid == Intrinsic::invariant_start) S(&cb);
            return;
        default: break;
        }
        auto* ci = new CallInfo();
        ci->cb = &cb;
        ci->ret = flat(cb.getType());
        ci->d = cb.getType()->isVoidTy() ? -1 : S(&cb);
        ci->intrin = iid;
        for (unsigned i = 0; i < cb.arg_size(); i++) {
            Value* v = cb.getArgOperand(i);
            CallInfo::Arg a;
            if (v->getType()->isMetadataTy()) { ci->args.push_back(a); continue; }
            a.slot = S(v);
            a.ts = flat(v->getType());
            a.byval = cb.isByValArgument(i) ? (u64)g_dl->getTypeAllocSize(cb.getParamByValType(i)) : 0;
            for (size_t k = 0; k < a.ts.size(); k++) a.slots.push_back(at(a.slot, k));
            ci->args.push_back(a);
        }
        if (!iid) {
            if (cb.isInlineAsm()) { unsup(cb, "inline asm"); fixInvoke(cb, ci); return; }
            if (cf) ci->direct = fiOf(cf);
            else ci->calleeSlot = S(cb.getCalledOperand());
        }
        if (auto* inv = dyn_cast<InvokeInst>(&cb)) {
            ci->invoke = true;
            edge(ci->normal, inv->getParent(), inv->getNormalDest());
            edge(ci->unwind, inv->getParent(), inv->getUnwindDest());
        }
        if (iid) {
            // element-wise intrinsics on vectors are split into scalar operations
            Ins& x = emit(O_INTRIN); x.d = ci->d; x.x = ci;
        } else {
            Ins& x = emit(O_CALL); x.d = ci->d; x.x = ci;
        }
    }
    void fixInvoke(CallBase& cb, CallInfo* ci)
    {
        if (auto* inv = dyn_cast<InvokeInst>(&cb)) {
            auto* bi = new BrInfo();
            edge(bi->t, inv->getParent(), inv->getNormalDest());
            Ins& x = emit(O_BR); x.x = bi;
        }
        (void)ci;
    }
};
static void decodeFn(FuncInfo* f)
{
    Decoder d;
    d.f = f;
    d.run();
}
