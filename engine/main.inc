#include <execinfo.h>
// ------------------------------------------------------------------ driver
static void onSegv(int, siginfo_t* si, void*)
{
    if (getenv("QSE_DBG")) {
        void* bt[40]; int n = backtrace(bt, 40);
        fprintf(stderr, "SEGV at %p\n", si->si_addr);
        backtrace_symbols_fd(bt, n, 2);
    }
    if (g_segvArmed) { g_segvAddr = (u64)si->si_addr; siglongjmp(g_segv, 1); }
    _exit(77);
}
static double refineAbsLo(Expr* e, bool abs)
{
    // largest candidate t such that the path condition implies |v| >= t (or v >= t)
    if (e->k != E_FP) return 0;
    static const double ts[] = { 0.5, 0.1, 0.01, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8 };
    bool rel = false;
    for (auto p : S.pc) { for (auto d : p->deps) if (std::binary_search(e->deps.begin(), e->deps.end(), d)) { rel = true; break; } if (rel) break; }
    if (!rel) return 0;
    for (double t : ts) {
        if (t < 2 * e->fp->err) break;
        Expr* lt = mkRcmp(e->fp, -t, 0);
        Expr* c = abs ? mkAnd(lt, mkNot(mkRcmp(e->fp, t, 1))) : lt;
        if (isC(c)) { if (!c->cv) return t; continue; }
        Model m;
        if (S.check(c, &m) == S_UNSAT) return t;
    }
    return 0;
}
static void runFunction(FuncInfo* f, std::vector<Val> args)
{
    pushFrame(f, args, nullptr, 3);
    interp();
}
static int guarded(const std::function<void()>& fn)
{
    if (sigsetjmp(g_segv, 1)) {
        g_segvArmed = false;
        try {
            ensureModel();
            std::string fnm;
            for (int i = (int)T->st.size() - 1; i >= 0; i--) { std::string d = shortFn(T->st[i].f->name); if (d.find("Qrack::") != std::string::npos) { fnm = d; break; } }
            violation("memory", "invalid memory access (wild pointer) in " + fnm, nullptr);
        } catch (PathEnd&) { }
        return 1;
    }
    g_segvArmed = true;
    try {
        fn();
    } catch (PathEnd&) {
    } catch (FPUnsupported& e) {
        try { unsupported("fp: " + e.why); } catch (PathEnd&) { }
    } catch (z3::exception& e) {
        try { unsupported(std::string("z3: ") + e.msg()); } catch (PathEnd&) { }
    }
    g_segvArmed = false;
    return 0;
}

static std::unique_ptr<Module> linkAll(const std::vector<std::string>& files, std::string& err)
{
    std::unique_ptr<Module> dst;
    for (auto& fn : files) {
        SMDiagnostic d;
        auto m = parseIRFile(fn, d, *g_ctx);
        if (!m) { err = "cannot read " + fn + ": " + d.getMessage().str(); return nullptr; }
        if (!dst) { dst = std::move(m); continue; }
        if (Linker::linkModules(*dst, std::move(m))) { err = "link error with " + fn; return nullptr; }
    }
    return dst;
}
static int cmdLink(std::vector<std::string> files, const std::string& out, const std::vector<std::pair<std::string, std::string>>& ov, const std::string& prefix, bool asan)
{
    std::string err;
    auto m = linkAll(files, err);
    if (!m) { fprintf(stderr, "qse: %s\n", err.c_str()); return 2; }
    // overrides: every function whose mangled name starts with `from` is replaced by `to`
    for (auto& o : ov) {
        Function* to = m->getFunction(o.second);
        if (!to) { continue; }
        std::vector<Function*> fs;
        for (Function& F : *m) if (F.getName().starts_with(o.first) && &F != to) fs.push_back(&F);
        for (Function* F : fs) {
            F->deleteBody();
            F->setComdat(nullptr);
            F->replaceAllUsesWith(to);
            if (F->use_empty()) F->eraseFromParent();
        }
    }
    internalizeModule(*m, [&](const GlobalValue& g) { return g.getName().starts_with(prefix) || g.getName() == "main"; });
    for (Function& F : *m) { F.removeFnAttr(Attribute::NoInline); if (F.hasFnAttribute(Attribute::OptimizeNone)) F.removeFnAttr(Attribute::OptimizeNone); }
    for (Function& F : *m) if (F.getName().starts_with(prefix)) F.addFnAttr(Attribute::NoInline);
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PipelineTuningOptions pto;
    pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false;
    PassBuilder PB(nullptr, pto);
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    {
        ModulePassManager pre;
        pre.addPass(GlobalDCEPass());
        pre.run(*m, MAM);
    }
    auto tp = [](const char* n) { if (getenv("QSE_TIME")) { static struct timespec l = { 0, 0 }; struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); fprintf(stderr, "[link] %s %.1f\n", n, l.tv_sec ? (t.tv_sec - l.tv_sec) + (t.tv_nsec - l.tv_nsec) * 1e-9 : 0.0); l = t; } };
    tp("dce");
    ModulePassManager MPM;
    size_t total = 0;
    for (Function& F : *m) if (!F.isDeclaration()) total += F.getInstructionCount();
    if (total < 160000 || getenv("QSE_O1")) MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    else {
        // light pipeline: the executor wants few instructions, not fast code
        FunctionPassManager early;
        early.addPass(SROAPass(SROAOptions::ModifyCFG)); early.addPass(EarlyCSEPass()); early.addPass(SimplifyCFGPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(early)));
        InlineParams ip = getInlineParams(1, 0);
        ModuleInlinerWrapperPass inl(ip, true);
        FunctionPassManager fn;
        fn.addPass(SROAPass(SROAOptions::ModifyCFG)); fn.addPass(EarlyCSEPass(true)); fn.addPass(InstCombinePass()); fn.addPass(SimplifyCFGPass());
        inl.getPM().addPass(createCGSCCToFunctionPassAdaptor(std::move(fn)));
        MPM.addPass(std::move(inl));
        MPM.addPass(GlobalDCEPass());
        FunctionPassManager late;
        late.addPass(SCCPPass()); late.addPass(ADCEPass()); late.addPass(SimplifyCFGPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(late)));
    }
    if (getenv("QSE_TIME")) { size_t n = 0, k = 0; for (Function& F : *m) if (!F.isDeclaration()) { n++; k += F.getInstructionCount(); } fprintf(stderr, "[link] fns %zu insns %zu\n", n, k); }
    MPM.run(*m, MAM);
    tp("passes");
    if (getenv("QSE_TIME")) { size_t n = 0, k = 0; for (Function& F : *m) if (!F.isDeclaration()) { n++; k += F.getInstructionCount(); } fprintf(stderr, "[link] fns %zu insns %zu\n", n, k); }
    std::error_code ec;
    {
        raw_fd_ostream os(out, ec);
        WriteBitcodeToFile(*m, os);
    }
    if (asan) {
        for (Function& F : *m) if (!F.isDeclaration()) F.addFnAttr(Attribute::SanitizeAddress);
        raw_fd_ostream os(out + ".asan", ec);
        WriteBitcodeToFile(*m, os);
    }
    tp("write");
    return 0;
}

int main(int argc, char** argv)
{
    if (argc < 2) { fprintf(stderr, "usage: qse link|run ...\n"); return 2; }
    std::string cmd = argv[1];
    std::vector<std::string> files, cases;
    std::vector<std::pair<std::string, std::string>> ov;
    std::string out, prefix = "vpcase_", logf, replay;
    int jobs = 8;
    double budget = 0;
    bool asan = false;
    for (int i = 2; i < argc; i++) {
        std::string s = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (s == "-o") out = nx();
        else if (s == "--override") { std::string v = nx(); size_t p = v.find('='); ov.push_back({ v.substr(0, p), v.substr(p + 1) }); }
        else if (s == "--real") g_real = true;
        else if (s == "--jobs") jobs = atoi(nx().c_str());
        else if (s == "--case") cases.push_back(nx());
        else if (s == "--log") logf = nx();
        else if (s == "--outdir") g_outDir = nx();
        else if (s == "--budget") budget = atof(nx().c_str());
        else if (s == "--max-insns") g_maxInsns = strtoull(nx().c_str(), 0, 10);
        else if (s == "--replay") replay = nx();
        else if (s == "--asan") asan = true;
        else if (s == "--rlimit-nra") S.rlimNRA = atoi(nx().c_str());
        else if (s == "--rlimit-bv") S.rlimBV = atoi(nx().c_str());
        else files.push_back(s);
    }
    g_ctx = new LLVMContext();
    if (cmd == "link") return cmdLink(files, out, ov, prefix, asan);
    if (cmd == "list") {
        std::string err;
        auto m = linkAll(files, err);
        if (!m) return 2;
        for (Function& F : *m) if (F.getName().starts_with(prefix) && !F.isDeclaration()) printf("%s\n", F.getName().str().c_str() + prefix.size());
        return 0;
    }
    std::string err;
    auto m = linkAll(files, err);
    if (!m) { fprintf(stderr, "qse: %s\n", err.c_str()); return 2; }
    g_mod = m.get();
    g_dl = &g_mod->getDataLayout();
    // memory
    if (mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED ||
        mmap((void*)SHADOW, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("mmap"); return 2; }
    g_glob = ARENA + 4096;
    g_heap = ARENA + (1ull << 30);
    g_heapEnd = ARENA + (12ull << 30);
    g_st = (Stats*)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_tab = (ShTab*)mmap(nullptr, sizeof(ShTab), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sem = (sem_t*)mmap(nullptr, sizeof(sem_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sem_init(g_sem, 1, jobs);
    g_logFd = logf.empty() ? dup(1) : open(logf.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
    fpInit();
    initHooks();
    g_refineAbsLo = refineAbsLo;
    dlopen("libm.so.6", RTLD_NOW | RTLD_GLOBAL);
    for (Function& F : *g_mod) fiOf(&F);
    g_fnHit = (u64*)mmap(nullptr, (g_fns.size() + 16) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto& G : g_mod->globals()) if (!G.getName().starts_with("llvm.")) globalAddr(&G);
    stack_t ss{};
    ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    T = newThread(16 << 20);
    // global constructors
    u64 tStart = nowUs();
    if (auto* gc = g_mod->getGlobalVariable("llvm.global_ctors")) {
        std::vector<std::pair<u64, FuncInfo*>> cs;
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(st->getOperand(1))) cs.push_back({ cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fiOf(F) }); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y) { return x.first < y.first; });
        g_case = "(static initialisation)";
        for (auto& c : cs) if (guarded([&] { runFunction(c.second, {}); })) return 2;
    }
    std::vector<FuncInfo*> todo;
    for (auto* f : g_fns) {
        if (f->name.rfind(prefix, 0) != 0 || f->F->isDeclaration()) continue;
        std::string n = f->name.substr(prefix.size());
        if (!cases.empty() && std::find(cases.begin(), cases.end(), n) == cases.end()) continue;
        todo.push_back(f);
    }
    if (!replay.empty()) {
        g_concrete = true;
        FILE* fp = fopen(replay.c_str(), "r");
        char nm[512], hx[64], line[1024];
        while (fp && fgets(line, sizeof line, fp)) {
            if (sscanf(line, "%511s %63s", nm, hx) != 2) continue;
            u128 v = 0;
            for (char* p = hx; *p; p++) v = v * 16 + (*p <= '9' ? *p - '0' : *p - 'a' + 10);
            g_fixedSeq.push_back({ nm, v });
        }
    }
    if (budget > 0) g_deadline = nowUs() + (u64)(budget * 1e6);
    logLine("{\"t\":\"start\",\"cases\":" + std::to_string(todo.size()) + ",\"functions\":" + std::to_string(g_fns.size()) + "}");
    // one process per case, all sharing the job tokens
    std::vector<std::pair<pid_t, FuncInfo*>> ps;
    std::map<pid_t, u64> t0s;
    for (auto* f : todo) {
        while (sem_wait(g_sem) < 0) { }
        pid_t p = fork();
        if (p == 0) {
            g_case = f->name.substr(prefix.size());
            g_hasToken = true; g_kids.clear(); g_isRoot = false;
            g_insBase = g_cnt0 = g_insns;
            pid_t self = getpid();
            u64 tc = nowUs();
            guarded([&] {
                runFunction(f, {});
                // reached the end of the harness: report vacuity witness
                if (tabBump("end:" + g_case) == 0) logLine("{\"t\":\"end\",\"case\":\"" + jsonEsc(g_case) + "\"}");
            });
            __sync_fetch_and_add(&g_st->paths, 1);
            __sync_fetch_and_add(&g_st->insns, g_insns - g_cnt0);
            tabBump("paths:" + g_case);
            if (getpid() == self) {
                if (g_hasToken) { sem_post(g_sem); g_hasToken = false; }
                reapKids(true);
                u64 np = tabBump("paths:" + g_case);
                logLine("{\"t\":\"case\",\"case\":\"" + jsonEsc(g_case) + "\",\"paths\":" + std::to_string(np) + ",\"secs\":" + std::to_string((nowUs() - tc) / 1e6) + "}");
                _exit(0);
            }
            finishProcess();
        }
        ps.push_back({ p, f });
    }
    for (auto& p : ps) {
        int st;
        waitpid(p.first, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { __sync_fetch_and_add(&g_st->crashed, 1); logLine("{\"t\":\"crash\",\"case\":\"" + jsonEsc(p.second->name) + "\",\"status\":" + std::to_string(st) + "}"); }
    }
    std::string fl;
    u64 nf = 0;
    for (size_t i = 0; i < g_fns.size(); i++)
        if (g_fnHit[i]) {
            std::string d = shortFn(g_fns[i]->name);
            if (g_fns[i]->name.rfind("_ZNSt", 0) == 0 || g_fns[i]->name.rfind("_ZNKSt", 0) == 0) continue;
            if (d.find("Qrack::") == std::string::npos) continue;
            nf++;
            logLine("{\"t\":\"fn\",\"name\":\"" + jsonEsc(d) + "\"}");
        }
    char b[2048];
    snprintf(b, sizeof b,
        "{\"t\":\"stats\",\"paths\":%llu,\"forks\":%llu,\"branches\":%llu,\"insns\":%llu,\"queries\":%llu,\"unsat\":%llu,\"sat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"asserts\":%llu,"
        "\"asserts_unsat\":%llu,\"asserts_unknown\":%llu,\"asserts_ground\":%llu,\"concretized\":%llu,\"crashed\":%llu,\"infeasible\":%llu,\"unsupported\":%llu,\"lra_unsat\":%llu,"
        "\"bv_queries\":%llu,\"nra_queries\":%llu,\"sampled_sat\":%llu,\"hangs\":%llu,\"qrack_functions\":%llu,\"wall_s\":%.3f}",
        (unsigned long long)g_st->paths, (unsigned long long)g_st->forks, (unsigned long long)g_st->branches, (unsigned long long)g_st->insns, (unsigned long long)g_st->queries, (unsigned long long)g_st->qUnsat,
        (unsigned long long)g_st->qSat, (unsigned long long)g_st->qUnk, g_st->solverUs / 1e6, (unsigned long long)g_st->asserts, (unsigned long long)g_st->assertsUnsat, (unsigned long long)g_st->assertsUnk,
        (unsigned long long)g_st->assertsTrivial, (unsigned long long)g_st->concretized, (unsigned long long)g_st->crashed, (unsigned long long)g_st->infeasible, (unsigned long long)g_st->unsupported,
        (unsigned long long)g_st->lraUnsat, (unsigned long long)g_st->bvq, (unsigned long long)g_st->nraq, (unsigned long long)g_st->sampled, (unsigned long long)g_st->hangs, (unsigned long long)nf, (nowUs() - tStart) / 1e6);
    logLine(b);
    fflush(nullptr);
    _exit(0);
}
