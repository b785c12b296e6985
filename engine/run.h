// Driver: module loading, exploration, process splitting, result files.
#pragma once
struct Shared { std::atomic<int> active; std::atomic<int> nproc; std::atomic<int> stop; };
static Shared *g_sh; static int g_rank = 0; static std::vector<pid_t> g_kids; static double g_lastsplit;

static std::string jesc(const std::string &x) { std::string r; char b[8]; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r; }
static void jinputs(FILE *f, const Viol &v) { fprintf(f, "["); for (size_t i = 0; i < v.inputs.size(); ++i) fprintf(f, "%s[\"%s\",\"%s\"]", i ? "," : "", jesc(v.inputs[i].first).c_str(), v.inputs[i].second.c_str()); fprintf(f, "]"); }
static void writeResults() {
    std::string fn = O_out + "." + std::to_string(g_rank) + ".json"; FILE *f = fopen((fn + ".tmp").c_str(), "w"); if (!f) { perror("out"); exit(3); }
    fprintf(f, "{\"paths\":%llu,\"pruned\":%llu,\"forks\":%llu,\"instructions\":%llu,\"checks\":%llu,\"checks_symbolic\":%llu,\"incomplete\":%s,\"pending\":%zu,\"maxvars\":%llu,\"wall\":%.3f,\n", (unsigned long long)g_paths, (unsigned long long)g_pruned, (unsigned long long)g_forks, (unsigned long long)g_instr, (unsigned long long)g_checks, (unsigned long long)g_checksym, g_incomplete ? "true" : "false", g_work.size(), (unsigned long long)g_maxvars, now() - g_t0);
    fprintf(f, "\"solver\":{\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"domain_decisions\":%llu,\"model_hits\":%llu,\"cache_hits\":%llu,\"z3_time\":%.3f,\"conditions_confirmed_by_z3\":%llu,\"conditions_not_confirmed\":%llu,\"confirming_time\":%.3f,\"z3_max\":%.3f},\n", (unsigned long long)g_st.z3_queries, (unsigned long long)g_st.z3_sat, (unsigned long long)g_st.z3_unsat, (unsigned long long)g_st.z3_unknown, (unsigned long long)g_st.dom_queries, (unsigned long long)g_st.model_hits, (unsigned long long)g_st.cache_hits, g_st.z3_time, (unsigned long long)g_st.cert, (unsigned long long)g_st.cert_skipped, g_st.cert_time, g_st.z3_max);
    fprintf(f, "\"violations\":["); for (size_t i = 0; i < g_viol.size(); ++i) { auto &v = g_viol[i]; fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"tags\":\"%s\",\"inputs\":", i ? ",\n" : "", v.kind.c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.stack).c_str(), jesc(v.path).c_str()); jinputs(f, v); fprintf(f, "}"); }
    fprintf(f, "],\n\"samples\":["); for (size_t i = 0; i < g_samples.size(); ++i) { fprintf(f, "%s", i ? ",\n" : ""); jinputs(f, g_samples[i]); }
    auto m = [&](const char *n, const std::map<std::string, uint64_t> &x) { fprintf(f, "],\n\"%s\":[", n); bool fi = true; for (auto &p : x) { fprintf(f, "%s[\"%s\",%llu]", fi ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); fi = false; } };
    m("unsupported", g_unsup); m("reached", g_reached); m("known", g_known);
    fprintf(f, "],\n\"asserts\":["); bool fi = true; for (auto &p : g_checkmsg) { fprintf(f, "%s[\"%s\",%llu,%llu]", fi ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second.first, (unsigned long long)p.second.second); fi = false; }
    fprintf(f, "],\n\"functions\":["); fi = true; for (auto fn2 : g_funcs) if (fn2->used) { fprintf(f, "%s[\"%s\",\"%s\",\"%s\"]", fi ? "" : ",", jesc(fn2->name).c_str(), jesc(fn2->pretty).c_str(), jesc(fn2->file).c_str()); fi = false; }
    fprintf(f, "],\n\"lines\":["); fi = true; for (size_t i = 0; i < g_locs.size(); ++i) if (g_lochit[i] && g_locs[i].line) { fprintf(f, "%s[\"%s\",%d]", fi ? "" : ",", jesc(g_locs[i].file).c_str(), g_locs[i].line); fi = false; }
    fprintf(f, "]}\n"); fclose(f); rename((fn + ".tmp").c_str(), fn.c_str());
}
static uint64_t g_rng = 88172645463325252ull;
static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static void trySplit() {
    if (O_jobs <= 1 || g_work.size() < 2 || now() - g_lastsplit < 0.2) return;
    g_lastsplit = now();
    int a = g_sh->active.load(); if (a >= O_jobs) return; if (!g_sh->active.compare_exchange_strong(a, a + 1)) return;
    int rank = ++g_sh->nproc; fflush(nullptr);
    pid_t p = fork();
    std::vector<State *> keep; // alternate states, oldest first
    if (p < 0) { g_sh->active--; return; }
    bool child = p == 0;
    for (size_t i = 0; i < g_work.size(); ++i) { if ((i % 2 == 0) == child) keep.push_back(g_work[i]); else delete g_work[i]; }
    g_work.swap(keep);
    if (child) {
        g_rank = rank; g_kids.clear(); g_viol.clear(); g_violcount.clear(); g_samples.clear(); g_unsup.clear(); g_reached.clear(); g_known.clear(); g_checkmsg.clear();
        g_paths = g_pruned = g_forks = g_instr = g_checks = g_checksym = 0; g_incomplete = false; g_st = SolverStats(); g_rng ^= (uint64_t)rank * 0x9E3779B97F4A7C15ull;
    } else g_kids.push_back(p);
}
static void explore() {
    bool first = g_rank == 0; (void)first; int myrank = g_rank;
    while (!g_work.empty()) {
        if (now() - g_t0 > O_time) { g_incomplete = true; break; }
        State *s = g_work.back(); g_work.pop_back();
        bool fin = false, done = false;
        try {
            for (;;) {
                if (runSlice(*s, 20000)) { fin = true; break; }
                if (now() - g_t0 > O_time) { g_incomplete = true; break; }
                if (O_jobs > 1 && g_work.size() >= 2 && now() - g_lastsplit > 0.2) { g_work.push_back(s); trySplit(); s = g_work.empty() ? nullptr : g_work.back(); if (!s) break; g_work.pop_back(); }
            }
        } catch (PathEnd &e) { done = true; if (e.clean && s && !s->reached.empty()) fin = true; }
        if (s && fin) {
            ++g_paths; for (auto &l : s->reached) g_reached[l]++;
            if (!s->inputs.empty() && !s->approx) { Viol v; bool take = (int)g_samples.size() < O_samples; size_t at = g_samples.size(); if (!take && O_samples > 0) { uint64_t k = rnd() % g_paths; if (k < (uint64_t)O_samples) { take = true; at = k; } }
                if (take) { recordInputs(*s, v); if (at < g_samples.size()) g_samples[at] = v; else g_samples.push_back(v); } }
        } else if (s && done) { ++g_paths; for (auto &l : s->reached) g_reached[l]++; }
        delete s;
        if (O_jobs > 1) trySplit();
    }
    g_sh->active--;
    (void)myrank;
}
int main(int argc, char **argv) {
    std::string file, entry = "sx_main";
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
        if (a == "-o") O_out = val(); else if (a == "-t") O_time = atof(val().c_str()); else if (a == "-j") O_jobs = atoi(val().c_str()); else if (a == "-e") entry = val(); else if (a == "-steps") O_maxsteps = strtoull(val().c_str(), nullptr, 10);
        else if (a == "-mem") O_maxmem = strtoull(val().c_str(), nullptr, 10); else if (a == "-alloc") O_maxalloc = strtoull(val().c_str(), nullptr, 10); else if (a == "-samples") O_samples = atoi(val().c_str()); else if (a == "-viol") O_maxviol = atoi(val().c_str()); else if (a == "-v") O_trace = true; else if (a == "-seed") O_seed = strtoull(val().c_str(), nullptr, 10); else if (a == "-z3timeout") g_z3.timeout = (unsigned)atoi(val().c_str()); else file = a; }
    if (O_out.empty()) O_out = "/tmp/sx.out"; g_rng ^= O_seed * 0x2545F4914F6CDD1Dull; g_t0 = now(); g_lastsplit = g_t0; g_z3.init(); g_certify = certify;
    g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (g_sh) Shared(); g_sh->active = 1;
    LLVMMemoryBufferRef mb; char *err = nullptr; if (LLVMCreateMemoryBufferWithContentsOfFile(file.c_str(), &mb, &err)) { fprintf(stderr, "%s\n", err); return 3; }
    if (LLVMParseBitcode2(mb, &M)) { fprintf(stderr, "cannot parse %s\n", file.c_str()); return 3; }
    TD = LLVMGetModuleDataLayout(M); initBuiltins();
    State *s0 = new State();
    for (auto f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
        Func *F = new Func(); size_t n; const char *nm = LLVMGetValueName2(f, &n); F->name = std::string(nm, n); F->v = f; F->defined = !LLVMIsDeclaration(f); F->addr = addrOf(FUNC0 + (uint32_t)g_funcs.size()); g_funcs.push_back(F); g_fmap[f] = F; g_fname[F->name] = F;
        LLVMMetadataRef sp = LLVMGetSubprogram(f); if (sp) { LLVMMetadataRef fi = LLVMDIScopeGetFile(sp); unsigned k = 0; if (fi) { const char *x = LLVMDIFileGetFilename(fi, &k); F->file = std::string(x, k); } }
    }
    for (auto F : g_funcs) {
        auto it = g_fname.find("__sxm_" + F->name); if (it != g_fname.end() && it->second->defined) { F->redirect = it->second; continue; }
        if (BI b = findBuiltin(F->name)) { F->builtin = (int)g_bitab.size(); g_bitab.push_back(b); }
    }
    std::vector<LLVMValueRef> gl;
    for (auto g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        size_t n; const char *nm = LLVMGetValueName2(g, &n); std::string name(nm, n); LLVMTypeRef t = LLVMGlobalGetValueType(g); uint64_t sz = LLVMIsDeclaration(g) ? 256 : LLVMABISizeOfType(TD, t);
        uint32_t id = s0->nextobj++; Obj *o = Obj::make((uint32_t)sz, OF_GLOBAL); memset(o->d, 0, sz); s0->mem.set(id, o); g_gaddr[g] = addrOf(id); g_gname[addrOf(id)] = name; std::string bare = name; if (!bare.compare(0, 3, "_ZL")) { bare.erase(0, 3); while (!bare.empty() && isdigit((unsigned char)bare[0])) bare.erase(0, 1); } if (LLVMIsThreadLocal(g) || !bare.compare(0, 3, "sx_") || !name.compare(0, 5, "_ZNSt") || !name.compare(0, 4, "_ZSt") || !name.compare(0, 6, "_ZZNSt") || !name.compare(0, 4, "_ZGV")) o->flags |= OF_OWN; if (LLVMGetInitializer(g)) gl.push_back(g);
    }
    for (auto g : gl) { uint32_t id = (uint32_t)(g_gaddr[g] >> 32); Obj *o = s0->mem.w(id); writeConst(LLVMGetInitializer(g), o->d); if (LLVMIsGlobalConstant(g)) o->flags |= OF_CONST; }
    if (!g_lowererr.empty()) { fprintf(stderr, "global initialisers: %s\n", g_lowererr.c_str()); g_lowererr.clear(); }
    auto me = g_fname.find(entry); if (me == g_fname.end() || !me->second->defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    g_main = me->second; pushFrame(*s0, g_main, {}, nullptr);
    if (LLVMValueRef ct = LLVMGetNamedGlobal(M, "llvm.global_ctors")) { LLVMValueRef in = LLVMGetInitializer(ct); unsigned n = (unsigned)LLVMGetArrayLength2(LLVMTypeOf(in)); std::vector<std::pair<uint64_t, Func *>> cs;
        for (unsigned i = 0; i < n; ++i) { LLVMValueRef e = LLVMGetAggregateElement(in, i); cs.push_back({LLVMConstIntGetZExtValue(LLVMGetAggregateElement(e, 0)), g_fmap[LLVMGetAggregateElement(e, 1)]}); }
        std::stable_sort(cs.begin(), cs.end(), [](const std::pair<uint64_t, Func *> &a, const std::pair<uint64_t, Func *> &b) { return a.first < b.first; });
        for (size_t i = cs.size(); i-- > 0;) pushFrame(*s0, cs[i].second, {}, nullptr); }
    g_work.push_back(s0); explore(); writeResults();
    int rc = 0; for (auto p : g_kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 4; }
    if (g_rank) _exit(rc);
    fflush(nullptr); _exit(rc);
}
