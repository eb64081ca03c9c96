// ---- queries, traces, instrumentation, main ----
struct Cnf { vector<int> map; int nvars = 0; uint64_t ncl = 0; };
struct Query { int res = 0; double t = 0; vector<char> val; uint64_t vars = 0, clauses = 0; string by; };  // res 1 sat 2 unsat 0 unknown

static void evalAll(Aig& A, const vector<char>& in, vector<char>& val) {
    size_t N = A.c0.size();
    val.assign(N, 0);
    for (size_t n = 1; n < N; n++) {
        if (A.c0[n] == ~0u) { val[n] = in[n]; continue; }
        bool a = val[A.c0[n] >> 1] ^ (A.c0[n] & 1), b = val[A.c1[n] >> 1] ^ (A.c1[n] & 1);
        val[n] = a && b;
    }
}
static bool lv(const vector<char>& v, Lit l) { return v[l >> 1] ^ (l & 1); }
static double gSolve = 0; static uint64_t gQueries = 0, gSatQ = 0, gUnsatQ = 0, gUnkQ = 0, gMaxClauses = 0, gMaxVars = 0;

static Query solveLit(Aig& A, Lit t) {
    Query q; double t0 = Aig::now();
    gQueries++;
    t = A.R(t);
    vector<char> in(A.c0.size(), 0);
    auto done = [&]() { q.t = Aig::now() - t0; gSolve += q.t; if (q.res == 1) gSatQ++; else if (q.res == 2) gUnsatQ++; else gUnkQ++; return q; };
    if (t == 0) { q.res = 2; q.by = "simplification"; return done(); }
    if (t != 1) {
        // simulation patterns are concrete worlds too
        bool found = false;
        for (int w = 0; w < Aig::W && !found; w++) {
            uint64_t x = A.sim[(size_t)(t >> 1) * Aig::W + w] ^ ((t & 1) ? ~0ull : 0);
            if (!x) continue;
            // prefer worlds without random noise: bit 0 is an unperturbed model
            int bit = (x & 1) ? 0 : __builtin_ctzll(x);
            for (uint32_t n : A.inputs) in[n] = (A.sim[(size_t)n * Aig::W + w] >> bit) & 1;
            found = true;
        }
        if (found && !opt.nosim) { evalAll(A, in, q.val); if (lv(q.val, t)) { q.res = 1; q.by = "simulation"; return done(); } }
        std::fill(in.begin(), in.end(), 0);
        // incremental solver with a small budget first
        if (A.c0.size() < 400000) {
            A.encode(t);
            Minisat::vec<Minisat::Lit> as; as.push(Minisat::mkLit(A.var[t >> 1], t & 1));
            A.S.setConfBudget(3000);
            Minisat::lbool r = A.S.solveLimited(as);
            if (r == Minisat::lbool((uint8_t)0)) {
                for (uint32_t n : A.inputs) if (A.var[n] >= 0 && A.var[n] < A.S.model.size()) in[n] = A.S.model[A.var[n]] == Minisat::lbool((uint8_t)0);
                evalAll(A, in, q.val);
                if (lv(q.val, t)) { q.res = 1; q.by = "minisat"; return done(); }
            } else if (r == Minisat::lbool((uint8_t)1)) { q.res = 2; q.by = "minisat"; return done(); }
        }
    } else { evalAll(A, in, q.val); q.res = 1; return done(); }
    // CNF of the cone
    vector<int> id(A.c0.size(), 0); int nv = 0; vector<uint32_t> order, st{t >> 1};
    while (!st.empty()) {
        uint32_t n = st.back();
        if (id[n]) { st.pop_back(); continue; }
        if (A.c0[n] == ~0u) { id[n] = ++nv; st.pop_back(); continue; }
        uint32_t x = A.R(A.c0[n]) >> 1, y = A.R(A.c1[n]) >> 1; bool rdy = true;
        if (!id[x]) { st.push_back(x); rdy = false; }
        if (!id[y]) { st.push_back(y); rdy = false; }
        if (!rdy) continue;
        id[n] = ++nv; order.push_back(n); st.pop_back();
    }
    string fn = opt.out + "/q" + std::to_string(gQueries) + ".cnf";
    FILE* f = fopen(fn.c_str(), "w");
    if (!f) { q.res = 0; return done(); }
    uint64_t ncl = 3 * order.size() + 1 + (id[0] ? 1 : 0);
    fprintf(f, "p cnf %d %lu\n", nv, ncl);
    auto lit = [&](Lit l) { l = A.R(l); return (l & 1) ? -id[l >> 1] : id[l >> 1]; };
    if (id[0]) fprintf(f, "-%d 0\n", id[0]);
    for (uint32_t n : order) {
        int o = id[n], a = lit(A.c0[n]), b = lit(A.c1[n]);
        fprintf(f, "-%d %d 0\n-%d %d 0\n%d %d %d 0\n", o, a, o, b, o, -a, -b);
    }
    fprintf(f, "%d 0\n", lit(t));
    fclose(f);
    q.vars = nv; q.clauses = ncl; gMaxVars = std::max<uint64_t>(gMaxVars, nv); gMaxClauses = std::max(gMaxClauses, ncl);
    string cmd = opt.solver + " -q --time=" + std::to_string(opt.solveTime) + " " + fn + " 2>/dev/null";
    FILE* p = popen(cmd.c_str(), "r");
    char buf[1 << 16]; vector<int> model(nv + 1, 0); q.by = opt.solver;
    while (p && fgets(buf, sizeof buf, p)) {
        if (buf[0] == 's') { if (strstr(buf, "UNSATISFIABLE")) q.res = 2; else if (strstr(buf, "SATISFIABLE")) q.res = 1; }
        else if (buf[0] == 'v') { char* c = buf + 1; char* e; for (;;) { long v = strtol(c, &e, 10); if (e == c) break; c = e; if (v) model[std::labs(v)] = v > 0 ? 1 : 0; } }
    }
    if (p) pclose(p);
    unlink(fn.c_str());
    if (q.res == 1) {
        for (uint32_t n : A.inputs) if (id[n]) in[n] = model[id[n]];
        evalAll(A, in, q.val);
        if (!lv(q.val, t)) { q.res = 0; fprintf(stderr, "xsym: model check failed\n"); }
    }
    return done();
}
static string jstr(const string& s) {
    string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r + "\"";
}
static uint64_t valOf(const vector<char>& v, const Val& x) {
    if (x.k == Val::Const) return x.c;
    if (x.k == Val::VS) { for (auto& e : x.d->vs) if (lv(v, e.l)) return e.c; return 0; }
    if (x.k == Val::Bits) { uint64_t r = 0; for (size_t i = 0; i < x.d->bits.size() && i < 64; i++) if (lv(v, x.d->bits[i])) r |= 1ull << i; return r; }
    return 0;
}
// writes the trace; returns the index of the first bad in it (-1: none)
static int writeTrace(Engine& E, const vector<char>& v, const string& fn, bool stopAtBad, bool cut = false) {
    FILE* f = fopen(fn.c_str(), "w"); int first = -1;
    if (!f) return -1;
    if (opt.unlockVis) fprintf(f, "U\n");
    int pendingTurn = -1; bool turnUsed = true;
    for (auto& e : E.evs) {
        if (e.t == EV_TURN) { pendingTurn = e.thread; turnUsed = false; continue; }
        if (!lv(v, e.g)) continue;
        bool dl = e.t == EV_BAD && E.bads[e.a].kind == "deadlock";
        if (!turnUsed && !dl) { fprintf(f, "T %d\n", pendingTurn); turnUsed = true; }
        switch (e.t) {
        case EV_PASS: {
            string loc;
            if (e.I) {
                loc = demangle(e.I->getFunction()->getName().str()).substr(0, 90);
                if (auto& d = e.I->getDebugLoc()) { string fl = d->getFilename().str(); auto p = fl.rfind('/'); if (p != string::npos) fl = fl.substr(p + 1); loc += " " + fl + ":" + std::to_string(d.getLine()); }
            }
            fprintf(f, "P # %s\n", loc.c_str()); break;
        }
        case EV_SPAWN: fprintf(f, "S %d\n", e.a); break;
        case EV_NONDET: fprintf(f, "N %lu\n", valOf(v, e.v)); break;
        case EV_SPUR: fprintf(f, "W %lu\n", valOf(v, e.v)); break;
        case EV_TIMEOUT: fprintf(f, "O %lu\n", valOf(v, e.v)); break;
        case EV_CHOICE: fprintf(f, "C %lu\n", valOf(v, e.v)); break;
        case EV_LOG: fprintf(f, "L %d %lu\n", e.a, valOf(v, e.v)); break;
        case EV_REACH: fprintf(f, "R %s\n", e.s.c_str()); break;
        case EV_STOP: fprintf(f, "X\n"); break;
        case EV_CUT: fprintf(f, cut ? "Z # %s\n" : "X # %s\n", e.s.c_str()); break;
        case EV_FIN: fprintf(f, "F\n"); break;
        case EV_BAD:
            if (first < 0) first = e.a;
            fprintf(f, "B %s # %s at %s\n", E.bads[e.a].kind.c_str(), E.bads[e.a].msg.c_str(), E.bads[e.a].where.c_str());
            if (stopAtBad) { fclose(f); return first; }
            break;
        default: break;
        }
    }
    if (cut) fprintf(f, "K\n");
    fclose(f);
    return first;
}
// ------------------------------------------------------------ preparation
static void prep(Module& M) {
    vector<std::pair<Function*, Function*>> rep;
    for (auto& F : M) {
        string n = F.getName().str();
        if (n.rfind("xsr_", 0) == 0 && !F.isDeclaration())
            if (Function* T = M.getFunction(n.substr(4))) if (T != &F) rep.push_back({T, &F});
    }
    // (a replacement may call the replaced function itself)
    for (auto& p : rep) p.first->replaceUsesWithIf(p.second, [&](Use& U) { auto* I = dyn_cast<Instruction>(U.getUser()); return !I || I->getFunction() != p.second; });
}
static void instrument(Module& M, const set<string>& plainVis, const string& out) {
    LLVMContext& C = M.getContext();
    Type* V = Type::getVoidTy(C); Type* I32 = Type::getInt32Ty(C);
    FunctionCallee vis = M.getOrInsertFunction("rt_visible", V), spur = M.getOrInsertFunction("rt_spurious", I32);
    vector<Instruction*> pts; vector<AtomicCmpXchgInst*> weak;
    for (auto& F : M) {
        if (F.isDeclaration()) continue;
        unsigned n = 0; bool rc = Engine::refcountFn(F.getName().str());
        for (auto& B : F) for (auto& I : B) {
            bool v = Engine::atomicVisible(I);
            if (!v && (isa<LoadInst>(I) || isa<StoreInst>(I)) && plainVis.count((F.getName() + "#" + std::to_string(n)).str())) v = true;
            if (v) pts.push_back(&I);
            if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) if (X->isWeak() && !rc) weak.push_back(X);
            n++;
        }
    }
    for (auto* I : pts) { IRBuilder<> b(I); b.SetCurrentDebugLocation(DebugLoc()); auto* c = b.CreateCall(vis); if (I->getDebugLoc()) c->setDebugLoc(I->getDebugLoc()); else if (auto* SP = I->getFunction()->getSubprogram()) c->setDebugLoc(DILocation::get(C, 0, 0, SP)); }
    for (auto* X : weak) {
        IRBuilder<> b(X);
        auto dl = X->getDebugLoc();
        auto* sp = b.CreateCall(spur); sp->setDebugLoc(dl ? dl : DebugLoc(X->getFunction()->getSubprogram() ? DILocation::get(C, 0, 0, X->getFunction()->getSubprogram()) : nullptr));
        Value* c = b.CreateICmpNE(sp, ConstantInt::get(I32, 0));
        Instruction *t, *e;
        SplitBlockAndInsertIfThenElse(c, X, &t, &e);
        IRBuilder<> bt(t);
        auto* ld = bt.CreateLoad(X->getCompareOperand()->getType(), X->getPointerOperand());
        Value* a = bt.CreateInsertValue(PoisonValue::get(X->getType()), ld, 0);
        a = bt.CreateInsertValue(a, ConstantInt::getFalse(C), 1);
        PHINode* P = PHINode::Create(X->getType(), 2, "", X);
        X->replaceAllUsesWith(P);
        X->moveBefore(e); X->setWeak(false);
        P->addIncoming(a, t->getParent()); P->addIncoming(X, e->getParent());
    }
    // blocking primitives -> replay runtime
    static const vector<std::pair<string, string>> ren = {
        {"pthread_mutex_lock", "rt_mutex_lock"}, {"pthread_mutex_trylock", "rt_mutex_trylock"}, {"pthread_mutex_unlock", "rt_mutex_unlock"},
        {"_ZNSt18condition_variableC1Ev", "rt_nop"}, {"_ZNSt18condition_variableC2Ev", "rt_nop"}, {"_ZNSt18condition_variableD1Ev", "rt_nop"}, {"_ZNSt18condition_variableD2Ev", "rt_nop"},
        {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "rt_cv_wait"},
        {"_ZNSt18condition_variable10notify_oneEv", "rt_cv_notify_one"}, {"_ZNSt18condition_variable10notify_allEv", "rt_cv_notify_all"},
        {"pthread_cond_signal", "rt_cv_notify_one"}, {"pthread_cond_broadcast", "rt_cv_notify_all"},
        {"nanosleep", "rt_nanosleep"}, {"sched_yield", "rt_yield"}, {"pthread_yield", "rt_yield"}, {"xs_yield", "rt_yield"},
        {"_ZNSt6chrono3_V212steady_clock3nowEv", "rt_now"}, {"_ZNSt6chrono3_V212system_clock3nowEv", "rt_now"}, {"xs_now", "rt_now"},
        {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "rt_thread_start"},
        {"_ZNSt6thread4joinEv", "rt_thread_join"}, {"_ZNSt6thread6detachEv", "rt_thread_detach"},
        {"_ZNSt6thread20hardware_concurrencyEv", "rt_one"},
        {"pthread_self", "rt_self"}, {"_ZNSt10_Sp_lockerC1EPKv", "rt_sp_locker"}, {"_ZNSt10_Sp_lockerC2EPKv", "rt_sp_locker"},
        {"_ZNSt10_Sp_lockerC1EPKvS1_", "rt_sp_locker"}, {"_ZNSt10_Sp_lockerC2EPKvS1_", "rt_sp_locker"}, {"_ZNSt10_Sp_lockerD1Ev", "xs_atomic_end"}, {"_ZNSt10_Sp_lockerD2Ev", "xs_atomic_end"},
        {"__cxa_guard_acquire", "rt_guard_acquire"}, {"__cxa_guard_release", "rt_guard_release"}, {"__cxa_guard_abort", "rt_guard_abort"},
        {"__cxa_atexit", "rt_atexit"},
    };
    for (auto& p : ren) if (Function* F = M.getFunction(p.first)) {
        FunctionCallee T = M.getOrInsertFunction(p.second, F->getFunctionType());
        F->replaceAllUsesWith(T.getCallee());
    }
    if (M.getFunction("xs_heap_live")) { // the replay has to count the allocations of the scenario itself
        static const pair<const char*, const char*> cnt[] = {{"_Znwm", "rt_new"}, {"_Znam", "rt_new"}, {"malloc", "rt_malloc"}, {"calloc", "rt_calloc"}, {"free", "rt_free"},
            {"_ZdlPv", "rt_delete"}, {"_ZdlPvm", "rt_delete"}, {"_ZdaPv", "rt_delete"}, {"_ZdaPvm", "rt_delete"}, {"_ZnwmRKSt9nothrow_t", "rt_new"}, {"_ZdlPvRKSt9nothrow_t", "rt_delete"}};
        for (auto& p : cnt) if (Function* F = M.getFunction(p.first)) {
            FunctionCallee T = M.getOrInsertFunction(p.second, F->getFunctionType());
            F->replaceAllUsesWith(T.getCallee());
        }
    }
    vector<Function*> fs; for (auto& F : M) fs.push_back(&F);
    for (auto* F : fs) {
        if (demangle(F->getName().str()).find("std::condition_variable::__wait_until_impl<") == string::npos) continue;
        uint64_t mul = 1; string d = F->getName().str();
        if (d.find("ILl1ELl1000000000E") == string::npos) {
            if (d.find("ratioILl1ELl1000E") != string::npos) mul = 1000000;
            else if (d.find("ratioILl1ELl1000000E") != string::npos) mul = 1000;
            else if (d.find("ratioILl1ELl1E") != string::npos) mul = 1000000000;
        }
        FunctionCallee T = M.getOrInsertFunction("rt_cv_wait_until_" + std::to_string(mul), F->getFunctionType());
        F->replaceAllUsesWith(T.getCallee());
    }
    std::error_code ec; raw_fd_ostream os(out, ec);
    for (auto& F : M) if (F.hasAvailableExternallyLinkage()) F.setLinkage(GlobalValue::LinkOnceODRLinkage);
    for (auto& G : M.globals()) if (G.hasAvailableExternallyLinkage()) G.setLinkage(GlobalValue::LinkOnceODRLinkage);
    WriteBitcodeToFile(M, os);
}
static string gReplaceList(const set<string>& s) { string r = "["; bool f = true; for (auto& x : s) { if (!f) r += ","; f = false; r += jstr(x); } return r + "]"; }

int main(int argc, char** argv) {
    string plainOut, plainIn;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--bc") opt.bc = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--instr") opt.instr = nx();
        else if (a == "--rounds") opt.rounds = stoi(nx()); else if (a == "--loop") opt.loop = stoi(nx()); else if (a == "--max-threads") opt.maxThreads = stoi(nx());
        else if (a == "--accel") opt.accel = stoi(nx()); else if (a == "--solve-time") opt.solveTime = stoi(nx()); else if (a == "--max-viol") opt.maxViol = stoi(nx());
        else if (a == "--plain") opt.plain = true; else if (a == "--no-deadlock") opt.deadlock = false; else if (a == "-v") opt.verbose = true;
        else if (a == "--no-spurious") opt.spurious = false; else if (a == "--time") opt.timeLimit = stod(nx()); else if (a == "--no-reach") opt.reachQ = false;
        else if (a == "--solver") opt.solver = nx(); else if (a == "--nosim") opt.nosim = true; else if (a == "--refs") Engine::refsVisible = true; else if (a == "--maximise-witness") {}
        else if (a == "--cv-spurious") opt.cvSpur = true; else if (a == "--unlocks") opt.unlockVis = true; else if (a == "--plain-rounds") opt.plainRounds = stoi(nx());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    LLVMContext C; SMDiagnostic err;
    auto M = parseIRFile(opt.bc, err, C);
    if (!M) { err.print("xsym", errs()); return 2; }
    prep(*M);
    set<string> plainVis; int passes = 0; bool stable = !opt.plain;
    std::unique_ptr<Engine> E;
    double tAll = Aig::now();
    for (;;) {
        int rounds = opt.rounds;
        if (!stable && passes == 0 && opt.plainRounds) opt.rounds = std::min(opt.rounds, opt.plainRounds);
        E.reset(new Engine(*M, plainVis));
        E->run();
        opt.rounds = rounds;
        passes++;
        if (!opt.plain) break;
        set<string> add;
        for (auto& a : E->acc) if (a.second.shared && a.second.write && a.second.ls.empty())
            for (auto* I : a.second.ins) if (isa<LoadInst>(I) || isa<StoreInst>(I)) { string n = Engine::instrName(I); if (!plainVis.count(n)) add.insert(n); }
        if (opt.verbose) fprintf(stderr, "pass %d: %zu new shared plain accesses\n", passes, add.size());
        if (add.empty() && !(passes == 1 && opt.plainRounds && opt.plainRounds < opt.rounds)) break;
        if (passes >= 4 || E->timedOut) break;
        plainVis.insert(add.begin(), add.end());
        if (Aig::now() - tAll > opt.timeLimit) break;
    }
    Engine& e = *E;
    if (opt.verbose) for (auto& p : plainVis) { auto q = p.rfind('#'); fprintf(stderr, "  plain visible: %s%s\n", demangle(p.substr(0, q)).c_str(), p.substr(q).c_str()); }
    Aig& A = e.A;
    // queries
    string badsJ, reachJ; bool unknown = false; int nb = 0;
    vector<Lit> todo; vector<bool> reported(e.bads.size(), false);
    Lit block = 0;
    Lit anyOther = 0;
    for (auto& b : e.bads) if (b.kind != "deadlock") anyOther = A.OR(anyOther, b.any);
    for (auto& b : e.bads) if (b.kind == "deadlock") b.any = A.AND(b.any, anyOther ^ 1);
    Lit unsup = 0; for (auto& u : e.unsup) unsup = A.OR(unsup, u.g);
    for (int k = 0; k < opt.maxViol; k++) {
        Lit t = 0;
        for (size_t i = 0; i < e.bads.size(); i++) if (!reported[i]) t = A.OR(t, e.bads[i].any);
        t = A.AND(t, block ^ 1);
        if (t == 0 && k) break;
        Query q = solveLit(A, t);
        if (opt.verbose) fprintf(stderr, "query %d: %s in %.1fs by %s (%lu vars %lu clauses)\n", k, q.res == 1 ? "SAT" : q.res == 2 ? "UNSAT" : "?", q.t, q.by.c_str(), q.vars, q.clauses);
        if (q.res == 0) { unknown = true; break; }
        if (q.res == 2) break;
        string fn = opt.out + "/bad" + std::to_string(k) + ".trace";
        int first = writeTrace(e, q.val, fn, true);
        if (first < 0) { unknown = true; break; }
        reported[first] = true;
        block = A.OR(block, e.bads[first].any);   // worlds showing this one are covered
        if (nb++) badsJ += ",\n";
        badsJ += "  {\"kind\":" + jstr(e.bads[first].kind) + ",\"msg\":" + jstr(e.bads[first].msg) + ",\"where\":" + jstr(e.bads[first].where) + ",\"trace\":" + jstr(fn) + "}";
    }
    int nr = 0;
    if (opt.reachQ) for (size_t i = 0; i < e.reach.size(); i++) {
        Query q = solveLit(A, A.AND(e.reach[i].second, block ^ 1));
        string fn = opt.out + "/reach" + std::to_string(i) + ".trace"; 
        if (q.res == 1) writeTrace(e, q.val, fn, true);
        if (nr++) reachJ += ",\n";
        reachJ += "  {\"label\":" + jstr(e.reach[i].first) + ",\"res\":" + (q.res == 1 ? "\"sat\"" : q.res == 2 ? "\"unsat\"" : "\"unknown\"") + ",\"trace\":" + jstr(q.res == 1 ? fn : "") + "}";
    }
    // loops cut at the bound: an execution each, for the replay to carry on with
    string cutJ; nr = 0;
    // first those in which all of the loop's iterations happen after everything else has come to rest
    if (!unknown && !nb) for (auto& c : e.cutAt) for (int strong = 3; strong >= 0; strong--) {
        auto at = [&](map<string, Lit>& m) { auto i = m.find(c.first); return i == m.end() ? (Lit)0 : i->second; };
        Lit fresh = at(e.stuckNow[1]), now = at(e.stuckNow[0]), end = at(e.stuckAt);
        Lit l = strong == 3 ? fresh : strong == 2 ? A.AND(now, fresh ^ 1) : strong == 1 ? A.AND(end, now ^ 1) : A.AND(e.truncMap[c.first], end ^ 1);
        for (auto& b : e.bads) l = A.AND(l, b.any ^ 1);
        if (l == 0 || !A.feasible(l)) continue;
        Query q = solveLit(A, l);
        if (q.res != 1) continue;
        string fn = opt.out + "/cut" + std::to_string(nr) + ".trace";
        writeTrace(e, q.val, fn, true, true);
        if (nr++) cutJ += ",\n";
        cutJ += "  {\"where\":" + jstr(c.first) + ",\"stuck\":" + (strong ? "true" : "false") + ",\"trace\":" + jstr(fn) + "}";
        if (nr >= 16) break;
    }
    string truncJ, unsJ; nr = 0;
    for (auto& t : e.truncMap) { if (!A.feasible(t.second)) continue; if (nr++) truncJ += ","; truncJ += jstr(t.first); }
    nr = 0; for (auto& u : e.unsup) { if (!A.feasible(u.g)) continue; if (nr++) unsJ += ","; unsJ += jstr(u.what); }
    set<string> fnl, hv = e.havocd; uint64_t nlib = 0;
    for (auto* f : e.fnById) { if (f->harness) continue; string h = f->dem.substr(0, f->dem.find_first_of("(<")); if (h.find("xdispatch::") != string::npos) fnl.insert(f->dem.substr(0, 160)); else nlib++; }
    set<string> asserts; for (auto& a : e.assertSeen) asserts.insert(a.first);
    std::ofstream o(opt.out + "/result.json");
    char num[2048];
    snprintf(num, sizeof num, "\"instructions\":%lu,\"states\":%lu,\"merges\":%lu,\"visible\":%lu,\"threads\":%zu,\"turns\":%lu,\"rounds\":%d,\"loop\":%d,\"aig\":%zu,\"inputs\":%zu,\"prune_sat\":%lu,\"prune_unsat\":%lu,\"prune_budget\":%lu,\"prune_sim\":%lu,\"prune_time\":%.2f,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_time\":%.2f,\"max_vars\":%lu,\"max_clauses\":%lu,\"objects\":%zu,\"wall\":%.2f,\"passes\":%d,\"plain_visible\":%zu,\"asserts\":%lu,\"timed_out\":%s,\"query_unknown\":%s,\"lib_functions\":%lu",
        e.nInstr, e.nStates, e.nMerge, e.nVis, e.thr.size(), e.nTurns, opt.rounds, opt.loop, A.c0.size(), A.inputs.size(), A.nSat, A.nUnsat, A.nBudget, A.nSimHit, A.satTime, gQueries, gSatQ, gUnsatQ, gUnkQ, gSolve, gMaxVars, gMaxClauses, e.objs.size(), Aig::now() - tAll, passes, plainVis.size(), e.nAsserts, e.timedOut ? "true" : "false", unknown ? "true" : "false", nlib);
    o << "{" << num << ",\n\"bads\":[\n" << badsJ << "],\n\"reach\":[\n" << reachJ << "],\n\"cuts\":[\n" << cutJ << "],\n\"truncated\":[" << truncJ << "],\n\"unsupported\":[" << unsJ << "],\n\"havoc\":" << gReplaceList(hv)
      << ",\n\"asserts_checked\":" << gReplaceList(asserts) << ",\n\"functions\":" << gReplaceList(fnl) << "}\n";
    o.close();
    if (!opt.instr.empty()) instrument(*M, plainVis, opt.instr);
    if (opt.verbose) fprintf(stderr, "done: %.1fs, aig %zu, bads %zu reported %d\n", Aig::now() - tAll, A.c0.size(), e.bads.size(), nb);
    fflush(nullptr);
    _exit(0);
}
