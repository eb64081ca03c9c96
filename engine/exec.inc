// ---- part of struct Engine: the interpreter ----
enum BK { B_Body, B_Unknown, B_Ignore, B_RetArg0, B_Alloc, B_Calloc, B_Free, B_MemCpy, B_MemSet, B_Lifetime0, B_Lifetime1,
    B_MutexLock, B_MutexTry, B_MutexUnlock, B_CvWait, B_CvWaitUntil, B_CvTimedC, B_Notify1, B_NotifyAll, B_Sleep, B_Yield, B_Now,
    B_ThreadStart, B_ThreadJoin, B_ThreadDetach, B_Spawn, B_Join, B_Quiesce, B_Self, B_SpLockerCtor,
    B_GuardAcquire, B_GuardRelease, B_GuardAbort, B_Terminate, B_AllocExc, B_Throw, B_BeginCatch, B_EndCatch, B_Rethrow, B_ThrowStd, B_GetExcPtr,
    B_Nondet, B_NondetRange, B_Assume, B_Assert, B_Reach, B_Log, B_AtomicBegin, B_AtomicEnd, B_Visible, B_NoTimeouts, B_IsFreed, B_HeapLive, B_SetTime, B_AdvTime,
    B_TypeId, B_TlsAddr, B_MinMax, B_Overflow, B_Expect, B_Abs, B_Const1, B_Const0, B_Sat, B_Errno, B_CtPop, B_Ctlz, B_Cttz, B_Bswap, B_Fsh, B_ObjSize, B_Killed, B_Exit };
std::unordered_map<Function*, BK> bkCache;
BK builtinOf(Function* F) {
    auto it = bkCache.find(F);
    if (it != bkCache.end()) return it->second;
    return bkCache[F] = builtinOf0(F);
}
static bool starts(const string& s, const char* p) { return s.rfind(p, 0) == 0; }
BK builtinOf0(Function* F) {
    string n = F->getName().str();
    if (F->isIntrinsic()) {
        switch (F->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MemCpy;
        case Intrinsic::memset: return B_MemSet;
        case Intrinsic::lifetime_start: return B_Lifetime0;
        case Intrinsic::lifetime_end: return B_Lifetime1;
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore:
        case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::prefetch: return B_Ignore;
        case Intrinsic::stacksave: return B_Const0;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: return B_RetArg0;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: return B_RetArg0;
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: return B_MinMax;
        case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
        case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: return B_Overflow;
        case Intrinsic::uadd_sat: case Intrinsic::usub_sat: return B_Sat;
        case Intrinsic::abs: return B_Abs;
        case Intrinsic::ctpop: return B_CtPop; case Intrinsic::ctlz: return B_Ctlz; case Intrinsic::cttz: return B_Cttz;
        case Intrinsic::bswap: return B_Bswap; case Intrinsic::fshl: case Intrinsic::fshr: return B_Fsh;
        case Intrinsic::eh_typeid_for: return B_TypeId;
        case Intrinsic::threadlocal_address: return B_TlsAddr;
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return B_Terminate;
        case Intrinsic::is_constant: return B_Const0;
        case Intrinsic::objectsize: return B_ObjSize;
        default: return n.rfind("llvm.x86.", 0) == 0 && n.find("pause") != string::npos ? B_Ignore : B_Unknown;
        }
    }
    static const std::unordered_map<string, BK> tab = {
        {"_Znwm", B_Alloc}, {"_Znam", B_Alloc}, {"malloc", B_Alloc}, {"_ZnwmSt11align_val_t", B_Alloc}, {"_ZnamSt11align_val_t", B_Alloc},
        {"_ZnwmRKSt9nothrow_t", B_Alloc}, {"_ZnamRKSt9nothrow_t", B_Alloc}, {"calloc", B_Calloc},
        {"_ZdlPv", B_Free}, {"_ZdlPvm", B_Free}, {"_ZdaPv", B_Free}, {"_ZdaPvm", B_Free}, {"free", B_Free}, {"_ZdlPvSt11align_val_t", B_Free},
        {"_ZdlPvmSt11align_val_t", B_Free}, {"_ZdaPvSt11align_val_t", B_Free}, {"_ZdlPvRKSt9nothrow_t", B_Free},
        {"memcpy", B_MemCpy}, {"memmove", B_MemCpy}, {"memset", B_MemSet},
        {"pthread_mutex_lock", B_MutexLock}, {"pthread_mutex_trylock", B_MutexTry}, {"pthread_mutex_unlock", B_MutexUnlock},
        {"pthread_mutex_init", B_Const0}, {"pthread_mutex_destroy", B_Const0}, {"pthread_cond_init", B_Const0}, {"pthread_cond_destroy", B_Const0},
        {"_ZNSt18condition_variableC1Ev", B_Ignore}, {"_ZNSt18condition_variableC2Ev", B_Ignore}, {"_ZNSt18condition_variableD1Ev", B_Ignore}, {"_ZNSt18condition_variableD2Ev", B_Ignore},
        {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", B_CvWait},
        {"_ZNSt18condition_variable10notify_oneEv", B_Notify1}, {"_ZNSt18condition_variable10notify_allEv", B_NotifyAll},
        {"pthread_cond_signal", B_Notify1}, {"pthread_cond_broadcast", B_NotifyAll},
        {"nanosleep", B_Sleep}, {"sched_yield", B_Yield}, {"xs_yield", B_Visible}, {"pthread_yield", B_Yield},
        {"_ZNSt6chrono3_V212steady_clock3nowEv", B_Now}, {"_ZNSt6chrono3_V212system_clock3nowEv", B_Now},
        {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", B_ThreadStart},
        {"_ZNSt6thread4joinEv", B_ThreadJoin}, {"_ZNSt6thread6detachEv", B_ThreadDetach}, {"_ZNSt6thread6_StateD2Ev", B_Ignore}, {"_ZNSt6thread6_StateD1Ev", B_Ignore},
        {"_ZNSt6thread20hardware_concurrencyEv", B_Const1},
        {"pthread_self", B_Self}, {"xs_tid", B_Self}, {"_ZNSt10_Sp_lockerC1EPKv", B_SpLockerCtor}, {"_ZNSt10_Sp_lockerC2EPKv", B_SpLockerCtor},
        {"_ZNSt10_Sp_lockerC1EPKvS1_", B_SpLockerCtor}, {"_ZNSt10_Sp_lockerC2EPKvS1_", B_SpLockerCtor}, {"_ZNSt10_Sp_lockerD1Ev", B_AtomicEnd}, {"_ZNSt10_Sp_lockerD2Ev", B_AtomicEnd},
        {"__cxa_guard_acquire", B_GuardAcquire}, {"__cxa_guard_release", B_GuardRelease}, {"__cxa_guard_abort", B_GuardAbort},
        {"__cxa_atexit", B_Const0}, {"__cxa_thread_atexit", B_Const0}, {"atexit", B_Const0},
        {"_ZSt9terminatev", B_Terminate}, {"abort", B_Terminate}, {"__cxa_pure_virtual", B_Terminate}, {"__assert_fail", B_Terminate}, {"__clang_call_terminate", B_Terminate},
        {"__stack_chk_fail", B_Terminate}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_Terminate}, {"exit", B_Exit}, {"_exit", B_Exit},
        {"__cxa_allocate_exception", B_AllocExc}, {"__cxa_free_exception", B_Ignore}, {"__cxa_throw", B_Throw}, {"__cxa_begin_catch", B_BeginCatch},
        {"__cxa_end_catch", B_EndCatch}, {"__cxa_rethrow", B_Rethrow}, {"__cxa_get_exception_ptr", B_RetArg0},
        {"xs_nondet_u64", B_Nondet}, {"xs_nondet_range", B_NondetRange}, {"xs_assume", B_Assume}, {"xs_assert", B_Assert}, {"xs_reach", B_Reach}, {"xs_log", B_Log},
        {"xs_atomic_begin", B_AtomicBegin}, {"xs_atomic_end", B_AtomicEnd}, {"xs_visible", B_Visible}, {"xs_no_timeouts", B_NoTimeouts},
        {"xs_spawn_impl", B_Spawn}, {"xs_join", B_Join}, {"xs_quiesce", B_Quiesce}, {"xs_is_freed", B_IsFreed}, {"xs_heap_live", B_HeapLive}, {"xs_now", B_Now}, {"xs_advance_time", B_AdvTime},
        {"xs_stop", B_Killed}, {"__errno_location", B_Errno}, {"__atomic_is_lock_free", B_Const1},
        {"_ZNSt8ios_base4InitC1Ev", B_Ignore}, {"_ZNSt8ios_base4InitD1Ev", B_Ignore}, {"_ZSt15get_new_handlerv", B_Const0},
        {"_ZSt24__throw_out_of_range_fmtPKcz", B_ThrowStd},
    };
    auto it = tab.find(n);
    if (it != tab.end()) return it->second;
    string d = demangle(n);
    if (d.find("std::condition_variable::__wait_until_impl<") != string::npos) return B_CvWaitUntil;
    if (starts(n, "_ZSt") && n.find("__throw_") != string::npos && F->isDeclaration()) return B_ThrowStd;
    if (starts(d, "std::ostream::") || starts(d, "std::basic_ostream<") || starts(d, "std::operator<< <") || starts(d, "std::basic_ios<") ||
        d.find("std::ostream& std::operator<<") != string::npos || d.find("std::basic_ostream<char, std::char_traits<char> >& std::") != string::npos ||
        starts(d, "std::ostream& ") || starts(n, "_ZStls") || starts(n, "_ZNSolsE"))
        return F->getReturnType()->isPointerTy() ? B_RetArg0 : B_Ignore;
    if (F->isDeclaration()) {
        // constructors/destructors of standard exceptions and the like have no
        // effect the checks depend on
        if ((starts(d, "std::runtime_error::") || starts(d, "std::logic_error::") || starts(d, "std::exception::") || starts(d, "std::invalid_argument::") ||
             starts(d, "std::out_of_range::") || starts(d, "std::bad_alloc::") || starts(d, "std::locale::") || starts(d, "std::ios_base::") || starts(d, "std::bad_weak_ptr::"))
            && F->getReturnType()->isVoidTy()) return B_Ignore;
        return B_Unknown;
    }
    return B_Body;
}
static string stdThrowTi(const string& n) {
    struct { const char* a; const char* b; } m[] = {{"bad_alloc", "_ZTISt9bad_alloc"}, {"length_error", "_ZTISt12length_error"}, {"logic_error", "_ZTISt11logic_error"},
        {"out_of_range", "_ZTISt12out_of_range"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"system_error", "_ZTISt12system_error"},
        {"bad_function_call", "_ZTISt17bad_function_call"}, {"bad_weak_ptr", "_ZTISt12bad_weak_ptr"}, {"runtime_error", "_ZTISt13runtime_error"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"}};
    for (auto& e : m) if (n.find(e.a) != string::npos) return e.b;
    return "_ZTISt9exception";
}
bool tiMatch(const string& thrown, const string& c) {
    if (thrown == c) return true;
    static const std::map<string, string> base = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}};
    auto it = base.find(thrown);
    if (it != base.end()) return tiMatch(it->second, c);
    if (auto* G = M.getGlobalVariable(thrown, true)) {
        if (G->hasInitializer()) if (auto* CS = dyn_cast<ConstantStruct>(G->getInitializer()))
            for (unsigned i = 2; i < CS->getNumOperands(); i++)
                if (auto* B = dyn_cast<GlobalVariable>(CS->getOperand(i)->stripPointerCasts())) if (tiMatch(B->getName().str(), c)) return true;
    }
    return false;
}
map<string, int> tiIds;
int tiId(const string& n) { auto& i = tiIds[n]; if (!i) i = tiIds.size(); return i; }

// ------------------------------------------------------------ scheduling
bool canSwitch() {
    if (!schedActive || lastTurn) return false;
    int n = 0;
    for (auto& t : thr) if (t->exists) n++;
    return n > 1;
}
// visible point; returns false if nothing of s continues
bool visible(State& s, Lit enabled) {
    nVis++;
    if (!schedActive || s.atomic) {
        Lit go = A.AND(s.g, enabled);
        if (go != s.g && !A.feasible(go)) return false;
        s.g = go;
        return true;
    }
    Lit sw = canSwitch() ? A.input() : 0;
    Lit en = A.AND(enabled, sw ^ 1);
    Lit go = A.AND(s.g, en);
    Lit stay = A.AND(s.g, en ^ 1);
    if (stay && (sw != 0 || A.feasible(stay))) {
        State t = s; t.g = stay;
        addTo(thr[cur]->susp, keyOf(s), std::move(t));
    }
    if (!A.feasible(go)) return false;
    s.g = go; s.events++;
    evs.push_back({EV_PASS, cur, s.g, Val(), 0, "", s.ctop().bb->ins[s.ctop().ip]});
    return true;
}
Val& owner(uint64_t a) { auto it = mtxOwner.find(a); if (it == mtxOwner.end()) it = mtxOwner.emplace(a, mkC(0, 16)).first; return it->second; }
template<class F> void forAddr(const Val& p, F f) {
    if (p.k == Val::Const) f(p.c, (Lit)1);
    else if (p.k == Val::VS) for (auto& e : p.d->vs) f(e.c, e.l);
}
Lit mutexFree(const Val& p) {
    Lit r = 0;
    forAddr(p, [&](uint64_t a, Lit l) { r = A.OR(r, A.AND(l, O.eqC(owner(a), 0))); });
    return r;
}
Lit blockedNow(Thread& t) {
    Lit r = 0; int save = cur; cur = t.id;
    for (auto& kv : t.susp) {
        State& s = kv.second;
        Instruction* I = s.ctop().bb->ins[s.ctop().ip];
        auto* CB = dyn_cast<CallBase>(I);
        if (!CB) continue;
        Function* F = calleeOf(CB);
        if (!F) continue;
        Lit en = enabledOf(s, CB, builtinOf(F), s.ctop().phase, true);
        r = A.OR(r, A.AND(s.g, en ^ 1));
    }
    cur = save;
    return r;
}
Function* calleeOf(CallBase* CB) {
    Value* v = CB->getCalledOperand()->stripPointerCasts();
    if (auto* GA = dyn_cast<GlobalAlias>(v)) v = GA->getAliaseeObject();
    return dyn_cast<Function>(v);
}
Val getP(State& s, Value* v) { return prune(get(s, v), s.g); }
// is the builtin enabled (not blocked)?  final: evaluate for blocked detection
Lit enabledOf(State& s, CallBase* CB, BK b, uint32_t phase, bool detect) {
    switch (b) {
    case B_MutexLock: return mutexFree(getP(s, CB->getArgOperand(0)));
    case B_CvWait: case B_CvWaitUntil:
        if (phase == 1) {
            Lit sig = thr[cur]->cvsig;
            Lit en = detect ? sig : A.OR(sig, s.ctop().auxs);
            if (b == B_CvWaitUntil) {
                if (!noTimeouts) en = detect ? 1 : A.OR(en, A.OR(s.ctop().auxl, O.cmp(Ops::SGE, clock, s.ctop().aux0)));
                else en = A.OR(en, O.cmp(Ops::SGE, clock, s.ctop().aux0));
            }
            return A.AND(en, mutexFree(s.ctop().aux1));
        }
        return 1;
    case B_ThreadJoin: case B_Join: {
        Val id = b == B_Join ? prune(get(s, CB->getArgOperand(0)), s.g) : prune(readThreadId(s, CB), s.g);
        Lit r = 0;
        forAddr(id, [&](uint64_t x, Lit l) {
            if (b == B_Join) x += 1;
            if (x >= 1 && x - 1 < thr.size()) r = A.OR(r, A.AND(l, thr[x - 1]->finished));
            else r = A.OR(r, l);
        });
        return r;
    }
    case B_Quiesce: {
        Lit r = 1;
        for (auto& t : thr) if (t->id != cur && t->exists)
            r = A.AND(r, A.OR(A.OR(t->started ^ 1, t->finished), blockedNow(*t)));
        return r;
    }
    case B_GuardAcquire: {
        // blocked while another thread initialises
        Val v = loadBytes(s, nullptr, getP(s, CB->getArgOperand(0)), 8, s.g);
        Val st = O.extract(v, 8, 8);
        return O.eqC(st, 0);
    }
    default: return 1;
    }
}
Val readThreadId(State& s, CallBase* CB) { return loadBytes(s, nullptr, getP(s, CB->getArgOperand(0)), 8, s.g); }
bool visibleBuiltin(BK b) {
    switch (b) {
    case B_MutexLock: case B_MutexTry: case B_CvWait: case B_CvWaitUntil: case B_Notify1: case B_NotifyAll: case B_Yield: case B_ThreadJoin: case B_Join:
    case B_Quiesce: case B_SpLockerCtor: case B_Visible: case B_GuardAcquire: return true;
    default: return false;
    }
}
int spawn(State& s, Function* entry, vector<Val> args) {
    auto key = std::make_pair(cur, keyOf(s));
    auto it = spawnMemo.find(key);
    int id;
    if (it == spawnMemo.end()) {
        if ((int)thr.size() >= opt.maxThreads) { unsupported(s, nullptr, "too many threads"); return -1; }
        id = thr.size(); thr.emplace_back(new Thread); thr[id]->id = id; thr[id]->exists = true; thr[id]->parent = cur;
        spawnMemo[key] = id;
    } else id = it->second;
    Thread& t = *thr[id];
    t.started = A.OR(t.started, s.g);
    State n; n.g = s.g;
    FnInfo* F = info(entry);
    auto f = std::make_shared<Frame>(); f->fn = F; f->bb = F->blocks[&entry->getEntryBlock()]; f->regs.resize(F->nregs);
    for (size_t i = 0; i < args.size(); i++) f->regs[i] = args[i];
    n.st.push_back(f);
    evs.push_back({EV_SPAWN, cur, s.g, Val(), id, ""});
    addTo(t.susp, keyOf(n), std::move(n));
    return id;
}
// ------------------------------------------------------------ control flow
bool gotoBlock(State& s, BasicBlock* to) {
    Frame& f = s.top();
    BasicBlock* from = f.bb->bb;
    BlockInfo* tb = f.fn->blocks[to];
    vector<pair<uint32_t, Val>> phis;
    for (auto& P : to->phis()) phis.push_back({f.fn->reg[&P], get(s, P.getIncomingValueForBlock(from))});
    // loops
    vector<LoopCtr> nl;
    bool backedge = false;
    for (size_t i = 0; i < tb->loops.size(); i++) {
        Loop* L = tb->loops[i];
        if (i < f.bb->loops.size() && f.bb->loops[i] == L) nl.push_back(f.loops[i]);
        else nl.push_back({0, 0, s.events, (uint32_t)nTurns, 1});
    }
    if (!tb->loops.empty() && tb->loops.back()->getHeader() == to && tb->loops.back()->contains(from)) {
        backedge = true;
        auto& c = nl.back();
        c.iter++;
        if (c.turn != nTurns) { c.turn = nTurns; c.fresh = 0; }
        if (c.ev != s.events) c.symc++;
        c.ev = s.events;
    }
    f.loops = nl;
    for (uint32_t r = 0; r < f.regs.size(); r++) if (!tb->liveIn[r] && f.regs[r].k != Val::Undef) f.regs[r] = Val();
    for (auto& p : phis) f.regs[p.first] = p.second;
    f.bb = tb; f.ip = tb->firstNonPhi; f.phase = 0;
    if (backedge) {
        auto& c = f.loops.back(); const LoopCtr c0 = c;
        if ((int)c.symc >= opt.accel) accelerate(s, tb->loops.back());
        if ((int)c.symc >= opt.loop + loopBonus(f.fn) || c.iter > 200000) {
            string w = f.fn->dem.substr(0, 120);
            auto& d = tb->bb->getTerminator()->getDebugLoc();
            if (d) w += ":" + std::to_string(d.getLine());
            auto& l = truncMap[w]; l = A.OR(l, s.g);
            auto& c1 = cutAt[w][cur]; c1 = A.OR(c1, s.g); auto& c2 = cutBy[cur]; c2 = A.OR(c2, s.g);
            auto& c3 = turnCut[0][w]; c3 = A.OR(c3, s.g); auto& c4 = turnCut[1][w]; c4 = A.OR(c4, A.AND(s.g, c0.fresh));
            evs.push_back({EV_CUT, cur, s.g, Val(), 0, w});
            return false;
        }
    }
    return true;
}
int loopBonus(FnInfo* F) { return F->harness ? 40 : 0; }
// long constant-bounded counting loops that only poll: jump to the last iteration
void accelerate(State& s, Loop* L) {
    Frame& f = s.top();
    BasicBlock* latch = L->getLoopLatch();
    int nphi = 0; for (auto& P : L->getHeader()->phis()) { (void)P; nphi++; }
    if (nphi != 1 || f.fn->harness) return;
    for (auto& P : L->getHeader()->phis()) {
        if (!P.getType()->isIntegerTy()) continue;
        const Val& v = f.regs[f.fn->reg[&P]];
        if (!v.isC()) continue;
        Value* inc = latch ? P.getIncomingValueForBlock(latch) : nullptr;
        bool index = false; // a counter that is used for something else: not polling
        for (Value* x : {(Value*)&P, inc}) if (x) for (User* U : x->users()) if (auto* UI = dyn_cast<Instruction>(U)) if (L->contains(UI) && U != inc && U != &P && !isa<ICmpInst>(U)) index = true;
        if (index) continue;
        auto tryCmp = [&](Value* x, uint64_t delta) {
            for (User* U : x->users()) {
                auto* C = dyn_cast<ICmpInst>(U);
                if (!C || !L->contains(C)) continue;
                if (C->getOperand(0) != x) continue;
                Value* o = C->getOperand(1);
                if (auto* OI = dyn_cast<Instruction>(o)) if (L->contains(OI)) continue;
                if (C->getPredicate() != CmpInst::ICMP_SLT && C->getPredicate() != CmpInst::ICMP_ULT && C->getPredicate() != CmpInst::ICMP_NE) continue;
                Val lim = get(s, o);
                if (!lim.isC()) continue;
                int64_t rem = sext(lim.c, lim.w) - sext(v.c, v.w);
                if (rem > 16) { f.regs[f.fn->reg[&P]] = mkC(lim.c - 1 - delta, v.w); return true; }
            }
            return false;
        };
        if (tryCmp(&P, 0)) continue;
        if (latch) if (auto* B = dyn_cast<BinaryOperator>(P.getIncomingValueForBlock(latch)))
            if (B->getOpcode() == Instruction::Add && B->getOperand(0) == &P) if (auto* K = dyn_cast<ConstantInt>(B->getOperand(1))) if (K->isOne()) tryCmp(B, 1);
    }
}
bool settle(State& s) {
    if (work.empty()) return true;
    Key k = keyOf(s);
    if (k < work.begin()->first) return true;
    addTo(work, k, std::move(s));
    return false;
}
void leaveFrame(State& s) {
    auto& f = s.ctop();
    for (auto id : f.objs) { Obj* o = objs[id].get(); o->freed = A.OR(o->freed, s.g); o->freedEver = true; }
    s.st.pop_back();
}
// finish the call instruction at the top of the stack with a result
bool finishCall(State& s, const Val* v) {
    auto* I = cast<CallBase>(s.ctop().bb->ins[s.ctop().ip]);
    if (v && !I->getType()->isVoidTy()) set_(s, I, *v);
    if (auto* Inv = dyn_cast<InvokeInst>(I)) return gotoBlock(s, Inv->getNormalDest());
    Frame& f = s.top();
    f.ip++; f.phase = 0;
    return true;
}
bool finishCall(State& s, const Val& v) { return finishCall(s, &v); }
bool finishCall(State& s) { return finishCall(s, (const Val*)nullptr); }
void unwind(State s, Val ex) {
    for (;;) {
        if (s.st.empty()) { bad(s, nullptr, s.g, "terminate", "uncaught exception"); return; }
        Instruction* I = s.ctop().bb->ins[s.ctop().ip];
        if (auto* Inv = dyn_cast<InvokeInst>(I)) {
            if (!gotoBlock(s, Inv->getUnwindDest())) return;
            s.top().aux0 = ex;
            addTo(work, keyOf(s), std::move(s));
            return;
        }
        if (s.ctop().fn->nounwind) { bad(s, I, s.g, "terminate", "exception leaves noexcept function"); return; }
        if (s.st.size() == 1) { bad(s, I, s.g, "terminate", "uncaught exception"); return; }
        leaveFrame(s);
    }
}
void throwStd(State s, const string& ti) {
    Obj* o = allocKeyed(s, 128, Obj::Heap, 7777, "exception " + ti);
    o->exTi = mkC(0, 1); o->hasTi = true; exTiName[o->id] = ti;
    unwind(std::move(s), mkC(baseOf(o->id), 64));
}
map<uint32_t, string> exTiName;

Val memArg(State& s, CallBase* CB, unsigned i) { return getP(s, CB->getArgOperand(i)); }

Val freshBits(State& s, unsigned w) { vector<Lit> b(w); for (auto& x : b) x = A.input(); return mkBits(b); }

// returns true if s continues at its (updated) position
bool doBuiltin(State& s, CallBase* CB, Function* F, BK b) {
    uint32_t phase = s.ctop().phase;
    if (visibleBuiltin(b) || (opt.unlockVis && b == B_MutexUnlock)) {
        if (b == B_CvWaitUntil && phase == 1) { Lit to = noTimeouts ? 0 : A.input(); s.top().auxl = to; }
        if (opt.cvSpur && schedActive && (b == B_CvWait || b == B_CvWaitUntil) && phase == 1) s.top().auxs = A.AND(A.input(), thr[cur]->spurUsed ^ 1);
        Lit en = enabledOf(s, CB, b, phase, false);
        if (!visible(s, en)) return false;
    }
    auto arg = [&](unsigned i) { return memArg(s, CB, i); };
    switch (b) {
    case B_Ignore: return finishCall(s);
    case B_RetArg0: return finishCall(s, get(s, CB->getArgOperand(0)));
    case B_Const0: return finishCall(s, CB->getType()->isVoidTy() ? mkC(0, 1) : mkC(0, bitsOf(CB->getType())));
    case B_Const1: return finishCall(s, CB->getType()->isVoidTy() ? mkC(0, 1) : mkC(1, bitsOf(CB->getType())));
    case B_Alloc: case B_Calloc: case B_AllocExc: {
        bool ok; Val n = toSet(b == B_Calloc ? O.binop(Ops::Mul, arg(0), arg(1)) : arg(0), s.g, 16, ok);
        if (!ok) { unsupported(s, CB, "symbolic allocation size"); return false; }
        vector<VElem> r;
        forAddr(n, [&](uint64_t sz, Lit l) {
            if (sz > (1u << 23)) { bad(s, CB, A.AND(s.g, l), "alloc", "huge allocation"); return; }
            State t; // guard for alloc
            auto& m = allocMemo[{cur, keyOf(s)}]; auto& id = m[sz];
            if (!id) { id = newObj(Obj::Heap, sz, "heap@" + shortWhere(s))->id; objs[id]->thread = cur; if (b == B_Calloc) objs[id]->zero = true; objs[id]->counted = b != B_AllocExc; }
            objs[id]->alloc = A.OR(objs[id]->alloc, A.AND(s.g, l));
            r.push_back({baseOf(id), l});
        });
        if (r.empty()) return false;
        return finishCall(s, O.mkVS(r, 64));
    }
    case B_Free: {
        Val p = arg(0);
        forAddr(p, [&](uint64_t a, Lit l) {
            if (a == 0) return;
            Lit g = A.AND(s.g, l);
            uint64_t off; Obj* o = objAt(a, off);
            if (!o || off != 0 || o->kind != Obj::Heap) { if (A.feasible(g)) bad(s, CB, g, "invalid-free", "free of non-heap pointer"); return; }
            if (o->freed) { Lit d = A.AND(g, o->freed); if (d && A.feasible(d)) bad(s, CB, d, "double-free", "second free of " + o->name); }
            o->freed = A.OR(o->freed, g); o->freedEver = true;
        });
        return finishCall(s);
    }
    case B_MemCpy: {
        bool ok; Val d = arg(0), c = arg(1), n = toSet(arg(2), s.g, 40, ok);
        if (!ok) { unsupported(s, CB, "symbolic copy length"); return false; }
        forAddr(n, [&](uint64_t len, Lit ln) { forAddr(d, [&](uint64_t da, Lit ld) { forAddr(c, [&](uint64_t ca, Lit lc) {
            Lit g = A.AND(s.g, A.AND(ln, A.AND(ld, lc)));
            if (g && (g == s.g || A.feasible(g))) copyMem(s, CB, da, ca, len, g);
        }); }); });
        return finishCall(s, get(s, CB->getArgOperand(0)));
    }
    case B_MemSet: {
        bool ok; Val d = arg(0), v = O.trunc(get(s, CB->getArgOperand(1)), 8), n = toSet(arg(2), s.g, 40, ok);
        if (!ok) { unsupported(s, CB, "symbolic memset length"); return false; }
        forAddr(n, [&](uint64_t len, Lit ln) { forAddr(d, [&](uint64_t da, Lit ld) {
            Lit g = A.AND(s.g, A.AND(ln, ld));
            if (!g || !len || (g != s.g && !A.feasible(g))) return;
            uint64_t off; Obj* o = check(s, CB, da, len, g, true, off);
            if (!o) return;
            note(s, CB, o, off, len, true);
            for (uint64_t q = 0; q < len;) {
                // follow the existing cell layout where possible
                unsigned k = std::min<uint64_t>(8, len - q);
                auto it = o->cells.find(off + q);
                if (it != o->cells.end() && it->second.w / 8 <= len - q && it->second.w <= 64) k = it->second.w / 8;
                else { auto u = o->cells.upper_bound(off + q); if (u != o->cells.end() && u->first < off + q + k) k = u->first - off - q; while ((off + q) % k) k--; }
                Val x = v;
                if (v.isC()) { uint64_t m = 0; for (unsigned i = 0; i < k; i++) m |= v.c << (8 * i); x = mkC(m, 8 * k); }
                else for (unsigned i = 1; i < k; i++) x = O.concat(x, v);
                writeCell(o, off + q, k, x, g);
                q += k;
            }
        }); });
        return finishCall(s, get(s, CB->getArgOperand(0)));
    }
    case B_Lifetime0: case B_Lifetime1: {
        Val p = arg(1);
        forAddr(p, [&](uint64_t a, Lit l) {
            uint64_t off; Obj* o = objAt(a, off);
            if (!o || o->kind != Obj::Stack) return;
            Lit g = A.AND(s.g, l);
            if (b == B_Lifetime0) o->freed = A.AND(o->freed, g ^ 1); else { o->freed = A.OR(o->freed, g); o->freedEver = true; }
        });
        return finishCall(s);
    }
    case B_MutexLock: {
        Val p = arg(0);
        forAddr(p, [&](uint64_t a, Lit l) {
            Lit g = A.AND(s.g, l); uint64_t off; check(s, CB, a, 1, g, true, off);
            owner(a) = O.ite(g, mkC(cur + 1, 16), owner(a));
        });
        if (p.isC()) s.locks.push_back(p.c);
        return finishCall(s, mkC(0, 32));
    }
    case B_MutexTry: {
        Val p = arg(0); Lit fr = mutexFree(p);
        forAddr(p, [&](uint64_t a, Lit l) {
            Lit g = A.AND(A.AND(s.g, l), fr); uint64_t off; check(s, CB, a, 1, A.AND(s.g, l), true, off);
            owner(a) = O.ite(g, mkC(cur + 1, 16), owner(a));
        });
        return finishCall(s, O.ite(fr, mkC(0, 32), mkC(16, 32)));
    }
    case B_MutexUnlock: {
        Val p = arg(0);
        forAddr(p, [&](uint64_t a, Lit l) {
            Lit g = A.AND(s.g, l); uint64_t off; check(s, CB, a, 1, g, true, off);
            Lit notOwn = A.AND(g, O.eqC(owner(a), cur + 1) ^ 1);
            if (notOwn && A.feasible(notOwn)) bad(s, CB, notOwn, "bad-unlock", "unlock of a mutex not held");
            owner(a) = O.ite(g, mkC(0, 16), owner(a));
        });
        if (p.isC()) { auto it = std::find(s.locks.begin(), s.locks.end(), p.c); if (it != s.locks.end()) s.locks.erase(it); }
        return finishCall(s, mkC(0, 32));
    }
    case B_CvWait: case B_CvWaitUntil: {
        Thread& t = *thr[cur];
        if (phase == 0) {
            Val cv = arg(0), lk = arg(1);
            Val m = loadBytes(s, CB, lk, 8, s.g);
            forAddr(cv, [&](uint64_t a, Lit l) { uint64_t off; check(s, CB, a, 1, A.AND(s.g, l), true, off); });
            t.cvwait = O.ite(s.g, cv, t.cvwait);
            t.cvsig = A.AND(t.cvsig, s.g ^ 1);
            forAddr(m, [&](uint64_t a, Lit l) {
                Lit g = A.AND(s.g, l); uint64_t off; check(s, CB, a, 1, g, true, off);
                Lit notOwn = A.AND(g, O.eqC(owner(a), cur + 1) ^ 1);
                if (notOwn && A.feasible(notOwn)) bad(s, CB, notOwn, "bad-unlock", "wait with a mutex not held");
                owner(a) = O.ite(g, mkC(0, 16), owner(a));
                auto it = std::find(s.locks.begin(), s.locks.end(), a); if (it != s.locks.end()) s.locks.erase(it);
            });
            Frame& f = s.top(); f.aux1 = m;
            if (b == B_CvWaitUntil) {
                Val dl = loadBytes(s, CB, arg(2), 8, s.g);
                uint64_t mul = 1; string d = F->getName().str();
                auto p0 = d.find("ratioILl1EL");
                if (p0 != string::npos && d.find("ILl1ELl1000000000E") == string::npos) {
                    if (d.find("ratioILl1ELl1000E") != string::npos) mul = 1000000;
                    else if (d.find("ratioILl1ELl1000000E") != string::npos) mul = 1000;
                    else if (d.find("ratioILl1ELl1E") != string::npos) mul = 1000000000;
                }
                if (mul != 1) dl = O.binop(Ops::Mul, dl, mkC(mul, 64));
                f.aux0 = dl;
            }
            f.phase = 1;
            return true; // next step re-enters with phase 1
        }
        Val m = s.ctop().aux1;
        Lit sig = t.cvsig;
        if (opt.cvSpur && schedActive) {
            Lit sp = A.AND(s.ctop().auxs, sig ^ 1);
            thr[cur]->spurUsed = A.OR(thr[cur]->spurUsed, A.AND(s.g, sp));
            evs.push_back({EV_SPUR, cur, s.g, mkBool(sp), 0, ""});
            sig = A.OR(sig, sp);
        }
        Lit to = b == B_CvWaitUntil ? (sig ^ 1) : 0;
        if (b == B_CvWaitUntil) {
            evs.push_back({EV_TIMEOUT, cur, s.g, mkBool(to), 0, ""});
            Lit adv = A.AND(s.g, A.AND(to, O.cmp(Ops::SLT, clock, s.ctop().aux0)));
            clock = O.ite(adv, s.ctop().aux0, clock);
        }
        t.cvwait = O.ite(s.g, mkC(0, 64), t.cvwait);
        t.cvsig = A.AND(t.cvsig, s.g ^ 1);
        forAddr(prune(m, s.g), [&](uint64_t a, Lit l) {
            Lit g = A.AND(s.g, l); uint64_t off; check(s, CB, a, 1, g, true, off);
            owner(a) = O.ite(g, mkC(cur + 1, 16), owner(a));
        });
        if (m.isC()) s.locks.push_back(m.c);
        s.top().aux0 = Val(); s.top().aux1 = Val(); s.top().auxl = 0; s.top().auxs = 0;
        return finishCall(s, b == B_CvWaitUntil ? O.ite(to, mkC(1, 32), mkC(0, 32)) : mkC(0, 32));
    }
    case B_Notify1: case B_NotifyAll: {
        Val cv = arg(0);
        forAddr(cv, [&](uint64_t a, Lit l) { uint64_t off; check(s, CB, a, 1, A.AND(s.g, l), true, off); });
        Lit chosen = 0; vector<pair<int, Lit>> cand;
        for (auto& t : thr) if (t->exists && t->id != cur) {
            Lit w = 0;
            forAddr(cv, [&](uint64_t a, Lit l) { w = A.OR(w, A.AND(l, O.eqC(t->cvwait, a))); });
            w = A.AND(s.g, A.AND(w, t->cvsig ^ 1));
            if (w && A.feasible(w)) cand.push_back({t->id, w});
        }
        if (b == B_NotifyAll) { for (auto& c : cand) thr[c.first]->cvsig = A.OR(thr[c.first]->cvsig, c.second); }
        else {
            Val ch = mkC(0, 16);
            for (size_t i = 0; i < cand.size(); i++) {
                Lit later = 0; for (size_t j = i + 1; j < cand.size(); j++) later = A.OR(later, cand[j].second);
                Lit pick = A.AND(cand[i].second, A.AND(chosen ^ 1, later == 0 ? (Lit)1 : A.OR(A.input(), later ^ 1)));
                chosen = A.OR(chosen, pick);
                thr[cand[i].first]->cvsig = A.OR(thr[cand[i].first]->cvsig, pick);
                ch = O.ite(pick, mkC(cand[i].first + 1, 16), ch);
            }
            evs.push_back({EV_CHOICE, cur, s.g, ch, 0, ""});
        }
        return finishCall(s, mkC(0, 32));
    }
    case B_Sleep: {
        if (phase == 0) {
            Val ts = arg(0);
            Val sec = loadBytes(s, CB, ts, 8, s.g), ns = loadBytes(s, CB, O.binop(Ops::Add, ts, mkC(8, 64)), 8, s.g);
            Val dl = O.binop(Ops::Add, clock, O.binop(Ops::Add, O.binop(Ops::Mul, sec, mkC(1000000000, 64)), ns));
            Frame& f = s.top(); f.aux0 = dl; f.phase = 1;
            return true;
        }
        if (!visible(s, 1)) return false;
        Lit adv = A.AND(s.g, O.cmp(Ops::SLT, clock, s.ctop().aux0));
        clock = O.ite(adv, s.ctop().aux0, clock);
        s.top().aux0 = Val();
        return finishCall(s, mkC(0, 32));
    }
    case B_AdvTime: clock = O.ite(s.g, O.binop(Ops::Add, clock, arg(0)), clock); return finishCall(s);
    case B_Yield: case B_Visible: return finishCall(s, mkC(0, 32));
    case B_Now: return finishCall(s, prune(clock, s.g));
    case B_Self: return finishCall(s, mkC(cur + 1, bitsOf(CB->getType())));
    case B_ThreadStart: {
        Val self = arg(0), up = arg(1);
        Val st = loadBytes(s, CB, up, 8, s.g);
        storeBytes(s, CB, up, mkC(0, 64), s.g);
        Function* E = M.getFunction("xs_thread_main");
        if (!E) fatal("xs_thread_main missing");
        int id = spawn(s, E, {st});
        if (id < 0) return false;
        storeBytes(s, CB, self, mkC(id + 1, 64), s.g);
        return finishCall(s);
    }
    case B_ThreadJoin: {
        Val id = prune(readThreadId(s, CB), s.g);
        forAddr(id, [&](uint64_t x, Lit l) { if (x == 0) bad(s, CB, A.AND(s.g, l), "terminate", "join of non-joinable thread"); });
        storeBytes(s, CB, arg(0), mkC(0, 64), s.g);
        return finishCall(s);
    }
    case B_ThreadDetach: storeBytes(s, CB, arg(0), mkC(0, 64), s.g); return finishCall(s);
    case B_Spawn: {
        Val fn = arg(0);
        Function* E = fn.isC() ? funcAt(fn.c) : nullptr;
        if (!E) { unsupported(s, CB, "symbolic spawn target"); return false; }
        int id = spawn(s, E, {get(s, CB->getArgOperand(1))});
        if (id < 0) return false;
        return finishCall(s, mkC(id, 32));
    }
    case B_Join: case B_Quiesce: return finishCall(s);
    case B_SpLockerCtor: s.atomic++; return finishCall(s);
    case B_GuardAcquire: {
        Val p = arg(0); Val v = loadBytes(s, CB, p, 8, s.g);
        Lit done = O.eqC(O.extract(v, 0, 8), 0) ^ 1;
        // byte 0: initialised, byte 1: in progress
        Val nv = O.ite(done, v, mkC(0x100, 64));
        storeBytes(s, CB, p, nv, s.g);
        return finishCall(s, O.ite(done, mkC(0, 32), mkC(1, 32)));
    }
    case B_GuardRelease: storeBytes(s, CB, arg(0), mkC(1, 64), s.g); return finishCall(s);
    case B_GuardAbort: storeBytes(s, CB, arg(0), mkC(0, 64), s.g); return finishCall(s);
    case B_Terminate: bad(s, CB, s.g, "terminate", "std::terminate/abort (" + F->getName().str().substr(0, 40) + ")"); return false;
    case B_Exit: case B_Killed: evs.push_back({EV_STOP, cur, s.g, Val(), 0, ""}); return false;
    case B_Throw: {
        Val ex = arg(0), ti = arg(1); string name = "?";
        if (ti.isC()) { uint64_t off; Obj* o = objAt(ti.c, off); if (o) name = o->name; }
        forAddr(ex, [&](uint64_t a, Lit) { exTiName[a >> 24] = name; });
        unwind(std::move(s), ex);
        return false;
    }
    case B_ThrowStd: throwStd(std::move(s), stdThrowTi(F->getName().str())); return false;
    case B_BeginCatch: { Val v = arg(0); s.caught.push_back(v); return finishCall(s, v); }
    case B_EndCatch: if (!s.caught.empty()) s.caught.pop_back(); return finishCall(s);
    case B_Rethrow: {
        if (s.caught.empty()) { bad(s, CB, s.g, "terminate", "rethrow without exception"); return false; }
        Val ex = s.caught.back();
        unwind(std::move(s), ex);
        return false;
    }
    case B_TypeId: {
        auto* G = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts());
        return finishCall(s, mkC(G ? tiId(G->getName().str()) : 1, 32));
    }
    case B_Nondet: {
        Val v = freshBits(s, 64);
        evs.push_back({EV_NONDET, cur, s.g, v, 0, ""});
        return finishCall(s, v);
    }
    case B_NondetRange: { // inclusive range of i64
        Val lo = arg(0), hi = arg(1);
        if (!lo.isC() || !hi.isC()) { unsupported(s, CB, "symbolic range"); return false; }
        int64_t l = (int64_t)lo.c, h = (int64_t)hi.c; Val v;
        if ((uint64_t)h - (uint64_t)l < 64) {
            vector<VElem> e; Lit rest = 1;
            for (int64_t x = l; x < h; x++) { Lit p = A.input(); e.push_back({(uint64_t)x, A.AND(rest, p)}); rest = A.AND(rest, p ^ 1); }
            e.push_back({(uint64_t)h, rest});
            v = O.mkVS(e, 64);
        } else {
            v = freshBits(s, 64);
            Lit ok = A.AND(O.cmp(Ops::SGE, v, lo), O.cmp(Ops::SLE, v, hi));
            s.g = A.AND(s.g, ok);
            if (!A.feasible(s.g)) return false;
        }
        evs.push_back({EV_NONDET, cur, s.g, v, 0, ""});
        return finishCall(s, v);
    }
    case B_Assume: {
        Lit c = O.nonzero(get(s, CB->getArgOperand(0)));
        s.g = A.AND(s.g, c);
        if (!A.feasible(s.g)) return false;
        return finishCall(s);
    }
    case B_Assert: {
        Lit c = O.nonzero(get(s, CB->getArgOperand(0)));
        Lit b2 = A.AND(s.g, c ^ 1);
        string msg = cstr(s, CB->getArgOperand(1));
        if (b2) bad(s, CB, b2, "assert", msg);
        nAsserts++;
        assertSeen[msg] = A.OR(assertSeen[msg], s.g);
        return finishCall(s);
    }
    case B_Reach: {
        string m = cstr(s, CB->getArgOperand(0));
        auto it = reachIdx.find(m);
        if (it == reachIdx.end()) { reachIdx[m] = reach.size(); reach.push_back({m, 0}); it = reachIdx.find(m); }
        reach[it->second].second = A.OR(reach[it->second].second, s.g);
        evs.push_back({EV_REACH, cur, s.g, Val(), it->second, m});
        return finishCall(s);
    }
    case B_Log: {
        Val v = get(s, CB->getArgOperand(1)); Val t = get(s, CB->getArgOperand(0));
        evs.push_back({EV_LOG, cur, s.g, v, t.isC() ? (int)t.c : -1, ""});
        return finishCall(s);
    }
    case B_AtomicBegin: s.atomic++; return finishCall(s);
    case B_AtomicEnd: if (s.atomic > 0) s.atomic--; return finishCall(s);
    case B_NoTimeouts: noTimeouts = true; return finishCall(s);
    case B_IsFreed: {
        Lit f = 0;
        forAddr(arg(0), [&](uint64_t a, Lit l) { uint64_t off; Obj* o = objAt(a, off); f = A.OR(f, A.AND(l, o ? o->freed : 1)); });
        return finishCall(s, O.zext(mkBool(f), 32));
    }
    case B_HeapLive: {
        Val n = O.zext(mkBool(0), 64);
        for (auto& o : objs) if (o && o->counted) { Lit l = A.AND(o->alloc, o->freed ^ 1); if (A.AND(l, s.g)) n = O.binop(Ops::Add, n, O.zext(mkBool(A.AND(l, s.g)), 64)); }
        return finishCall(s, n);
    }
    case B_TlsAddr: return finishCall(s, get(s, CB->getArgOperand(0)));
    case B_MinMax: {
        Val x = get(s, CB->getArgOperand(0)), y = get(s, CB->getArgOperand(1)); Lit c;
        switch (F->getIntrinsicID()) {
        case Intrinsic::umax: c = O.cmp(Ops::UGT, x, y); break;
        case Intrinsic::umin: c = O.cmp(Ops::ULT, x, y); break;
        case Intrinsic::smax: c = O.cmp(Ops::SGT, x, y); break;
        default: c = O.cmp(Ops::SLT, x, y); break;
        }
        return finishCall(s, O.ite(c, x, y));
    }
    case B_Overflow: {
        Val x = get(s, CB->getArgOperand(0)), y = get(s, CB->getArgOperand(1)); unsigned w = x.w;
        auto id = F->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        Ops::Op op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Ops::Add :
                     (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Ops::Sub : Ops::Mul;
        unsigned W = op == Ops::Mul ? 2 * w : w + 2;
        if (x.isC() && y.isC() && w <= 64) {
            __int128 a = sg ? (__int128)sext(x.c, w) : (__int128)x.c, c = sg ? (__int128)sext(y.c, w) : (__int128)y.c;
            __int128 r = op == Ops::Add ? a + c : op == Ops::Sub ? a - c : a * c;
            uint64_t t = (uint64_t)r & maskw(w);
            __int128 back = sg ? (__int128)sext(t, w) : (__int128)t;
            return finishCall(s, mkAgg({mkC(t, w), mkC(back != r, 1)}));
        }
        auto bx = O.bits(x), by = O.bits(y); Lit sx = sg ? bx.back() : 0, sy = sg ? by.back() : 0;
        bx.resize(W, sx); by.resize(W, sy);
        Val r = O.binop(op, mkBits(bx), mkBits(by)); auto br = O.bits(r);
        Ops::BV t(br.begin(), br.begin() + w); Ops::BV e = t; e.resize(W, sg ? t.back() : 0);
        return finishCall(s, mkAgg({mkBits(t), mkBool(O.eqB(e, br) ^ 1)}));
    }
    case B_Sat: {
        Val x = get(s, CB->getArgOperand(0)), y = get(s, CB->getArgOperand(1));
        if (F->getIntrinsicID() == Intrinsic::usub_sat) return finishCall(s, O.ite(O.cmp(Ops::UGE, x, y), O.binop(Ops::Sub, x, y), mkC(0, x.w)));
        Val r = O.binop(Ops::Add, x, y);
        return finishCall(s, O.ite(O.cmp(Ops::ULT, r, x), mkC(~0ull, x.w), r));
    }
    case B_Abs: { Val x = get(s, CB->getArgOperand(0)); return finishCall(s, O.ite(O.cmp(Ops::SLT, x, mkC(0, x.w)), O.binop(Ops::Sub, mkC(0, x.w), x), x)); }
    case B_CtPop: { Val x = get(s, CB->getArgOperand(0)); Val r = mkC(0, x.w); for (Lit l : O.bits(x)) r = O.binop(Ops::Add, r, O.zext(mkBool(l), x.w)); return finishCall(s, r); }
    case B_Ctlz: { Val x = get(s, CB->getArgOperand(0)); auto b2 = O.bits(x); Val r = mkC(x.w, x.w); for (unsigned i = 0; i < b2.size(); i++) r = O.ite(b2[i], mkC(x.w - 1 - i, x.w), r); return finishCall(s, r); }
    case B_Cttz: { Val x = get(s, CB->getArgOperand(0)); auto b2 = O.bits(x); Val r = mkC(x.w, x.w); for (int i = b2.size() - 1; i >= 0; i--) r = O.ite(b2[i], mkC(i, x.w), r); return finishCall(s, r); }
    case B_Bswap: { Val x = get(s, CB->getArgOperand(0)); Val r; for (int i = x.w / 8 - 1; i >= 0; i--) { Val p = O.extract(x, i * 8, 8); r = r.w ? O.concat(r, p) : p; } return finishCall(s, r); }
    case B_Fsh: {
        Val x = get(s, CB->getArgOperand(0)), y = get(s, CB->getArgOperand(1)), z = get(s, CB->getArgOperand(2)); unsigned w = x.w;
        if (!z.isC()) { unsupported(s, CB, "symbolic funnel shift"); return false; }
        uint64_t k = z.c % w; if (F->getIntrinsicID() == Intrinsic::fshr) k = (w - k) % w;
        if (!k) return finishCall(s, F->getIntrinsicID() == Intrinsic::fshr ? y : x);
        return finishCall(s, O.binop(Ops::Or, O.binop(Ops::Shl, x, mkC(k, w)), O.binop(Ops::LShr, y, mkC(w - k, w))));
    }
    case B_ObjSize: return finishCall(s, mkC(~0ull, bitsOf(CB->getType())));
    case B_Errno: {
        auto& id = errnoObj[cur];
        if (!id) { Obj* o = newObj(Obj::Tls, 8, "errno"); id = o->id; o->alloc = 1; o->zero = true; }
        return finishCall(s, mkC(baseOf(id), 64));
    }
    default: break;
    }
    // unknown external: arbitrary result, no side effects
    havocd.insert(F->getName().str());
    if (CB->getType()->isVoidTy()) return finishCall(s);
    if (CB->getType()->isStructTy() || CB->getType()->isArrayTy()) { unsupported(s, CB, "unknown external " + F->getName().str()); return false; }
    if (CB->getType()->isPointerTy()) { unsupported(s, CB, "unknown external " + F->getName().str()); return finishCall(s, mkC(0, 64)); }
    return finishCall(s, freshBits(s, bitsOf(CB->getType())));
}
map<int, uint32_t> errnoObj;
set<string> havocd;
uint64_t nAsserts = 0; map<string, Lit> assertSeen;
string shortWhere(const State& s) {
    for (int i = (int)s.st.size() - 1; i >= 0; i--) {
        string d = s.st[i]->fn->dem;
        if (d.rfind("std::", 0) == 0 || d.find("__gnu_cxx") != string::npos || d.rfind("void std::", 0) == 0) continue;
        auto q = d.find('('); if (q != string::npos) d = d.substr(0, q);
        return d.substr(0, 60);
    }
    return "?";
}
string cstr(State& s, Value* v) {
    Val p = get(s, v);
    if (!p.isC()) return "?";
    uint64_t off; Obj* o = objAt(p.c, off); string r;
    while (o && off < o->size) { Val c = readCell(o, off, 1); if (!c.isC() || c.c == 0) break; r += (char)c.c; off++; }
    return r;
}
void enterFunction(State& s, CallBase* CB, Function* F, vector<Val>& args) {
    FnInfo* fi = info(F); fi->execs++;
    auto f = std::make_shared<Frame>(); f->fn = fi; f->bb = fi->blocks[&F->getEntryBlock()]; f->regs.resize(fi->nregs);
    for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) f->regs[i] = args[i];
    s.st.push_back(f);
    for (unsigned i = 0; i < F->arg_size(); i++)
        if (CB && i < CB->arg_size() && CB->isByValArgument(i)) {
            Type* T = CB->getParamByValType(i); uint64_t n = DL.getTypeAllocSize(T);
            Obj* o = allocKeyed(s, n, Obj::Stack, 1000000 + i, "byval");
            s.top().objs.push_back(o->id);
            Val src = prune(args[i], s.g);
            forAddr(src, [&](uint64_t a, Lit l) { copyMem(s, CB, baseOf(o->id), a, n, A.AND(s.g, l)); });
            s.top().regs[i] = mkC(baseOf(o->id), 64);
        }
}
// returns true if s continues
bool doCall(State& s, CallBase* CB) {
    if (s.st.size() > 300) { bad(s, CB, s.g, "recursion", "recursion without end"); return false; }
    if (CB->isInlineAsm()) {
        if (CB->getType()->isVoidTy()) return finishCall(s);
        return finishCall(s, get(s, CB->getArgOperand(0)));
    }
    Function* F = calleeOf(CB);
    if (F) {
        BK b = builtinOf(F);
        if (b == B_Body) {
            vector<Val> args; for (auto& a : CB->args()) args.push_back(get(s, a.get()));
            enterFunction(s, CB, F, args);
            return settle(s);
        }
        bool inv = isa<InvokeInst>(CB);
        if (!doBuiltin(s, CB, F, b)) return false;
        return inv && s.ctop().phase == 0 ? settle(s) : true;
    }
    Val p = getP(s, CB->getCalledOperand());
    if (p.k == Val::Undef) { bad(s, CB, s.g, "invalid-pointer", "call through undefined pointer"); return false; }
    bool ok; p = toSet(p, s.g, 64, ok);
    vector<std::pair<Function*, Lit>> tg;
    forAddr(p, [&](uint64_t a, Lit l) {
        Function* T = funcAt(a); Lit g = A.AND(s.g, l);
        if (!T) { if (A.feasible(g)) bad(s, CB, g, "invalid-pointer", a ? "call through bad pointer" : "call through null pointer"); return; }
        tg.push_back({T, g});
    });
    vector<Val> args; for (auto& a : CB->args()) args.push_back(get(s, a.get()));
    for (auto& t : tg) {
        if (!A.feasible(t.second)) continue;
        State n = s; n.g = t.second;
        BK b = builtinOf(t.first);
        if (b == B_Body) { enterFunction(n, CB, t.first, args); addTo(work, keyOf(n), std::move(n)); }
        else if (visibleBuiltin(b) || b == B_Sleep) { unsupported(n, CB, "indirect call of blocking function"); }
        else if (doBuiltin(n, CB, t.first, b)) addTo(work, keyOf(n), std::move(n));
    }
    return false;
}
static Ops::Op bop(unsigned o) {
    switch (o) {
    case Instruction::Add: return Ops::Add; case Instruction::Sub: return Ops::Sub; case Instruction::Mul: return Ops::Mul;
    case Instruction::UDiv: return Ops::UDiv; case Instruction::SDiv: return Ops::SDiv; case Instruction::URem: return Ops::URem; case Instruction::SRem: return Ops::SRem;
    case Instruction::Shl: return Ops::Shl; case Instruction::LShr: return Ops::LShr; case Instruction::AShr: return Ops::AShr;
    case Instruction::And: return Ops::And; case Instruction::Or: return Ops::Or; default: return Ops::Xor;
    }
}
void execState(State s) {
    for (;;) {
        BlockInfo* bb = s.ctop().bb; uint32_t ip = s.ctop().ip;
        Instruction* I = bb->ins[ip];
        nInstr++;
        if ((nInstr & 1023) == 0 && Aig::now() - tStart > opt.timeLimit) { timedOut = true; work.clear(); return; }
        FnInfo* fi = s.ctop().fn;
        auto vi = fi->vis.find(I);
        if (vi != fi->vis.end() && schedActive && !s.atomic) { if (!visible(s, 1)) return; }
        switch (I->getOpcode()) {
        case Instruction::Alloca: {
            auto* AI = cast<AllocaInst>(I);
            uint64_t n = DL.getTypeAllocSize(AI->getAllocatedType());
            if (AI->isArrayAllocation()) { Val c = get(s, AI->getArraySize()); if (!c.isC()) { unsupported(s, I, "vla"); return; } n *= c.c; }
            Obj* o = allocKeyed(s, n, Obj::Stack, ip, "stack@" + shortWhere(s));
            o->freed = A.AND(o->freed, s.g ^ 1);
            o->isHarness = fi->harness;
            s.top().objs.push_back(o->id);
            set_(s, I, mkC(baseOf(o->id), 64));
            break;
        }
        case Instruction::Load: {
            auto* L = cast<LoadInst>(I);
            Val p = get(s, L->getPointerOperand());
            set_(s, I, loadTy(s, I, p, L->getType(), s.g));
            break;
        }
        case Instruction::Store: {
            auto* S = cast<StoreInst>(I);
            storeTy(s, I, get(s, S->getPointerOperand()), get(s, S->getValueOperand()), S->getValueOperand()->getType(), s.g);
            break;
        }
        case Instruction::GetElementPtr: {
            auto* G = cast<GetElementPtrInst>(I);
            Val p = get(s, G->getPointerOperand());
            int64_t off = 0;
            for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                Value* op = gi.getOperand();
                if (auto* ST = gi.getStructTypeOrNull()) { off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
                uint64_t es = DL.getTypeAllocSize(gi.getIndexedType());
                if (auto* CI = dyn_cast<ConstantInt>(op)) { off += CI->getSExtValue() * (int64_t)es; continue; }
                Val ix = get(s, op);
                ix = ix.w < 64 ? O.sextV(ix, 64) : ix;
                p = O.binop(Ops::Add, p, O.binop(Ops::Mul, ix, mkC(es, 64)));
            }
            if (off) p = O.binop(Ops::Add, p, mkC((uint64_t)off, 64));
            set_(s, I, p);
            break;
        }
        case Instruction::ICmp: {
            auto* C = cast<ICmpInst>(I);
            set_(s, I, mkBool(O.cmp(pred(C->getPredicate()), get(s, C->getOperand(0)), get(s, C->getOperand(1)))));
            break;
        }
        case Instruction::Select: {
            Lit c = O.toLit(get(s, I->getOperand(0)));
            set_(s, I, O.ite(c, get(s, I->getOperand(1)), get(s, I->getOperand(2))));
            break;
        }
        case Instruction::ZExt: set_(s, I, O.zext(get(s, I->getOperand(0)), bitsOf(I->getType()))); break;
        case Instruction::SExt: set_(s, I, O.sextV(get(s, I->getOperand(0)), bitsOf(I->getType()))); break;
        case Instruction::Trunc: set_(s, I, O.trunc(get(s, I->getOperand(0)), bitsOf(I->getType()))); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
            Val v = get(s, I->getOperand(0)); unsigned w = bitsOf(I->getType());
            if (v.k != Val::Agg && v.w != w) v = v.w < w ? O.zext(v, w) : O.trunc(v, w);
            set_(s, I, v);
            break;
        }
        case Instruction::Freeze: set_(s, I, get(s, I->getOperand(0))); break;
        case Instruction::ExtractValue: {
            auto* E = cast<ExtractValueInst>(I); Val v = get(s, E->getAggregateOperand());
            for (unsigned i : E->indices()) { if (v.k != Val::Agg) { v = mkUndef(bitsOf(I->getType())); break; } Val t = v.d->agg[i]; v = t; }
            set_(s, I, v);
            break;
        }
        case Instruction::InsertValue: {
            auto* E = cast<InsertValueInst>(I); Val v = get(s, E->getAggregateOperand());
            if (v.k != Val::Agg) v = zeroVal(I->getType());
            std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val a, ArrayRef<unsigned> ix) -> Val {
                vector<Val> f = a.d->agg;
                f[ix[0]] = ix.size() == 1 ? get(s, E->getInsertedValueOperand()) : ins(f[ix[0]], ix.slice(1));
                return mkAgg(f);
            };
            set_(s, I, ins(v, E->getIndices()));
            break;
        }
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: {
            auto* R = cast<AtomicRMWInst>(I); Type* T = R->getType();
            Val p = getP(s, R->getPointerOperand()), v = get(s, R->getValOperand());
            Val old = loadTy(s, I, p, T, s.g), n;
            switch (R->getOperation()) {
            case AtomicRMWInst::Xchg: n = v; break;
            case AtomicRMWInst::Add: n = O.binop(Ops::Add, old, v); break;
            case AtomicRMWInst::Sub: n = O.binop(Ops::Sub, old, v); break;
            case AtomicRMWInst::And: n = O.binop(Ops::And, old, v); break;
            case AtomicRMWInst::Or: n = O.binop(Ops::Or, old, v); break;
            case AtomicRMWInst::Xor: n = O.binop(Ops::Xor, old, v); break;
            case AtomicRMWInst::Max: n = O.ite(O.cmp(Ops::SGT, old, v), old, v); break;
            case AtomicRMWInst::Min: n = O.ite(O.cmp(Ops::SLT, old, v), old, v); break;
            case AtomicRMWInst::UMax: n = O.ite(O.cmp(Ops::UGT, old, v), old, v); break;
            case AtomicRMWInst::UMin: n = O.ite(O.cmp(Ops::ULT, old, v), old, v); break;
            default: unsupported(s, I, "atomicrmw"); return;
            }
            storeTy(s, I, p, n, T, s.g);
            set_(s, I, old);
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto* X = cast<AtomicCmpXchgInst>(I); Type* T = X->getCompareOperand()->getType();
            Val p = getP(s, X->getPointerOperand()), e = get(s, X->getCompareOperand()), n = get(s, X->getNewValOperand());
            Val old = loadTy(s, I, p, T, s.g);
            Lit eq = O.cmp(Ops::EQ, old, e);
            if (X->isWeak() && schedActive && !refcountFn(fi->f->getName().str())) {
                Lit sp = opt.spurious ? A.input() : 0;
                evs.push_back({EV_SPUR, cur, s.g, mkBool(sp), 0, ""});
                eq = A.AND(eq, sp ^ 1);
            }
            Lit g = A.AND(s.g, eq);
            if (g && A.feasible(g)) {
                Val pp = prune(p, g);
                storeTy(s, I, pp, n, T, g);
            }
            set_(s, I, mkAgg({old, mkBool(eq)}));
            break;
        }
        case Instruction::Br: {
            auto* B = cast<BranchInst>(I);
            if (B->isUnconditional()) {
                if (!gotoBlock(s, B->getSuccessor(0))) return;
                if (!settle(s)) return;
                continue;
            }
            Lit c = A.R(O.toLit(get(s, B->getCondition())));
            Lit gt = A.AND(s.g, c), gf = A.AND(s.g, c ^ 1);
            bool ft = A.feasible(gt), ff = A.feasible(gf);
            if (ft && ff) {
                s.events++;
                State t = s; t.g = gt; s.g = gf;
                if (gotoBlock(t, B->getSuccessor(0))) addTo(work, keyOf(t), std::move(t));
                if (gotoBlock(s, B->getSuccessor(1))) addTo(work, keyOf(s), std::move(s));
                return;
            }
            if (!ft && !ff) return;
            if (!gotoBlock(s, B->getSuccessor(ft ? 0 : 1))) return;
            if (!settle(s)) return;
            continue;
        }
        case Instruction::Switch: {
            auto* S = cast<SwitchInst>(I);
            Val v = getP(s, S->getCondition());
            Lit rest = s.g; map<BasicBlock*, Lit> tg;
            for (auto& c : S->cases()) {
                Lit e = O.eqC(v, c.getCaseValue()->getZExtValue());
                Lit g = A.AND(s.g, e);
                rest = A.AND(rest, e ^ 1);
                if (g) { auto& x = tg[c.getCaseSuccessor()]; x = A.OR(x, g); }
            }
            { auto& x = tg[S->getDefaultDest()]; x = A.OR(x, rest); }
            int n = 0; for (auto& t : tg) if (A.feasible(t.second)) n++;
            if (n > 1) s.events++;
            for (auto& t : tg) {
                if (!A.feasible(t.second)) continue;
                State x = s; x.g = n == 1 ? s.g : t.second;
                if (gotoBlock(x, t.first)) addTo(work, keyOf(x), std::move(x));
            }
            return;
        }
        case Instruction::Ret: {
            auto* R = cast<ReturnInst>(I);
            Val v; bool has = R->getReturnValue();
            if (has) v = get(s, R->getReturnValue());
            leaveFrame(s);
            if (s.st.empty()) { thr[cur]->finished = A.OR(thr[cur]->finished, s.g); evs.push_back({EV_FIN, cur, s.g, Val(), 0, ""}); return; }
            if (!finishCall(s, has ? &v : nullptr)) return;
            if (!settle(s)) return;
            continue;
        }
        case Instruction::Call: case Instruction::Invoke: {
            if (!doCall(s, cast<CallBase>(I))) return;
            continue;
        }
        case Instruction::LandingPad: {
            auto* L = cast<LandingPadInst>(I);
            Val ex = prune(s.ctop().aux0, s.g);
            vector<VElem> sel; Lit fall = 0;
            forAddr(ex, [&](uint64_t a, Lit l) {
                string ti = exTiName.count(a >> 24) ? exTiName[a >> 24] : "?";
                int r = -1;
                for (unsigned i = 0; i < L->getNumClauses() && r < 0; i++) {
                    if (L->isCatch(i)) {
                        auto* C = L->getClause(i)->stripPointerCasts();
                        if (isa<ConstantPointerNull>(C)) r = tiId("<all>");
                        else if (auto* G = dyn_cast<GlobalVariable>(C)) { if (tiMatch(ti, G->getName().str())) r = tiId(G->getName().str()); }
                    } else r = tiId("<filter>");
                }
                if (r < 0 && L->isCleanup()) r = 0;
                if (r < 0) fall = A.OR(fall, A.AND(s.g, l)); else sel.push_back({(uint64_t)r, l});
            });
            if (fall && A.feasible(fall)) {
                State t = s; t.g = fall;
                // continue unwinding past this frame
                if (t.st.size() == 1) bad(t, I, fall, "terminate", "uncaught exception");
                else { leaveFrame(t); unwind(std::move(t), ex); }
                s.g = A.AND(s.g, fall ^ 1);
            }
            if (sel.empty() || !A.feasible(s.g)) return;
            s.top().aux0 = Val();
            set_(s, I, mkAgg({ex, O.mkVS(sel, 32)}));
            break;
        }
        case Instruction::Resume: {
            Val v = get(s, I->getOperand(0));
            Val ex = v.d->agg[0];
            if (s.st.size() == 1) { bad(s, I, s.g, "terminate", "uncaught exception"); return; }
            if (s.ctop().fn->nounwind) { bad(s, I, s.g, "terminate", "exception leaves noexcept function"); return; }
            leaveFrame(s);
            unwind(std::move(s), ex);
            return;
        }
        case Instruction::Unreachable: return;
        default:
            if (I->isBinaryOp() && I->getType()->isIntegerTy()) {
                Val a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1));
                if (a.k == Val::Undef) a = freshBits(s, a.w);
                if (b.k == Val::Undef) b = freshBits(s, b.w);
                unsigned op = I->getOpcode();
                if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
                    Lit z = A.AND(s.g, O.eqC(b, 0));
                    if (z && A.feasible(z)) bad(s, I, z, "div-by-zero", "division by zero");
                }
                set_(s, I, O.binop(bop(op), a, b));
                break;
            }
            if (I->getType()->isFloatingPointTy() || I->getType()->isVectorTy() || I->getOpcode() == Instruction::FCmp || I->getOpcode() == Instruction::FPToSI || I->getOpcode() == Instruction::FPToUI) {
                unsupported(s, I, string("instruction ") + I->getOpcodeName());
                set_(s, I, freshBits(s, bitsOf(I->getType())));
                break;
            }
            unsupported(s, I, string("instruction ") + I->getOpcodeName());
            return;
        }
        Frame& f = s.top(); f.ip++; f.phase = 0;
    }
}
void drainWork() {
    while (!work.empty()) {
        auto it = work.begin();
        State s = std::move(it->second);
        work.erase(it);
        if (!A.feasible(s.g)) continue;
        nStates++;
        execState(std::move(s));
        if (timedOut) return;
    }
}
void runTurn(int t) {
    cur = t; nTurns++;
    Thread& T = *thr[t];
    evs.push_back({EV_TURN, t, 1, Val(), curRound, ""});
    work = std::move(T.susp); T.susp.clear();
    turnCut[0].clear(); turnCut[1].clear();
    drainWork();
    // loops cut in this turn while no other thread could go on
    if (!timedOut) for (int k2 : {0, 1}) for (auto& c : turnCut[k2]) {
        Lit d = c.second;
        for (auto& o : thr) if (o->exists && o->id != t) { auto k = cutBy.find(o->id); d = A.AND(d, A.OR(A.OR(o->started ^ 1, o->finished), A.OR(blockedNow(*o), k == cutBy.end() ? 0 : k->second))); }
        auto& sl = stuckNow[k2][c.first]; sl = A.OR(sl, d);
    }
}
void callNow(Function* F) { // run a function to completion on thread 0 without scheduling
    State s; s.g = 1;
    FnInfo* fi = info(F);
    auto f = std::make_shared<Frame>(); f->fn = fi; f->bb = fi->blocks[&F->getEntryBlock()]; f->regs.resize(fi->nregs);
    s.st.push_back(f);
    addTo(work, keyOf(s), std::move(s));
    drainWork();
}
void run() {
    thr.emplace_back(new Thread); thr[0]->id = 0; thr[0]->exists = true; thr[0]->started = 1; cur = 0;
    // constructors
    if (auto* G = M.getGlobalVariable("llvm.global_ctors")) {
        vector<std::pair<uint64_t, Function*>> c;
        if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer()))
            for (auto& op : CA->operands()) {
                auto* CS = cast<ConstantStruct>(op.get());
                if (auto* F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) c.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
            }
        std::stable_sort(c.begin(), c.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& p : c) if (!p.second->isDeclaration()) callNow(p.second);
        thr[0]->finished = 0; evs.erase(std::remove_if(evs.begin(), evs.end(), [](const Event& e) { return e.t == EV_FIN; }), evs.end());
    }
    schedActive = true;
    Function* E = M.getFunction("xs_main");
    if (!E) fatal("no xs_main");
    State s; FnInfo* fi = info(E);
    auto f = std::make_shared<Frame>(); f->fn = fi; f->bb = fi->blocks[&E->getEntryBlock()]; f->regs.resize(fi->nregs);
    s.st.push_back(f);
    addTo(thr[0]->susp, keyOf(s), std::move(s));
    for (curRound = 0; curRound < opt.rounds && !timedOut; curRound++) {
        for (size_t t = 0; t < thr.size() && !timedOut; t++) {
            lastTurn = curRound == opt.rounds - 1 && t + 1 == thr.size();
            if (!thr[t]->exists || thr[t]->susp.empty()) continue;
            runTurn(t);
            if (opt.verbose) fprintf(stderr, "  round %d thread %zu: instr %lu aig %zu sat %lu unsat %lu (%.1fs) simhit %lu\n", curRound, t, nInstr, A.c0.size(), A.nSat, A.nUnsat, A.satTime, A.nSimHit);
        }
    }
    cur = 0;
    // executions in which a thread keeps looping while nothing else can go on
    if (!timedOut) for (auto& c : cutAt) for (auto& ct : c.second) {
        Lit d = ct.second;
        for (auto& t : thr) if (t->exists && t->id != ct.first) { auto k = cutBy.find(t->id); d = A.AND(d, A.OR(A.OR(t->started ^ 1, t->finished), A.OR(blockedNow(*t), k == cutBy.end() ? 0 : k->second))); }
        auto& sl = stuckAt[c.first]; sl = A.OR(sl, d);
    }
    if (opt.deadlock && !timedOut) {
        Lit d = thr[0]->finished ^ 1;
        for (auto& t : thr) if (t->exists) d = A.AND(d, A.OR(A.OR(t->started ^ 1, t->finished), blockedNow(*t)));
        State s2; // no location
        if (d && A.feasible(d)) {
            bads.push_back({"deadlock", "", "main thread can never finish", d});
            evs.push_back({EV_BAD, 0, d, Val(), (int)bads.size() - 1, ""});
        }
    }
}
