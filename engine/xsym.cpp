// xsym: bounded symbolic execution of LLVM IR with symbolic schedules.
//
// Threads are executed lazily in a bounded number of round-robin rounds.  At
// every visible operation (atomics, locks, condition variables, joins, sleeps,
// and plain accesses found to be shared without a common lock) a fresh boolean
// decides whether the thread is preempted there.  States reaching the same
// program location (call stack, block, loop iterations) are merged, so one run
// of the engine covers all schedules, inputs and environment choices within
// the bounds; violated assertions become one SAT query.
#include "value.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
using std::string; using std::vector; using std::map; using std::set; using std::pair;

// ---------------------------------------------------------------- options
struct Options {
    string bc, out = ".", instr, solver = "kissat";
    int rounds = 3, loop = 4, maxThreads = 40, accel = 2, solveTime = 300, maxViol = 4;
    bool plain = false, deadlock = true, verbose = false, spurious = true, smt = false, cvSpur = false, unlockVis = false;
    double timeLimit = 600;
    bool nosim = false, reachQ = true; int plainRounds = 0;
    vector<string> plainSeed;
} opt;

typedef vector<uint32_t> Key;

// ---------------------------------------------------------------- code info
struct FnInfo;
struct BlockInfo {
    BasicBlock* bb; FnInfo* fn; uint32_t idx;
    vector<uint32_t> path;      // ord of enclosing loops (outermost first) then own ord
    vector<Loop*> loops;        // outermost first
    vector<bool> liveIn;
    vector<Instruction*> ins;
    uint32_t firstNonPhi = 0;
};
enum VisKind : uint8_t { V_No = 0, V_Atomic, V_Plain };
struct InstrInfo { uint32_t reg; VisKind vis; };
struct FnInfo {
    Function* f; uint32_t id; string dem;
    map<const Value*, uint32_t> reg;
    uint32_t nregs = 0;
    map<BasicBlock*, BlockInfo*> blocks;
    vector<std::unique_ptr<BlockInfo>> store;
    std::unique_ptr<DominatorTree> dt; std::unique_ptr<LoopInfo> li;
    std::unordered_map<const Instruction*, VisKind> vis;
    bool harness = false, lib = false, nounwind = false;
    uint64_t execs = 0;
};

struct LoopCtr { uint32_t iter, symc, ev; uint32_t turn; Lit fresh; }; // fresh: all iterations happened in one turn
struct Frame {
    FnInfo* fn; BlockInfo* bb; uint32_t ip = 0, phase = 0;
    vector<Val> regs; vector<LoopCtr> loops; vector<uint32_t> objs;
    Val aux0, aux1; Lit auxl = 0, auxs = 0;
};
typedef std::shared_ptr<Frame> FrameP;
struct State {
    Lit g = 1;
    vector<FrameP> st;
    uint32_t events = 0; int atomic = 0;
    vector<Val> caught;
    vector<uint64_t> locks;
    Frame& top() { if (st.back().use_count() > 1) st.back() = std::make_shared<Frame>(*st.back()); return *st.back(); }
    const Frame& ctop() const { return *st.back(); }
};
struct Cell { Val v; };
struct Obj {
    enum Kind { Heap, Stack, Global, Tls } kind; uint32_t id; uint64_t size; bool zero = false, escaped = false, isHarness = false;
    Lit freed = 0, alloc = 0;
    map<uint32_t, Val> cells;   // offset -> value (multiple of 8 bits wide)
    string name; uint32_t thread = 0; Val exTi; bool hasTi = false;
    bool freedEver = false, counted = false;
};
struct Thread {
    int id; bool exists = false; Lit started = 0, finished = 0;
    map<Key, State> susp; Val cvwait = mkC(0, 64); Lit cvsig = 0; Lit spurUsed = 0; int parent = -1; string name;
};
enum EvType { EV_TURN, EV_PASS, EV_SPAWN, EV_NONDET, EV_SPUR, EV_TIMEOUT, EV_CHOICE, EV_LOG, EV_BAD, EV_REACH, EV_STOP, EV_FIN, EV_CUT };
struct Event { EvType t; int thread; Lit g; Val v; int a; string s; const Instruction* I = nullptr; };
struct Bad { string kind, where, msg; Lit any = 0; };

struct Unsupported { string what; Lit g; string key; };

struct Engine {
    Module& M; const DataLayout& DL; Aig A; Ops O;
    std::unordered_map<Function*, std::unique_ptr<FnInfo>> fns;
    vector<FnInfo*> fnById;
    vector<std::unique_ptr<Obj>> objs;
    std::unordered_map<const GlobalVariable*, uint32_t> gobj;
    map<pair<const GlobalVariable*, int>, uint32_t> tlsobj;
    map<pair<int, Key>, map<uint64_t, uint32_t>> allocMemo;  // (thread,key) -> size/inst tag -> obj
    std::unordered_map<const Function*, uint64_t> faddr; vector<Function*> fOfAddr;
    vector<std::unique_ptr<Thread>> thr;
    map<pair<int, Key>, int> spawnMemo;
    map<uint64_t, Val> mtxOwner;  // mutex address -> owner thread+1 (0 free)
    vector<Event> evs;
    vector<Bad> bads; map<pair<string, const Instruction*>, int> badIdx;
    vector<pair<string, Lit>> reach; map<string, int> reachIdx;
    vector<Unsupported> unsup;
    Val clock = mkC(1000000000000ull, 64);
    Lit truncated = 0; set<string> truncWhere; map<string, Lit> truncMap; map<string, map<int, Lit>> cutAt; map<int, Lit> cutBy; map<string, Lit> stuckAt, stuckNow[2], turnCut[2];
    bool noTimeouts = false, schedActive = false; int cur = 0, curRound = 0; bool lastTurn = false;
    uint64_t nInstr = 0, nVis = 0, nMerge = 0, nStates = 0, nTurns = 0;
    map<Key, State> work;
    const set<string>& plainVis;
    // lockset bookkeeping
    struct Acc { uint64_t threads = 0; bool write = false, first = true; int firstT = -1; bool shared = false; set<uint64_t> ls; set<const Instruction*> ins; };
    map<pair<uint32_t, uint32_t>, Acc> acc;
    map<const Constant*, int> typeIds; int nextTypeId = 1;
    double tStart = Aig::now();
    bool timedOut = false;

    Engine(Module& m, const set<string>& pv) : M(m), DL(m.getDataLayout()), O(A), plainVis(pv) { objs.emplace_back(); }

    // ------------------------------------------------------------ code info
    static string instrName(const Instruction* I) {
        const Function* f = I->getFunction(); unsigned n = 0;
        for (auto& B : *f) for (auto& J : B) { if (&J == I) return (f->getName() + "#" + std::to_string(n)).str(); n++; }
        return "?";
    }
    static inline bool refsVisible = false;   // --refs: reference count decrements and weak_ptr::lock are scheduling points
    static bool refcountFn(const string& mangled) {
        return mangled.find("_Sp_counted") != string::npos || mangled.find("__exchange_and_add") != string::npos ||
               mangled.find("__atomic_add") != string::npos || mangled.find("_Sp_locker") != string::npos ||
               mangled.find("__is_single_threaded") != string::npos || mangled.find("__shared_count") != string::npos;
    }
    static bool isGuardVar(const Value* p) {
        p = p->stripPointerCasts();
        if (auto* G = dyn_cast<GlobalVariable>(p)) return G->getName().starts_with("_ZGV");
        return false;
    }
    static bool atomicVisible(const Instruction& I) {
        const Value* p = nullptr;
        if (auto* L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) p = L->getPointerOperand(); }
        else if (auto* S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic()) p = S->getPointerOperand(); }
        else if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) p = X->getPointerOperand();
        else if (auto* R = dyn_cast<AtomicRMWInst>(&I)) p = R->getPointerOperand();
        if (!p) return false;
        if (isGuardVar(p)) return false;
        string fn = I.getFunction()->getName().str();
        if (refsVisible && !isa<LoadInst>(I) && (fn.find("__exchange_and_add") != string::npos || fn.find("_M_add_ref_lock") != string::npos)) return true;
        return !refcountFn(fn);
    }
    static bool isHarnessFn(const string& dem) {
        string h = dem.substr(0, dem.find_first_of("(<"));
        return dem.rfind("xsh::", 0) == 0 || dem.rfind("xs_", 0) == 0 || h.find(" xsh::") != string::npos ||
               dem.rfind("_GLOBAL__", 0) == 0 || dem.rfind("__cxx_global", 0) == 0;
    }
    FnInfo* info(Function* f) {
        auto& u = fns[f];
        if (u) return u.get();
        u.reset(new FnInfo);
        FnInfo* F = u.get();
        F->f = f; F->id = fnById.size(); fnById.push_back(F);
        F->dem = demangle(f->getName().str());
        F->harness = isHarnessFn(F->dem);
        F->nounwind = f->doesNotThrow();
        for (auto& a : f->args()) F->reg[&a] = F->nregs++;
        F->dt.reset(new DominatorTree(*f));
        F->li.reset(new LoopInfo(*F->dt));
        uint32_t bi = 0; unsigned in = 0;
        for (auto& B : *f) {
            auto* b = new BlockInfo; F->store.emplace_back(b);
            b->bb = &B; b->fn = F; b->idx = bi++;
            F->blocks[&B] = b;
            vector<Loop*> ls;
            for (Loop* L = F->li->getLoopFor(&B); L; L = L->getParentLoop()) ls.push_back(L);
            std::reverse(ls.begin(), ls.end()); b->loops = ls;
            bool phis = true;
            for (auto& I : B) {
                if (phis && !isa<PHINode>(I)) { phis = false; b->firstNonPhi = b->ins.size(); }
                b->ins.push_back(&I);
                if (!I.getType()->isVoidTy()) F->reg[&I] = F->nregs++;
                VisKind v = V_No;
                if (atomicVisible(I)) v = V_Atomic;
                else if (!plainVis.empty() && (isa<LoadInst>(I) || isa<StoreInst>(I))) {
                    if (plainVis.count((f->getName() + "#" + std::to_string(in)).str())) v = V_Plain;
                }
                if (v) F->vis[&I] = v;
                in++;
            }
        }
        // topological order, loop nest aware
        map<BasicBlock*, vector<uint32_t>> paths;
        std::function<void(Loop*, BasicBlock*, vector<uint32_t>)> region = [&](Loop* L, BasicBlock* entry, vector<uint32_t> prefix) {
            // nodes: header blocks of direct subloops or blocks directly in L
            auto node = [&](BasicBlock* b) -> BasicBlock* {
                Loop* l = F->li->getLoopFor(b);
                if (l == L) return b;
                while (l && l->getParentLoop() != L) l = l->getParentLoop();
                return l ? l->getHeader() : nullptr;
            };
            vector<BasicBlock*> post; set<BasicBlock*> seen;
            std::function<void(BasicBlock*)> dfs = [&](BasicBlock* n) {
                if (!seen.insert(n).second) return;
                Loop* sub = F->li->getLoopFor(n);
                vector<BasicBlock*> mem;
                if (sub != L) { while (sub->getParentLoop() != L) sub = sub->getParentLoop(); mem = sub->getBlocksVector(); }
                else mem = {n};
                for (auto* b : mem) for (auto* s : successors(b)) {
                    if (L && (!L->contains(s) || s == L->getHeader())) continue;
                    BasicBlock* ns = node(s);
                    if (!ns || ns == n) continue;
                    dfs(ns);
                }
                post.push_back(n);
            };
            dfs(entry);
            std::reverse(post.begin(), post.end());
            uint32_t ord = 0;
            for (auto* n : post) {
                vector<uint32_t> p = prefix; p.push_back(ord++);
                Loop* sub = F->li->getLoopFor(n);
                if (sub != L) {
                    while (sub->getParentLoop() != L) sub = sub->getParentLoop();
                    region(sub, sub->getHeader(), p);
                } else paths[n] = p;
            }
        };
        region(nullptr, &f->getEntryBlock(), {});
        for (auto& b : F->store) b->path = paths[b->bb];
        // liveness
        for (auto& b : F->store) b->liveIn.assign(F->nregs, false);
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto it = F->store.rbegin(); it != F->store.rend(); ++it) {
                BlockInfo* b = it->get();
                vector<bool> live(F->nregs, false);
                for (auto* s : successors(b->bb)) {
                    BlockInfo* sb = F->blocks[s];
                    for (uint32_t r = 0; r < F->nregs; r++) if (sb->liveIn[r]) live[r] = true;
                    for (auto& P : s->phis()) {
                        live[F->reg[&P]] = false;
                    }
                }
                for (auto* s : successors(b->bb)) for (auto& P : s->phis()) {
                    Value* v = P.getIncomingValueForBlock(b->bb);
                    auto q = F->reg.find(v); if (q != F->reg.end()) live[q->second] = true;
                }
                for (int i = (int)b->ins.size() - 1; i >= 0; i--) {
                    Instruction* I = b->ins[i];
                    auto q = F->reg.find(I);
                    if (isa<PHINode>(I)) continue;
                    if (q != F->reg.end()) live[q->second] = false;
                    for (auto& op : I->operands()) { auto z = F->reg.find(op.get()); if (z != F->reg.end()) live[z->second] = true; }
                }
                for (auto& P : b->bb->phis()) live[F->reg[&P]] = true; // defined on edge
                if (live != b->liveIn) { b->liveIn = live; ch = true; }
            }
        }
        return F;
    }
    // ------------------------------------------------------------ keys
    void frameKey(const Frame& f, Key& k) {
        auto* b = f.bb; size_t nl = b->loops.size();
        for (size_t i = 0; i < nl; i++) { k.push_back(b->path[i]); k.push_back(f.loops[i].iter); }
        k.push_back(b->path[nl]); k.push_back(f.ip); k.push_back(f.phase);
    }
    Key keyOf(const State& s) {
        Key k; k.reserve(s.st.size() * 8);
        for (auto& f : s.st) { k.push_back(f->fn->id); frameKey(*f, k); }
        return k;
    }
    // ------------------------------------------------------------ merging
    Lit selector(Lit a, Lit b) {
        // a literal true in a's worlds and false in b's worlds
        if (A.isAnd(a) && A.isAnd(b) && !(a & 1) && !(b & 1)) {
            Lit a0 = A.c0[a >> 1], a1 = A.c1[a >> 1], b0 = A.c0[b >> 1], b1 = A.c1[b >> 1];
            if (a0 == (b0 ^ 1) || a0 == (b1 ^ 1)) return a0;
            if (a1 == (b0 ^ 1) || a1 == (b1 ^ 1)) return a1;
        }
        int bud = 16;
        if (A.isAnd(a) && !(a & 1)) {
            for (Lit x : {A.c0[a >> 1], A.c1[a >> 1]}) { bud = 16; if (A.impl(b, x, bud) == -1) return x; }
        }
        if (A.isAnd(b) && !(b & 1)) {
            for (Lit x : {A.c0[b >> 1], A.c1[b >> 1]}) { bud = 16; if (A.impl(a, x, bud) == -1) return x ^ 1; }
        }
        return a;
    }
    void mergeInto(State& a, State& b) {
        nMerge++;
        Lit s = selector(a.g, b.g);
        if (a.st.size() != b.st.size()) fatal("merge: stack depth");
        for (size_t i = 0; i < a.st.size(); i++) {
            if (a.st[i] == b.st[i]) continue;
            auto n = std::make_shared<Frame>(*a.st[i]);
            const Frame& y = *b.st[i];
            for (size_t r = 0; r < n->regs.size(); r++) n->regs[r] = O.ite(s, n->regs[r], y.regs[r]);
            for (size_t l = 0; l < n->loops.size(); l++) { auto& c = n->loops[l]; auto& d = y.loops[l]; c.fresh = A.ITE(s, c.turn == nTurns ? c.fresh : 0, d.turn == nTurns ? d.fresh : 0); c.turn = nTurns; }
            for (size_t l = 0; l < n->loops.size(); l++) { n->loops[l].symc = std::max(n->loops[l].symc, y.loops[l].symc); n->loops[l].ev = std::min(n->loops[l].ev, y.loops[l].ev); }
            for (auto o : y.objs) if (std::find(n->objs.begin(), n->objs.end(), o) == n->objs.end()) n->objs.push_back(o);
            n->aux0 = O.ite(s, n->aux0, y.aux0); n->aux1 = O.ite(s, n->aux1, y.aux1); n->auxl = A.ITE(s, n->auxl, y.auxl); n->auxs = A.ITE(s, n->auxs, y.auxs);
            a.st[i] = n;
        }
        a.events = std::max(a.events, b.events);
        if (a.atomic != b.atomic) fatal("merge: atomic depth");
        for (size_t i = 0; i < a.caught.size() && i < b.caught.size(); i++) a.caught[i] = O.ite(s, a.caught[i], b.caught[i]);
        vector<uint64_t> l; for (auto x : a.locks) if (std::find(b.locks.begin(), b.locks.end(), x) != b.locks.end()) l.push_back(x);
        a.locks = l;
        a.g = A.OR(a.g, b.g);
    }
    void addTo(map<Key, State>& m, const Key& k, State&& s) {
        if (A.R(s.g) == 0) return;
        auto it = m.find(k);
        if (it == m.end()) m.emplace(k, std::move(s));
        else mergeInto(it->second, s);
    }
    [[noreturn]] void fatal(const string& m) { fprintf(stderr, "xsym: fatal: %s\n", m.c_str()); exit(3); }

    // ------------------------------------------------------------ diagnostics
    string where(const State& s, const Instruction* I) {
        string r;
        int n = 0;
        for (int i = (int)s.st.size() - 1; i >= 0 && n < 4; i--) {
            auto& f = *s.st[i];
            const Instruction* J = i == (int)s.st.size() - 1 && I ? I : f.bb->ins[std::min<size_t>(f.ip, f.bb->ins.size() - 1)];
            string loc;
            if (auto& d = J->getDebugLoc()) {
                loc = d->getFilename().str(); auto p = loc.rfind('/'); if (p != string::npos) loc = loc.substr(p + 1);
                loc += ":" + std::to_string(d.getLine());
            }
            string dn = f.fn->dem; auto q = dn.find('('); if (q != string::npos && q > 0) dn = dn.substr(0, q);
            if (dn.rfind("std::", 0) == 0 && i > 0 && n < 3 && f.fn->dem.find("xdispatch") == string::npos) continue;
            if (!r.empty()) r += " < ";
            r += dn.substr(0, 100) + (loc.empty() ? "" : "(" + loc + ")");
            n++;
        }
        return r;
    }
    void bad(const State& s, const Instruction* I, Lit l, const string& kind, const string& msg) {
        l = A.R(l);
        if (l == 0) return;
        auto key = std::make_pair(kind + "|" + msg, I);
        auto it = badIdx.find(key);
        int id;
        if (it == badIdx.end()) { id = bads.size(); badIdx[key] = id; bads.push_back({kind, where(s, I), msg, 0}); }
        else id = it->second;
        bads[id].any = A.OR(bads[id].any, l);
        evs.push_back({EV_BAD, cur, l, mkC(0, 1), id, ""});
    }
    void unsupported(const State& s, const Instruction* I, const string& w) {
        if (!A.feasible(s.g)) return;
        evs.push_back({EV_STOP, cur, s.g, Val(), 0, ""});
        for (auto& u : unsup) if (u.key == w) { u.g = A.OR(u.g, s.g); return; }
        if (opt.verbose) fprintf(stderr, "unsupported: %s at %s\n", w.c_str(), where(s, I).c_str());
        unsup.push_back({w + " at " + where(s, I), s.g, w});
    }
    // ------------------------------------------------------------ pruning
    Val prune(const Val& v, Lit g) {
        if (v.k != Val::VS) return v;
        bool all = true;
        vector<VElem> r;
        for (auto& e : v.d->vs) {
            if (A.feasible(A.AND(g, e.l))) r.push_back(e); else all = false;
        }
        if (all) return v;
        return O.mkVS(std::move(r), v.w);
    }
    // enumerate the values of v under g as guarded constants
    Val toSet(const Val& v, Lit g, size_t limit, bool& ok) {
        ok = true;
        if (v.k == Val::Const) return v;
        if (v.k == Val::VS) return prune(v, g);
        auto b = O.bits(v);
        vector<VElem> r; Lit rest = g;
        while (A.feasible(rest)) {
            if (r.size() >= limit) { ok = false; break; }
            // obtain a witness: pick via sim
            uint64_t c = 0; bool found = false;
            for (int w = 0; w < Aig::W && !found; w++) {
                uint64_t x = A.sim[(size_t)(rest >> 1) * Aig::W + w] ^ ((rest & 1) ? ~0ull : 0);
                if (!x) continue;
                int bit = __builtin_ctzll(x); found = true;
                for (unsigned i = 0; i < b.size() && i < 64; i++) {
                    uint64_t y = A.sim[(size_t)(b[i] >> 1) * Aig::W + w] ^ ((b[i] & 1) ? ~0ull : 0);
                    if ((y >> bit) & 1) c |= 1ull << i;
                }
            }
            if (!found) { ok = false; break; }
            Lit e = O.eqC(v, c);
            r.push_back({c, e});
            rest = A.AND(rest, e ^ 1);
        }
        return O.mkVS(std::move(r), v.w);
    }
    // ------------------------------------------------------------ memory
    Obj* newObj(Obj::Kind k, uint64_t size, const string& name) {
        auto o = new Obj; o->kind = k; o->id = objs.size(); o->size = size; o->name = name;
        objs.emplace_back(o);
        return o;
    }
    static uint64_t baseOf(uint32_t id) { return (uint64_t)id << 24; }
    Obj* objAt(uint64_t addr, uint64_t& off) {
        uint64_t id = addr >> 24;
        if (id == 0 || id >= objs.size()) return nullptr;
        off = addr & 0xffffff;
        return objs[id].get();
    }
    Obj* allocKeyed(const State& s, uint64_t size, Obj::Kind kind, uint64_t tag, const string& name) {
        auto& m = allocMemo[{cur, keyOf(s)}];
        auto& id = m[tag];
        if (!id) { id = newObj(kind, size, name)->id; objs[id]->thread = cur; }
        Obj* o = objs[id].get();
        o->alloc = A.OR(o->alloc, s.g);
        return o;
    }
    uint64_t globalAddr(const GlobalVariable* G, int t) {
        if (G->isThreadLocal()) {
            auto& id = tlsobj[{G, t}];
            if (!id) { Obj* o = newObj(Obj::Tls, DL.getTypeAllocSize(G->getValueType()), G->getName().str()); id = o->id; o->alloc = 1; o->zero = true; initGlobal(o, G); }
            return baseOf(id);
        }
        auto it = gobj.find(G);
        if (it != gobj.end()) return baseOf(it->second);
        Obj* o = newObj(Obj::Global, std::max<uint64_t>(1, DL.getTypeAllocSize(G->getValueType())), G->getName().str());
        string dn = demangle(o->name);
        o->isHarness = dn.rfind("xsh::", 0) == 0 || dn.rfind("xs_", 0) == 0;
        gobj[G] = o->id; o->alloc = 1; o->zero = true;
        uint64_t a = baseOf(o->id); // initGlobal may grow objs
        initGlobal(o, G);
        return a;
    }
    void initGlobal(Obj* o, const GlobalVariable* G) {
        if (!G->hasInitializer()) {
            o->zero = true;
            if (o->size < 64) o->size = 64; // external object, e.g. std::cerr / vtables
            return;
        }
        initConst(o->id, 0, G->getInitializer());
    }
    void initConst(uint32_t id, uint64_t off, const Constant* C) {
        if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
        Type* T = C->getType();
        if (auto* CS = dyn_cast<ConstantStruct>(C)) {
            auto* SL = DL.getStructLayout(cast<StructType>(T));
            for (unsigned i = 0; i < CS->getNumOperands(); i++) initConst(id, off + SL->getElementOffset(i), CS->getOperand(i));
        } else if (auto* CA = dyn_cast<ConstantArray>(C)) {
            uint64_t es = DL.getTypeAllocSize(CA->getType()->getElementType());
            for (unsigned i = 0; i < CA->getNumOperands(); i++) initConst(id, off + i * es, CA->getOperand(i));
        } else if (auto* CD = dyn_cast<ConstantDataSequential>(C)) {
            uint64_t es = DL.getTypeAllocSize(CD->getElementType());
            for (unsigned i = 0; i < CD->getNumElements(); i++) initConst(id, off + i * es, CD->getElementAsConstant(i));
        } else {
            Val v = constVal(C);
            unsigned bytes = DL.getTypeStoreSize(T);
            v = v.w == bytes * 8 ? v : O.zext(v, bytes * 8);
            objs[id]->cells[off] = v;
        }
    }
    uint64_t funcAddr(const Function* f) {
        auto& a = faddr[f];
        if (!a) { fOfAddr.push_back(const_cast<Function*>(f)); a = 0x7F00000000000000ull + 16 * fOfAddr.size(); }
        return a;
    }
    Function* funcAt(uint64_t a) {
        if ((a >> 56) != 0x7F) return nullptr;
        uint64_t i = (a - 0x7F00000000000000ull) / 16;
        if (i == 0 || i > fOfAddr.size() || (a & 15)) return nullptr;
        return fOfAddr[i - 1];
    }
    Val constVal(const Constant* C) {
        Type* T = C->getType();
        if (auto* I = dyn_cast<ConstantInt>(C)) {
            if (I->getBitWidth() <= 64) return mkC(I->getZExtValue(), I->getBitWidth());
            vector<Lit> b(I->getBitWidth()); for (unsigned i = 0; i < b.size(); i++) b[i] = I->getValue()[i];
            return mkBits(b);
        }
        if (isa<ConstantPointerNull>(C)) return mkC(0, 64);
        if (auto* F = dyn_cast<Function>(C)) return mkC(funcAddr(F), 64);
        if (auto* G = dyn_cast<GlobalVariable>(C)) return mkC(globalAddr(G, cur), 64);
        if (auto* GA = dyn_cast<GlobalAlias>(C)) return constVal(GA->getAliasee());
        if (isa<UndefValue>(C)) return zeroVal(T);
        if (isa<ConstantAggregateZero>(C)) return zeroVal(T);
        if (auto* FP = dyn_cast<ConstantFP>(C)) {
            APInt a = FP->getValueAPF().bitcastToAPInt();
            if (a.getBitWidth() <= 64) return mkC(a.getZExtValue(), a.getBitWidth());
            return zeroVal(T);
        }
        if (auto* CS = dyn_cast<ConstantAggregate>(C)) {
            vector<Val> f; for (auto& op : CS->operands()) f.push_back(constVal(cast<Constant>(op.get())));
            return mkAgg(f);
        }
        if (auto* CE = dyn_cast<ConstantExpr>(C)) {
            switch (CE->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* GEP = cast<GEPOperator>(CE);
                APInt off(64, 0);
                if (!GEP->accumulateConstantOffset(DL, off)) fatal("const gep");
                Val b = constVal(cast<Constant>(GEP->getPointerOperand()));
                return O.binop(Ops::Add, b, mkC(off.getZExtValue(), 64));
            }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
                Val b = constVal(CE->getOperand(0)); unsigned w = bitsOf(T);
                return b.w == w ? b : b.w < w ? O.zext(b, w) : O.trunc(b, w);
            }
            case Instruction::Add: return O.binop(Ops::Add, constVal(CE->getOperand(0)), constVal(CE->getOperand(1)));
            case Instruction::Sub: return O.binop(Ops::Sub, constVal(CE->getOperand(0)), constVal(CE->getOperand(1)));
            case Instruction::Trunc: return O.trunc(constVal(CE->getOperand(0)), bitsOf(T));
            case Instruction::ICmp: return mkBool(O.cmp(pred((CmpInst::Predicate)CE->getPredicate()), constVal(CE->getOperand(0)), constVal(CE->getOperand(1))));
            default: break;
            }
        }
        string str; raw_string_ostream os(str); C->print(os);
        fatal("constant: " + os.str());
    }
    unsigned bitsOf(Type* T) {
        if (T->isPointerTy()) return 64;
        if (T->isIntegerTy()) return T->getIntegerBitWidth();
        return DL.getTypeSizeInBits(T);
    }
    Val zeroVal(Type* T) {
        if (auto* S = dyn_cast<StructType>(T)) { vector<Val> f; for (auto* e : S->elements()) f.push_back(zeroVal(e)); return mkAgg(f); }
        if (auto* Ar = dyn_cast<ArrayType>(T)) { vector<Val> f; for (unsigned i = 0; i < Ar->getNumElements(); i++) f.push_back(zeroVal(Ar->getElementType())); return mkAgg(f); }
        unsigned w = bitsOf(T);
        if (w <= 64) return mkC(0, w);
        return mkBits(vector<Lit>(w, 0));
    }
    static Ops::Cmp pred(CmpInst::Predicate p) {
        switch (p) {
        case CmpInst::ICMP_EQ: return Ops::EQ; case CmpInst::ICMP_NE: return Ops::NE;
        case CmpInst::ICMP_ULT: return Ops::ULT; case CmpInst::ICMP_ULE: return Ops::ULE;
        case CmpInst::ICMP_UGT: return Ops::UGT; case CmpInst::ICMP_UGE: return Ops::UGE;
        case CmpInst::ICMP_SLT: return Ops::SLT; case CmpInst::ICMP_SLE: return Ops::SLE;
        case CmpInst::ICMP_SGT: return Ops::SGT; default: return Ops::SGE;
        }
    }
    // access check; returns object or null (bad recorded)
    Obj* check(const State& s, const Instruction* I, uint64_t addr, uint64_t size, Lit g, bool write, uint64_t& off) {
        Obj* o = objAt(addr, off);
        if (!o) {
            if (A.feasible(g)) bad(s, I, g, "invalid-pointer", addr < 4096 ? "null pointer access" : "wild pointer access");
            return nullptr;
        }
        if (off + size > o->size) {
            if (A.feasible(g)) bad(s, I, g, "out-of-bounds", "access beyond " + o->name);
            return nullptr;
        }
        if (o->freed && (o->kind == Obj::Heap || o->escaped)) {
            Lit b = A.AND(g, o->freed);
            if (b && A.feasible(b)) bad(s, I, b, "use-after-free", (o->kind == Obj::Heap ? "access to freed " : "access to dead stack object ") + o->name);
        }
        return o;
    }
    void note(const State& s, const Instruction* I, Obj* o, uint64_t off, uint64_t size, bool write) {
        if (!opt.plain || !schedActive || !I || o->isHarness) return;
        if (s.ctop().fn->harness || s.atomic) return;
        if (refcountFn(s.ctop().fn->f->getName().str())) return;
        bool atomic = s.ctop().fn->vis.count(I) && s.ctop().fn->vis.find(I)->second == V_Atomic;
        if (atomic) return;
        auto& a = acc[{o->id, (uint32_t)off}];
        a.threads |= 1ull << (cur & 63);
        if (a.first) { a.first = false; a.firstT = cur; a.ins.insert(I); if (write) a.write = true; return; }
        if (!a.shared) {
            if (a.firstT == cur) { a.ins.insert(I); if (write) a.write = true; return; }
            a.shared = true; a.ls.insert(s.locks.begin(), s.locks.end());
            a.write = false;
        }
        set<uint64_t> l; for (auto x : s.locks) if (a.ls.count(x)) l.insert(x);
        a.ls = l; a.ins.insert(I); if (write) a.write = true;
    }
    Val readCell(Obj* o, uint64_t off, unsigned bytes) {
        auto it = o->cells.find(off);
        if (it != o->cells.end() && it->second.w == bytes * 8) return it->second;
        // compose from bytes
        Val r; bool any = false; unsigned have = 0;
        // fast path: nothing overlapping
        auto lo = o->cells.upper_bound(off);
        if (lo != o->cells.begin()) { auto p = std::prev(lo); if (p->first + p->second.w / 8 > off) any = true; }
        auto hi = o->cells.lower_bound(off);
        if (hi != o->cells.end() && hi->first < off + bytes) any = true;
        if (!any) {
            if (o->zero) return bytes <= 8 ? mkC(0, bytes * 8) : mkBits(vector<Lit>(bytes * 8, 0));
            return mkUndef(bytes * 8);
        }
        while (have < bytes) {
            uint64_t p = off + have;
            auto u = o->cells.upper_bound(p);
            Val piece; unsigned n;
            if (u != o->cells.begin()) {
                auto c = std::prev(u);
                uint64_t cs = c->first, ce = cs + c->second.w / 8;
                if (ce > p) {
                    n = std::min<uint64_t>(ce - p, bytes - have);
                    piece = (n * 8 == c->second.w) ? c->second : O.extract(c->second, (p - cs) * 8, n * 8);
                    goto got;
                }
            }
            n = bytes - have;
            if (u != o->cells.end() && u->first < off + bytes) n = u->first - p;
            piece = o->zero && n <= 8 ? mkC(0, n * 8) : o->zero ? mkBits(vector<Lit>(n * 8, 0)) : mkUndef(n * 8);
        got:
            r = have ? O.concat(r, piece) : piece;
            have += n;
        }
        return r;
    }
    void writeCell(Obj* o, uint64_t off, unsigned bytes, const Val& v, Lit g) {
        auto it = o->cells.find(off);
        bool exact = it != o->cells.end() && it->second.w == bytes * 8;
        if (!exact) {
            // split overlapping cells to isolate [off, off+bytes)
            vector<pair<uint32_t, Val>> add; vector<uint32_t> del; bool overlap = false;
            auto b = o->cells.lower_bound(off);
            if (b != o->cells.begin()) { auto p = std::prev(b); if (p->first + p->second.w / 8 > off) b = p; }
            for (auto c = b; c != o->cells.end() && c->first < off + bytes; ++c) {
                overlap = true;
                uint64_t cs = c->first, ce = cs + c->second.w / 8;
                if (cs < off) add.push_back({(uint32_t)cs, O.extract(c->second, 0, (off - cs) * 8)});
                if (ce > off + bytes) add.push_back({(uint32_t)(off + bytes), O.extract(c->second, (off + bytes - cs) * 8, (ce - off - bytes) * 8)});
                del.push_back(cs);
            }
            Val old;
            if (overlap) old = readCell(o, off, bytes);
            else old = o->zero ? (bytes <= 8 ? mkC(0, bytes * 8) : mkBits(vector<Lit>(bytes * 8, 0))) : mkUndef(bytes * 8);
            for (auto d : del) o->cells.erase(d);
            for (auto& a : add) o->cells[a.first] = a.second;
            o->cells[off] = old;
            it = o->cells.find(off);
        }
        Lit al = o->alloc;
        // strong update if the object is only alive where g holds
        if (o->kind != Obj::Global && o->kind != Obj::Tls && !o->zero && A.R(al) == A.R(g)) it->second = v;
        else it->second = O.ite(g, v, it->second);
    }
    void markEscape(const Val& v, Obj* target) {
        if (target->kind == Obj::Stack || v.w != 64) return;
        auto f = [&](uint64_t a) { uint64_t off; Obj* o = objAt(a, off); if (o && o->kind == Obj::Stack) o->escaped = true; };
        if (v.k == Val::Const) f(v.c);
        else if (v.k == Val::VS) for (auto& e : v.d->vs) f(e.c);
    }
    Val loadBytes(const State& s, const Instruction* I, const Val& ptr, unsigned bytes, Lit g) {
        bool ok; Val p = toSet(ptr, g, 128, ok);
        if (!ok) unsupported(s, I, "unbounded symbolic pointer");
        if (p.k == Val::Undef) { bad(s, I, g, "invalid-pointer", "undefined pointer"); return mkUndef(bytes * 8); }
        uint64_t off;
        if (p.k == Val::Const) {
            Obj* o = check(s, I, p.c, bytes, g, false, off);
            if (!o) return mkUndef(bytes * 8);
            note(s, I, o, off, bytes, false);
            return prune(readCell(o, off, bytes), g);
        }
        Val r = mkUndef(bytes * 8);
        for (auto& e : p.d->vs) {
            Lit gl = A.AND(g, e.l);
            Obj* o = check(s, I, e.c, bytes, gl, false, off);
            if (!o) continue;
            note(s, I, o, off, bytes, false);
            Val v = readCell(o, off, bytes);
            r = O.ite(e.l, v, r);
        }
        return prune(r, g);
    }
    void storeBytes(const State& s, const Instruction* I, const Val& ptr, const Val& v0, Lit g) {
        Val v = v0;
        unsigned bytes = (v.w + 7) / 8;
        if (v.w != bytes * 8) v = O.zext(v, bytes * 8);
        bool ok; Val p = toSet(ptr, g, 128, ok);
        if (!ok) unsupported(s, I, "unbounded symbolic pointer");
        if (p.k == Val::Undef) { bad(s, I, g, "invalid-pointer", "undefined pointer"); return; }
        uint64_t off;
        if (p.k == Val::Const) {
            Obj* o = check(s, I, p.c, bytes, g, true, off);
            if (!o) return;
            note(s, I, o, off, bytes, true);
            markEscape(v, o);
            writeCell(o, off, bytes, v, g);
            return;
        }
        for (auto& e : p.d->vs) {
            Lit gl = A.AND(g, e.l);
            Obj* o = check(s, I, e.c, bytes, gl, true, off);
            if (!o) continue;
            note(s, I, o, off, bytes, true);
            markEscape(v, o);
            writeCell(o, off, bytes, v, gl);
        }
    }
    Val loadTy(const State& s, const Instruction* I, const Val& ptr, Type* T, Lit g) {
        if (auto* S = dyn_cast<StructType>(T)) {
            auto* SL = DL.getStructLayout(S); vector<Val> f;
            for (unsigned i = 0; i < S->getNumElements(); i++)
                f.push_back(loadTy(s, I, O.binop(Ops::Add, ptr, mkC(SL->getElementOffset(i), 64)), S->getElementType(i), g));
            return mkAgg(f);
        }
        if (auto* S = dyn_cast<ArrayType>(T)) {
            uint64_t es = DL.getTypeAllocSize(S->getElementType()); vector<Val> f;
            for (unsigned i = 0; i < S->getNumElements(); i++)
                f.push_back(loadTy(s, I, O.binop(Ops::Add, ptr, mkC(es * i, 64)), S->getElementType(), g));
            return mkAgg(f);
        }
        unsigned w = bitsOf(T), bytes = (w + 7) / 8;
        Val v = loadBytes(s, I, ptr, bytes, g);
        return v.w == w ? v : O.trunc(v, w);
    }
    void storeTy(const State& s, const Instruction* I, const Val& ptr, const Val& v, Type* T, Lit g) {
        if (auto* S = dyn_cast<StructType>(T)) {
            auto* SL = DL.getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); i++)
                storeTy(s, I, O.binop(Ops::Add, ptr, mkC(SL->getElementOffset(i), 64)), v.d->agg[i], S->getElementType(i), g);
            return;
        }
        if (auto* S = dyn_cast<ArrayType>(T)) {
            uint64_t es = DL.getTypeAllocSize(S->getElementType());
            for (unsigned i = 0; i < S->getNumElements(); i++)
                storeTy(s, I, O.binop(Ops::Add, ptr, mkC(es * i, 64)), v.d->agg[i], S->getElementType(), g);
            return;
        }
        storeBytes(s, I, ptr, v, g);
    }
    void copyMem(const State& s, const Instruction* I, uint64_t dst, uint64_t src, uint64_t n, Lit g) {
        if (!n) return;
        uint64_t so, d_o;
        Obj* a = check(s, I, src, n, g, false, so);
        Obj* b = check(s, I, dst, n, g, true, d_o);
        if (!a || !b) return;
        // gather source cells
        vector<pair<uint64_t, Val>> cp; uint64_t p = 0;
        while (p < n) {
            auto it = a->cells.find(so + p);
            if (it != a->cells.end() && p + it->second.w / 8 <= n) { cp.push_back({p, it->second}); p += it->second.w / 8; continue; }
            // find covering or next
            auto u = a->cells.upper_bound(so + p);
            bool covered = false;
            if (u != a->cells.begin()) { auto c = std::prev(u); covered = c->first + c->second.w / 8 > so + p; }
            if (covered || it != a->cells.end()) { cp.push_back({p, readCell(a, so + p, 1)}); p++; continue; }
            uint64_t next = u == a->cells.end() ? so + n : std::min<uint64_t>(u->first, so + n);
            uint64_t len = next - (so + p);
            if (a->zero) for (uint64_t q = 0; q < len;) { unsigned k = std::min<uint64_t>(8, len - q); cp.push_back({p + q, mkC(0, k * 8)}); q += k; }
            p += len;
        }
        for (auto& c : cp) { markEscape(c.second, b); writeCell(b, d_o + c.first, c.second.w / 8, c.second, g); }
        note(s, I, a, so, n, false); note(s, I, b, d_o, n, true);
    }
    // ------------------------------------------------------------ registers
    Val get(State& s, Value* v) {
        if (auto* C = dyn_cast<Constant>(v)) return constVal(C);
        auto& f = s.ctop();
        auto it = f.fn->reg.find(v);
        if (it == f.fn->reg.end()) {
            if (isa<MetadataAsValue>(v)) return mkC(0, 1);
            fatal("no register");
        }
        const Val& r = f.regs[it->second];
        if (r.k == Val::Undef && r.w == 0) return mkUndef(v->getType()->isStructTy() ? 0 : bitsOf(v->getType()));
        return r;
    }
    void set_(State& s, Value* I, const Val& v) {
        Frame& f = s.top();
        auto it = f.fn->reg.find(I);
        if (it == f.fn->reg.end()) return;
        f.regs[it->second] = v;
    }
    #include "exec.inc"
};
#include "solve.inc"
