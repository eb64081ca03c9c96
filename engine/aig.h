// And-inverter graph with structural hashing, simulation signatures and an
// incremental SAT solver (MiniSat) used for feasibility pruning.
#pragma once
#include <cstdint>
#include <cstdio>
#include <time.h>
#include <cstdlib>
#include <vector>
#include <unordered_map>
#include <string>
#include <random>
#include <minisat/core/Solver.h>

typedef uint32_t Lit; // node<<1 | sign;  0 = false, 1 = true

struct Aig {
    static constexpr int W = 16;
    std::vector<uint32_t> c0, c1;      // children, ~0u for inputs
    std::vector<uint64_t> sim;         // W words per node
    std::vector<Lit> rep;              // proven constant replacement (or itself)
    std::unordered_map<uint64_t, uint32_t> hash;
    std::vector<uint32_t> inputs;
    Minisat::Solver S;
    std::vector<int> var;              // node -> minisat var or -1
    int nextWord = 0;
    bool haveSim[W] = {false};
    std::mt19937_64 rng{12345};
    // statistics
    uint64_t nSat = 0, nUnsat = 0, nBudget = 0, nSimHit = 0;
    double satTime = 0;
    int64_t confBudget = 20000;

    Aig() {
        newNode(~0u, ~0u); // node 0: constant false
        rep[0] = 0;
        for (int i = 0; i < W; i++) sim[i] = 0;
        hash.reserve(1 << 20);
    }
    uint32_t newNode(uint32_t a, uint32_t b) {
        uint32_t n = c0.size();
        c0.push_back(a); c1.push_back(b);
        rep.push_back(n << 1);
        var.push_back(-1);
        size_t base = sim.size();
        sim.resize(base + W);
        if (a == ~0u) {
            for (int i = 0; i < W; i++) sim[base + i] = n ? rng() : 0;
        } else {
            const uint64_t* pa = &sim[(size_t)(a >> 1) * W];
            const uint64_t* pb = &sim[(size_t)(b >> 1) * W];
            uint64_t ma = (a & 1) ? ~0ull : 0, mb = (b & 1) ? ~0ull : 0;
            for (int i = 0; i < W; i++) sim[base + i] = (pa[i] ^ ma) & (pb[i] ^ mb);
        }
        return n;
    }
    Lit input() {
        uint32_t n = newNode(~0u, ~0u);
        inputs.push_back(n);
        return n << 1;
    }
    static Lit NOT(Lit a) { return a ^ 1; }
    bool isAnd(Lit a) const { return c0[a >> 1] != ~0u; }
    Lit R(Lit a) const {
        Lit r = rep[a >> 1];
        return r ^ (a & 1);
    }
    // walk the conjuncts of positive and-tree g looking for l (1) or !l (-1)
    int impl(Lit g, Lit l, int& budget) const {
        if (g == l) return 1;
        if (g == (l ^ 1)) return -1;
        if ((g & 1) || !isAnd(g) || budget <= 0) return 0;
        budget--;
        int r = impl(c0[g >> 1], l, budget);
        if (r) return r;
        return impl(c1[g >> 1], l, budget);
    }
    Lit AND(Lit a, Lit b) {
        a = R(a); b = R(b);
        if (a > b) std::swap(a, b);
        if (a == 0) return 0;
        if (a == 1) return b;
        if (a == b) return a;
        if (a == (b ^ 1)) return 0;
        bool aa = isAnd(a), ba = isAnd(b);
        Lit a0 = c0[a >> 1], a1 = c1[a >> 1], b0 = c0[b >> 1], b1 = c1[b >> 1];
        if (aa && ba) {
            bool an = a & 1, bn = b & 1;
            if (!an && !bn) {
                if (a0 == (b0 ^ 1) || a0 == (b1 ^ 1) || a1 == (b0 ^ 1) || a1 == (b1 ^ 1)) return 0;
            } else if (an && !bn) {
                Lit r = subst(a0, a1, b, b0, b1);
                if (r != ~0u) return r;
            } else if (!an && bn) {
                Lit r = subst(b0, b1, a, a0, a1);
                if (r != ~0u) return r;
            } else {
                if (a0 == b0 && a1 == (b1 ^ 1)) return a0 ^ 1;
                if (a0 == b1 && a1 == (b0 ^ 1)) return a0 ^ 1;
                if (a1 == b0 && a0 == (b1 ^ 1)) return a1 ^ 1;
                if (a1 == b1 && a0 == (b0 ^ 1)) return a1 ^ 1;
            }
        }
        if (aa && (a & 1)) { // a = !(a0 & a1)
            if (a0 == (b ^ 1) || a1 == (b ^ 1)) return b;
            if (a0 == b) return AND(b, a1 ^ 1);
            if (a1 == b) return AND(b, a0 ^ 1);
        }
        if (ba && (b & 1)) {
            if (b0 == (a ^ 1) || b1 == (a ^ 1)) return a;
            if (b0 == a) return AND(a, b1 ^ 1);
            if (b1 == a) return AND(a, b0 ^ 1);
        }
        if (aa && !(a & 1)) {
            int bud = 12;
            int r = impl(a, b, bud);
            if (r > 0) return a;
            if (r < 0) return 0;
        }
        if (ba && !(b & 1)) {
            int bud = 12;
            int r = impl(b, a, bud);
            if (r > 0) return b;
            if (r < 0) return 0;
        }
        uint64_t key = ((uint64_t)a << 32) | b;
        auto it = hash.find(key);
        if (it != hash.end()) return R(it->second << 1);
        uint32_t n = newNode(a, b);
        hash.emplace(key, n);
        return n << 1;
    }
    // conj = !(x0&x1) & (y: positive and of y0,y1)
    Lit subst(Lit x0, Lit x1, Lit y, Lit y0, Lit y1) {
        if (x0 == (y0 ^ 1) || x0 == (y1 ^ 1) || x1 == (y0 ^ 1) || x1 == (y1 ^ 1)) return y;
        if (x0 == y0 || x0 == y1) return AND(y, x1 ^ 1);
        if (x1 == y0 || x1 == y1) return AND(y, x0 ^ 1);
        return ~0u;
    }
    Lit OR(Lit a, Lit b) { return AND(a ^ 1, b ^ 1) ^ 1; }
    Lit ITE(Lit s, Lit a, Lit b) {
        s = R(s); a = R(a); b = R(b);
        if (s == 1) return a;
        if (s == 0) return b;
        if (a == b) return a;
        if (a == 1) return OR(s, b);
        if (a == 0) return AND(s ^ 1, b);
        if (b == 1) return OR(s ^ 1, a);
        if (b == 0) return AND(s, a);
        if (a == s) return OR(s, b);
        if (a == (s ^ 1)) return AND(s ^ 1, b);
        if (b == s) return AND(s, a);
        if (b == (s ^ 1)) return OR(s ^ 1, a);
        return OR(AND(s, a), AND(s ^ 1, b));
    }
    Lit XOR(Lit a, Lit b) { return ITE(a, b ^ 1, b); }
    Lit XNOR(Lit a, Lit b) { return ITE(a, b, b ^ 1); }

    // ---- SAT ----
    int encode(Lit l) {
        std::vector<uint32_t> st{l >> 1};
        while (!st.empty()) {
            uint32_t n = st.back();
            if (var[n] >= 0) { st.pop_back(); continue; }
            if (c0[n] == ~0u) {
                var[n] = S.newVar();
                if (n == 0) S.addClause(Minisat::mkLit(var[n], true));
                st.pop_back();
                continue;
            }
            uint32_t x = c0[n] >> 1, y = c1[n] >> 1;
            bool ready = true;
            if (var[x] < 0) { st.push_back(x); ready = false; }
            if (var[y] < 0) { st.push_back(y); ready = false; }
            if (!ready) continue;
            var[n] = S.newVar();
            Minisat::Lit o = Minisat::mkLit(var[n]);
            Minisat::Lit p = Minisat::mkLit(var[x], c0[n] & 1);
            Minisat::Lit q = Minisat::mkLit(var[y], c1[n] & 1);
            S.addClause(~o, p);
            S.addClause(~o, q);
            S.addClause(o, ~p, ~q);
            st.pop_back();
        }
        return var[l >> 1];
    }
    void addPattern() {
        int w = nextWord;
        nextWord = (nextWord + 1) % W;
        haveSim[w] = true;
        for (uint32_t n : inputs) {
            bool v;
            if (var[n] >= 0 && S.model.size() > var[n] && S.model[var[n]] != Minisat::lbool((uint8_t)2))
                v = S.model[var[n]] == Minisat::lbool((uint8_t)0);
            else
                v = rng() & 1;
            uint64_t x = v ? ~0ull : 0;
            // neighbours: flip each input with probability ~1/32 in bits 1..63
            uint64_t f = rng() & rng() & rng() & rng() & rng();
            x ^= f & ~1ull;
            sim[(size_t)n * W + w] = x;
        }
        size_t N = c0.size();
        for (size_t n = 1; n < N; n++) {
            if (c0[n] == ~0u) continue;
            uint64_t a = sim[(size_t)(c0[n] >> 1) * W + w] ^ ((c0[n] & 1) ? ~0ull : 0);
            uint64_t b = sim[(size_t)(c1[n] >> 1) * W + w] ^ ((c1[n] & 1) ? ~0ull : 0);
            sim[n * W + w] = a & b;
        }
    }
    bool simTrue(Lit l) const {
        const uint64_t* p = &sim[(size_t)(l >> 1) * W];
        uint64_t m = (l & 1) ? ~0ull : 0;
        for (int i = 0; i < W; i++)
            if (p[i] ^ m) return true;
        return false;
    }
    // may l be true?  (budget exhausted counts as yes)
    bool feasible(Lit l) {
        l = R(l);
        if (l == 0) return false;
        if (l == 1) return true;
        if (simTrue(l)) { nSimHit++; return true; }
        auto itb = budgeted.find(l);
        if (itb != budgeted.end()) return true;
        encode(l);
        Minisat::vec<Minisat::Lit> as;
        as.push(Minisat::mkLit(var[l >> 1], l & 1));
        S.setConfBudget(confBudget);
        double t0 = now();
        Minisat::lbool r = S.solveLimited(as);
        satTime += now() - t0;
        if (r == Minisat::lbool((uint8_t)0)) {
            nSat++;
            addPattern();
            return true;
        }
        if (r == Minisat::lbool((uint8_t)1)) {
            nUnsat++;
            rep[l >> 1] = (l & 1) ? 1 : 0;
            S.addClause(~as[0]);
            return false;
        }
        nBudget++;
        budgeted[l] = true;
        return true;
    }
    std::unordered_map<Lit, bool> budgeted;
    static double now() {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }
};
