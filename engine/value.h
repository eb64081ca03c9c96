// Symbolic values: constants, guarded value sets, bit vectors, aggregates.
#pragma once
#include "aig.h"
#include <algorithm>
#include <cassert>
#include <functional>

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext(uint64_t c, unsigned w) {
    if (w >= 64) return (int64_t)c;
    uint64_t s = 1ull << (w - 1);
    return (int64_t)(((c & maskw(w)) ^ s) - s);
}

struct VData;
struct Val {
    enum K : uint8_t { Undef, Const, VS, Bits, Agg };
    K k = Undef;
    uint16_t w = 0;
    uint64_t c = 0;
    VData* d = nullptr;
    Val() {}
    Val(const Val& o);
    Val(Val&& o) noexcept : k(o.k), w(o.w), c(o.c), d(o.d) { o.d = nullptr; o.k = Undef; }
    Val& operator=(const Val& o);
    Val& operator=(Val&& o) noexcept {
        std::swap(k, o.k); std::swap(w, o.w); std::swap(c, o.c); std::swap(d, o.d);
        return *this;
    }
    ~Val();
    bool isC() const { return k == Const; }
    bool isC(uint64_t x) const { return k == Const && c == x; }
};
struct VElem { uint64_t c; Lit l; };
struct VData {
    int rc = 1;
    std::vector<VElem> vs;
    std::vector<Lit> bits;
    std::vector<Val> agg;
};
inline Val::Val(const Val& o) : k(o.k), w(o.w), c(o.c), d(o.d) { if (d) d->rc++; }
inline Val& Val::operator=(const Val& o) {
    if (o.d) o.d->rc++;
    if (d && --d->rc == 0) delete d;
    k = o.k; w = o.w; c = o.c; d = o.d;
    return *this;
}
inline Val::~Val() { if (d && --d->rc == 0) delete d; }

static inline Val mkC(uint64_t c, unsigned w) { Val v; v.k = Val::Const; v.w = w; v.c = c & maskw(w); return v; }
static inline Val mkUndef(unsigned w) { Val v; v.w = w; return v; }
static inline Val mkAgg(std::vector<Val> f) { Val v; v.k = Val::Agg; v.d = new VData; v.d->agg = std::move(f); return v; }
static inline Val mkBits(std::vector<Lit> b) {
    unsigned w = b.size();
    if (w <= 64) {
        uint64_t c = 0; bool ok = true;
        for (unsigned i = 0; i < w; i++) { if (b[i] > 1) { ok = false; break; } if (b[i]) c |= 1ull << i; }
        if (ok) return mkC(c, w);
    }
    Val v; v.k = Val::Bits; v.w = w; v.d = new VData; v.d->bits = std::move(b); return v;
}
static inline Val mkBool(Lit l) { return mkBits({l}); }

struct Ops {
    Aig& A;
    Ops(Aig& a) : A(a) {}
    Val mkVS(std::vector<VElem> e, unsigned w) {
        // merge equal constants, drop false ones
        std::sort(e.begin(), e.end(), [](const VElem& a, const VElem& b) { return a.c < b.c; });
        std::vector<VElem> r;
        for (auto& x : e) {
            if (A.R(x.l) == 0) continue;
            if (!r.empty() && r.back().c == x.c) r.back().l = A.OR(r.back().l, x.l);
            else r.push_back({x.c, A.R(x.l)});
        }
        if (r.empty()) return mkUndef(w);
        if (r.size() == 1) return mkC(r[0].c, w);
        if (w == 1) { for (auto& x : r) if (x.c) return mkBool(x.l); }
        Val v; v.k = Val::VS; v.w = w; v.d = new VData; v.d->vs = std::move(r); return v;
    }
    std::vector<Lit> bits(const Val& v) {
        std::vector<Lit> r(v.w, 0);
        switch (v.k) {
        case Val::Const: for (unsigned i = 0; i < v.w && i < 64; i++) r[i] = (v.c >> i) & 1; break;
        case Val::VS:
            for (auto& e : v.d->vs) for (unsigned i = 0; i < v.w; i++) if ((e.c >> i) & 1) r[i] = A.OR(r[i], e.l);
            break;
        case Val::Bits: r = v.d->bits; break;
        case Val::Undef: for (auto& b : r) b = A.input(); break;
        case Val::Agg: fprintf(stderr, "bits of aggregate\n"); abort();
        }
        return r;
    }
    Lit toLit(const Val& v) { // boolean value of an i1
        if (v.k == Val::Const) return v.c & 1;
        if (v.k == Val::Bits) return v.d->bits[0];
        if (v.k == Val::VS) { Lit l = 0; for (auto& e : v.d->vs) if (e.c & 1) l = A.OR(l, e.l); return l; }
        return A.input();
    }
    Lit nonzero(const Val& v) {
        if (v.k == Val::Const) return v.c != 0;
        if (v.k == Val::VS) { Lit l = 1; for (auto& e : v.d->vs) if (e.c == 0) l = A.AND(l, e.l ^ 1); return l; }
        Lit l = 0; for (Lit b : bits(v)) l = A.OR(l, b); return l;
    }
    Lit eqC(const Val& v, uint64_t c) {
        c &= maskw(v.w);
        if (v.k == Val::Const) return v.c == c;
        if (v.k == Val::VS) { for (auto& e : v.d->vs) if (e.c == c) return e.l; return 0; }
        auto b = bits(v); Lit l = 1;
        for (unsigned i = 0; i < v.w; i++) l = A.AND(l, (i < 64 && ((c >> i) & 1)) ? b[i] : b[i] ^ 1);
        return l;
    }
    Val ite(Lit s, const Val& a, const Val& b) {
        s = A.R(s);
        if (s == 1) return a;
        if (s == 0) return b;
        if (a.k == Val::Undef) return b;
        if (b.k == Val::Undef) return a;
        if (a.d && a.d == b.d) return a;
        if (a.k == Val::Agg) {
            std::vector<Val> f;
            for (size_t i = 0; i < a.d->agg.size(); i++) f.push_back(ite(s, a.d->agg[i], b.d->agg[i]));
            return mkAgg(std::move(f));
        }
        if (a.k == Val::Const && b.k == Val::Const && a.c == b.c) return a;
        if (a.w == 1) return mkBool(A.ITE(s, toLit(a), toLit(b)));
        if (a.k != Val::Bits && b.k != Val::Bits) {
            size_t na = a.k == Val::Const ? 1 : a.d->vs.size(), nb = b.k == Val::Const ? 1 : b.d->vs.size();
            VElem ea{a.c, 1}, eb{b.c, 1};
            const VElem* pa = a.k == Val::Const ? &ea : a.d->vs.data();
            const VElem* pb = b.k == Val::Const ? &eb : b.d->vs.data();
            std::vector<VElem> r;
            size_t i = 0, j = 0;
            while (i < na || j < nb) {
                if (j >= nb || (i < na && pa[i].c < pb[j].c)) { r.push_back({pa[i].c, A.AND(s, pa[i].l)}); i++; }
                else if (i >= na || pb[j].c < pa[i].c) { r.push_back({pb[j].c, A.AND(s ^ 1, pb[j].l)}); j++; }
                else { r.push_back({pa[i].c, A.ITE(s, pa[i].l, pb[j].l)}); i++; j++; }
            }
            if (r.size() <= 300) return mkVS(std::move(r), a.w);
        }
        auto x = bits(a), y = bits(b);
        for (unsigned i = 0; i < x.size(); i++) x[i] = A.ITE(s, x[i], y[i]);
        return mkBits(std::move(x));
    }
    Val map1(const Val& v, unsigned w, const std::function<uint64_t(uint64_t)>& f) {
        if (v.k == Val::Const) return mkC(f(v.c), w);
        std::vector<VElem> r;
        for (auto& e : v.d->vs) r.push_back({f(e.c) & maskw(w), e.l});
        return mkVS(std::move(r), w);
    }
    static constexpr size_t kMaxProduct = 400;
    bool setLike(const Val& v) { return v.k == Val::Const || v.k == Val::VS; }
    size_t setSize(const Val& v) { return v.k == Val::Const ? 1 : v.d->vs.size(); }
    template<class F> bool map2(const Val& a, const Val& b, unsigned w, Val& out, F f) {
        if (!setLike(a) || !setLike(b)) return false;
        if (a.k == Val::Const && b.k == Val::Const) { out = mkC(f(a.c, b.c), w); return true; }
        size_t n = setSize(a) * setSize(b);
        if (n > kMaxProduct) return false;
        VElem ea{a.c, 1}, eb{b.c, 1};
        const VElem* pa = a.k == Val::Const ? &ea : a.d->vs.data();
        const VElem* pb = b.k == Val::Const ? &eb : b.d->vs.data();
        std::vector<VElem> r;
        for (size_t i = 0; i < setSize(a); i++)
            for (size_t j = 0; j < setSize(b); j++) {
                Lit l = A.AND(pa[i].l, pb[j].l);
                if (l) r.push_back({f(pa[i].c, pb[j].c) & maskw(w), l});
            }
        out = mkVS(std::move(r), w);
        return true;
    }
    // ---- bit level arithmetic ----
    typedef std::vector<Lit> BV;
    BV addB(const BV& a, const BV& b, Lit cin, Lit* cout = nullptr) {
        BV r(a.size()); Lit c = cin;
        for (size_t i = 0; i < a.size(); i++) {
            Lit x = A.XOR(a[i], b[i]);
            r[i] = A.XOR(x, c);
            c = A.OR(A.AND(a[i], b[i]), A.AND(x, c));
        }
        if (cout) *cout = c;
        return r;
    }
    BV notB(BV a) { for (auto& x : a) x ^= 1; return a; }
    BV negB(const BV& a) { return addB(notB(a), BV(a.size(), 0), 1); }
    BV subB(const BV& a, const BV& b, Lit* cout = nullptr) { return addB(a, notB(b), 1, cout); }
    Lit ultB(const BV& a, const BV& b) { Lit c; subB(a, b, &c); return c ^ 1; }
    Lit sltB(BV a, BV b) { a.back() ^= 1; b.back() ^= 1; return ultB(a, b); }
    Lit eqB(const BV& a, const BV& b) { Lit l = 1; for (size_t i = 0; i < a.size(); i++) l = A.AND(l, A.XNOR(a[i], b[i])); return l; }
    BV iteB(Lit s, const BV& a, const BV& b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = A.ITE(s, a[i], b[i]); return r; }
    BV mulB(const BV& a, const BV& b) {
        BV r(a.size(), 0);
        for (size_t i = 0; i < b.size(); i++) {
            if (b[i] == 0) continue;
            BV t(a.size(), 0);
            for (size_t j = i; j < a.size(); j++) t[j] = A.AND(a[j - i], b[i]);
            r = addB(r, t, 0);
        }
        return r;
    }
    void udivB(const BV& a, const BV& b, BV& q, BV& r) {
        size_t w = a.size();
        q.assign(w, 0); r.assign(w, 0);
        BV bb = b; bb.push_back(0);
        BV rr(w + 1, 0);
        for (int i = (int)w - 1; i >= 0; i--) {
            for (size_t j = w; j > 0; j--) rr[j] = rr[j - 1];
            rr[0] = a[i];
            Lit c; BV t = subB(rr, bb, &c); // c = rr >= bb
            q[i] = c;
            rr = iteB(c, t, rr);
        }
        r.assign(rr.begin(), rr.begin() + w);
    }
    BV shiftB(const BV& a, const BV& sh, int kind) { // 0 shl 1 lshr 2 ashr
        size_t w = a.size();
        BV r = a; Lit fill = kind == 2 ? a.back() : 0;
        Lit big = 0;
        for (size_t s = 0; s < sh.size(); s++) {
            if (s >= 7 || (1ull << s) >= w) { big = A.OR(big, sh[s]); continue; }
            size_t k = 1ull << s;
            BV t(w);
            for (size_t i = 0; i < w; i++) {
                if (kind == 0) t[i] = i >= k ? r[i - k] : 0;
                else t[i] = i + k < w ? r[i + k] : fill;
            }
            r = iteB(sh[s], t, r);
        }
        return iteB(big, BV(w, fill), r);
    }
    enum Op { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor };
    static uint64_t conc(Op op, uint64_t a, uint64_t b, unsigned w) {
        uint64_t m = maskw(w); a &= m; b &= m;
        int64_t sa = sext(a, w), sb = sext(b, w);
        switch (op) {
        case Add: return (a + b) & m;
        case Sub: return (a - b) & m;
        case Mul: return (a * b) & m;
        case UDiv: return b ? a / b : 0;
        case URem: return b ? a % b : 0;
        case SDiv: return sb ? (sb == -1 ? (uint64_t)0 - a : (uint64_t)(sa / sb)) & m : 0;
        case SRem: return sb ? (sb == -1 ? 0 : (uint64_t)(sa % sb)) & m : 0;
        case Shl: return b >= w ? 0 : (a << b) & m;
        case LShr: return b >= w ? 0 : a >> b;
        case AShr: return (uint64_t)(sa >> (b >= w ? w - 1 : b)) & m;
        case And: return a & b;
        case Or: return a | b;
        case Xor: return a ^ b;
        }
        return 0;
    }
    Val binop(Op op, const Val& a, const Val& b) {
        unsigned w = a.w;
        if (w == 1) {
            Lit x = toLit(a), y = toLit(b);
            switch (op) {
            case And: case Mul: return mkBool(A.AND(x, y));
            case Or: return mkBool(A.OR(x, y));
            case Xor: case Add: case Sub: return mkBool(A.XOR(x, y));
            default: return mkBool(x);
            }
        }
        if (w <= 64) {
            Val out;
            if (map2(a, b, w, out, [&](uint64_t x, uint64_t y) { return conc(op, x, y, w); })) return out;
        }
        BV x = bits(a), y = bits(b), q, r;
        switch (op) {
        case Add: return mkBits(addB(x, y, 0));
        case Sub: return mkBits(subB(x, y));
        case Mul: {
            // shift-add over the operand with fewer symbolic bits
            auto cnt = [](const BV& v) { int n = 0; for (Lit l : v) n += l != 0; return n; };
            return cnt(x) < cnt(y) ? mkBits(mulB(y, x)) : mkBits(mulB(x, y));
        }
        case UDiv: udivB(x, y, q, r); return mkBits(q);
        case URem: udivB(x, y, q, r); return mkBits(r);
        case SDiv: case SRem: {
            Lit sx = x.back(), sy = y.back();
            BV ax = iteB(sx, negB(x), x), ay = iteB(sy, negB(y), y);
            udivB(ax, ay, q, r);
            if (op == SDiv) { Lit s = A.XOR(sx, sy); return mkBits(iteB(s, negB(q), q)); }
            return mkBits(iteB(sx, negB(r), r));
        }
        case Shl: return mkBits(shiftB(x, y, 0));
        case LShr: return mkBits(shiftB(x, y, 1));
        case AShr: return mkBits(shiftB(x, y, 2));
        case And: for (size_t i = 0; i < x.size(); i++) x[i] = A.AND(x[i], y[i]); return mkBits(x);
        case Or: for (size_t i = 0; i < x.size(); i++) x[i] = A.OR(x[i], y[i]); return mkBits(x);
        case Xor: for (size_t i = 0; i < x.size(); i++) x[i] = A.XOR(x[i], y[i]); return mkBits(x);
        }
        return mkUndef(w);
    }
    enum Cmp { EQ, NE, ULT, ULE, UGT, UGE, SLT, SLE, SGT, SGE };
    static bool concCmp(Cmp p, uint64_t a, uint64_t b, unsigned w) {
        int64_t x = sext(a, w), y = sext(b, w);
        switch (p) {
        case EQ: return a == b; case NE: return a != b;
        case ULT: return a < b; case ULE: return a <= b; case UGT: return a > b; case UGE: return a >= b;
        case SLT: return x < y; case SLE: return x <= y; case SGT: return x > y; case SGE: return x >= y;
        }
        return false;
    }
    Lit cmp(Cmp p, const Val& a, const Val& b) {
        unsigned w = a.w;
        if (w <= 64 && setLike(a) && setLike(b)) {
            if (a.k == Val::Const && b.k == Val::Const) return concCmp(p, a.c, b.c, w);
            size_t n = setSize(a) * setSize(b);
            if (n <= 4000) {
                VElem ea{a.c, 1}, eb{b.c, 1};
                const VElem* pa = a.k == Val::Const ? &ea : a.d->vs.data();
                const VElem* pb = b.k == Val::Const ? &eb : b.d->vs.data();
                Lit t = 0, f = 0;
                for (size_t i = 0; i < setSize(a); i++)
                    for (size_t j = 0; j < setSize(b); j++) {
                        Lit l = A.AND(pa[i].l, pb[j].l);
                        if (!l) continue;
                        if (concCmp(p, pa[i].c, pb[j].c, w)) t = A.OR(t, l); else f = A.OR(f, l);
                    }
                if (f == 0) return 1;
                if (t == 0) return 0;
                return t;
            }
        }
        BV x = bits(a), y = bits(b);
        switch (p) {
        case EQ: return eqB(x, y);
        case NE: return eqB(x, y) ^ 1;
        case ULT: return ultB(x, y);
        case UGE: return ultB(x, y) ^ 1;
        case UGT: return ultB(y, x);
        case ULE: return ultB(y, x) ^ 1;
        case SLT: return sltB(x, y);
        case SGE: return sltB(x, y) ^ 1;
        case SGT: return sltB(y, x);
        case SLE: return sltB(y, x) ^ 1;
        }
        return 0;
    }
    Val zext(const Val& v, unsigned w) {
        if (v.k == Val::Undef) return mkUndef(w);
        if (v.w == 1 && v.k == Val::Bits) return mkVS({{0, v.d->bits[0] ^ 1}, {1, v.d->bits[0]}}, w);
        if (setLike(v) && w <= 64) return map1(v, w, [](uint64_t x) { return x; });
        BV b = bits(v); b.resize(w, 0); return mkBits(b);
    }
    Val sextV(const Val& v, unsigned w) {
        if (v.k == Val::Undef) return mkUndef(w);
        unsigned vw = v.w;
        if (v.w == 1 && v.k == Val::Bits) return mkVS({{0, v.d->bits[0] ^ 1}, {maskw(w), v.d->bits[0]}}, w);
        if (setLike(v) && w <= 64) return map1(v, w, [vw](uint64_t x) { return (uint64_t)sext(x, vw); });
        BV b = bits(v); Lit s = b.back(); b.resize(w, s); return mkBits(b);
    }
    Val trunc(const Val& v, unsigned w) {
        if (v.k == Val::Undef) return mkUndef(w);
        if (setLike(v) && v.w <= 64) return map1(v, w, [w](uint64_t x) { return x & maskw(w); });
        BV b = bits(v); b.resize(w); return mkBits(b);
    }
    Val extract(const Val& v, unsigned lo, unsigned w) {
        if (v.k == Val::Undef) return mkUndef(w);
        if (setLike(v) && v.w <= 64) return map1(v, w, [lo, w](uint64_t x) { return (x >> lo) & maskw(w); });
        BV b = bits(v); BV r(b.begin() + lo, b.begin() + lo + w); return mkBits(r);
    }
    Val concat(const Val& lo, const Val& hi) {
        unsigned w = lo.w + hi.w, lw = lo.w;
        if (lo.k == Val::Undef && hi.k == Val::Undef) return mkUndef(w);
        Val l = lo.k == Val::Undef ? mkC(0, lo.w) : lo, h = hi.k == Val::Undef ? mkC(0, hi.w) : hi;
        Val out;
        if (w <= 64 && map2(l, h, w, out, [lw](uint64_t a, uint64_t b) { return a | (b << lw); })) return out;
        BV x = bits(l), y = bits(h);
        x.insert(x.end(), y.begin(), y.end());
        return mkBits(x);
    }
};
