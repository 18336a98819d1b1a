// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringRef.h>
#include <algorithm>
#include <cstdint>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <unordered_set>

using llvm::APInt;

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
                    FADD, FSUB, FMUL, FDIV, FEQ, FLT, FLE, SI2F, UI2F, F2SI, F2UI, F2F };

inline bool isFpOp(Op o) { return o >= FADD; }

struct Expr {
    Op          op;
    uint32_t    w;
    uint32_t    id;
    uint32_t    aux;    // symbol index or extract low bit
    const Expr *a, *b, *c;
    APInt       v;
    uint64_t    lo = 0, hi = ~0ull;    // for widths up to 64: the value always lies in [lo, hi] (unsigned)
    bool isC() const { return op == CONST; }
    uint64_t u() const { return v.getZExtValue(); }
    bool isZero() const { return op == CONST && v.isZero(); }
    bool isOnes() const { return op == CONST && v.isAllOnes(); }
};
using E = const Expr*;

struct Key {
    Op op; uint32_t w, aux; E a, b, c; APInt v;
    bool operator==(Key const& o) const
    {
        return op == o.op && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && (op != CONST || v == o.v);
    }
};
struct KeyHash {
    size_t operator()(Key const& k) const
    {
        size_t h = k.op * 0x9E3779B97F4A7C15ull + k.w * 1315423911u + k.aux * 2654435761u;
        auto mix = [&](size_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
        mix((size_t)k.a); mix((size_t)k.b); mix((size_t)k.c);
        if (k.op == CONST) mix((size_t)llvm::hash_value(k.v));
        return h;
    }
};

struct SymInfo { std::string name; uint32_t w; };

struct Exprs {
    std::unordered_map<Key, E, KeyHash> tab;
    std::deque<Expr> pool;
    std::vector<SymInfo> syms;
    std::unordered_map<std::string, E> symByName;

    E mk(Op op, uint32_t w, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t aux = 0, APInt v = APInt())
    {
        Key k{op, w, aux, a, b, c, v};
        auto it = tab.find(k);
        if (it != tab.end()) return it->second;
        pool.push_back(Expr{op, w, (uint32_t)pool.size(), aux, a, b, c, v});
        range(pool.back());
        E e = &pool.back();
        tab.emplace(std::move(k), e);
        return e;
    }
    static uint64_t maxOf(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
    static uint64_t onesOver(uint64_t x) { return x == 0 ? 0 : ~0ull >> __builtin_clzll(x); }    // smallest 2^k-1 >= x
    // a sound unsigned range from the ranges of the operands
    static void range(Expr& e)
    {
        if (e.w > 64) return;
        uint64_t const M = maxOf(e.w);
        e.lo = 0; e.hi = M;
        E a = e.a, b = e.b, k = e.c;
        if ((a && a->w > 64) || (b && b->w > 64) || (k && k->w > 64)) return;
        switch (e.op) {
        case CONST: e.lo = e.hi = e.v.getZExtValue(); break;
        case ADD: {
            uint64_t l, h;
            bool ol = __builtin_add_overflow(a->lo, b->lo, &l) || l > M, oh = __builtin_add_overflow(a->hi, b->hi, &h) || h > M;
            if (ol == oh) { e.lo = l & M; e.hi = h & M; }
            break;
        }
        case SUB:
            if (a->lo >= b->hi) { e.lo = a->lo - b->hi; e.hi = a->hi - b->lo; }
            else if (a->hi < b->lo) { e.lo = (a->lo - b->hi) & M; e.hi = (a->hi - b->lo) & M; }
            break;
        case MUL: {
            uint64_t h;
            if (!__builtin_mul_overflow(a->hi, b->hi, &h) && h <= M) { e.lo = a->lo * b->lo; e.hi = h; }
            break;
        }
        case UDIV: if (b->lo > 0) { e.lo = a->lo / b->hi; e.hi = a->hi / b->lo; } break;
        case UREM: if (b->lo > 0) { e.hi = std::min(a->hi, b->hi - 1); if (a->hi < b->lo) e.lo = a->lo; } break;
        case AND: e.hi = std::min(a->hi, b->hi); break;
        case OR: e.lo = std::max(a->lo, b->lo); e.hi = onesOver(a->hi | b->hi); break;
        case XOR: e.hi = onesOver(a->hi | b->hi); break;
        case LSHR: if (b->lo == b->hi && b->lo < 64) { e.lo = a->lo >> b->lo; e.hi = a->hi >> b->lo; } else e.hi = a->hi; break;
        case ITE: e.lo = std::min(b->lo, k->lo); e.hi = std::max(b->hi, k->hi); break;
        case CONCAT: e.lo = (a->lo << b->w) | b->lo; e.hi = (a->hi << b->w) | b->hi;
            if (b->w >= 64) { e.lo = 0; e.hi = M; }
            if (a->lo != a->hi) { e.lo = a->lo << b->w; e.hi = (a->hi << b->w) | maxOf(b->w); }
            break;
        case EXTRACT:
            if (a->hi >> e.aux <= M) { e.lo = a->lo >> e.aux; e.hi = a->hi >> e.aux; }
            break;
        case ZEXT: e.lo = a->lo; e.hi = a->hi; break;
        case SEXT: if (a->hi < (1ull << (a->w - 1))) { e.lo = a->lo; e.hi = a->hi; } break;
        default: break;
        }
        if (e.lo > e.hi) { e.lo = 0; e.hi = M; }
    }
    static bool apart(E a, E b) { return a->w <= 64 && (a->hi < b->lo || b->hi < a->lo); }
    static bool nonneg(E a) { return a->w <= 64 && a->hi < (1ull << (a->w - 1)); }
    // comparisons and masks that are simplified by more than constant folding are remembered, and Z3 re-decides them
    struct Rewrite { E raw, got; };
    std::vector<Rewrite> audit;
    std::unordered_set<uint64_t> audited;
    bool auditing = true;
    E cmp(Op op, E a, E b, E r)
    {
        if (!auditing || (a->isC() && b->isC()) || r->op == op) return r;
        if (!r->isC() && audit.size() > 20000) return r;
        uint64_t k = ((uint64_t)a->id * 0x9E3779B97F4A7C15ull ^ b->id) * 16 + (op & 15);
        if (audited.size() < 200000 && audited.insert(k).second) audit.push_back({mk(op, op == AND || op == SUB ? a->w : 1, a, b), r});
        return r;
    }
    E c(APInt const& v) { return v.getBitWidth() <= 64 ? c(v.getBitWidth(), v.getZExtValue()) : mk(CONST, v.getBitWidth(), nullptr, nullptr, nullptr, 0, v); }
    struct Known { uint32_t w = 0; uint64_t v = 0; E e = nullptr; };
    std::vector<Known> known = std::vector<Known>(1 << 14);    // constants used last
    E c(uint32_t w, uint64_t v)
    {
        if (w > 64) return c(APInt(w, v));
        Known& k = known[(v * 0x9E3779B97F4A7C15ull + w) >> 50];
        if (!k.e || k.w != w || k.v != v) k = {w, v, mk(CONST, w, nullptr, nullptr, nullptr, 0, APInt(w, v))};
        return k.e;
    }
    E bit(bool b) { return c(1, b); }
    E sym(std::string const& name, uint32_t w)
    {
        std::string k = name + ":" + std::to_string(w);
        auto it = symByName.find(k);
        if (it != symByName.end()) return it->second;
        syms.push_back({name, w});
        E e = mk(SYM, w, nullptr, nullptr, nullptr, (uint32_t)syms.size() - 1);
        symByName[k] = e;
        return e;
    }

    static double toD(APInt const& v)
    {
        if (v.getBitWidth() == 32) return v.bitsToFloat();
        return v.bitsToDouble();
    }
    static APInt fromD(double d, unsigned w) { return w == 32 ? APInt::floatToBits((float)d) : APInt::doubleToBits(d); }
    // fold of floating point operations; values are IEEE bit patterns, w is the result width
    static APInt ffold(Op op, unsigned w, APInt const& a, APInt const* b)
    {
        switch (op) {
        case SI2F: return w == 32 ? APInt::floatToBits((float)a.getSExtValue()) : APInt::doubleToBits((double)a.getSExtValue());
        case UI2F: return w == 32 ? APInt::floatToBits((float)a.getZExtValue()) : APInt::doubleToBits((double)a.getZExtValue());
        case F2SI: return APInt(64, (uint64_t)(int64_t)toD(a), true).sextOrTrunc(w);
        case F2UI: return APInt(64, (uint64_t)toD(a)).zextOrTrunc(w);
        case F2F: return fromD(toD(a), w);
        default: break;
        }
        if (a.getBitWidth() == 32) {
            float x = a.bitsToFloat(), y = b->bitsToFloat();
            switch (op) {
            case FADD: return APInt::floatToBits(x + y);
            case FSUB: return APInt::floatToBits(x - y);
            case FMUL: return APInt::floatToBits(x * y);
            case FDIV: return APInt::floatToBits(x / y);
            case FEQ: return APInt(1, x == y);
            case FLT: return APInt(1, x < y);
            case FLE: return APInt(1, x <= y);
            default: abort();
            }
        }
        double x = a.bitsToDouble(), y = b->bitsToDouble();
        switch (op) {
        case FADD: return APInt::doubleToBits(x + y);
        case FSUB: return APInt::doubleToBits(x - y);
        case FMUL: return APInt::doubleToBits(x * y);
        case FDIV: return APInt::doubleToBits(x / y);
        case FEQ: return APInt(1, x == y);
        case FLT: return APInt(1, x < y);
        case FLE: return APInt(1, x <= y);
        default: abort();
        }
    }
    E fop(Op op, unsigned w, E a, E b = nullptr)
    {
        if (a->isC() && (!b || b->isC())) return c(ffold(op, w, a->v, b ? &b->v : nullptr));
        return mk(op, w, a, b);
    }
    static APInt fold(Op op, APInt const& a, APInt const& b)
    {
        unsigned w = a.getBitWidth();
        switch (op) {
        case ADD: return a + b;
        case SUB: return a - b;
        case MUL: return a * b;
        case UDIV: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
        case SDIV: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
        case UREM: return b.isZero() ? a : a.urem(b);
        case SREM: return b.isZero() ? a : a.srem(b);
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case SHL: return b.uge(w) ? APInt(w, 0) : a.shl(b);
        case LSHR: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
        case ASHR: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
        case EQ: return APInt(1, a == b);
        case ULT: return APInt(1, a.ult(b));
        case ULE: return APInt(1, a.ule(b));
        case SLT: return APInt(1, a.slt(b));
        case SLE: return APInt(1, a.sle(b));
        default: abort();
        }
    }
    E lnot(E a)
    {
        if (a->isC()) return bit(a->v.isZero());
        switch (a->op) {
        case ULT: return ule(a->b, a->a);
        case ULE: return ult(a->b, a->a);
        case SLT: return sle(a->b, a->a);
        case SLE: return slt(a->b, a->a);
        case XOR: if (a->b->isOnes()) return a->a; break;
        default: break;
        }
        return mk(XOR, 1, a, c(1, 1));
    }
    // split x into (base, constant) with x == base + constant
    void split(E x, E& base, APInt& k)
    {
        if (x->isC()) { base = nullptr; k = x->v; return; }
        if (x->op == ADD && x->b->isC()) { base = x->a; k = x->b->v; return; }
        base = x; k = APInt(x->w, 0);
    }
    E add(E a, E b)
    {
        if (a->isC() && b->isC()) return c(a->v + b->v);
        if (a->isC()) std::swap(a, b);
        if (b->isZero()) return a;
        if (a->w == 1) return bxor(a, b);
        if (b->isC() && a->op == ADD && a->b->isC()) return add(a->a, c(a->b->v + b->v));
        if (a->op == ADD && a->b->isC()) return add(add(a->a, b), a->b);
        if (b->op == ADD && b->b->isC()) return add(add(a, b->a), b->b);
        if (a->op == SUB && a->b == b) return a->a;
        if (b->op == SUB && b->b == a) return b->a;
        if (b->isC() && a->op == ITE && a->b->isC() && a->c->isC()) return ite(a->a, add(a->b, b), add(a->c, b));
        if (!b->isC() && a->id > b->id) std::swap(a, b);
        return mk(ADD, a->w, a, b);
    }
    static void summands(E a, std::vector<E>& v)
    {
        if (a->op == ADD && v.size() < 24) { summands(a->a, v); summands(a->b, v); } else v.push_back(a);
    }
    E sub(E a, E b)
    {
        if (a == b) return c(a->w, 0);
        if (b->isC()) return add(a, c(-b->v));
        if (a->w == 1) return bxor(a, b);
        E ba, bb; APInt ka, kb;
        split(a, ba, ka); split(b, bb, kb);
        if (ba && ba == bb) return c(ka - kb);
        if (!kb.isZero()) return add(sub(a, bb), c(-kb));
        if (ba && !ka.isZero()) return add(sub(ba, b), c(ka));
        if (a->op == ADD) {
            if (a->a == b) return a->b;
            if (a->b == b) return a->a;
        }
        if (a->op == ADD || b->op == ADD) {    // cancel summands that occur on both sides
            std::vector<E> x, y;
            summands(a, x); summands(b, y);
            std::vector<E> y2;
            for (E t : y) {
                auto it = std::find(x.begin(), x.end(), t);
                if (it != x.end()) x.erase(it); else y2.push_back(t);
            }
            if (y2.size() < y.size()) {
                E l = c(a->w, 0), r = c(a->w, 0);
                for (E t : x) l = add(l, t);
                for (E t : y2) r = add(r, t);
                return cmp(SUB, a, b, sub(l, r));
            }
        }
        return mk(SUB, a->w, a, b);
    }
    E mul(E a, E b)
    {
        if (a->isC() && b->isC()) return c(a->v * b->v);
        if (a->isC()) std::swap(a, b);
        if (b->isC()) {
            if (b->v.isZero()) return b;
            if (b->v.isOne()) return a;
            if (b->v.isPowerOf2()) return shl(a, c(a->w, b->v.logBase2()));
            if (a->op == ADD && a->b->isC()) return add(mul(a->a, b), c(a->b->v * b->v));
        } else if (a->id > b->id) std::swap(a, b);
        if (a->w == 1) return band(a, b);
        return mk(MUL, a->w, a, b);
    }
    E udiv(E a, E b)
    {
        if (a->isC() && b->isC()) return c(fold(UDIV, a->v, b->v));
        if (b->isC() && b->v.isPowerOf2()) return lshr(a, c(a->w, b->v.logBase2()));
        return mk(UDIV, a->w, a, b);
    }
    E sdiv(E a, E b)
    {
        if (a->isC() && b->isC()) return c(fold(SDIV, a->v, b->v));
        if (b->isC() && b->v.isOne()) return a;
        return mk(SDIV, a->w, a, b);
    }
    E urem(E a, E b)
    {
        if (a->isC() && b->isC()) return c(fold(UREM, a->v, b->v));
        if (b->isC() && b->v.isOne()) return c(a->w, 0);
        if (b->isC() && b->v.isPowerOf2()) return band(a, c(b->v - 1));
        return mk(UREM, a->w, a, b);
    }
    E srem(E a, E b)
    {
        if (a->isC() && b->isC()) return c(fold(SREM, a->v, b->v));
        if (b->isC() && b->v.isOne()) return c(a->w, 0);
        return mk(SREM, a->w, a, b);
    }
    E band(E a, E b)
    {
        if (a->isC() && b->isC()) return c(a->v & b->v);
        if (a->isC()) std::swap(a, b);
        if (a == b) return a;
        if (b->isC()) {
            if (b->v.isZero()) return b;
            if (b->v.isAllOnes()) return a;
            if (a->op == AND && a->b->isC()) return band(a->a, c(a->b->v & b->v));
            if (a->w <= 64 && a->w > 1) {    // all values of `a` agree above bit k
                uint64_t m = b->u(), M = maxOf(a->w);
                unsigned k = m & 1 ? (unsigned)__builtin_ctzll(~m | (m == ~0ull)) : (unsigned)__builtin_ctzll(m);
                if (k < 64 && a->lo >> k == a->hi >> k) {
                    uint64_t top = a->lo >> k << k;
                    if (m == (1ull << k) - 1) return cmp(AND, a, b, add(a, c(a->w, (0 - top) & M)));
                    if (!(m & ((1ull << k) - 1))) return cmp(AND, a, b, c(a->w, top & m));
                }
            }
            if (a->op == ZEXT) {
                unsigned iw = a->a->w;
                return zext(band(a->a, c(b->v.trunc(iw))), a->w);
            }
            if (a->op == ITE && a->b->isC() && a->c->isC()) return ite(a->a, band(a->b, b), band(a->c, b));
            if (a->op == CONCAT) {
                unsigned lw = a->b->w;
                return concat(band(a->a, c(b->v.extractBits(a->a->w, lw))), band(a->b, c(b->v.extractBits(lw, 0))));
            }
        } else if (a->id > b->id) std::swap(a, b);
        if (a->w == 1) {
            if (a == lnot1(b) || b == lnot1(a)) return bit(false);
        }
        return mk(AND, a->w, a, b);
    }
    E lnot1(E a) { return a->w == 1 ? lnot(a) : nullptr; }
    E bor(E a, E b)
    {
        if (a->isC() && b->isC()) return c(a->v | b->v);
        if (a->isC()) std::swap(a, b);
        if (a == b) return a;
        if (b->isC()) {
            if (b->v.isZero()) return a;
            if (b->v.isAllOnes()) return b;
            if (a->op == OR && a->b->isC()) return bor(a->a, c(a->b->v | b->v));
        } else if (a->id > b->id) std::swap(a, b);
        if (a->w == 1) {
            if (a == lnot1(b) || b == lnot1(a)) return bit(true);
        }
        // disjoint halves: zext(x) | (zext(y) << k)
        if (a->w > 1) {
            for (int t = 0; t < 2; t++) {
                E lo = t ? b : a, hi = t ? a : b;
                if (lo->op == ZEXT && hi->op == CONCAT && hi->b->isZero() && hi->b->w >= lo->a->w)
                    return concat(hi->a, zext(lo->a, hi->b->w));
            }
        }
        return mk(OR, a->w, a, b);
    }
    E bxor(E a, E b)
    {
        if (a->isC() && b->isC()) return c(a->v ^ b->v);
        if (a->isC()) std::swap(a, b);
        if (a == b) return c(a->w, 0);
        if (b->isC()) {
            if (b->v.isZero()) return a;
            if (a->w == 1) return lnot(a);
            if (a->op == XOR && a->b->isC()) return bxor(a->a, c(a->b->v ^ b->v));
            if (a->op == ITE && (a->b->isC() || a->c->isC())) return ite(a->a, bxor(a->b, b), bxor(a->c, b));
        } else {
            if (a->op == XOR && a->b->isC()) return bxor(bxor(a->a, b), a->b);
            if (b->op == XOR && b->b->isC()) return bxor(bxor(a, b->a), b->b);
            if (a->id > b->id) std::swap(a, b);
        }
        return mk(XOR, a->w, a, b);
    }
    E shl(E a, E b)
    {
        if (a->isC() && b->isC()) return c(fold(SHL, a->v, b->v));
        if (b->isC()) {
            if (b->v.isZero()) return a;
            if (b->v.uge(a->w)) return c(a->w, 0);
            unsigned k = b->u();
            return concat(extract(a, 0, a->w - k), c(k, 0));
        }
        return mk(SHL, a->w, a, b);
    }
    E lshr(E a, E b)
    {
        if (a->isC() && b->isC()) return c(fold(LSHR, a->v, b->v));
        if (b->isC()) {
            if (b->v.isZero()) return a;
            if (b->v.uge(a->w)) return c(a->w, 0);
            unsigned k = b->u();
            return zext(extract(a, k, a->w - k), a->w);
        }
        return mk(LSHR, a->w, a, b);
    }
    E ashr(E a, E b)
    {
        if (a->isC() && b->isC()) return c(fold(ASHR, a->v, b->v));
        if (b->isC()) {
            if (b->v.isZero()) return a;
            if (b->v.ult(a->w)) {
                unsigned k = b->u();
                return sext(extract(a, k, a->w - k), a->w);
            }
        }
        return mk(ASHR, a->w, a, b);
    }
    E eq(E a, E b) { return cmp(EQ, a, b, eq_(a, b)); }
    E eq_(E a, E b)
    {
        if (a == b) return bit(true);
        if (a->isC() && b->isC()) return bit(a->v == b->v);
        if (apart(a, b)) return bit(false);
        if (a->isC()) std::swap(a, b);
        if (b->isC()) {
            if (a->w == 1) return b->v.isZero() ? lnot(a) : a;
            switch (a->op) {
            case ADD: if (a->b->isC()) return eq(a->a, c(b->v - a->b->v)); break;
            case XOR: if (a->b->isC()) return eq(a->a, c(b->v ^ a->b->v)); break;
            case SUB: if (b->v.isZero()) return eq(a->a, a->b); break;
            case ZEXT:
                if (b->v.getActiveBits() > a->a->w) return bit(false);
                return eq(a->a, c(b->v.trunc(a->a->w)));
            case SEXT: {
                APInt t = b->v.trunc(a->a->w);
                if (t.sext(a->w) != b->v) return bit(false);
                return eq(a->a, c(t));
            }
            case CONCAT: {
                unsigned lw = a->b->w;
                return band(eq(a->a, c(b->v.extractBits(a->a->w, lw))), eq(a->b, c(b->v.extractBits(lw, 0))));
            }
            case ITE:
                if (a->b->isC() || a->c->isC()) return ite(a->a, eq(a->b, b), eq(a->c, b));
                break;
            default: break;
            }
        } else {
            E ba, bb; APInt ka, kb;
            split(a, ba, ka); split(b, bb, kb);
            if (ba == bb) return bit(ka == kb);
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
            if (a->op == ITE && a->b == b && a->c->isC()) return ite(a->a, bit(true), eq(a->c, b));
            if (a->id > b->id) std::swap(a, b);
        }
        return mk(EQ, 1, a, b);
    }
    E ult(E a, E b) { return cmp(ULT, a, b, ult_(a, b)); }
    E ult_(E a, E b)
    {
        if (a == b) return bit(false);
        if (a->isC() && b->isC()) return bit(a->v.ult(b->v));
        if (a->w <= 64 && a->hi < b->lo) return bit(true);
        if (a->w <= 64 && a->lo >= b->hi) return bit(false);
        if (b->isC()) {
            if (b->v.isZero()) return bit(false);
            if (b->v.isOne()) return eq(a, c(a->w, 0));
            if (a->op == UDIV && a->a->isC()) return ult(c(a->a->v.udiv(b->v)), a->b);    // k / x < n  <=>  x > k / n (also for x = 0)
            if (a->op == ZEXT) {
                if (b->v.getActiveBits() > a->a->w) return bit(true);
                return ult(a->a, c(b->v.trunc(a->a->w)));
            }
            if (a->op == ITE && a->b->isC() && a->c->isC()) return ite(a->a, ult(a->b, b), ult(a->c, b));
        }
        if (a->isC()) {
            if (a->v.isAllOnes()) return bit(false);
            if (a->v.isZero()) return lnot(eq(b, a));
            if (b->op == UDIV && b->a->isC()) return ule(b->b, c(b->a->v.udiv(a->v + 1)));    // n < k / x  <=>  x <= k / (n + 1)
            if (b->op == ZEXT) {
                if (a->v.getActiveBits() > b->a->w) return bit(false);
                return ult(c(a->v.trunc(b->a->w)), b->a);
            }
            if (b->op == ITE && b->b->isC() && b->c->isC()) return ite(b->a, ult(a, b->b), ult(a, b->c));
        }
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return ult(a->a, b->a);
        if (a->w == 1) return band(lnot(a), b);
        return mk(ULT, 1, a, b);
    }
    E ule(E a, E b) { return cmp(ULE, a, b, ule_(a, b)); }
    E ule_(E a, E b)
    {
        if (a == b) return bit(true);
        if (a->isC() && b->isC()) return bit(a->v.ule(b->v));
        if (a->w <= 64 && a->hi <= b->lo) return bit(true);
        if (a->w <= 64 && a->lo > b->hi) return bit(false);
        if (b->isC() && !b->v.isAllOnes()) return ult(a, c(b->v + 1));
        if (b->isC()) return bit(true);
        if (a->isC()) {
            if (a->v.isZero()) return bit(true);
            return ult(c(a->v - 1), b);
        }
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return ule(a->a, b->a);
        if (a->w == 1) return bor(lnot(a), b);
        return mk(ULE, 1, a, b);
    }
    E slt(E a, E b) { return cmp(SLT, a, b, slt_(a, b)); }
    E slt_(E a, E b)
    {
        if (a == b) return bit(false);
        if (a->isC() && b->isC()) return bit(a->v.slt(b->v));
        if (nonneg(a) && nonneg(b)) return ult(a, b);
        if (a->op == ZEXT && b->isC() && !b->v.isNegative()) return ult(a, b);
        if (b->op == ZEXT && a->isC() && !a->v.isNegative()) return ult(a, b);
        if (a->op == ZEXT && b->isC()) return bit(false);
        if (b->op == ZEXT && a->isC()) return bit(true);
        if (a->op == ZEXT && b->op == ZEXT) return ult(a, b);
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return slt(a->a, b->a);
        if (a->op == SEXT && b->isC()) {
            APInt t = b->v.trunc(a->a->w);
            if (t.sext(a->w) == b->v) return slt(a->a, c(t));
        }
        if (a->w == 1) return band(a, lnot(b));
        return mk(SLT, 1, a, b);
    }
    E sle(E a, E b) { return cmp(SLE, a, b, sle_(a, b)); }
    E sle_(E a, E b)
    {
        if (a == b) return bit(true);
        if (a->isC() && b->isC()) return bit(a->v.sle(b->v));
        if (nonneg(a) && nonneg(b)) return ule(a, b);
        if (b->isC() && !b->v.isMaxSignedValue()) return slt(a, c(b->v + 1));
        if (a->isC() && !a->v.isMinSignedValue()) return slt(c(a->v - 1), b);
        if (a->w == 1) return bor(a, lnot(b));
        return mk(SLE, 1, a, b);
    }
    E ite(E cnd, E a, E b)
    {
        if (cnd->isC()) return cnd->v.isZero() ? b : a;
        if (a == b) return a;
        if (cnd->op == XOR && cnd->b->isOnes()) return ite(cnd->a, b, a);
        if (a->w == 1) {
            if (a->isC() && b->isC()) return a->v.isZero() ? lnot(cnd) : cnd;
            if (a->isC()) return a->v.isZero() ? band(lnot(cnd), b) : bor(cnd, b);
            if (b->isC()) return b->v.isZero() ? band(cnd, a) : bor(lnot(cnd), a);
        }
        if (a->op == ITE && a->a == cnd) a = a->b;
        if (b->op == ITE && b->a == cnd) b = b->c;
        if (a == b) return a;
        return mk(ITE, a->w, cnd, a, b);
    }
    E concat(E hi, E lo)
    {
        if (hi->isC() && lo->isC()) return c(hi->v.concat(lo->v));
        if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w)
            return extract(hi->a, lo->aux, hi->w + lo->w);
        if (hi->op == EXTRACT && lo == hi->a && hi->aux == lo->w) return mk(CONCAT, hi->w + lo->w, hi, lo);
        if (hi->op == EXTRACT && lo->op == CONCAT && lo->a->op == EXTRACT && lo->a->a == hi->a
            && hi->aux == lo->a->aux + lo->a->w)
            return concat(extract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
        if (hi->isZero()) return zext(lo, hi->w + lo->w);
        if (E r = rejoin(hi, lo)) return r;
        if (lo->op == CONCAT)
            if (E r = rejoin(hi, lo->a)) return concat(r, lo->b);
        if (hi->op == EXTRACT && hi->aux >= lo->w && (hi->a->op == ADD || hi->a->op == SUB || hi->a->op == MUL || hi->a->op == ITE || hi->a->op == AND || hi->a->op == OR || hi->a->op == XOR)
            && extract(hi->a, hi->aux - lo->w, lo->w) == lo)
            return extract(hi->a, hi->aux - lo->w, hi->w + lo->w);
        if (hi->isC() && lo->op == CONCAT && lo->a->isC()) return concat(concat(hi, lo->a), lo->b);
        return mk(CONCAT, hi->w + lo->w, hi, lo);
    }
    struct EKey { E x; uint32_t lo, w; bool operator==(EKey const& o) const { return x == o.x && lo == o.lo && w == o.w; } };
    struct EKeyHash { size_t operator()(EKey const& k) const { return (size_t)k.x * 0x9E3779B97F4A7C15ull ^ (k.lo * 7919u + k.w * 104729ull); } };
    std::unordered_map<EKey, E, EKeyHash> extractMemo;
    E extract(E x, unsigned lo, unsigned w)
    {
        if (w == x->w) return x;
        if (x->isC()) return c(x->v.extractBits(w, lo));
        if (x->op == SYM) return mk(EXTRACT, w, x, nullptr, nullptr, lo);
        EKey k{x, lo, w};
        auto it = extractMemo.find(k);
        if (it != extractMemo.end()) return it->second;
        E r = extract1(x, lo, w);
        extractMemo.emplace(k, r);
        if (!r->isC() && (x->op == XOR || x->op == OR || x->op == AND || x->op == ITE || x->op == ADD || x->op == SUB || x->op == MUL)) {
            auto& o = origins[r];
            if (o.size() < 6) o.push_back(k);
        }
        return r;
    }
    // pieces of one expression that extract pushed inwards and that stand side by side again
    std::unordered_map<E, std::vector<EKey>> origins;
    bool rejoining = false;
    E rejoin(E hi, E lo)
    {
        auto h = origins.find(hi);
        if (h == origins.end()) return nullptr;
        auto l = origins.find(lo);
        if (l == origins.end()) return nullptr;
        for (auto const& a : h->second)
            for (auto const& b : l->second)
                if (a.x == b.x && a.lo == b.lo + b.w) {
                    if (a.w + b.w == a.x->w) return a.x;
                    auto m = extractMemo.find(EKey{a.x, b.lo, a.w + b.w});
                    if (m != extractMemo.end()) return m->second;
                    if (rejoining) continue;    // an extraction on its way that would meet itself
                    rejoining = true;
                    E r       = extract(EKey(a).x, unsigned(b.lo), unsigned(a.w + b.w));
                    rejoining = false;
                    return r;
                }
        return nullptr;
    }
    E extract1(E x, unsigned lo, unsigned w)
    {
        switch (x->op) {
        case EXTRACT: return extract(x->a, x->aux + lo, w);
        case CONCAT: {
            unsigned lw = x->b->w;
            if (lo >= lw) return extract(x->a, lo - lw, w);
            if (lo + w <= lw) return extract(x->b, lo, w);
            return concat(extract(x->a, 0, lo + w - lw), extract(x->b, lo, lw - lo));
        }
        case ZEXT: {
            unsigned iw = x->a->w;
            if (lo >= iw) return c(w, 0);
            if (lo + w <= iw) return extract(x->a, lo, w);
            return zext(extract(x->a, lo, iw - lo), w);
        }
        case SEXT: {
            unsigned iw = x->a->w;
            if (lo + w <= iw) return extract(x->a, lo, w);
            if (lo < iw) return sext(extract(x->a, lo, iw - lo), w);
            break;
        }
        case ITE: return ite(x->a, extract(x->b, lo, w), extract(x->c, lo, w));
        case AND: if (x->b->isC()) return band(extract(x->a, lo, w), extract(x->b, lo, w)); break;
        case OR: return bor(extract(x->a, lo, w), extract(x->b, lo, w));
        case XOR: return bxor(extract(x->a, lo, w), extract(x->b, lo, w));
        case ADD: if (lo == 0) return add(extract(x->a, 0, w), extract(x->b, 0, w)); break;
        case SUB: if (lo == 0) return sub(extract(x->a, 0, w), extract(x->b, 0, w)); break;
        case MUL: if (lo == 0) return mul(extract(x->a, 0, w), extract(x->b, 0, w)); break;
        default: break;
        }
        return mk(EXTRACT, w, x, nullptr, nullptr, lo);
    }
    E zext(E x, unsigned w)
    {
        if (w == x->w) return x;
        if (x->isC()) return c(x->v.zext(w));
        if (x->op == ZEXT) return zext(x->a, w);
        if (x->op == ITE && x->b->isC() && x->c->isC()) return ite(x->a, zext(x->b, w), zext(x->c, w));
        return mk(ZEXT, w, x);
    }
    E sext(E x, unsigned w)
    {
        if (w == x->w) return x;
        if (x->isC()) return c(x->v.sext(w));
        if (x->op == SEXT) return sext(x->a, w);
        if (x->op == ZEXT) return zext(x->a, w);
        if (x->op == ITE && x->b->isC() && x->c->isC()) return ite(x->a, sext(x->b, w), sext(x->c, w));
        return mk(SEXT, w, x);
    }
    E bin(Op op, E a, E b)
    {
        switch (op) {
        case ADD: return add(a, b); case SUB: return sub(a, b); case MUL: return mul(a, b);
        case UDIV: return udiv(a, b); case SDIV: return sdiv(a, b); case UREM: return urem(a, b);
        case SREM: return srem(a, b); case AND: return band(a, b); case OR: return bor(a, b);
        case XOR: return bxor(a, b); case SHL: return shl(a, b); case LSHR: return lshr(a, b);
        case ASHR: return ashr(a, b); case EQ: return eq(a, b); case ULT: return ult(a, b);
        case ULE: return ule(a, b); case SLT: return slt(a, b); case SLE: return sle(a, b);
        default: abort();
        }
    }

    // ---- symbols of an expression (sorted), memoised
    std::unordered_map<E, std::shared_ptr<std::vector<uint32_t>>> symMemo;
    std::shared_ptr<std::vector<uint32_t>> const& symsOf(E e)
    {
        auto it = symMemo.find(e);
        if (it != symMemo.end()) return it->second;
        auto r = std::make_shared<std::vector<uint32_t>>();
        if (e->op == SYM) r->push_back(e->aux);
        else {
            for (E k : {e->a, e->b, e->c})
                if (k) {
                    auto s = symsOf(k);
                    if (s->empty()) continue;
                    if (r->empty()) { *r = *s; continue; }
                    std::vector<uint32_t> m;
                    std::set_union(r->begin(), r->end(), s->begin(), s->end(), std::back_inserter(m));
                    r->swap(m);
                }
        }
        return symMemo[e] = r;
    }
};

inline Exprs X;

// assignment of symbols; missing symbols are zero
struct Model {
    std::vector<std::pair<uint32_t, APInt>> m;    // sorted by symbol
    APInt get(uint32_t s, uint32_t w) const
    {
        auto it = std::lower_bound(m.begin(), m.end(), s, [](auto const& p, uint32_t k) { return p.first < k; });
        if (it != m.end() && it->first == s) return it->second;
        return APInt(w, 0);
    }
    void set(uint32_t s, APInt v)
    {
        auto it = std::lower_bound(m.begin(), m.end(), s, [](auto const& p, uint32_t k) { return p.first < k; });
        if (it != m.end() && it->first == s) it->second = std::move(v);
        else m.insert(it, {s, std::move(v)});
    }
};

struct Evaluator {
    std::unordered_map<E, APInt> memo;
    Model const& m;
    explicit Evaluator(Model const& mm) : m(mm) {}
    APInt eval(E e)
    {
        if (e->isC()) return e->v;
        if (e->op == SYM) return m.get(e->aux, e->w);
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        APInt r;
        switch (e->op) {
        case ITE: r = eval(e->a).isZero() ? eval(e->c) : eval(e->b); break;
        case CONCAT: r = eval(e->a).concat(eval(e->b)); break;
        case EXTRACT: r = eval(e->a).extractBits(e->w, e->aux); break;
        case ZEXT: r = eval(e->a).zext(e->w); break;
        case SEXT: r = eval(e->a).sext(e->w); break;
        default:
            if (isFpOp(e->op)) {
                APInt x = eval(e->a), y;
                if (e->b) y = eval(e->b);
                r = Exprs::ffold(e->op, e->w, x, e->b ? &y : nullptr);
            } else
                r = Exprs::fold(e->op, eval(e->a), eval(e->b));
            break;
        }
        memo.emplace(e, r);
        return r;
    }
};
