// Z3 back end: satisfiability of a set of 1-bit expressions, with constraint slicing and a query cache.
#pragma once
#include <iostream>
#include "expr.hpp"
#include <chrono>
#include <cstdio>
#include <fstream>
#include <set>
#include <z3.h>

struct SolverStats {
    uint64_t rewritesChecked = 0, tiny = 0, queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0;
    double   seconds = 0, maxSeconds = 0;
};

enum class Sat { No, Yes, Unknown };

struct Solver {
    Z3_context  ctx;
    SolverStats st;
    unsigned    timeoutMs = 60000;
    std::string dumpDir;
    uint64_t    tinyConfirm = 100, tinyWrong = 0, dumpMax = 0, dumped = 0;
    Z3_solver   bv = nullptr, gen = nullptr;
    std::unordered_map<E, Z3_ast> memo;

    static void onError(Z3_context c, Z3_error_code e)
    {
        fprintf(stderr, "symx: z3 error %s\n", Z3_get_error_msg(c, e));
        exit(3);
    }
    Solver()
    {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(ctx, onError);
    }
    void params(Z3_solver s) { params(s, timeoutMs); }
    void params(Z3_solver s, unsigned ms)
    {
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
    }
    Z3_solver get(bool fp)
    {
        Z3_solver& s = fp ? gen : bv;
        if (!s) {
            s = fp ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
            Z3_solver_inc_ref(ctx, s);
            params(s);
        } else
            Z3_solver_reset(ctx, s);
        return s;
    }
    Z3_ast num(APInt const& v)
    {
        llvm::SmallString<64> str;
        v.toString(str, 10, false);
        return Z3_mk_numeral(ctx, str.c_str(), Z3_mk_bv_sort(ctx, v.getBitWidth()));
    }
    Z3_ast b2v(Z3_ast b)
    {
        Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
        return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int(ctx, 1, s1), Z3_mk_unsigned_int(ctx, 0, s1));
    }
    Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
    Z3_ast  fp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, tr(e), fps(e->w)); }
    Z3_ast  rne() { return Z3_mk_fpa_rne(ctx); }
    // boolean translation of a 1-bit expression
    std::unordered_map<E, Z3_ast> bmemo;
    Z3_ast trb(E e)
    {
        auto it = bmemo.find(e);
        if (it != bmemo.end()) return it->second;
        Z3_ast r;
        switch (e->op) {
        case CONST: r = e->v.isZero() ? Z3_mk_false(ctx) : Z3_mk_true(ctx); break;
        case EQ: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
        case ULT: r = Z3_mk_bvult(ctx, tr(e->a), tr(e->b)); break;
        case ULE: r = Z3_mk_bvule(ctx, tr(e->a), tr(e->b)); break;
        case SLT: r = Z3_mk_bvslt(ctx, tr(e->a), tr(e->b)); break;
        case SLE: r = Z3_mk_bvsle(ctx, tr(e->a), tr(e->b)); break;
        case AND: { Z3_ast k[2] = {trb(e->a), trb(e->b)}; r = Z3_mk_and(ctx, 2, k); break; }
        case OR: { Z3_ast k[2] = {trb(e->a), trb(e->b)}; r = Z3_mk_or(ctx, 2, k); break; }
        case XOR: r = Z3_mk_xor(ctx, trb(e->a), trb(e->b)); break;
        case ITE: r = Z3_mk_ite(ctx, trb(e->a), trb(e->b), trb(e->c)); break;
        case FEQ: r = Z3_mk_fpa_eq(ctx, fp(e->a), fp(e->b)); break;
        case FLT: r = Z3_mk_fpa_lt(ctx, fp(e->a), fp(e->b)); break;
        case FLE: r = Z3_mk_fpa_leq(ctx, fp(e->a), fp(e->b)); break;
        default: r = Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
        }
        Z3_inc_ref(ctx, r);
        bmemo[e] = r;
        return r;
    }
    Z3_ast tr(E e)
    {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        Z3_ast r;
        switch (e->op) {
        case CONST: r = num(e->v); break;
        case SYM:
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, X.syms[e->aux].name.c_str()), Z3_mk_bv_sort(ctx, e->w));
            break;
        case ADD: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
        case SUB: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
        case MUL: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
        case UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
        case SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
        case UREM: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
        case SREM: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
        case SHL: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
        case LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
        case ASHR: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
        case AND: r = e->w == 1 ? b2v(trb(e)) : Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
        case OR: r = e->w == 1 ? b2v(trb(e)) : Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
        case XOR: r = e->w == 1 ? b2v(trb(e)) : Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
        case EQ: case ULT: case ULE: case SLT: case SLE: case FEQ: case FLT: case FLE: r = b2v(trb(e)); break;
        case ITE: r = Z3_mk_ite(ctx, trb(e->a), tr(e->b), tr(e->c)); break;
        case CONCAT: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
        case EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, tr(e->a)); break;
        case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
        case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
        case FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), fp(e->a), fp(e->b))); break;
        case FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), fp(e->a), fp(e->b))); break;
        case FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), fp(e->a), fp(e->b))); break;
        case FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), fp(e->a), fp(e->b))); break;
        case SI2F: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), tr(e->a), fps(e->w))); break;
        case UI2F: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), tr(e->a), fps(e->w))); break;
        case F2SI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->a), e->w); break;
        case F2UI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(e->a), e->w); break;
        case F2F: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), fp(e->a), fps(e->w))); break;
        default: abort();
        }
        Z3_inc_ref(ctx, r);
        memo[e] = r;
        return r;
    }
    std::unordered_map<E, bool> fpMemo;
    bool hasFp(E e)
    {
        if (!e) return false;
        if (e->op == CONST || e->op == SYM) return false;
        auto it = fpMemo.find(e);
        if (it != fpMemo.end()) return it->second;
        bool r = isFpOp(e->op) || hasFp(e->a) || hasFp(e->b) || hasFp(e->c);
        fpMemo[e] = r;
        return r;
    }

    // ---- formulas over few input bits, decided by evaluating them under every assignment (branch feasibility only)
    struct Node { Op op; uint8_t w; uint32_t aux; int a, b, c; uint64_t v; };
    bool flatten(E e, std::vector<Node>& out, std::unordered_map<E, int>& at, int& idx)
    {
        auto it = at.find(e);
        if (it != at.end()) { idx = it->second; return true; }
        if (e->w > 64 || isFpOp(e->op) || out.size() > 4000) return false;
        Node n{e->op, (uint8_t)e->w, e->aux, -1, -1, -1, 0};
        if (e->op == CONST) n.v = e->u();
        if (e->a && !flatten(e->a, out, at, n.a)) return false;
        if (e->b && !flatten(e->b, out, at, n.b)) return false;
        if (e->c && !flatten(e->c, out, at, n.c)) return false;
        idx = (int)out.size();
        at[e] = idx;
        out.push_back(n);
        return true;
    }
    static int64_t sx(uint64_t v, unsigned w) { return (int64_t)(v << (64 - w)) >> (64 - w); }
    Sat tiny(std::vector<E> const& sl, E q, std::vector<uint32_t> const& syms, std::vector<std::pair<uint32_t, APInt>>& vals)
    {
        unsigned bits = 0;
        for (auto k : syms) bits += X.syms[k].w;
        if (bits > 14) return Sat::Unknown;
        std::vector<Node> ns;
        std::unordered_map<E, int> at;
        std::vector<int> roots;
        int r;
        if (!flatten(q, ns, at, r)) return Sat::Unknown;
        roots.push_back(r);
        for (E e : sl) { if (!flatten(e, ns, at, r)) return Sat::Unknown; roots.push_back(r); }
        if ((ns.size() << bits) > 400000) return Sat::Unknown;
        std::vector<uint64_t> val(ns.size());
        std::unordered_map<uint32_t, uint64_t> sv;
        for (uint64_t x = 0; x < (1ull << bits); x++) {
            uint64_t y = x;
            for (auto k : syms) { sv[k] = y & Exprs::maxOf(X.syms[k].w); y >>= X.syms[k].w; }
            for (size_t i = 0; i < ns.size(); i++) {
                Node const& n = ns[i];
                uint64_t const M = Exprs::maxOf(n.w);
                uint64_t const A = n.a >= 0 ? val[n.a] : 0, B = n.b >= 0 ? val[n.b] : 0;
                unsigned const aw = n.a >= 0 ? ns[n.a].w : 0;
                uint64_t o = 0;
                switch (n.op) {
                case CONST: o = n.v; break;
                case SYM: o = sv[n.aux]; break;
                case ADD: o = (A + B) & M; break;
                case SUB: o = (A - B) & M; break;
                case MUL: o = (A * B) & M; break;
                case UDIV: o = B ? A / B : M; break;
                case UREM: o = B ? A % B : A; break;
                case AND: o = A & B; break;
                case OR: o = A | B; break;
                case XOR: o = A ^ B; break;
                case SHL: o = B >= n.w ? 0 : (A << B) & M; break;
                case LSHR: o = B >= n.w ? 0 : A >> B; break;
                case ASHR: o = (uint64_t)(sx(A, n.w) >> (B >= n.w ? n.w - 1 : B)) & M; break;
                case EQ: o = A == B; break;
                case ULT: o = A < B; break;
                case ULE: o = A <= B; break;
                case SLT: o = sx(A, aw) < sx(B, aw); break;
                case SLE: o = sx(A, aw) <= sx(B, aw); break;
                case ITE: o = A ? B : val[n.c]; break;
                case CONCAT: o = (A << ns[n.b].w) | B; break;
                case EXTRACT: o = (A >> n.aux) & M; break;
                case ZEXT: o = A; break;
                case SEXT: o = (uint64_t)sx(A, aw) & M; break;
                default: return Sat::Unknown;
                }
                val[i] = o;
            }
            bool all = true;
            for (int k : roots) if (!val[k]) { all = false; break; }
            if (all) {
                for (auto k : syms) vals.push_back({k, APInt(X.syms[k].w, sv[k])});
                return Sat::Yes;
            }
        }
        return Sat::No;
    }

    struct Cached { Sat r; std::vector<std::pair<uint32_t, APInt>> vals; };
    std::map<std::vector<uint32_t>, Cached> cache, branchCache;

    // constraints of `cs` that share (transitively) symbols with `seed`
    std::vector<E> slice(std::vector<E> const& cs, E seed, std::vector<uint32_t>& syms)
    {
        std::unordered_set<uint32_t> in(X.symsOf(seed)->begin(), X.symsOf(seed)->end());
        std::vector<char> used(cs.size(), 0);
        bool changed = true;
        std::vector<E> out;
        while (changed) {
            changed = false;
            for (size_t i = 0; i < cs.size(); i++) {
                if (used[i]) continue;
                auto const& s = *X.symsOf(cs[i]);
                bool hit = false;
                for (auto k : s) if (in.count(k)) { hit = true; break; }
                if (!hit) continue;
                used[i] = 1; changed = true;
                out.push_back(cs[i]);
                for (auto k : s) in.insert(k);
            }
        }
        syms.assign(in.begin(), in.end());
        std::sort(syms.begin(), syms.end());
        return out;
    }

    // re-decides up to n of the simplifications made so far; returns how many were wrong
    uint64_t auditRewrites(uint64_t n)
    {
        uint64_t bad = tinyWrong;
        X.auditing = false;
        size_t   step   = std::max<size_t>(1, X.audit.size() / std::max<uint64_t>(n, 1));
        bool     quick  = n <= 1000;
        double   budget = quick ? 4 : 300, spent = 0;
        for (size_t i = 0; i < X.audit.size() && st.rewritesChecked < n && spent < budget; i += step) {
            auto const& r = X.audit[i];
            if (hasFp(r.raw)) continue;
            auto t0 = std::chrono::steady_clock::now();
            Z3_solver s = get(false);
            params(s, quick ? 500 : 20000);
            Z3_solver_assert(ctx, s, Z3_mk_not(ctx, Z3_mk_eq(ctx, tr(r.raw), tr(r.got))));
            Z3_lbool q = Z3_solver_check(ctx, s);
            params(s);
            if (q != Z3_L_UNDEF) st.rewritesChecked++;
            st.queries++;
            if (q == Z3_L_TRUE) { bad++; std::cerr << "wrong simplification: " << Z3_solver_to_string(ctx, s) << "\n"; }
            if (q == Z3_L_FALSE) st.unsat++; else if (q == Z3_L_TRUE) st.sat++; else st.unknown++;
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            st.seconds += dt;
            spent += dt;
        }
        return bad;
    }
    // is cs /\ q satisfiable?  on Yes, `m` (a model of cs) is updated to a model of cs /\ q
    Sat check(std::vector<E> const& cs, E q, Model* m, bool branch = false)
    {
        if (q->isC()) return q->v.isZero() ? Sat::No : Sat::Yes;
        std::vector<uint32_t> syms;
        std::vector<E> sl = slice(cs, q, syms);
        std::vector<uint32_t> key;
        for (E e : sl) key.push_back(e->id);
        std::sort(key.begin(), key.end());
        key.erase(std::unique(key.begin(), key.end()), key.end());
        key.push_back(q->id);
        auto it = cache.find(key);
        if (it == cache.end() && branch) {
            it = branchCache.find(key);
            if (it == branchCache.end()) {
                Cached c;
                c.r = tiny(sl, q, syms, c.vals);
                it = branchCache.emplace(key, std::move(c)).first;
                if (it->second.r != Sat::Unknown) {
                    st.tiny++;
                    if (tinyConfirm) {    // the first of these small decisions are confirmed by the solver
                        tinyConfirm--;
                        auto t0 = std::chrono::steady_clock::now();
                        bool fpq = hasFp(q);
                        for (E e : sl) fpq = fpq || hasFp(e);
                        Z3_solver s = get(fpq);
                        for (E e : sl) Z3_solver_assert(ctx, s, trb(e));
                        Z3_solver_assert(ctx, s, trb(q));
                        Z3_lbool r = Z3_solver_check(ctx, s);
                        st.queries++;
                        if (r == Z3_L_FALSE) st.unsat++; else if (r == Z3_L_TRUE) st.sat++; else st.unknown++;
                        if ((r == Z3_L_FALSE && it->second.r == Sat::Yes) || (r == Z3_L_TRUE && it->second.r == Sat::No)) tinyWrong++;
                        st.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
                    }
                }
            }
            if (it->second.r != Sat::Unknown) {
                if (it->second.r == Sat::Yes && m)
                    for (auto const& p : it->second.vals) m->set(p.first, p.second);
                return it->second.r;
            }
            it = cache.end();
        }
        if (it == cache.end()) {
            st.queries++;
            auto t0 = std::chrono::steady_clock::now();
            bool fpq = hasFp(q);
            for (E e : sl) fpq = fpq || hasFp(e);
            Z3_solver s = get(fpq);
            for (E e : sl) Z3_solver_assert(ctx, s, trb(e));
            Z3_solver_assert(ctx, s, trb(q));
            std::string text;
            if (!dumpDir.empty() && dumped < dumpMax) text = Z3_solver_to_string(ctx, s);
            Z3_lbool r = Z3_solver_check(ctx, s);
            Cached c;
            if (r == Z3_L_TRUE) {
                st.sat++;
                c.r = Sat::Yes;
                Z3_model md = Z3_solver_get_model(ctx, s);
                Z3_model_inc_ref(ctx, md);
                for (uint32_t k : syms) {
                    E se = X.sym(X.syms[k].name, X.syms[k].w);
                    Z3_ast v;
                    if (!Z3_model_eval(ctx, md, tr(se), true, &v)) continue;
                    Z3_inc_ref(ctx, v);
                    c.vals.push_back({k, APInt(X.syms[k].w, llvm::StringRef(Z3_get_numeral_string(ctx, v)), 10)});
                    Z3_dec_ref(ctx, v);
                }
                Z3_model_dec_ref(ctx, md);
            } else if (r == Z3_L_FALSE) { st.unsat++; c.r = Sat::No; }
            else { st.unknown++; c.r = Sat::Unknown; }
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            st.seconds += dt;
            st.maxSeconds = std::max(st.maxSeconds, dt);
            if (!text.empty() && r != Z3_L_UNDEF) {
                std::ofstream o(dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumped++)
                                + (r == Z3_L_TRUE ? ".sat" : ".unsat") + ".smt2");
                o << "(set-logic " << (fpq ? "QF_BVFP" : "QF_BV") << ")\n" << text << "(check-sat)\n";
            }
            it = cache.emplace(std::move(key), std::move(c)).first;
        } else
            st.cacheHits++;
        if (it->second.r == Sat::Yes && m)
            for (auto const& p : it->second.vals) m->set(p.first, p.second);
        return it->second.r;
    }
};
