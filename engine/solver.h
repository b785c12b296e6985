// Z3 layer: translation of expressions, sliced queries under assumption literals, models.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>

struct SolverStats {
    uint64_t z3_queries = 0, z3_sat = 0, z3_unsat = 0, z3_unknown = 0, dom_queries = 0, dom_checked = 0, model_hits = 0, cache_hits = 0,
        cert = 0, cert_skipped = 0; double z3_time = 0, z3_max = 0, cert_time = 0;
};
static SolverStats g_st;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Dom { // interned per-variable value sets
    std::vector<Set256> sets; std::map<Set256, uint32_t> ids;
    Dom() { get(Set256{~0ULL, ~0ULL, ~0ULL, ~0ULL}); }
    uint32_t get(const Set256 &s) { auto it = ids.find(s); if (it != ids.end()) return it->second; uint32_t i = (uint32_t)sets.size(); sets.push_back(s); ids[s] = i; return i; }
};
static Dom g_dom;

struct Z3S {
    Z3_context c = nullptr; Z3_solver s = nullptr, sf = nullptr; unsigned asserted = 0, assertedF = 0; unsigned timeout = 60000;
    std::vector<E> lits, litsF;
    static void onerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(70); }
    void init() {
        Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, onerr);
    }
    Z3_solver fresh(bool fp) {
        Z3_solver x = fp ? Z3_mk_solver(c) : Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
        Z3_solver_inc_ref(c, x);
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "random_seed"), 1);
        Z3_solver_set_params(c, x, p); Z3_params_dec_ref(c, p); return x;
    }
    Z3_ast ref(Z3_ast a) { Z3_inc_ref(c, a); return a; }
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(c, w); }
    Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, bv(1)), Z3_mk_unsigned_int64(c, 0, bv(1))); }
    Z3_ast tofp(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(c, a, w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c)); }
    Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c); }
    Z3_ast tr(E e) {
        if (e->z3) return (Z3_ast)e->z3;
        Z3_ast r = nullptr, a = e->a ? tr(e->a) : nullptr, b = e->b ? tr(e->b) : nullptr, d = e->d ? tr(e->d) : nullptr;
        Z3_ast rm = e->fp ? Z3_mk_fpa_rne(c) : nullptr; unsigned sw = e->a ? e->a->w : 0;
        switch (e->op) {
            case CONST: r = Z3_mk_unsigned_int64(c, e->c, bv(e->w)); break;
            case VAR: { char n[32]; snprintf(n, sizeof n, "b%llu", (unsigned long long)e->c); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n), bv(8)); break; }
            case CONCAT: r = Z3_mk_concat(c, a, b); break;
            case EXTRACT: r = Z3_mk_extract(c, (unsigned)e->c + e->w - 1, (unsigned)e->c, a); break;
            case ZEXT: r = Z3_mk_zero_ext(c, e->w - sw, a); break;
            case SEXT: r = Z3_mk_sign_ext(c, e->w - sw, a); break;
            case ADD: r = Z3_mk_bvadd(c, a, b); break; case SUB: r = Z3_mk_bvsub(c, a, b); break;
            case MUL: r = Z3_mk_bvmul(c, a, b); break; case UDIV: r = Z3_mk_bvudiv(c, a, b); break;
            case SDIV: r = Z3_mk_bvsdiv(c, a, b); break; case UREM: r = Z3_mk_bvurem(c, a, b); break;
            case SREM: r = Z3_mk_bvsrem(c, a, b); break; case AND: r = Z3_mk_bvand(c, a, b); break;
            case OR: r = Z3_mk_bvor(c, a, b); break; case XOR: r = Z3_mk_bvxor(c, a, b); break;
            case SHL: r = Z3_mk_bvshl(c, a, b); break; case LSHR: r = Z3_mk_bvlshr(c, a, b); break;
            case ASHR: r = Z3_mk_bvashr(c, a, b); break; case EQ: r = b2v(Z3_mk_eq(c, a, b)); break;
            case ULT: r = b2v(Z3_mk_bvult(c, a, b)); break; case ULE: r = b2v(Z3_mk_bvule(c, a, b)); break;
            case SLT: r = b2v(Z3_mk_bvslt(c, a, b)); break; case SLE: r = b2v(Z3_mk_bvsle(c, a, b)); break;
            case ITE: r = Z3_mk_ite(c, Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, bv(1))), b, d); break;
            case NOT: r = Z3_mk_bvnot(c, a); break;
            case HORN: r = a; break;
            case FADD: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rm, tofp(a, sw), tofp(b, sw))); break;
            case FSUB: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rm, tofp(a, sw), tofp(b, sw))); break;
            case FMUL: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rm, tofp(a, sw), tofp(b, sw))); break;
            case FDIV: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rm, tofp(a, sw), tofp(b, sw))); break;
            case FREM: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_rem(c, tofp(a, sw), tofp(b, sw))); break;
            case FEQ: r = b2v(Z3_mk_fpa_eq(c, tofp(a, sw), tofp(b, sw))); break;
            case FLT: r = b2v(Z3_mk_fpa_lt(c, tofp(a, sw), tofp(b, sw))); break;
            case FLE: r = b2v(Z3_mk_fpa_leq(c, tofp(a, sw), tofp(b, sw))); break;
            case FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(c, tofp(a, sw)), Z3_mk_fpa_is_nan(c, tofp(b, sw))}; r = b2v(Z3_mk_or(c, 2, x)); break; }
            case FPEXT: case FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rm, tofp(a, sw), fsort(e->w))); break;
            case SITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rm, a, fsort(e->w))); break;
            case UITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rm, a, fsort(e->w))); break;
            case FPTOSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), tofp(a, sw), e->w); break;
            case FPTOUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), tofp(a, sw), e->w); break;
            case FNEG: r = Z3_mk_bvxor(c, a, Z3_mk_unsigned_int64(c, 1ULL << (e->w - 1), bv(e->w))); break;
        }
        e->z3 = ref(r); return r;
    }
    Z3_ast lit(E e) { // assumption literal standing for e (width 1)
        if (!e->lit) { char n[32]; snprintf(n, sizeof n, "p%u", e->id); e->lit = ref(Z3_mk_const(c, Z3_mk_string_symbol(c, n), Z3_mk_bool_sort(c))); }
        return (Z3_ast)e->lit;
    }
    std::set<uint32_t> inS, inF;
    // conjunction of es satisfiable?  1 / 0 / -1 (unknown); on sat fills values of the variables in vars
    int check(const std::vector<E> &es, const std::vector<uint32_t> &vars, std::vector<std::pair<uint32_t, uint8_t>> &out) {
        bool fp = false; for (E e : es) fp |= e->fp;
        Z3_solver &S = fp ? sf : s; auto &in = fp ? inF : inS;
        if (S && in.size() > 3000) { Z3_solver_dec_ref(c, S); S = nullptr; }
        if (!S) { S = fresh(fp); in.clear(); }
        std::vector<Z3_ast> as;
        for (E e : es) {
            Z3_ast l = lit(e); as.push_back(l);
            if (in.insert(e->id).second)
                Z3_solver_assert(c, S, Z3_mk_implies(c, l, Z3_mk_eq(c, tr(e), Z3_mk_unsigned_int64(c, 1, bv(1)))));
        }
        double t = now();
        Z3_lbool r = Z3_solver_check_assumptions(c, S, (unsigned)as.size(), as.data());
        t = now() - t; g_st.z3_time += t; g_st.z3_queries++; if (t > g_st.z3_max) g_st.z3_max = t;
        static bool slow = getenv("SX_SLOW"); if (slow && t > 0.2) { fprintf(stderr, "SLOW %.1fs r=%d\n", t, (int)r); for (E e : es) { const char *z = Z3_ast_to_string(c, tr(e)); fprintf(stderr, "  %.2700s\n", z); } }
        if (r == Z3_L_TRUE) {
            g_st.z3_sat++;
            Z3_model m = Z3_solver_get_model(c, S); Z3_model_inc_ref(c, m);
            for (uint32_t v : vars) { Z3_ast val; uint64_t x = 0; if (Z3_model_eval(c, m, tr(mkVar(v)), true, &val)) { Z3_inc_ref(c, val); Z3_get_numeral_uint64(c, val, &x); Z3_dec_ref(c, val); } out.push_back({v, (uint8_t)x}); }
            Z3_model_dec_ref(c, m); return 1;
        }
        if (r == Z3_L_FALSE) { g_st.z3_unsat++; return 0; }
        g_st.z3_unknown++; return -1;
    }
};
static Z3S g_z3;

static std::map<std::pair<uint32_t, uint32_t>, E> g_domE;
static E domExpr(uint32_t v, uint32_t dom) { // domain of v as an expression
    auto k = std::make_pair(v, dom); auto it = g_domE.find(k); if (it != g_domE.end()) return it->second;
    const Set256 s = g_dom.sets[dom]; E x = mkVar(v), r = K(0, 1);
    for (int i = 0; i < 256;) { if (!hasIn(s, i)) { ++i; continue; } int j = i; while (j + 1 < 256 && hasIn(s, j + 1)) ++j;
        E in = mkBin(AND, mkBin(ULE, K((uint64_t)i, 8), x), mkBin(ULE, x, K((uint64_t)j, 8))); r = mkBin(OR, r, in); i = j + 1; }
    g_domE[k] = r; return r;
}

// Every condition on one byte is decided by the set of its values; the solver confirms that the condition and the set
// are equivalent (once per shape of the condition, within a share of the running time; the rest are counted).
static uint64_t shapeOf(E e) {
    static std::unordered_map<uint32_t, uint64_t> memo; if (!e) return 7; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
    uint64_t h = 0x9E3779B97F4A7C15ull * (e->op + 1) + e->w; auto mix = [&](uint64_t x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; };
    mix(e->op == VAR ? 0 : e->c); mix(shapeOf(e->a)); mix(shapeOf(e->b)); mix(shapeOf(e->d)); return memo[e->id] = h;
}
static void certify(E e, const Set256 &s) {
    static std::set<uint64_t> done; static Z3_solver S = nullptr; static double start = now(); if (!done.insert(shapeOf(e)).second) return;
    if (e->fp || g_st.cert_time > 1 + 0.1 * (now() - start)) { g_st.cert_skipped++; return; }
    double t = now(); Z3_context c = g_z3.c; if (!S) { S = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, S); Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), 5000); Z3_solver_set_params(c, S, p); Z3_params_dec_ref(c, p); }
    uint32_t v = (*e->sup)[0]; E x = mkVar(v), in = K(0, 1); for (int i = 0; i < 256;) { if (!(s[i >> 6] >> (i & 63) & 1)) { ++i; continue; } int j = i; while (j + 1 < 256 && (s[(j + 1) >> 6] >> ((j + 1) & 63) & 1)) ++j; E r = mkBin(AND, mkBin(ULE, K((uint64_t)i, 8), x), mkBin(ULE, x, K((uint64_t)j, 8))); in = mkBin(OR, in, r); i = j + 1; }
    Z3_solver_push(c, S); Z3_solver_assert(c, S, Z3_mk_not(c, Z3_mk_eq(c, g_z3.tr(e), g_z3.tr(in)))); Z3_lbool r = Z3_solver_check(c, S); Z3_solver_pop(c, S, 1);
    if (r == Z3_L_TRUE) { fprintf(stderr, "the set of values of a condition is wrong: %s\n", Z3_ast_to_string(c, g_z3.tr(e))); exit(71); }
    if (r == Z3_L_FALSE) g_st.cert++; else g_st.cert_skipped++; g_st.cert_time += now() - t;
}
