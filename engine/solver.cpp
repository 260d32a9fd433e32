#include "solver.h"
#include <algorithm>
#include <chrono>
#include <set>
namespace tse {
Solver S;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void Solver::init() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, errh);
}
Z3_ast Solver::tr(E e) {
    auto it = ast.find(e);
    if (it != ast.end()) return it->second;
    Z3_ast r;
    auto bv = [&](unsigned w) { return Z3_mk_bv_sort(ctx, w); };
    auto b2bv = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1))); };
    Z3_ast a = e->a ? tr(e->a) : nullptr, b = e->b ? tr(e->b) : nullptr, k = e->k ? tr(e->k) : nullptr;
    switch (e->op) {
    case CONST: r = Z3_mk_unsigned_int64(ctx, e->c, bv(e->w)); break;
    case SYM: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("s" + std::to_string(e->c)).c_str()), bv(e->w)); break;
    case ADD: r = Z3_mk_bvadd(ctx, a, b); break;
    case SUB: r = Z3_mk_bvsub(ctx, a, b); break;
    case MUL: r = Z3_mk_bvmul(ctx, a, b); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
    case UREM: r = Z3_mk_bvurem(ctx, a, b); break;
    case SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
    case SHL: r = Z3_mk_bvshl(ctx, a, b); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
    case ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
    case AND: r = Z3_mk_bvand(ctx, a, b); break;
    case OR: r = Z3_mk_bvor(ctx, a, b); break;
    case XOR: r = Z3_mk_bvxor(ctx, a, b); break;
    case CONCAT: r = Z3_mk_concat(ctx, a, b); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, a); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, a); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, a); break;
    case EQ: r = b2bv(Z3_mk_eq(ctx, a, b)); break;
    case ULT: r = b2bv(Z3_mk_bvult(ctx, a, b)); break;
    case ULE: r = b2bv(Z3_mk_bvule(ctx, a, b)); break;
    case SLT: r = b2bv(Z3_mk_bvslt(ctx, a, b)); break;
    case SLE: r = b2bv(Z3_mk_bvsle(ctx, a, b)); break;
    case ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, a, Z3_mk_unsigned_int64(ctx, 1, bv(1))), b, k); break;
    default: abort();
    }
    ast.emplace(e, r);
    return r;
}
SatResult Solver::check(const std::vector<E> &pc, E cond, Model *model) {
    // slice
    std::vector<E> sl{cond};
    std::vector<char> used(pc.size(), 0);
    std::set<uint32_t> syms(cond->syms.begin(), cond->syms.end());
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (used[i]) continue;
            bool hit = false;
            for (uint32_t s : pc[i]->syms) if (syms.count(s)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; ch = true;
            sl.push_back(pc[i]);
            syms.insert(pc[i]->syms.begin(), pc[i]->syms.end());
        }
    }
    std::sort(sl.begin(), sl.end(), [](E a, E b) { return a->id < b->id; });
    sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
    std::string key((const char *)sl.data(), sl.size() * sizeof(E));
    auto it = cache.find(key);
    if (it != cache.end()) {
        st.cacheHits++;
        if (it->second.first == SAT && model) for (auto &p : it->second.second) model->set(p.first, p.second);
        return it->second.first;
    }
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver s = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    for (E e : sl) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))));
    Z3_lbool lr = Z3_solver_check(ctx, s);
    st.queries++;
    SatResult r = lr == Z3_L_TRUE ? SAT : lr == Z3_L_FALSE ? UNSAT : UNKNOWN;
    std::vector<std::pair<uint32_t, uint64_t>> mv;
    if (r == SAT) {
        st.sat++;
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        for (uint32_t sy : syms) {
            E se = mkRaw(SYM, P.symW[sy], sy);
            Z3_ast v = nullptr;
            uint64_t x = 0;
            if (Z3_model_eval(ctx, m, tr(se), true, &v) && v) Z3_get_numeral_uint64(ctx, v, &x);
            mv.push_back({sy, x});
        }
        Z3_model_dec_ref(ctx, m);
    } else if (r == UNSAT) st.unsat++;
    else st.unknown++;
    Z3_solver_dec_ref(ctx, s);
    st.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (cache.size() > 2000000) cache.clear();
    if (r == SAT && model) for (auto &p : mv) model->set(p.first, p.second);
    cache.emplace(std::move(key), std::make_pair(r, std::move(mv)));
    return r;
}
} // namespace tse
