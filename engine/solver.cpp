#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
SolverStats g_ss;
static Z3_context C; static unsigned g_tmo;
static std::unordered_map<u32, Z3_ast> bvMemo, blMemo;
static Z3_ast hold(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast toBV(E e);
static Z3_ast toBool(E e) {
    auto it = blMemo.find(e->id); if (it != blMemo.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
        case K_CONST: r = e->v ? Z3_mk_true(C) : Z3_mk_false(C); break;
        case K_EQ: r = e->a->w == 1 ? Z3_mk_iff(C, toBool(e->a), toBool(e->b)) : Z3_mk_eq(C, toBV(e->a), toBV(e->b)); break;
        case K_ULT: r = Z3_mk_bvult(C, toBV(e->a), toBV(e->b)); break;
        case K_ULE: r = Z3_mk_bvule(C, toBV(e->a), toBV(e->b)); break;
        case K_SLT: r = Z3_mk_bvslt(C, toBV(e->a), toBV(e->b)); break;
        case K_SLE: r = Z3_mk_bvsle(C, toBV(e->a), toBV(e->b)); break;
        case K_AND: { Z3_ast x[2] = { toBool(e->a), toBool(e->b) }; r = Z3_mk_and(C, 2, x); break; }
        case K_OR: { Z3_ast x[2] = { toBool(e->a), toBool(e->b) }; r = Z3_mk_or(C, 2, x); break; }
        case K_XOR: if (isC(e->b) && e->b->v) r = Z3_mk_not(C, toBool(e->a)); else r = Z3_mk_xor(C, toBool(e->a), toBool(e->b)); break;
        case K_ITE: r = Z3_mk_ite(C, toBool(e->a), toBool(e->b), toBool(e->c)); break;
        default: r = Z3_mk_eq(C, toBV(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
    }
    return blMemo[e->id] = hold(r);
}
static Z3_ast toBV(E e) {
    auto it = bvMemo.find(e->id); if (it != bvMemo.end()) return it->second;
    Z3_ast r; 
    if (e->w == 1 && e->k != K_VAR && e->k != K_CONST && e->k != K_EXTRACT && !(e->k>=K_ADD && e->k<=K_SREM) && !(e->k>=K_SHL&&e->k<=K_ASHR)) {
        Z3_sort s1 = Z3_mk_bv_sort(C, 1);
        r = Z3_mk_ite(C, toBool(e), Z3_mk_unsigned_int64(C, 1, s1), Z3_mk_unsigned_int64(C, 0, s1));
        return bvMemo[e->id] = hold(r);
    }
    switch (e->k) {
        case K_CONST: r = Z3_mk_unsigned_int64(C, e->v, Z3_mk_bv_sort(C, e->w)); break;
        case K_VAR: r = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->v), Z3_mk_bv_sort(C, e->w)); break;
#define B(K, f) case K: r = f(C, toBV(e->a), toBV(e->b)); break;
        B(K_ADD, Z3_mk_bvadd) B(K_SUB, Z3_mk_bvsub) B(K_MUL, Z3_mk_bvmul) B(K_UDIV, Z3_mk_bvudiv) B(K_SDIV, Z3_mk_bvsdiv)
        B(K_UREM, Z3_mk_bvurem) B(K_SREM, Z3_mk_bvsrem) B(K_AND, Z3_mk_bvand) B(K_OR, Z3_mk_bvor) B(K_XOR, Z3_mk_bvxor)
        B(K_SHL, Z3_mk_bvshl) B(K_LSHR, Z3_mk_bvlshr) B(K_ASHR, Z3_mk_bvashr) B(K_CONCAT, Z3_mk_concat)
        case K_EXTRACT: r = Z3_mk_extract(C, e->v + e->w - 1, e->v, toBV(e->a)); break;
        case K_ZEXT: r = e->a->w == 1 && e->a->k != K_EXTRACT && e->a->k != K_VAR ? Z3_mk_ite(C, toBool(e->a), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, e->w)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, e->w)))
                                      : Z3_mk_zero_ext(C, e->w - e->a->w, toBV(e->a)); break;
        case K_SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, toBV(e->a)); break;
        case K_ITE: r = Z3_mk_ite(C, toBool(e->a), toBV(e->b), toBV(e->c)); break;
        default: r = Z3_mk_ite(C, toBool(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1)));
    }
    return bvMemo[e->id] = hold(r);
}
void solverInit(unsigned timeoutMs) {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg); g_tmo = timeoutMs; Z3_del_config(cfg);
}
struct CacheEnt { SatRes r; std::vector<std::pair<u32, u64>> m; };
struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<u32>, CacheEnt, VH> cache;
bool g_incremental = false; static Z3_solver INC; static std::vector<u32> incStack;
static std::vector<std::vector<std::pair<u32,u64>>> recent; // recent models to try

// Constraints over one variable of at most 8 bits: exact truth tables (one entry per value of the variable).
typedef std::vector<u64> Tab; // 256 values
static std::unordered_map<u32, Tab*> tabMemo;
static const Tab* table(E e) {
    auto it = tabMemo.find(e->id); if (it != tabMemo.end()) return it->second;
    Tab* t = new Tab(256); u64 m = maskw(e->w);
    if (e->k == K_CONST) for (int i = 0; i < 256; i++) (*t)[i] = e->v;
    else if (e->k == K_VAR) for (int i = 0; i < 256; i++) (*t)[i] = i & m;
    else {
        const Tab *a = table(e->a), *b = e->b ? table(e->b) : nullptr, *c = e->c ? table(e->c) : nullptr;
        for (int i = 0; i < 256; i++) { u64 x = (*a)[i], r;
            switch (e->k) {
                case K_CONCAT: r = (x << e->b->w) | (*b)[i]; break; case K_EXTRACT: r = x >> e->v; break; case K_ZEXT: r = x; break;
                case K_SEXT: r = (u64)sx64(x, e->a->w); break; case K_ITE: r = x ? (*b)[i] : (*c)[i]; break;
                default: r = foldBin(e->k, e->a->w, x, (*b)[i]); }
            (*t)[i] = r & m; }
    }
    tabMemo[e->id] = t; return t;
}
struct Bits { u64 b[4]; };
static std::unordered_map<u32, Bits> bitMemo;
static const Bits& truth(E e) {
    auto it = bitMemo.find(e->id); if (it != bitMemo.end()) return it->second;
    if (tabMemo.size() > 60000) { for (auto& p : tabMemo) delete p.second; tabMemo.clear(); }
    const Tab* t = table(e); Bits r = { { 0, 0, 0, 0 } }; for (int i = 0; i < 256; i++) if ((*t)[i]) r.b[i >> 6] |= 1ull << (i & 63);
    return bitMemo[e->id] = r;
}

bool oneValueLeft(const std::vector<E>& cs, u32 v) {
    unsigned w = ExprPool::P().vars[v].w; if (w > 8) return false;
    Bits d = { { ~0ull, ~0ull, ~0ull, ~0ull } }; for (unsigned i = 1u << w; i < 256; i++) d.b[i >> 6] &= ~(1ull << (i & 63));
    for (E e : cs) if (e->vars->size() == 1 && (*e->vars)[0] == v) { const Bits& x = truth(e); for (int i = 0; i < 4; i++) d.b[i] &= x.b[i]; }
    int n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(d.b[i]); return n == 1;
}

// Constraints over a few variables of at most 8 bits: exact search over the values that the unary constraints leave, with a
// work limit (beyond it the query goes to z3).
struct Plan {
    std::vector<u32> vars; std::vector<std::vector<u64>> dom; std::vector<std::vector<E>> nodes; std::vector<std::vector<u32>> cons; // per level
    std::unordered_map<u32, u32> slot; std::vector<u64> val; std::vector<u64> pick; long budget;
    unsigned level(E e) { unsigned l = 0; for (u32 v : *e->vars) for (unsigned i = 0; i < vars.size(); i++) if (vars[i] == v && i > l) l = i; return l; }
    void add(E e) {
        if (slot.count(e->id)) return;
        if (e->k != K_CONST && e->k != K_VAR) { add(e->a); if (e->b) add(e->b); if (e->c) add(e->c); }
        u32 n = slot.size(); slot[e->id] = n; nodes[e->k == K_CONST ? 0 : level(e)].push_back(e);
    }
    int run(unsigned l) { // 1 found, 0 none, -1 budget
        if (l == vars.size()) return 1;
        for (u64 x : dom[l]) {
            pick[l] = x; budget -= nodes[l].size() + 1; if (budget < 0) return -1;
            for (E e : nodes[l]) { u64 r;
                auto V = [&](E y) { return val[slotOf[y->id]]; };
                switch (e->k) {
                    case K_CONST: r = e->v; break; case K_VAR: r = x; break;
                    case K_CONCAT: r = (V(e->a) << e->b->w) | V(e->b); break; case K_EXTRACT: r = V(e->a) >> e->v; break; case K_ZEXT: r = V(e->a); break;
                    case K_SEXT: r = (u64)sx64(V(e->a), e->a->w); break; case K_ITE: r = V(e->a) ? V(e->b) : V(e->c); break;
                    default: r = foldBin(e->k, e->a->w, V(e->a), V(e->b)); }
                val[slotOf[e->id]] = r & maskw(e->w); }
            bool ok = true; for (u32 c : cons[l]) if (!val[c]) { ok = false; break; }
            if (ok) { int r = run(l + 1); if (r) return r; }
        }
        return 0;
    }
    static std::vector<u32> slotOf;
};
std::vector<u32> Plan::slotOf;
static int enumerate(const std::vector<E>& sl, E q, const std::unordered_set<u32>& vs, std::vector<std::pair<u32, u64>>& m) {
    if (vs.size() > 6) return -1;
    Plan p; std::vector<std::pair<std::vector<u64>, u32>> ds;
    for (u32 v : vs) {
        unsigned w = ExprPool::P().vars[v].w; if (w > 8) return -1;
        Bits d = { { ~0ull, ~0ull, ~0ull, ~0ull } };
        auto meet = [&](E e) { if (e->vars->size() == 1 && (*e->vars)[0] == v) { const Bits& x = truth(e); for (int i = 0; i < 4; i++) d.b[i] &= x.b[i]; } };
        for (E e : sl) meet(e); meet(q);
        std::vector<u64> dd; for (unsigned i = 0; i < (1u << w); i++) if (d.b[i >> 6] >> (i & 63) & 1) dd.push_back(i);
        if (dd.empty()) return 0;
        ds.push_back({ dd, v });
    }
    std::sort(ds.begin(), ds.end(), [](const std::pair<std::vector<u64>, u32>& a, const std::pair<std::vector<u64>, u32>& b) { return a.first.size() != b.first.size() ? a.first.size() < b.first.size() : a.second < b.second; });
    for (auto& x : ds) { p.vars.push_back(x.second); p.dom.push_back(x.first); }
    size_t n = ds.size(); p.nodes.resize(n); p.cons.resize(n); p.pick.resize(n);
    auto con = [&](E e) { if (e->vars->size() < 2) return; p.add(e); p.cons[p.level(e)].push_back(p.slot[e->id]); };
    for (E e : sl) con(e); con(q);
    u32 mx = 0; for (auto& x : p.slot) mx = std::max(mx, x.first);
    if (Plan::slotOf.size() <= mx) Plan::slotOf.resize(mx + 1024);
    for (auto& x : p.slot) Plan::slotOf[x.first] = x.second;
    p.val.resize(p.slot.size()); p.budget = 4000000;
    int r = p.run(0); if (r == 1) for (size_t i = 0; i < n; i++) m.push_back({ p.vars[i], p.pick[i] });
    return r;
}

// every 1024th finite-domain verdict is put to z3 as well
static void crossCheck(const std::vector<E>& cs, E q, const Model& base, SatRes r) {
    if (g_ss.table % 1024 != 1) return;
    cache.clear(); unsigned t = g_tmo; g_tmo = 2000; Model m; SatRes z = solve(cs, q, base, m, true); g_tmo = t; cache.clear();
    if (z != UNKNOWN && z != r) { fprintf(stderr, "symx: internal: finite-domain verdict differs from z3\n"); abort(); }
    g_ss.cross += z != UNKNOWN;
}

SatRes solve(const std::vector<E>& cs, E q, const Model& base, Model& out, bool smt) {
    if (isC(q)) { if (q->v) { out = base; return SAT; } return UNSAT; }
    // slice
    std::vector<E> sl; std::unordered_set<u32> vs(q->vars->begin(), q->vars->end());
    std::vector<char> used(cs.size(), 0); bool ch = true;
    while (ch) { ch = false;
        for (size_t i = cs.size(); i-- > 0;) if (!used[i]) {
            bool hit = false; for (u32 v : *cs[i]->vars) if (vs.count(v)) { hit = true; break; }
            if (hit) { used[i] = 1; sl.push_back(cs[i]); for (u32 v : *cs[i]->vars) if (vs.insert(v).second) ch = true; }
        } }
    if (!smt && vs.size() == 1 && ExprPool::P().vars[*vs.begin()].w <= 8) {
        g_ss.table++; Bits d = truth(q); unsigned n = 1u << ExprPool::P().vars[*vs.begin()].w;
        for (E e : sl) { const Bits& x = truth(e); for (int i = 0; i < 4; i++) d.b[i] &= x.b[i]; }
        SatRes tr = UNSAT; for (unsigned i = 0; i < n && tr == UNSAT; i++) if (d.b[i >> 6] >> (i & 63) & 1) { out = base; out.m[*vs.begin()] = i; tr = SAT; }
        crossCheck(cs, q, base, tr);
        return tr;
    }
    std::vector<u32> key; for (E e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(q->id);
    auto it = cache.find(key);
    if (it != cache.end()) { g_ss.cacheHits++; if (it->second.r == SAT) { out = base; for (auto& p : it->second.m) out.m[p.first] = p.second; } return it->second.r; }
    // try recent models
    for (size_t t = recent.size(); t-- > 0;) {
        Model mm = base; for (auto& p : recent[t]) if (vs.count(p.first)) mm.m[p.first] = p.second;
        if (!evalExpr(q, mm)) continue; bool ok = true; for (E e : sl) if (!evalExpr(e, mm)) { ok = false; break; }
        if (ok) { g_ss.modelHits++; out = mm; return SAT; }
    }
    if (!smt) {
        CacheEnt ce; int r = enumerate(sl, q, vs, ce.m);
        if (r >= 0) {
            g_ss.table++; ce.r = r ? SAT : UNSAT; SatRes rr = ce.r;
            if (r) { out = base; for (auto& p : ce.m) out.m[p.first] = p.second; bool ok = evalExpr(q, out); for (E e : sl) ok = ok && evalExpr(e, out); if (!ok) { fprintf(stderr, "symx: internal: model check failed\n"); abort(); } recent.push_back(ce.m); if (recent.size() > 12) recent.erase(recent.begin()); }
            cache.emplace(key, std::move(ce)); crossCheck(cs, q, base, rr); return rr;
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    g_ss.queries++;
    if (g_incremental) { // small queries: one live solver that follows the path condition
        if (!INC) { INC = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, INC); Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 300); Z3_solver_set_params(C, INC, p); Z3_params_dec_ref(C, p); }
        size_t k = 0; while (k < incStack.size() && k < cs.size() && incStack[k] == cs[k]->id) k++;
        if (k < incStack.size()) { Z3_solver_pop(C, INC, incStack.size() - k); incStack.resize(k); }
        for (; k < cs.size(); k++) { Z3_solver_push(C, INC); Z3_solver_assert(C, INC, toBool(cs[k])); incStack.push_back(cs[k]->id); }
        Z3_solver_push(C, INC); Z3_solver_assert(C, INC, toBool(q));
        Z3_lbool r = Z3_solver_check(C, INC); CacheEnt ce; bool done = false;
        if (r == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(C, INC); Z3_model_inc_ref(C, m); out = base;
            for (u32 v : vs) { Z3_ast x = toBV(ExprPool::P().raw(K_VAR, ExprPool::P().vars[v].w, v)), y = nullptr; uint64_t val = 0; if (Z3_model_eval(C, m, x, true, &y) && y) Z3_get_numeral_uint64(C, y, &val); out.m[v] = val; ce.m.push_back({ v, val }); }
            Z3_model_dec_ref(C, m);
            bool ok = evalExpr(q, out); for (E e : sl) ok = ok && evalExpr(e, out);
            if (ok) { done = true; ce.r = SAT; g_ss.sat++; recent.push_back(ce.m); if (recent.size() > 12) recent.erase(recent.begin()); }
        } else if (r == Z3_L_FALSE) { done = true; ce.r = UNSAT; g_ss.unsat++; }
        Z3_solver_pop(C, INC, 1);
        if (done) { g_ss.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); SatRes rr = ce.r; cache.emplace(std::move(key), std::move(ce)); return rr; }
    }
    Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_tmo); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
    for (E e : sl) Z3_solver_assert(C, s, toBool(e));
    Z3_solver_assert(C, s, toBool(q));
    Z3_lbool r = Z3_solver_check(C, s);
    CacheEnt ce;
    if (r == Z3_L_TRUE) {
        g_ss.sat++; ce.r = SAT;
        Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
        out = base;
        for (u32 v : vs) {
            Z3_ast x = toBV(ExprPool::P().raw(K_VAR, ExprPool::P().vars[v].w, v)), y = nullptr; uint64_t val = 0;
            if (Z3_model_eval(C, m, x, true, &y) && y) { Z3_inc_ref(C, y); Z3_get_numeral_uint64(C, y, &val); Z3_dec_ref(C, y); }
            out.m[v] = val; ce.m.push_back({ v, val });
        }
        Z3_model_dec_ref(C, m);
        bool ok = evalExpr(q, out); for (E e : sl) ok = ok && evalExpr(e, out);
        if (!ok) { fprintf(stderr, "symx: internal: model check failed\n"); abort(); }
        recent.push_back(ce.m); if (recent.size() > 12) recent.erase(recent.begin());
    } else if (r == Z3_L_FALSE) { g_ss.unsat++; ce.r = UNSAT; }
    else { g_ss.unknown++; ce.r = UNKNOWN; }
    Z3_solver_dec_ref(C, s);
    g_ss.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    SatRes rr = ce.r; cache.emplace(std::move(key), std::move(ce));
    return rr;
}
