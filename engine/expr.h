// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Kind : u8 { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
                 K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE };

struct Expr {
    Kind k; u8 w; bool taint; u32 id; u64 v;      // v: const value / var index / extract low bit
    Expr *a, *b, *c;
    std::vector<u32>* vars;                       // sorted variable indices
    u64 evalStamp, evalVal;
};
typedef Expr* E;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx64(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; bool uninit; };

struct ExprPool {
    struct Key { u64 x, y, z, v; bool operator==(const Key& o) const { return x==o.x&&y==o.y&&z==o.z&&v==o.v; } };
    struct KH { size_t operator()(const Key& k) const { u64 h = k.x*0x9E3779B97F4A7C15ull ^ (k.y+0x7F4A7C15)*0xC2B2AE3D27D4EB4Full ^ (k.z+0x1656)*0x165667B19E3779F9ull ^ (k.v+1)*0xD6E8FEB86659FD93ull; return h ^ (h>>29); } };
    std::unordered_map<Key, E, KH> tab;
    std::vector<VarInfo> vars;
    std::vector<u32>* novars = new std::vector<u32>();
    u32 nextId = 1;
    static ExprPool& P() { static ExprPool p; return p; }

    E raw(Kind k, unsigned w, u64 v, E a = nullptr, E b = nullptr, E c = nullptr) {
        Key key{ ((u64)k << 56) | ((u64)w << 48) | (a ? a->id : 0), b ? b->id : 0, c ? c->id : 0, v };
        auto it = tab.find(key);
        if (it != tab.end()) return it->second;
        E e = new Expr();
        e->k = k; e->w = w; e->v = v; e->a = a; e->b = b; e->c = c; e->id = nextId++; e->evalStamp = 0;
        e->taint = (a && a->taint) || (b && b->taint) || (c && c->taint);
        if (k == K_CONST) e->vars = novars;
        else if (k == K_VAR) { e->vars = new std::vector<u32>{ (u32)v }; e->taint = vars[v].uninit; }
        else {
            std::vector<u32>* r = a->vars;
            for (E x : { b, c }) if (x && x->vars != r && !x->vars->empty()) {
                if (r->empty()) { r = x->vars; continue; }
                std::vector<u32> m; m.reserve(r->size() + x->vars->size());
                size_t i = 0, j = 0;
                while (i < r->size() || j < x->vars->size()) {
                    if (j == x->vars->size() || (i < r->size() && (*r)[i] < (*x->vars)[j])) m.push_back((*r)[i++]);
                    else if (i == r->size() || (*x->vars)[j] < (*r)[i]) m.push_back((*x->vars)[j++]);
                    else { m.push_back((*r)[i++]); j++; }
                }
                if (m == *r) continue;
                if (m == *x->vars) { r = x->vars; continue; }
                r = new std::vector<u32>(std::move(m));
            }
            e->vars = r;
        }
        tab.emplace(key, e);
        return e;
    }
};
static inline E mkC(u64 v, unsigned w) { return ExprPool::P().raw(K_CONST, w, v & maskw(w)); }
static inline E mkVar(const std::string& n, unsigned w, bool uninit = false) {
    auto& p = ExprPool::P(); p.vars.push_back({ n, w, uninit });
    return p.raw(K_VAR, w, p.vars.size() - 1);
}
static inline bool isC(E e) { return e->k == K_CONST; }

static inline u64 foldBin(Kind k, unsigned w, u64 a, u64 b) {
    u64 m = maskw(w);
    switch (k) {
        case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
        case K_UDIV: return b ? a / b : m; case K_UREM: return b ? a % b : a;
        case K_SDIV: { i64 x = sx64(a, w), y = sx64(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
        case K_SREM: { i64 x = sx64(a, w), y = sx64(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
        case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
        case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
        case K_ASHR: return (u64)(sx64(a, w) >> (b >= w ? w - 1 : b)) & m;
        case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
        case K_SLT: return sx64(a, w) < sx64(b, w); case K_SLE: return sx64(a, w) <= sx64(b, w);
        default: return 0;
    }
}
E mkBin(Kind k, E a, E b);
E mkExtract(E e, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkIte(E c, E a, E b);
E mkNot(E e);

struct Model { std::unordered_map<u32, u64> m; };
u64 evalExpr(E e, const Model& m);
std::string exprStr(E e, int depth = 6);
