#include "expr.h"
static inline E R(Kind k, unsigned w, u64 v, E a=nullptr, E b=nullptr, E c=nullptr) { return ExprPool::P().raw(k,w,v,a,b,c); }
static bool isCmp(Kind k){ return k>=K_EQ && k<=K_SLE; }
static bool commut(Kind k){ return k==K_ADD||k==K_MUL||k==K_AND||k==K_OR||k==K_XOR||k==K_EQ; }

E mkNot(E e) {
    if (isC(e)) return mkC(!e->v, 1);
    if (e->k == K_XOR && isC(e->b) && e->w == 1 && e->b->v == 1) return e->a;
    if (e->k == K_ULT) return mkBin(K_ULE, e->b, e->a);
    if (e->k == K_ULE) return mkBin(K_ULT, e->b, e->a);
    if (e->k == K_SLT) return mkBin(K_SLE, e->b, e->a);
    if (e->k == K_SLE) return mkBin(K_SLT, e->b, e->a);
    return R(K_XOR, 1, 0, e, mkC(1, 1));
}
// number of leading (high) bits known zero
static unsigned hz(E e, int d = 6) {
    if (isC(e)) { unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((e->v >> i) & 1); i--) n++; return n; }
    if (d == 0) return 0;
    switch (e->k) {
        case K_ZEXT: return e->w - e->a->w + hz(e->a, d-1);
        case K_AND: { unsigned x = hz(e->a, d-1), y = hz(e->b, d-1); return x > y ? x : y; }
        case K_OR: case K_XOR: { unsigned x = hz(e->a, d-1), y = hz(e->b, d-1); return x < y ? x : y; }
        case K_ITE: { unsigned x = hz(e->b, d-1), y = hz(e->c, d-1); return x < y ? x : y; }
        case K_LSHR: if (isC(e->b)) { u64 s = e->b->v >= e->w ? e->w : e->b->v; u64 r = hz(e->a, d-1) + s; return r > e->w ? e->w : r; } return hz(e->a, d-1);
        case K_CONCAT: { unsigned x = hz(e->a, d-1); return x == e->a->w ? x + hz(e->b, d-1) : x; }
        case K_ADD: { unsigned x = hz(e->a,d-1), y = hz(e->b,d-1); unsigned m = x<y?x:y; return m ? m-1 : 0; }
        case K_UDIV: return hz(e->a, d-1);
        case K_UREM: { unsigned x = hz(e->a, d-1), y = isC(e->b) && e->b->v ? hz(mkC(e->b->v - 1, e->w)) : 0; return x > y ? x : y; }
        case K_MUL: { unsigned n = (e->w - hz(e->a, d-1)) + (e->w - hz(e->b, d-1)); return n < e->w ? e->w - n : 0; }
        default: return 0;
    }
}
E mkBin(Kind k, E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkC(foldBin(k, w, a->v, b->v), isCmp(k) ? 1 : w);
    if (commut(k)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
    u64 m = maskw(w);
    switch (k) {
        case K_ADD:
            if (isC(b)) {
                if (b->v == 0) return a;
                if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkC(a->b->v + b->v, w));
                if (a->k == K_SUB && isC(a->a)) return mkBin(K_SUB, mkC(a->a->v + b->v, w), a->b);
            }
            if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
            if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
            if (a->k == K_SUB && a->b == b) return a->a;
            if (b->k == K_SUB && b->b == a) return b->a;
            break;
        case K_SUB:
            if (a == b) return mkC(0, w);
            if (isC(b)) return mkBin(K_ADD, a, mkC(0 - b->v, w));
            if (a->k == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
            if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
            if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkC(0 - b->b->v, w));
            break;
        case K_MUL:
            if (isC(b)) { if (b->v == 0) return b; if (b->v == 1) return a;
                if (a->k == K_MUL && isC(a->b)) return mkBin(K_MUL, a->a, mkC(a->b->v * b->v, w));
                if ((b->v & (b->v-1)) == 0) { unsigned s=0; while(!((b->v>>s)&1)) s++; return mkBin(K_SHL, a, mkC(s,w)); } }
            break;
        case K_UDIV: case K_UREM: case K_SDIV: case K_SREM:
            if (isC(b) && b->v == 1 && w > 1) return k == K_UDIV || k == K_SDIV ? a : mkC(0, w);
            if (isC(b) && b->v != 0 && !((b->v >> (w - 1)) & 1)) {
                unsigned z = hz(a); bool rem = k == K_UREM || k == K_SREM;
                if (z >= 1 && (k == K_SDIV || k == K_SREM)) return mkBin(rem ? K_UREM : K_UDIV, a, b);
                if (k == K_UDIV || k == K_UREM) {
                    if ((b->v & (b->v - 1)) == 0) { unsigned s = 0; while (!((b->v >> s) & 1)) s++; return rem ? mkBin(K_AND, a, mkC(b->v - 1, w)) : mkBin(K_LSHR, a, mkC(s, w)); }
                    if (z > 0 && z < w) { unsigned n = w - z; if (n < 64 && (b->v >> n)) return rem ? a : mkC(0, w); return mkZExt(mkBin(k, mkExtract(a, 0, n), mkC(b->v, n)), w); }
                }
            }
            break;
        case K_AND:
            if (a == b) return a;
            if (isC(b)) { if (b->v == 0) return b; if (b->v == m) return a;
                if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkC(a->b->v & b->v, w));
                // low mask -> zext(extract)
                u64 x = b->v; if ((x & (x + 1)) == 0) { unsigned n = 0; while (n < w && ((x >> n) & 1)) n++; return mkZExt(mkExtract(a, 0, n), w); }
            }
            break;
        case K_OR:
            if (a == b) return a;
            if (isC(b)) { if (b->v == 0) return a; if (b->v == m) return b; }
            break;
        case K_XOR:
            if (a == b) return mkC(0, w);
            if (isC(b)) { if (b->v == 0) return a; if (w == 1) return mkNot(a);
                if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkC(a->b->v ^ b->v, w)); }
            break;
        case K_SHL:
            if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return mkC(0, w);
                return mkConcat(mkExtract(a, 0, w - b->v), mkC(0, b->v)); }
            break;
        case K_LSHR:
            if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return mkC(0, w);
                return mkZExt(mkExtract(a, b->v, w - b->v), w); }
            break;
        case K_ASHR:
            if (isC(b)) { u64 s = b->v >= w ? w - 1 : b->v; if (s == 0) return a;
                return mkSExt(mkExtract(a, s, w - s), w); }
            break;
        case K_EQ:
            if (a == b) return mkC(1, 1);
            if (isC(b)) {
                if (w == 1) return b->v ? a : mkNot(a);
                if (a->k == K_ZEXT) { if (b->v >> a->a->w) return mkC(0, 1); return mkBin(K_EQ, a->a, mkC(b->v, a->a->w)); }
                if (a->k == K_SEXT) { if (((u64)sx64(b->v & maskw(a->a->w), a->a->w) & m) != b->v) return mkC(0, 1); return mkBin(K_EQ, a->a, mkC(b->v, a->a->w)); }
                if (a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkC(b->v - a->b->v, w));
                if (a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkC(b->v ^ a->b->v, w));
                if (a->k == K_SUB && isC(a->a)) return mkBin(K_EQ, a->b, mkC(a->a->v - b->v, w));
                if (a->k == K_CONCAT) return mkBin(K_AND, mkBin(K_EQ, a->a, mkC(b->v >> a->b->w, a->a->w)), mkBin(K_EQ, a->b, mkC(b->v, a->b->w)));
                if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(K_EQ, a->b, b), mkBin(K_EQ, a->c, b));
                if (hz(a) > 0 && hz(a) < w && (b->v >> (w - hz(a)))) return mkC(0, 1);
            }
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
            if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
            break;
        case K_ULT:
            if (a == b) return mkC(0, 1);
            if (isC(b)) { if (b->v == 0) return mkC(0, 1); if (b->v == 1) return mkBin(K_EQ, a, mkC(0, w)); }
            if (isC(a) && a->v == m) return mkC(0, 1);
            if (isC(a) && a->v == 0) return mkNot(mkBin(K_EQ, b, mkC(0, w)));
            if (isC(b) && hz(a) && (b->v >> (w - hz(a)))) return mkC(1, 1);
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULT, a->a, b->a);
            if (a->k == K_ZEXT && isC(b) && !(b->v >> a->a->w)) return mkBin(K_ULT, a->a, mkC(b->v, a->a->w));
            if (b->k == K_ZEXT && isC(a)) { if (a->v >> b->a->w) return mkC(0, 1); return mkBin(K_ULT, mkC(a->v, b->a->w), b->a); }
            break;
        case K_ULE:
            if (a == b) return mkC(1, 1);
            if (isC(a) && a->v == 0) return mkC(1, 1);
            if (isC(b) && b->v == m) return mkC(1, 1);
            if (isC(b) && b->v == 0) return mkBin(K_EQ, a, mkC(0, w));
            if (isC(b) && hz(a) && ((b->v + 1) >> (w - hz(a)))) return mkC(1, 1);
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULE, a->a, b->a);
            if (a->k == K_ZEXT && isC(b) && !(b->v >> a->a->w)) return mkBin(K_ULE, a->a, mkC(b->v, a->a->w));
            if (b->k == K_ZEXT && isC(a)) { if (a->v >> b->a->w) return mkC(0, 1); return mkBin(K_ULE, mkC(a->v, b->a->w), b->a); }
            break;
        case K_SLT: case K_SLE:
            if (a == b) return mkC(k == K_SLE, 1);
            if (hz(a) && hz(b)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
            if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
            if (a->k == K_SEXT && isC(b) && ((u64)sx64(b->v & maskw(a->a->w), a->a->w) & m) == b->v) return mkBin(k, a->a, mkC(b->v, a->a->w));
            if (b->k == K_SEXT && isC(a) && ((u64)sx64(a->v & maskw(b->a->w), b->a->w) & m) == a->v) return mkBin(k, mkC(a->v, b->a->w), b->a);
            break;
        default: break;
    }
    return R(k, isCmp(k) ? 1 : w, 0, a, b);
}
E mkExtract(E e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    switch (e->k) {
        case K_CONST: return mkC(e->v >> lo, w);
        case K_EXTRACT: return mkExtract(e->a, lo + e->v, w);
        case K_CONCAT: {
            unsigned lw = e->b->w;
            if (lo >= lw) return mkExtract(e->a, lo - lw, w);
            if (lo + w <= lw) return mkExtract(e->b, lo, w);
            return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
        }
        case K_ZEXT:
            if (lo >= e->a->w) return mkC(0, w);
            if (lo + w <= e->a->w) return mkExtract(e->a, lo, w);
            return mkZExt(mkExtract(e->a, lo, e->a->w - lo), w);
        case K_SEXT:
            if (lo + w <= e->a->w) return mkExtract(e->a, lo, w);
            if (lo < e->a->w) return mkSExt(mkExtract(e->a, lo, e->a->w - lo), w);
            return mkSExt(mkExtract(e->a, e->a->w - 1, 1), w);
        case K_ADD: case K_SUB: case K_MUL:
            if (lo == 0) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
            break;
        case K_AND: case K_OR: case K_XOR:
            return mkBin(e->k, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
        case K_ITE: return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
        default: break;
    }
    return R(K_EXTRACT, w, lo, e);
}
E mkConcat(E hi, E lo) {
    if (isC(hi) && isC(lo)) return mkC((hi->v << lo->w) | lo->v, hi->w + lo->w);
    if (isC(hi) && hi->v == 0) return mkZExt(lo, hi->w + lo->w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->v == lo->v + lo->w)
        return mkExtract(hi->a, lo->v, hi->w + lo->w);
    if (hi->k == K_EXTRACT && hi->v == lo->w && hi->a->w > lo->w && mkExtract(hi->a, 0, lo->w) == lo)
        return mkExtract(hi->a, 0, hi->w + lo->w);
    // re-associate: concat(x, concat(y,z)) with x,y mergeable
    if (lo->k == K_CONCAT) {
        E t = nullptr, y = lo->a;
        if (isC(hi) && isC(y)) t = mkC((hi->v << y->w) | y->v, hi->w + y->w);
        else if (hi->k == K_EXTRACT && y->k == K_EXTRACT && hi->a == y->a && hi->v == y->v + y->w) t = mkExtract(hi->a, y->v, hi->w + y->w);
        if (t) return mkConcat(t, lo->b);
    }
    if (lo->k == K_ZEXT && isC(hi)) return mkConcat(mkC(hi->v << (lo->w - lo->a->w), hi->w + lo->w - lo->a->w), lo->a);
    if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), hi->w + lo->w);
    if (hi->k == K_SEXT && hi->a->k == K_EXTRACT && hi->a->w == 1) { // sign replication above lo's sign bit
        if (mkExtract(lo, lo->w - 1, 1) == hi->a) return mkSExt(lo, hi->w + lo->w);
    }
    return R(K_CONCAT, hi->w + lo->w, 0, hi, lo);
}
E mkZExt(E e, unsigned w) {
    if (e->w == w) return e;
    if (isC(e)) return mkC(e->v, w);
    if (e->k == K_ZEXT) return mkZExt(e->a, w);
    return R(K_ZEXT, w, 0, e);
}
E mkSExt(E e, unsigned w) {
    if (e->w == w) return e;
    if (isC(e)) return mkC((u64)sx64(e->v, e->w), w);
    if (e->k == K_SEXT) return mkSExt(e->a, w);
    if (e->k == K_ZEXT) return mkZExt(e->a, w);
    return R(K_SEXT, w, 0, e);
}
E mkIte(E c, E a, E b) {
    if (isC(c)) return c->v ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->v ? c : mkNot(c);
        if (isC(a)) return a->v ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
        if (isC(b)) return b->v ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
    }
    if (c->k == K_XOR && c->w == 1 && isC(c->b)) return mkIte(c->a, b, a);
    if (a->k == K_ITE && a->a == c) a = a->b;
    if (b->k == K_ITE && b->a == c) b = b->c;
    if (isC(a) && isC(b) && a->v == 1 && b->v == 0) return mkZExt(c, a->w);
    return R(K_ITE, a->w, 0, c, a, b);
}
static u64 g_stamp = 0;
static u64 ev(E e, const Model& m) {
    if (e->k == K_CONST) return e->v;
    if (e->evalStamp == g_stamp) return e->evalVal;
    u64 r = 0;
    switch (e->k) {
        case K_VAR: { auto it = m.m.find((u32)e->v); r = it == m.m.end() ? 0 : it->second & maskw(e->w); break; }
        case K_EXTRACT: r = (ev(e->a, m) >> e->v) & maskw(e->w); break;
        case K_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
        case K_ZEXT: r = ev(e->a, m); break;
        case K_SEXT: r = (u64)sx64(ev(e->a, m), e->a->w) & maskw(e->w); break;
        case K_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
        default: r = foldBin(e->k, e->a->w, ev(e->a, m), ev(e->b, m));
    }
    e->evalStamp = g_stamp; e->evalVal = r;
    return r;
}
u64 evalExpr(E e, const Model& m) { g_stamp++; return ev(e, m); }
static const char* kn[] = {"c","v","+","-","*","u/","s/","u%","s%","&","|","^","<<","u>>","s>>","==","u<","u<=","s<","s<=","++","ext","zx","sx","ite"};
std::string exprStr(E e, int d) {
    if (isC(e)) return std::to_string((i64)sx64(e->v, e->w));
    if (e->k == K_VAR) return ExprPool::P().vars[e->v].name;
    if (d == 0) return "..";
    std::string s = std::string("(") + kn[e->k] + std::to_string(e->w);
    if (e->k == K_EXTRACT) s += "@" + std::to_string(e->v);
    for (E x : { e->a, e->b, e->c }) if (x) s += " " + exprStr(x, d - 1);
    return s + ")";
}
