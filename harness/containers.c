// Containers as abstract dictionaries, sets and sequences: arbitrary operation histories with symbolic keys, indices and values.
#include "sx.h"
#include "common/type.h"
#include "map/map.h"
#include "set/set.h"
#include "vector/vector.h"
#include "pair/pair.h"
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
SX_BOUND(NOPS, 4)
SX_BOUND(KIND, 0)
SX_BOUND(HM, 7) // hash values are 0..HM
SX_BOUND(MODE, 0)
enum { MAXN = 40 };
static int mk[MAXN], mv[MAXN], mp[MAXN], mn; // model: key, value, present
static void model_add(int k, int v) { int hit = 0; for (int i = 0; i < mn; i++) { int h = mp[i] & (mk[i] == k); hit |= h; mv[i] = h ? v : mv[i]; } mk[mn] = k; mv[mn] = v; mp[mn] = !hit; mn++; }
static void model_remove(int k) { for (int i = 0; i < mn; i++) mp[i] &= mk[i] != k; }
static int model_has(int k) { int r = 0; for (int i = 0; i < mn; i++) r |= mp[i] & (mk[i] == k); return r; }
static int model_val(int k) { int r = 0; for (int i = 0; i < mn; i++) r = (mp[i] & (mk[i] == k)) ? mv[i] : r; return r; }
static int model_size(void) { int r = 0; for (int i = 0; i < mn; i++) r += mp[i]; return r; }
static int model_sum(void) { int r = 0; for (int i = 0; i < mn; i++) r += mp[i] ? mv[i] : 0; return r; }
static int model_ksum(void) { int r = 0; for (int i = 0; i < mn; i++) r += mp[i] ? mk[i] : 0; return r; }
static char nm[8]; static const char* name(char c, int i) { nm[0] = c; nm[1] = '0' + i / 10; nm[2] = '0' + i % 10; nm[3] = 0; return nm; }
// Keys of an arbitrary key type: identity and hash value are symbolic, equal keys having equal hashes (the contract of HashableType).
typedef struct Key { int id, hash; } Key;
static Key ks[MAXN]; static int kn;
static Key key(char c, int i) {
    unsigned char b[2]; sx_make_symbolic(b, 2, name(c, i)); Key k = { b[0] & 15, b[1] & HM };
    for (int j = 0; j < kn; j++) sx_assume((ks[j].id != k.id) | (ks[j].hash == k.hash));
    ks[kn++] = k; return k;
}
static Key ckey(int id, int hash) { Key k = { id, hash }; ks[kn++] = k; return k; }
static void* nkey(Key k) { Key* p = malloc(sizeof k); *p = k; return p; }
static void* key_copy(void* a) { return nkey(*(Key*)a); }
static int key_hash(void* a) { return ((Key*)a)->hash; }
static int key_comp(void* a, void* b) { return ((Key*)a)->id - ((Key*)b)->id; }
static void key_delete(void* a) { free(a); }
static HashableType t_key = { key_copy, key_delete, key_hash, key_comp };

static void check_map(Map* m, Key q) {
    int* r = map_get(m, &q); int has = model_has(q.id);
    sx_assert((r != NULL) == has, "lookup finds a key exactly when it was added and not removed since");
    sx_assert(map_contains(m, &q) == has, "membership agrees with the history");
    if (r != NULL) sx_assert(*r == model_val(q.id), "lookup returns the value added last");
    int d = 77; int* e = map_get_with_default(m, &q, &d); sx_assert(has ? e == r : e == &d, "default value returned exactly for absent keys");
    int n = 0; unsigned s = 0, ks = 0;
    for (MapIter* it = map_iter_begin(m); !map_iter_end(it, m); it = map_iter_next(it, m)) { n++; s += *(int*)map_iter_value(it, m); Key* k = map_iter_key(it, m); ks += k->id; }
    sx_assert(n == model_size(), "iteration visits every entry exactly once");
    sx_assert(s == (unsigned)model_sum() && ks == (unsigned)model_ksum(), "iteration yields exactly the current entries");
}
static void padd(Map* m, Key k, int v) { map_add(m, nkey(k), new_integer(v)); model_add(k.id, v); }
static void premove(Map* m, Key k) { map_remove(m, &k); model_remove(k.id); }
void h_map(void) {
    Map* m = new_map(&t_key, &t_integer);
    for (int i = 0; i < NOPS; i++) {
        int op = (int)sx_choice(3, name('o', i)); Key k = key('k', i);
        if (op == 0) padd(m, k, i + 100);
        if (op == 1) premove(m, k);
        if (op == 2) { Map* c = map_copy(m); map_add(m, nkey(k), new_integer(5)); map_remove(m, &k); delete_map(m); m = c; }
    }
    check_map(m, key('q', 0)); delete_map(m); sx_cover("done");
}
// histories of adds only, long enough for several capacity changes
void h_map_grow(void) {
    Map* m = new_map(&t_key, &t_integer);
    for (int i = 0; i < NOPS; i++) padd(m, key('k', i), i + 100);
    check_map(m, key('q', 0)); delete_map(m); sx_cover("done");
}
// many entries with chosen hashes (colliding, wrapping or spread), then symbolic removals (tombstones, shrinking) and a re-add
void h_map_shrink(void) {
    Map* m = new_map(&t_key, &t_integer); int n = 6 + (int)sx_choice(3, "n"), how = MODE;
    for (int i = 0; i < n; i++) padd(m, ckey(i, how == 0 ? i : how == 1 ? 3 : 12 + i % 4), i + 100);
    for (int i = 0; i < NOPS; i++) { Key k = ks[sx_choice(n, name('k', i))]; premove(m, k); }
    if (sx_choice(2, "copy")) { Map* c = map_copy(m); for (int i = 0; i < n; i++) { Key k = ckey(ks[i].id, ks[i].hash); map_add(m, nkey(k), new_integer(1)); } delete_map(m); m = c; }
    padd(m, key('r', 0), 7); Key q = key('q', 0); check_map(m, q);
    for (int i = 0; i < n; i++) { premove(m, ks[i]); if (i == n / 2) check_map(m, ks[i + 1]); }
    check_map(m, q); delete_map(m); sx_cover("done");
}
// the two key types of the compiler meet the contract: equal keys have equal, non-negative hashes; comparison is equality
void h_hash(void) {
    int a = sx_int("a"), b = sx_int("b"); int* c = t_hashable_integer.copy_object(&a); sx_assert(*c == a && c != &a, "copy of an integer key");
    sx_assert((t_hashable_integer.compare_object(&a, &b) == 0) == (a == b), "integer keys compare equal exactly when equal");
    int ha = t_hashable_integer.hash_object(&a), hb = t_hashable_integer.hash_object(&b); sx_assert(ha >= 0, "integer hashes are never negative"); sx_assert((a != b) | (ha == hb), "equal integers have equal hashes");
    t_hashable_integer.delete_object(c); sx_cover("done");
}
void h_hash_string(void) {
    char s[9], t[9]; int n = NOPS > 8 ? 8 : NOPS; sx_make_symbolic(s, n, "s"); s[n] = 0; memcpy(t, s, sizeof t); for (int i = 0; i < n; i++) if (!s[i]) { for (int j = i + 1; j < n; j++) t[j] = 'x'; break; }
    int h = t_hashable_string.hash_object(s); sx_assert(h >= 0, "string hashes are never negative"); sx_assert(t_hashable_string.hash_object(t) == h, "equal strings have equal hashes");
    char* c = t_hashable_string.copy_object(s); sx_assert(c != s && t_hashable_string.compare_object(c, s) == 0, "copy of a string key equals it"); t_hashable_string.delete_object(c);
    char u[3], w[3]; sx_make_symbolic(u, 2, "u"); sx_make_symbolic(w, 2, "w"); u[2] = w[2] = 0; int eq = u[0] == w[0] && (u[0] == 0 || u[1] == w[1]); sx_assert((t_hashable_string.compare_object(u, w) == 0) == eq, "string keys compare equal exactly when equal");
    sx_cover("done");
}
static int enc(const char* s) { return (unsigned char)s[0] | (s[0] ? (unsigned char)s[1] << 8 : 0); }
void h_map_string(void) {
    Map* m = new_map(&t_hashable_string, &t_integer); char b[3];
    for (int i = 0; i < NOPS; i++) {
        sx_make_symbolic(b, 2, name('s', i)); b[2] = 0; if (KIND == 0) { sx_assume(b[0] == 'a' || b[0] == (char)0xe3); sx_assume(b[1] == 0 || b[1] == 'z'); }
        switch (sx_choice(2, name('o', i))) {
            case 0: map_add(m, new_string(b), new_integer(i + 100)); model_add(enc(b), i + 100); break;
            case 1: map_remove(m, b); model_remove(enc(b)); break;
        }
    }
    sx_make_symbolic(b, 2, "q"); b[2] = 0; if (KIND == 0) { sx_assume(b[0] == 'a' || b[0] == (char)0xe3); sx_assume(b[1] == 0 || b[1] == 'z'); }
    int* r = map_get(m, b); int has = model_has(enc(b)); sx_assert((r != NULL) == has, "string lookup agrees with the history"); if (r != NULL) sx_assert(*r == model_val(enc(b)), "string lookup returns the value added last");
    int n = 0; for (MapIter* it = map_iter_begin(m); !map_iter_end(it, m); it = map_iter_next(it, m)) n++; sx_assert(n == model_size(), "iteration visits every string entry exactly once");
    delete_map(m); sx_cover("done");
}
static int in(const int* a, int n, int q) { int r = 0; for (int i = 0; i < n; i++) r |= a[i] == q; return r; }
static int distinct(const int* a, int n) { int r = 0; for (int i = 0; i < n; i++) { int d = 1; for (int j = 0; j < i; j++) d &= a[j] != a[i]; r += d; } return r; }
static int card(Set* s) { int n = 0; for (SetIter* it = set_iter_begin(s); !set_iter_end(it, s); it = set_iter_next(it, s)) { sx_assert(set_contains(s, set_iter_item(it, s)), "iterated item is a member"); n++; } return n; }
void h_set(void) {
    int na = (int)sx_choice(NOPS + 1, "na"), nb = (int)sx_choice(NOPS + 1, "nb"); int a[8], b[8];
    Set *A = new_set(&t_key), *B = new_set(&t_key);
    for (int i = 0; i < na; i++) { Key k = key('a', i); a[i] = k.id; set_add(A, nkey(k)); }
    for (int i = 0; i < nb; i++) { Key k = key('b', i); b[i] = k.id; set_add(B, nkey(k)); }
    Key q = key('q', 0); int ia = in(a, na, q.id), ib = in(b, nb, q.id); int mode = MODE;
    if (mode == 0) { Set* u = set_union(A, B); sx_assert(set_contains(u, &q) == (ia | ib), "union"); int c[16]; for (int i = 0; i < na; i++) c[i] = a[i]; for (int i = 0; i < nb; i++) c[na + i] = b[i]; sx_assert(card(u) == distinct(c, na + nb), "cardinality of the union"); delete_set(u); }
    if (mode == 1) { Set* u = set_intersection(A, B); sx_assert(set_contains(u, &q) == (ia & ib), "intersection"); Set* d = set_difference(A, B); sx_assert(set_contains(d, &q) == (ia & !ib), "difference"); sx_assert(card(u) + card(d) == distinct(a, na), "intersection and difference partition the set"); delete_set(u); delete_set(d); }
    if (mode == 2) { int sub = 1, sup = 1; for (int i = 0; i < nb; i++) sub &= in(a, na, b[i]); for (int i = 0; i < na; i++) sup &= in(b, nb, a[i]); sx_assert(set_issubset(A, B) == sub, "subset test"); sx_assert(set_equals(A, B) == (sub & sup), "set equality"); }
    if (mode == 3) { Set* c = set_copy(A); set_remove(c, &q); sx_assert(!set_contains(c, &q), "removed item is gone"); sx_assert(set_contains(A, &q) == ia, "a copy is independent"); sx_assert(card(c) == distinct(a, na) - ia, "cardinality after removal"); set_add(A, nkey(q)); sx_assert(set_contains(A, &q) && !set_contains(c, &q), "added item is present"); delete_set(c); }
    sx_assert(set_contains(A, &q) == (mode == 3 ? 1 : ia), "operands are unchanged"); delete_set(A); delete_set(B); sx_cover("done");
}
void h_pair(void) {
    int a = sx_int("a"), b = sx_int("b"), c = sx_int("c"); Pair* p = new_pair(&t_integer, &t_integer); pair_set(p, new_integer(a), new_integer(b));
    Pair* d = pair_copy(p); pair_set_first(p, new_integer(c)); 
    sx_assert(*(int*)pair_first(d) == a && *(int*)pair_second(d) == b && *(int*)pair_first(p) == c && *(int*)pair_second(p) == b, "pairs keep what they were given, copies are independent");
    pair_set_second(d, new_integer(c)); sx_assert(*(int*)pair_second(p) == b && *(int*)pair_second(d) == c, "pair components"); delete_pair(p); int *x, *y; pair_assign((void**)&x, (void**)&y, d); sx_assert(*x == a && *y == c, "taking a pair apart yields its components"); sx_cover("done");
}
static int vm[MAXN], vn;
void h_vector(void) {
    Vector* v = new_vector(&t_integer); vn = 0;
    if (MODE == 1) { // a longer sequence first: n items pushed (several doublings), some popped again (several halvings)
        int n = (int)sx_choice(12, "n"), b = sx_int("b"); for (int i = 0; i < n; i++) { vector_push(v, new_integer((int)((unsigned)b + (unsigned)i))); vm[vn++] = (int)((unsigned)b + (unsigned)i); }
        int d = (int)sx_choice(n + 1, "d"); while (d--) { int* p = vector_pop(v); vn--; sx_assert(*p == vm[vn], "pop returns the last item"); t_integer.delete_object(p); }
    }
    for (int i = 0; i < NOPS; i++) {
        int x = sx_int(name('x', i)); int j;
        switch (sx_choice(8, name('o', i))) {
            case 0: vector_push(v, new_integer(x)); vm[vn++] = x; break;
            case 1: if (vn == 0) break; { int* p = vector_pop(v); vn--; sx_assert(*p == vm[vn], "pop returns the last item"); t_integer.delete_object(p); } break;
            case 2: j = sx_int(name('j', i)); { int* p = new_integer(x); int r = vector_set(v, j, p); sx_assert(r == (j >= 0 && j < vn), "set succeeds exactly for valid positions"); if (!r) t_integer.delete_object(p); for (int k = 0; k < vn; k++) vm[k] = k == j ? x : vm[k]; } break;
            case 3: j = (int)sx_choice(vn + 1, name('j', i)); vector_insert(v, j, new_integer(x)); for (int k = vn; k > j; k--) vm[k] = vm[k - 1]; vm[j] = x; vn++; break;
            case 4: j = (int)sx_choice(vn + 2, name('j', i)) - 1; vector_erase(v, j); if (j >= 0 && j < vn) { for (int k = j; k + 1 < vn; k++) vm[k] = vm[k + 1]; vn--; } break;
            case 5: j = (int)sx_choice(vn + 3, name('j', i)); vector_fill(v, j, new_integer(x)); while (vn < j) vm[vn++] = x; break;
            case 6: { Vector* c = vector_copy(v); vector_push(c, new_integer(1)); if (vn) vector_set(c, 0, new_integer(x)); Vector* t = v; if (x & 1) { delete_vector(c); } else { t_integer.delete_object(vector_pop(c)); if (vn) vector_set(c, 0, new_integer(vm[0])); delete_vector(v); t = c; } v = t; } break;
            case 7: { Vector* o = new_vector(&t_integer); int m = (int)sx_choice(3, name('m', i)); for (int k = 0; k < m; k++) { vector_push(o, new_integer(x + k)); vm[vn++] = x + k; } vector_extend(v, o); sx_assert(vector_size(o) == 0, "items are moved out of the extending vector"); vector_push(o, new_integer(9)); delete_vector(o); } break;
        }
        sx_assert(vector_size(v) == vn, "size of the sequence");
    }
    int q = sx_int("q"); int* p = vector_at(v, q); sx_assert((p != NULL) == (q >= 0 && q < vn), "access succeeds exactly for valid positions");
    if (p != NULL) { int e = 0; for (int k = 0; k < vn; k++) e = k == q ? vm[k] : e; sx_assert(*p == e, "access returns the item at its position"); }
    delete_vector(v); sx_cover("done");
}
