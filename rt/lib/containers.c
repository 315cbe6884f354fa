/* Drives the container library of the compiler with random operation sequences, next to plain array models.
   containers KIND SEED OPS: prints "FAIL ..." and exits 3 on the first divergence, or "STATS ...". */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "wcc.h"

static unsigned long long rs;
static unsigned rnd(void) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned) (rs >> 33); }
static unsigned below(unsigned n) { return rnd() % n; }
static long n_ops, n_checks, n_grow, n_readd;
static char hist[4096]; static int hp;
static void note(const char *f, ...) {
    char b[128]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (n > 120) n = 120;
    if (hp + n + 2 >= (int) sizeof hist) { memmove(hist, hist + hp / 2, hp - hp / 2); hp -= hp / 2; }
    memcpy(hist + hp, b, n); hp += n; hist[hp++] = ' '; hist[hp] = 0;
    n_ops++;
}
static void fail(const char *f, ...) {
    va_list ap; va_start(ap, f); printf("FAIL "); vprintf(f, ap); va_end(ap);
    printf("\nlast operations: %s\n", hp > 700 ? hist + hp - 700 : hist); exit(3);
}
#define CHECK(c, ...) do { n_checks++; if (!(c)) fail(__VA_ARGS__); } while (0)
static void *val(void) { return (void *) (long) (1 + below(1000)); }

/* ---- keys */
#define MAXU 700
static int U;
static long lkey[MAXU];
static char *skey[MAXU][2];
static void make_keys(void) {
    int style = below(5);
    static const int us[] = { 3, 8, 12, 20, 40, 100, 300, 700 };
    U = us[below(8)];
    for (int i = 0; i < U; i++) {
        long k; int again;
        do {
            switch (style) {
                case 0: k = i; break;
                case 1: k = (long) i * 16 + below(2); break;
                case 2: k = (long) i << 20; break;
                case 3: k = (long) ((unsigned long) rnd() << 33) ^ (long) ((unsigned long) rnd() << 11) ^ rnd(); break;
                default: k = below(2) ? -(long) i : (long) i * 4096 - 7;
            }
            again = 0;
            for (int j = 0; j < i; j++) if (lkey[j] == k) again = 1;
            if (again) style = 3;
        } while (again);
        lkey[i] = k;
        char b[64];
        if (style == 0) sprintf(b, "%d", i);
        else if (style == 1) sprintf(b, "k%d", i);
        else if (style == 2) { int n = i % 40 + (i >= 40), m = i / 40; memset(b, 'a' + m, n); b[n] = 0; }
        else { int n = 0; unsigned x = i + 1; while (x) { b[n++] = (char) (x % 19 + (style == 3 ? 0xb0 : 'A')); x /= 19; } b[n] = 0; }
        skey[i][0] = strdup(b); skey[i][1] = strdup(b);
    }
}
static int find_long(long k) { for (int i = 0; i < U; i++) if (lkey[i] == k) return i; return -1; }
static int find_str(char *k) { for (int i = 0; i < U; i++) if (!strcmp(skey[i][0], k)) return i; return -1; }
static char *sk(int i) { return skey[i][below(2)]; }

typedef struct { void *v[MAXU]; int in[MAXU]; int count; char was[MAXU]; } Model;
static void m_put(Model *m, int i, void *v) { if (!m->in[i]) { m->count++; if (m->was[i]) n_readd++; } m->in[i] = 1; m->was[i] = 1; m->v[i] = v; }
static void m_del(Model *m, int i) { if (m->in[i]) m->count--; m->in[i] = 0; m->v[i] = 0; }
static int pick(Model *m, int live) { /* prefers keys that are (not) in the map */
    for (int t = 0; t < 8; t++) { int i = below(U); if (m->in[i] == live) return i; }
    return below(U);
}

/* ---- StrMap */
static void check_strmap(StrMap *s, Model *m, int full) {
    if (!full) { int i = below(U); void *g = strmap_get(s, sk(i)); CHECK(g == m->v[i], "strmap_get(%d) gives %ld, expected %ld", i, (long) g, (long) m->v[i]); return; }
    for (int i = 0; i < U; i++) { void *g = strmap_get(s, sk(i)); CHECK(g == m->v[i], "strmap_get(%d) gives %ld, expected %ld", i, (long) g, (long) m->v[i]); }
    int seen[MAXU] = { 0 }, n = 0;
    strmap_foreach(s, it) {
        char *k = strmap_iterator_key(&it); int i = find_str(k);
        CHECK(i >= 0 && m->in[i], "strmap iteration gives \"%s\", which isn't in the map", k);
        CHECK(!seen[i], "strmap iteration gives key %d twice", i);
        seen[i] = 1; n++;
    }
    CHECK(n == m->count, "strmap iteration gives %d keys, expected %d", n, m->count);
}
static void strmaps(int ops) {
    StrMap *s = new_strmap(); Model m; memset(&m, 0, sizeof m); int size = s->size; int bias = below(3);
    for (int o = 0; o < ops; o++) {
        int k = below(100), i;
        if (o % 97 == 0) bias = below(3);
        if (k < (bias == 0 ? 60 : 35)) { i = pick(&m, below(3) == 0); void *v = val(); note("put(%d)", i); strmap_put(s, sk(i), v); m_put(&m, i, v); }
        else if (k < 85) { i = pick(&m, below(6) != 0); note("delete(%d)", i); strmap_delete(s, sk(i)); m_del(&m, i); }
        else if (k == 99) { /* deletes while iterating */
            note("sweep"); int mod = 2 + below(3);
            strmap_foreach(s, it) { int j = find_str(strmap_iterator_key(&it)); CHECK(j >= 0, "strmap iteration gives an unknown key"); if (j % mod == 0) { strmap_delete(s, sk(j)); m_del(&m, j); } }
        }
        if (s->size != size) { n_grow++; size = s->size; }
        check_strmap(s, &m, U <= 20 || o % 50 == 0);
    }
    check_strmap(s, &m, 1);
    free_strmap(s);
}

/* ---- LongMap */
static long weird_hash(long l) { return l / 7 * 3; }
static void check_longmap(LongMap *s, Model *m, int full) {
    if (!full) { int i = below(U); void *g = longmap_get(s, lkey[i]); CHECK(g == m->v[i], "longmap_get(%ld) gives %ld, expected %ld", lkey[i], (long) g, (long) m->v[i]); return; }
    for (int i = 0; i < U; i++) { void *g = longmap_get(s, lkey[i]); CHECK(g == m->v[i], "longmap_get(%ld) gives %ld, expected %ld", lkey[i], (long) g, (long) m->v[i]); }
    int seen[MAXU] = { 0 }, n = 0;
    longmap_foreach(s, it) {
        long k = longmap_iterator_key(&it); int i = find_long(k);
        CHECK(i >= 0 && m->in[i], "longmap iteration gives %ld, which isn't in the map", k);
        CHECK(!seen[i], "longmap iteration gives key %ld twice", k);
        seen[i] = 1; n++;
    }
    CHECK(n == m->count, "longmap iteration gives %d keys, expected %d", n, m->count);
    int *keys; int c = longmap_keys(s, &keys);
    CHECK(c == n, "longmap_keys gives %d keys, expected %d", c, n);
    for (int j = 0; j < c; j++) {
        int ok = 0;
        for (int i = 0; i < U; i++) if (m->in[i] && (int) lkey[i] == keys[j]) ok = 1;
        CHECK(ok, "longmap_keys gives %d", keys[j]);
    }
    wfree(keys);
}
static void longmaps(int ops) {
    LongMap *s = new_longmap(), *c = 0; Model m, mc; memset(&m, 0, sizeof m); int size = s->size, bias = below(3);
    if (below(3) == 0) s->hashfunc = weird_hash;
    for (int o = 0; o < ops; o++) {
        int k = below(200), i;
        if (o % 97 == 0) bias = below(3);
        if (k < (bias == 0 ? 120 : 70)) { i = pick(&m, below(3) == 0); void *v = val(); note("put(%ld)", lkey[i]); longmap_put(s, lkey[i], v); m_put(&m, i, v); }
        else if (k < 170) { i = pick(&m, below(6) != 0); note("delete(%ld)", lkey[i]); longmap_delete(s, lkey[i]); m_del(&m, i); }
        else if (k == 199) { note("empty"); longmap_empty(s); for (i = 0; i < U; i++) m_del(&m, i); }
        else if (k >= 196) { note("copy"); if (c) free_longmap(c); c = longmap_copy(s); mc = m; }
        else if (k == 195 && c) { LongMap *t = s; Model tm = m; note("swap"); s = c; m = mc; c = t; mc = tm; }
        else if (k == 194) {
            note("sweep"); int mod = 2 + below(3);
            longmap_foreach(s, it) { int j = find_long(longmap_iterator_key(&it)); CHECK(j >= 0, "longmap iteration gives an unknown key"); if (j % mod == 0) { longmap_delete(s, lkey[j]); m_del(&m, j); } }
        }
        if (s->size != size) { n_grow++; size = s->size; }
        check_longmap(s, &m, U <= 20 || o % 50 == 0);
        if (c && o % 60 == 0) check_longmap(c, &mc, 1);
    }
    check_longmap(s, &m, 1);
    free_longmap(s); if (c) free_longmap(c);
}

/* ---- StrSet and LongSet */
static void sets_str(int ops) {
    StrSet *s[3]; Model m[3]; memset(m, 0, sizeof m);
    for (int j = 0; j < 3; j++) s[j] = new_strset();
    for (int o = 0; o < ops; o++) {
        int a = below(3), b = below(3), k = below(100), i;
        if (k < 70) { i = below(U); note("%d.add(%d)", a, i); strset_add(s[a], sk(i)); m_put(&m[a], i, (void *) 1); }
        else if (k < 80) { note("%d=dup(%d)", a, b); StrSet *t = dup_strset(s[b]); Model tm = m[b]; free_strset(s[a]); s[a] = t; m[a] = tm; }
        else if (k < 95) {
            int inter = k >= 86; int c = below(3); note("%d=%d%s%d", a, b, inter ? "&" : "|", c);
            StrSet *t = inter ? strset_intersection(s[b], s[c]) : strset_union(s[b], s[c]);
            Model tm; memset(&tm, 0, sizeof tm);
            for (i = 0; i < U; i++) if (inter ? m[b].in[i] && m[c].in[i] : m[b].in[i] || m[c].in[i]) m_put(&tm, i, (void *) 1);
            free_strset(s[a]); s[a] = t; m[a] = tm;
        }
        else { note("%d={}", a); free_strset(s[a]); s[a] = new_strset(); memset(&m[a], 0, sizeof m[a]); }
        if (o % 20 == 0 || U <= 12) for (int j = 0; j < 3; j++) {
            for (i = 0; i < U; i++) CHECK(strset_in(s[j], sk(i)) == m[j].in[i], "strset_in(set %d, %d) gives %d", j, i, !m[j].in[i]);
            int n = 0; strmap_foreach(s[j]->strmap, it) { strmap_iterator_key(&it); n++; }
            CHECK(n == m[j].count, "strset has %d elements, expected %d", n, m[j].count);
        }
    }
    for (int j = 0; j < 3; j++) free_strset(s[j]);
}
static void sets_long(int ops) {
    LongSet *s[3]; Model m[3]; memset(m, 0, sizeof m);
    for (int j = 0; j < 3; j++) s[j] = new_longset();
    for (int o = 0; o < ops; o++) {
        int a = below(3), b = below(3), k = below(100), i;
        if (k < 50) { i = below(U); note("%d.add(%ld)", a, lkey[i]); longset_add(s[a], lkey[i]); m_put(&m[a], i, (void *) 1); }
        else if (k < 75) { i = pick(&m[a], 1); note("%d.delete(%ld)", a, lkey[i]); longset_delete(s[a], lkey[i]); m_del(&m[a], i); }
        else if (k < 82) { note("%d=copy(%d)", a, b); LongSet *t = longset_copy(s[b]); Model tm = m[b]; free_longset(s[a]); s[a] = t; m[a] = tm; }
        else if (k < 94) {
            int inter = k >= 88; int c = below(3); note("%d=%d%s%d", a, b, inter ? "&" : "|", c);
            LongSet *t = inter ? longset_intersection(s[b], s[c]) : longset_union(s[b], s[c]);
            Model tm; memset(&tm, 0, sizeof tm);
            for (i = 0; i < U; i++) if (inter ? m[b].in[i] && m[c].in[i] : m[b].in[i] || m[c].in[i]) m_put(&tm, i, (void *) 1);
            free_longset(s[a]); s[a] = t; m[a] = tm;
        }
        else if (k < 96) { note("%d.empty", a); longset_empty(s[a]); for (i = 0; i < U; i++) m_del(&m[a], i); }
        int eq = 1; for (i = 0; i < U; i++) if (m[a].in[i] != m[b].in[i]) eq = 0;
        CHECK(!!longset_eq(s[a], s[b]) == eq, "longset_eq(%d, %d) isn't %d", a, b, eq);
        if (o % 20 == 0 || U <= 12) for (int j = 0; j < 3; j++) {
            for (i = 0; i < U; i++) CHECK(longset_in(s[j], lkey[i]) == m[j].in[i], "longset_in(set %d, %ld) isn't %d", j, lkey[i], m[j].in[i]);
            CHECK(longset_len(s[j]) == m[j].count, "longset_len gives %d, expected %d", longset_len(s[j]), m[j].count);
            int seen[MAXU] = { 0 };
            longset_foreach(s[j], it) { i = find_long(longset_iterator_element(&it)); CHECK(i >= 0 && m[j].in[i] && !seen[i], "longset iteration gives a wrong element %ld", longset_iterator_element(&it)); seen[i] = 1; }
        }
    }
    for (int j = 0; j < 3; j++) free_longset(s[j]);
}

/* ---- Set */
static void check_set(Set *s, char *m, int max) {
    int n = 0;
    for (int i = 0; i <= max; i++) { CHECK(in_set(s, i) == m[i], "in_set(%d) isn't %d", i, m[i]); n += m[i]; }
    CHECK(set_len(s) == n, "set_len gives %d, expected %d", set_len(s), n);
    if (below(3) == 0) {
        cache_set_elements(s);
        CHECK(s->cached_element_count == n, "cached_element_count is %d, expected %d", s->cached_element_count, n);
        int j = 0;
        for (int i = 0; i <= max; i++) if (m[i]) { CHECK(s->cached_elements[j] == i, "cached element %d is %d, expected %d", j, s->cached_elements[j], i); j++; }
    }
}
static void dense(int ops) {
    int max = below(4) == 0 ? below(4) : below(300); Set *s[3]; char m[3][301]; memset(m, 0, sizeof m);
    for (int j = 0; j < 3; j++) s[j] = new_set(max);
    for (int o = 0; o < ops; o++) {
        int a = below(3), b = below(3), c = below(3), k = below(16), i = below(max + 1); Set *t = 0; char r[301];
        note("op%d(%d,%d,%d,%d)", k, a, b, c, i);
        memcpy(r, m[a], sizeof r);
        if (k < 5) { add_to_set(s[a], i); r[i] = 1; }
        else if (k < 7) { delete_from_set(s[a], i); r[i] = 0; }
        else if (k == 7) { empty_set(s[a]); memset(r, 0, sizeof r); }
        else if (k == 8) { t = copy_set(s[b]); memcpy(r, m[b], sizeof r); }
        else if (k == 9) { copy_set_to(s[a], s[b]); memcpy(r, m[b], sizeof r); }
        else {
            for (int x = 0; x <= max; x++) r[x] = k < 12 ? m[b][x] & m[c][x] : k < 14 ? m[b][x] | m[c][x] : m[b][x] & !m[c][x];
            if (k == 10) t = set_intersection(s[b], s[c]); else if (k == 11) set_intersection_to(s[a], s[b], s[c]);
            else if (k == 12) t = set_union(s[b], s[c]); else if (k == 13) set_union_to(s[a], s[b], s[c]);
            else if (k == 14) t = set_difference(s[b], s[c]); else set_difference_to(s[a], s[b], s[c]);
        }
        if (t) { free_set(s[a]); s[a] = t; }
        memcpy(m[a], r, sizeof r);
        if (o % 4 == 0) for (int j = 0; j < 3; j++) check_set(s[j], m[j], max); else check_set(s[a], m[a], max);
        CHECK(!!set_eq(s[b], s[c]) == !memcmp(m[b], m[c], 301), "set_eq(%d, %d) is wrong", b, c);
    }
    for (int j = 0; j < 3; j++) free_set(s[j]);
}

/* ---- List, Stack, CircularLinkedList */
static void lists(int ops) {
    static const int sizes[] = { 0, 0, 1, 2, 3, 7, 8, 128 };
    List *l = 0; void **m = malloc((ops + 1) * sizeof *m); int n = 0;
    Stack *st = new_stack(); int *sm = malloc((ops + 1) * sizeof *sm), sp = 0;
    CircularLinkedList *c = 0; void **cm = malloc((ops + 1) * sizeof *cm); int cn = 0;
    for (int o = 0; o < ops; o++) {
        int k = below(300);
        if (!l || k == 0) { if (l) free_list(l); int z = sizes[below(8)]; note("new_list(%d)", z); l = new_list(z); n = 0; CHECK(l->length == 0, "a new list has length %d", l->length); }
        else if (k < 120) { void *v = val(); note("append"); append_to_list(l, v); m[n++] = v; n_grow += n > 8 && !(n & (n - 1)); }
        else if (k < 180) { if (sp < 5000) { int v = (int) rnd(); note("push"); push_onto_stack(st, v); sm[sp++] = v; } }
        else if (k < 230) { if (sp) { note("pop"); int v = pop_from_stack(st); CHECK(v == sm[--sp], "pop_from_stack gives %d, expected %d", v, sm[sp]); } }
        else if (k < 240) { if (sp) { int v = stack_top(st); CHECK(v == sm[sp - 1], "stack_top gives %d, expected %d", v, sm[sp - 1]); } }
        else if (k < 298) { void *v = val(); note("cll"); append_to_cll(c, v); cm[cn++] = v; }
        else { note("freecll"); free_circular_linked_list(c); c = 0; cn = 0; }
        CHECK(l->length == n, "list length is %d, expected %d", l->length, n);
        if (n) { int i = below(n); CHECK(l->elements[i] == m[i], "list element %d is %ld, expected %ld", i, (long) l->elements[i], (long) m[i]); }
        if (o % 40 == 0) {
            for (int i = 0; i < n; i++) CHECK(l->elements[i] == m[i], "list element %d is %ld, expected %ld", i, (long) l->elements[i], (long) m[i]);
            if (c) { CircularLinkedList *p = c->next; for (int i = 0; i < cn; i++, p = p->next) CHECK(p->target == cm[i], "circular list element %d is wrong", i); CHECK(p == c->next, "the circular list doesn't have %d elements", cn); }
        }
    }
    if (l) free_list(l);
    free_circular_linked_list(c); free_stack(st); free(m); free(sm); free(cm);
}

/* ---- Graph */
static void graphs(int ops) {
    while (ops > 0) {
        int nodes = 1 + below(30), edges = below(100); Graph *g = new_graph(nodes, edges + below(5)); int from[100], to[100];
        CHECK(g->node_count == nodes && g->edge_count == 0, "a new graph has %d nodes and %d edges", g->node_count, g->edge_count);
        if (edges == 0) { free_graph(g); ops--; continue; }
        for (int e = 0; e < edges; e++, ops--) {
            from[e] = below(nodes); to[e] = below(nodes); note("edge(%d,%d)", from[e], to[e]);
            GraphEdge *x = add_graph_edge(g, from[e], to[e]);
            CHECK(x->id == e && x->from == &g->nodes[from[e]] && x->to == &g->nodes[to[e]], "the new edge is wrong");
            CHECK(g->edge_count == e + 1, "edge_count is %d", g->edge_count);
        }
        for (int i = 0; i < nodes; i++) {
            CHECK(g->nodes[i].id == i, "node %d has id %d", i, g->nodes[i].id);
            GraphEdge *s = g->nodes[i].succ, *p = g->nodes[i].pred;
            for (int e = 0; e < edges; e++) {
                if (from[e] == i) { CHECK(s && s->id == e && s->to->id == to[e], "successors of node %d: edge %d is missing", i, e); s = s->next_succ; }
                if (to[e] == i) { CHECK(p && p->id == e && p->from->id == from[e], "predecessors of node %d: edge %d is missing", i, e); p = p->next_pred; }
            }
            CHECK(!s && !p, "node %d has too many edges", i);
        }
        free_graph(g);
    }
}

int main(int argc, char **argv) {
    if (argc != 4) return 4;
    rs = strtoull(argv[2], 0, 10) * 0x9e3779b97f4a7c15ull + 12345; rnd(); rnd();
    int ops = atoi(argv[3]);
    setvbuf(stdout, 0, _IONBF, 0);
    make_keys();
    char *k = argv[1];
    if (!strcmp(k, "strmap")) strmaps(ops);
    else if (!strcmp(k, "longmap")) longmaps(ops);
    else if (!strcmp(k, "strset")) sets_str(ops);
    else if (!strcmp(k, "longset")) sets_long(ops);
    else if (!strcmp(k, "set")) dense(ops);
    else if (!strcmp(k, "list")) lists(ops);
    else if (!strcmp(k, "graph")) graphs(ops);
    else return 4;
    fail_on_leaked_memory = 1;
    process_memory_allocation_stats();
    printf("STATS operations=%ld model_comparisons=%ld growths=%ld readded_keys=%ld\n", n_ops, n_checks, n_grow, n_readd);
    return 0;
}
