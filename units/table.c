/* whole tables: null check and release */
//@ contract argtable3_xfree c_xfree h_xfree
//@ harness h_xfree
//@ harness h_null prop=C14 nonative=1
//@ harness h_freetable prop=C14 use=argtable3_xfree nonative=1
//@ harness h_free prop=C14 use=argtable3_xfree nonative=1
//@ native h_tables prop=C14
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"

void argtable3_xfree(void* p);
void h_xfree(void) {
    int before = vp_heap_live();
    void* p = vp_choice(2) ? arg_end(3) : NULL;
    argtable3_xfree(p);
    vp_cover("released");
    vp_assert(vp_heap_live() == before, "a block is released, a null pointer is accepted");
}

static int g_n, g_cnt, g_total, g_has;
static size_t g_k, g_j1, g_j2;
static struct arg_hdr** g_t;
static void* g_e;

static int ok_entry(void* p, size_t i) {
    struct arg_hdr* h = p;
    return ((h->flag & ARG_TERMINATOR) != 0) == ((int)i == g_n - 1);
}
/* any table whose last entry is its only terminator, with entries that failed to be made in (up to) two places */
static void table(void) {
    g_n = vp_range(1, 1000000);
    g_t = (struct arg_hdr**)vp_ptrtable(vp_family((size_t)g_n, sizeof(struct arg_end), 0, ok_entry), (size_t)g_n);
    g_j1 = g_j2 = (size_t)g_n;
    if (vp_choice(2)) {
        g_j1 = vp_index((size_t)g_n);
        g_j2 = vp_index((size_t)g_n);
        vp_assume(g_j1 <= g_j2);
        g_t[g_j1] = NULL;
        g_t[g_j2] = NULL;
    }
    g_k = vp_index((size_t)g_n);
    g_e = g_t[g_k];
    g_cnt = 0;
}
LEMMA int inv_before(int i) { return i >= 0 && i < g_n && (size_t)i <= g_j1; }
LEMMA int inv_before64(size_t i) { return i < (size_t)g_n && i <= g_j1; }
LEMMA int inv_beforep(struct arg_hdr** p) { return vp_same_object(p, g_t) && p >= g_t && p < g_t + g_n && p <= g_t + g_j1; }
void h_null(void) {
    int r, snap;
    table();
    snap = vp_snapshot(g_t, sizeof(void*) * (size_t)g_n);
    r = arg_nullcheck((void**)g_t);
    vp_cover("checked");
    vp_assert((r != 0) == (g_j1 < (size_t)g_n), "the check fails exactly when an entry up to the terminator is missing");
    vp_assert(arg_nullcheck(NULL) != 0, "no table at all is refused");
    vp_assert(vp_unchanged(snap, 0, sizeof(void*) * (size_t)g_n), "the table stays");
}

LEMMA void c_xfree(void* p) {
    vp_requires(p != NULL, "an entry");
    if (p == g_e) g_cnt++;
}
LEMMA int inv_up(size_t i) { return g_cnt == (i > g_k && g_e != NULL) && (g_t[g_k] == NULL) == (i > g_k || g_e == NULL); }
LEMMA int inv_up32(int i) { return g_cnt == ((size_t)i > g_k && g_e != NULL) && (g_t[g_k] == NULL) == ((size_t)i > g_k || g_e == NULL); }
LEMMA int inv_down(size_t i) { return g_cnt == (i <= g_k && g_e != NULL) && (g_t[g_k] == NULL) == (i <= g_k || g_e == NULL); }
LEMMA int inv_ptr(struct arg_hdr** p) {
    return vp_same_object(p, g_t) && g_cnt == (p > g_t + g_k && g_e != NULL) && (g_t[g_k] == NULL) == (p > g_t + g_k || g_e == NULL);
}
LEMMA int inv_same(void) { return g_t[g_k] == NULL || g_t[g_k] == g_e; }
void h_freetable(void) {
    table();
    arg_freetable((void**)g_t, (size_t)g_n);
    vp_cover("freed");
    vp_assert(g_cnt == (g_e != NULL), "every entry there is is released exactly once");
    vp_assert(g_t[g_k] == NULL, "every place of the table is cleared");
}
void h_free(void) {
    table();
    arg_free((void**)g_t);
    vp_cover("freed");
    if (g_k < g_j1) {
        vp_assert(g_cnt == 1, "every entry before a missing one is released exactly once");
        vp_assert(g_t[g_k] == NULL, "and its place is cleared");
    } else {
        vp_assert(g_cnt == 0 && g_t[g_k] == g_e, "nothing after a missing entry is touched");
    }
}
/* real entries, executed only */
void h_tables(void) {
    void* t[12];
    int n = vp_range(0, 10), i, k, missing = 0, r;
    for (i = 0; i < n; i++) {
        k = vp_choice(10);
        t[i] = k == 0   ? NULL
               : k == 1 ? (void*)arg_lit0("a", "aa", "g")
               : k == 2 ? (void*)arg_int0("b", NULL, NULL, NULL)
               : k == 3 ? (void*)arg_str1(NULL, "c", NULL, NULL)
               : k == 4 ? (void*)arg_dbln("d", NULL, NULL, 1, 7, NULL)
               : k == 5 ? (void*)arg_rex0("e", NULL, "a*", NULL, 0, NULL)
               : k == 6 ? (void*)arg_file0(NULL, NULL, NULL, NULL)
               : k == 7 ? (void*)arg_date0("f", NULL, "%Y", NULL, NULL)
               : k == 8 ? (void*)arg_rem("x", "y")
                        : (void*)arg_strn(NULL, NULL, NULL, 0, 100, NULL);
        missing |= t[i] == NULL;
    }
    t[n] = arg_end(vp_range(1, 4));
    t[n + 1] = &n;
    r = arg_nullcheck(t);
    vp_assert((r != 0) == missing, "the check fails exactly when an entry up to the terminator is missing");
    if (!missing && vp_choice(2)) arg_free(t);
    else arg_freetable(t, (size_t)n + 1);
    for (i = 0; i <= n; i++) vp_assert(t[i] == NULL, "every place of the table is cleared");
    vp_assert(t[n + 1] == &n, "nothing past the table is touched");
    vp_assert(vp_heap_live() == 0, "every entry there is is released");
}
