/* texts of options: never outside their buffer, whatever the length of the names; error messages: one per error, in order */
//@ contract arg_cat c_cat h_cat
//@ harness h_cat prop=C16 keep=entry|size$|nul$|<=u|~|frame
//@ harness h_catoption prop=C16 use=arg_cat
//@ harness h_catoptionv prop=C16 use=arg_cat keep=entry$|nul$
//@ harness h_errors prop=C15 nonative=1
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
void arg_cat(char** pdest, const char* src, size_t* pndest);
void arg_cat_option(char* dest, size_t ndest, const char* shortopts, const char* longopts, const char* datatype, int optvalue);
void arg_cat_optionv(char* dest, size_t ndest, const char* shortopts, const char* longopts, const char* datatype, int optvalue, const char* separator);

static char* g_buf;
static size_t g_size; /* bytes of the buffer; one byte more than what the callers may use */

LEMMA int inv_room(char* dest, size_t ndest) { return vp_same_object(dest, g_buf) && ndest >= 1 && ndest < g_size && vp_off(dest) + ndest + 1 == g_size; }
LEMMA void c_cat(char** pdest, const char* src, size_t* pndest) {
    size_t e = vp_size(1), o = vp_off(*pdest);
    vp_requires(vp_same_object(*pdest, g_buf) && *pndest >= 1 && *pndest <= g_size && o + *pndest + 1 == g_size, "the room up to the end of the buffer");
    vp_requires(strlen(src) < 1UL << 40, "a text");
    vp_assume((e >= o) & (e < g_size - 1));
    vp_havoc(g_buf, 200);
    g_buf[e] = '\0';
    *pdest = g_buf + e;
    *pndest = g_size - 1 - e;
}
static size_t g_lim;
static char* g_b;
LEMMA int inv_scan(char* d) { return vp_same_object(d, g_b) && vp_off(d) <= g_lim; }
void h_cat(void) {
    size_t size = vp_size(40), n = vp_size(40), o = vp_size(40), l, s, k, e, n0, m = vp_size(40);
    const char* src = vp_cstr("a|b|--|bcd");
    char *b, *d, c;
    int snap;
    vp_assume(n >= 1 && o <= size && n <= size - o && size <= 1000000 && m < n);
    b = vp_buf(size);
    d = b + o;
    d[m] = '\0';
    s = strlen(src);
    l = strlen(d); /* the text that is there, within the room */
    g_b = b;
    g_lim = o + l;
    n0 = n;
    k = vp_index(n);
    c = d[k];
    snap = vp_snapshot(b, size);
    arg_cat(&d, src, &n);
    vp_cover("appended");
    e = vp_off(d) - vp_off(b);
    vp_assert(vp_same_object(d, b) && e >= o, "the end of the text is in the buffer");
    vp_assert(*d == '\0', "the text is terminated");
    vp_assert(n >= 1 && n <= vp_room(d), "what is left is in the buffer");
    vp_assert(e + n == o + n0, "the end of the room stays");
    vp_assert(vp_unchanged(snap, 0, o) && vp_unchanged(snap, e + n, size), "nothing outside the room is written");
    if (k < l) vp_assert(b[o + k] == c, "the text that was there stays");
    if (n > 1) vp_assert(e == o + l + s, "the new text is complete when there is room");
}
static const char* opt(int k, const char* d) { return k ? vp_cstr(d) : NULL; }
void h_catoption(void) {
    const char *s, *l, *t;
    int k = vp_choice(8);
    size_t size = 200;
    s = opt(k & 1, "a|b|");
    l = opt(k & 2, "long|,|x");
    t = opt(k & 4, "<int>|x");
    g_buf = vp_buf(size);
    g_size = size;
    g_buf[vp_index(190)] = '\0';
    arg_cat_option(g_buf, size - 1, s, l, t, vp_choice(2));
    vp_cover("written");
    vp_assert(strlen(g_buf) < size, "the text of an option ends in its buffer");
}
void h_catoptionv(void) {
    const char *s, *l, *t;
    int k = vp_choice(8);
    size_t size = 200;
    s = opt(k & 1, "a|b|");
    l = opt(k & 2, "long|,|x");
    t = opt(k & 4, "<int>|x");
    g_buf = vp_buf(size);
    g_size = size;
    g_buf[vp_index(190)] = '\0';
    arg_cat_optionv(g_buf, size - 1, s, l, t, vp_choice(2), vp_opt_cstr("|, "));
    vp_cover("written");
    if (t) vp_assert(strlen(g_buf) < size, "the text of an option ends in its buffer");
}

/* ---- one message per error */
static struct arg_end g_end;
static int g_n, g_last, g_cnt, g_k;
static arg_dstr_t g_ds;
static const char* g_prog;
static void m_error(void* parent, arg_dstr_t ds, int error, const char* argval, const char* progname);
static int ok_entry(void* p, size_t i) {
    struct arg_hdr* h = p;
    return h->parent == p && h->mincount == (int)i && (h->errorfn == NULL || h->errorfn == (arg_errorfn*)m_error);
}
static void m_error(void* parent, arg_dstr_t ds, int error, const char* argval, const char* progname) {
    int i = ((struct arg_hdr*)parent)->mincount;
    vp_requires(i > g_last && i < g_end.count, "messages in the order of the errors, each once");
    vp_requires(g_end.parent[i] == parent && g_end.error[i] == error && g_end.argval[i] == argval, "the entry, code and argument of the error");
    vp_requires(ds == g_ds && progname == g_prog, "the text and program name given");
    g_last = i;
    if (i == g_k) g_cnt++;
}
LEMMA int inv_err(int i) { return g_last < i && i >= 0 && g_cnt == (g_k < i && ((struct arg_hdr*)g_end.parent[g_k])->errorfn != NULL); }
void h_errors(void) {
    int has;
    g_n = vp_range(1, 1000000);
    g_end.parent = vp_ptrtable(vp_family((size_t)g_n, sizeof(struct arg_hdr), 0, ok_entry), (size_t)g_n);
    g_end.argval = (const char**)vp_ptrtable(vp_strfam((size_t)g_n, "a"), (size_t)g_n);
    g_end.error = vp_buf(sizeof(int) * (size_t)g_n);
    g_end.count = g_n;
    g_prog = vp_cstr("prog");
    g_ds = vp_buf(8);
    g_k = (int)vp_index((size_t)g_n);
    g_cnt = 0;
    g_last = -1;
    has = ((struct arg_hdr*)g_end.parent[g_k])->errorfn != NULL;
    arg_print_errors_ds(g_ds, &g_end, g_prog);
    vp_cover("printed");
    vp_assert(g_cnt == has, "every error gives its message exactly once");
}
