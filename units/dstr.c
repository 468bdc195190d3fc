/* dynamic strings: every state an earlier history can leave, every text */
//@ extract arg_dstr.c _internal_arg_dstr_t
//@ contract arg_dstr_cat c_cat h_cat
//@ contract vsnprintf c_vsnprintf h_none
//@ harness h_cat prop=C17 nonative=1
//@ harness h_catc prop=C17 nonative=1
//@ harness h_catf prop=C17 use=arg_dstr_cat,vsnprintf nonative=1
//@ harness h_create prop=C17
//@ harness h_set prop=C17 nonative=1
//@ harness h_reset prop=C17 nonative=1
//@ harness h_destroy prop=C17 nonative=1
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
#include VP_EXTRACT
typedef struct _internal_arg_dstr DS;

#define MAXT (1 << 28)
static DS* d;
static const char* t;  /* the text of d */
static size_t T, S;
static int g_kind;
/* any state: the text in the small buffer, in the append buffer, in a block of its own or in a text of the program */
static void state(int kind) {
    g_kind = kind;
    d = malloc(sizeof(*d));
    memset(d, 0, sizeof(*d));
    t = vp_cstr("ab|c");
    T = strlen(t);
    vp_assume(T < MAXT);
    if (kind == 0) {
        vp_assume(T <= ARG_DSTR_SIZE);
        d->data = d->sbuf;
        strcpy(d->sbuf, t);
    } else if (kind == 1) {
        size_t u = vp_size(100);
        S = vp_size(1000);
        vp_assume(S > T && S < 2 * (size_t)MAXT && u <= T);
        d->data = malloc(S);
        memset(d->data, 0, S);
        strcpy(d->data, t);
        d->append_data = d->data;
        d->append_data_size = (int)S;
        d->append_used = (int)u;
    } else if (kind == 2) {
        d->data = malloc(T + 1);
        strcpy(d->data, t);
        d->free_proc = ARG_DSTR_DYNAMIC;
    } else {
        d->data = (char*)t;
        d->free_proc = ARG_DSTR_STATIC;
    }
}
static void after(const char* s, size_t L) {
    size_t k = vp_index(T + L + 1), z;
    char c;
    c = d->data[k];
    if (k < T) vp_assert(c == t[k], "the text that was there stays in front");
    else vp_assert(c == s[k - T], "followed by the new text");
    vp_assert(d->data == d->append_data && d->append_data_size > 0 && T + L < (size_t)d->append_data_size, "the text is in the append buffer");
    vp_assert(vp_room(d->append_data) >= (size_t)d->append_data_size && vp_live(d->append_data), "whose size is known");
    vp_assert(d->append_used >= 0 && (size_t)d->append_used <= T + L && d->free_proc == NULL, "the state is a valid one");
    z = vp_index((size_t)d->append_data_size);
    if (z >= T + L) vp_assert(d->data[z] == 0, "only zero bytes follow the text");
}
void h_cat(void) {
    const char* s = vp_cstr("x|yz");
    size_t L = strlen(s);
    int live;
    vp_assume(L < MAXT);
    state(vp_choice(4));
    live = vp_heap_live();
    arg_dstr_cat(d, s);
    vp_cover("appended");
    after(s, L);
    vp_assert(vp_heap_live() == (g_kind == 1 || g_kind == 2 ? live : live + 1), "the old buffer is released");
}
void h_catc(void) {
    char s[2];
    s[0] = (char)vp_range(1, 127);
    s[1] = 0;
    state(vp_choice(4));
    arg_dstr_catc(d, s[0]);
    vp_cover("appended");
    after(s, 1);
}

/* ---- formatted: F is the text the format and its arguments stand for */
static const char* F;
static size_t L;
static int g_appended;
LEMMA int c_vsnprintf(char* b, size_t n, const char* f, void* ap) {
    size_t m = L < n - 1 ? L : n - 1;
    (void)f;
    (void)ap;
    vp_requires(n >= 1 && n <= vp_room(b), "the result fits the buffer");
    memcpy(b, F, m);
    b[m] = '\0';
    return (int)L;
}
LEMMA void c_cat(arg_dstr_t ds, const char* s) {
    size_t k = vp_index(L + 1);
    vp_requires(ds == d && !g_appended, "the text is appended once");
    vp_requires(strlen(s) == L, "the formatted text is complete");
    vp_requires(s[k] == F[k], "the formatted text is what is appended");
    g_appended = 1;
}
void h_catf(void) {
    const char* f = vp_cstr("%s");
    int live;
    F = vp_cstr("ab|c");
    L = strlen(F);
    vp_assume(L < MAXT && strlen(f) < MAXT);
    d = malloc(sizeof(*d));
    g_appended = 0;
    live = vp_heap_live();
    arg_dstr_catf(d, f, 0);
    vp_cover("formatted");
    vp_assert(g_appended, "the text is appended once");
    vp_assert(vp_heap_live() == live, "the work space is released");
}
void h_create(void) {
    arg_dstr_t x = arg_dstr_create();
    vp_cover("created");
    vp_assert(arg_dstr_cstr(x)[0] == '\0', "a new text is empty");
    arg_dstr_destroy(x);
    vp_assert(vp_heap_live() == 0, "nothing is left");
    arg_dstr_destroy(NULL);
}
static int g_freed;
static char* g_user;
static void user_free(char* p) {
    vp_requires(p == g_user, "the function given with a text gets that text");
    g_freed++;
}
static void state_u(int kind) {
    state(kind == 4 ? 3 : kind);
    g_kind = kind;
    g_freed = 0;
    if (kind == 4) {
        g_user = d->data;
        d->free_proc = user_free;
    }
}
static int blocks(int kind) { return kind == 1 || kind == 2; }
void h_set(void) {
    int how = vp_choice(5), live;
    const char* s = vp_cstr("x|yz");
    char *n = (char*)s, *r;
    size_t l = strlen(s), k = vp_index(l + 1);
    vp_assume(l < MAXT);
    state_u(vp_choice(5));
    live = vp_heap_live() - blocks(g_kind);
    if (how == 0) {
        arg_dstr_set(d, NULL, ARG_DSTR_STATIC);
        vp_assert(arg_dstr_cstr(d)[0] == '\0', "no text: empty");
        vp_assert(vp_heap_live() == live, "the old text is released");
    } else if (how == 1) {
        arg_dstr_set(d, n, ARG_DSTR_STATIC);
        vp_assert(arg_dstr_cstr(d) == n, "a static text is used as it is");
        vp_assert(vp_heap_live() == live, "the old text is released");
    } else if (how == 2) {
        n = malloc(l + 1);
        strcpy(n, s);
        arg_dstr_set(d, n, ARG_DSTR_DYNAMIC);
        vp_assert(arg_dstr_cstr(d) == n && d->free_proc == ARG_DSTR_DYNAMIC, "a text on the heap is used as it is");
        vp_assert(vp_heap_live() == live + 1, "the old text is released");
    } else if (how == 3) {
        arg_dstr_set(d, n, ARG_DSTR_VOLATILE);
        r = arg_dstr_cstr(d);
        vp_assert(r != n && r[k] == s[k], "any other text is copied");
        vp_assert(vp_heap_live() == live + (l > ARG_DSTR_SIZE), "the old text is released");
    } else {
        size_t o, i;
        vp_assume(blocks(g_kind));
        o = vp_index(T + 1); /* a part of the old text */
        i = vp_index(T - o + 1);
        arg_dstr_set(d, d->data + o, ARG_DSTR_VOLATILE);
        r = arg_dstr_cstr(d);
        vp_assert(r[i] == t[o + i], "a part of the old text may be the new one");
        vp_assert(vp_heap_live() == live + (T - o > ARG_DSTR_SIZE), "the old text is released");
    }
    vp_cover("set");
    vp_assert(g_freed == (g_kind == 4), "the function given with the old text is called once");
    vp_assert(d->append_data == NULL && d->append_data_size == 0, "the state is a valid one");
    vp_assert(how == 2 || d->free_proc == (d->data == d->sbuf || how == 1 ? ARG_DSTR_STATIC : ARG_DSTR_DYNAMIC), "the state is a valid one");
}
void h_reset(void) {
    int live;
    state_u(vp_choice(5));
    live = vp_heap_live() - blocks(g_kind);
    arg_dstr_reset(d);
    vp_cover("reset");
    vp_assert(arg_dstr_cstr(d)[0] == '\0' && d->data == d->sbuf && d->free_proc == NULL && d->append_data == NULL && d->append_data_size == 0, "reset makes the text empty");
    vp_assert(vp_heap_live() == live && g_freed == (g_kind == 4), "the old text is released");
}
void h_destroy(void) {
    int live = vp_heap_live();
    state_u(vp_choice(5));
    arg_dstr_destroy(d);
    vp_cover("destroyed");
    vp_assert(vp_heap_live() == live && g_freed == (g_kind == 4), "everything is released");
}
