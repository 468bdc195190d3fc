/* dynamic strings: histories, executed against a reference */
//@ native h_hist prop=C17
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
static char R[200000];
static char W[20000];
static size_t rn;
static int g_calls;
static void user_free(char* p) {
    g_calls++;
    xfree(p);
}
static char* copy(const char* s) {
    char* p = xmalloc(strlen(s) + 1);
    strcpy(p, s);
    return p;
}
void h_hist(void) {
    arg_dstr_t d = arg_dstr_create();
    int n = vp_range(1, 8), i, calls = 0, mine = 0;
    g_calls = 0;
    R[rn = 0] = 0;
    for (i = 0; i < n; i++) {
        int op = vp_choice(11), len = vp_choice(3);
        char *base = vp_mcstr("a|bc|12|%"), *s;
        size_t k, m = strlen(base), rep = len == 0 ? 1 : len == 1 ? (size_t)vp_range(1, 40) : (size_t)vp_range(1, 300);
        vp_assume(m * rep < sizeof(W));
        s = W;
        for (k = 0; k < m * rep; k++) s[k] = base[k % m];
        s[m * rep] = 0;
        m *= rep;
        if (op < 3) arg_dstr_cat(d, s), strcpy(R + rn, s), rn += m;
        else if (op == 3) {
            char c = (char)vp_range(1, 127);
            arg_dstr_catc(d, c), R[rn++] = c, R[rn] = 0;
        } else if (op < 6) {
            int v = vp_int();
            arg_dstr_catf(d, op == 4 ? "%s" : "<%s:%d>", s, v);
            rn += (size_t)sprintf(R + rn, op == 4 ? "%s" : "<%s:%d>", s, v);
        } else if (op == 6) arg_dstr_reset(d), R[rn = 0] = 0, calls += mine, mine = 0;
        else {
            calls += mine;
            mine = 0;
            if (op == 7) arg_dstr_set(d, s, ARG_DSTR_VOLATILE);
            else if (op == 8) arg_dstr_set(d, copy(s), ARG_DSTR_DYNAMIC);
            else if (op == 9) arg_dstr_set(d, NULL, ARG_DSTR_STATIC), *s = 0, m = 0;
            else arg_dstr_set(d, copy(s), user_free), mine = 1;
            strcpy(R, s), rn = m;
        }
        if (op < 6 && (op > 3 || op < 4)) calls += mine, mine = 0;
        vp_assert(strcmp(arg_dstr_cstr(d), R) == 0, "the text is what was set and appended");
        vp_assert(g_calls == calls, "the function given with a text is called once, when the text is replaced");
    }
    arg_dstr_destroy(d);
    vp_assert(g_calls == calls + mine, "the function given with a text is called once");
    vp_assert(vp_heap_live() == 0, "all memory is released");
}
