/* arg_parse as a whole against a reference interpreter of the command line, executed (never proved): finds the failing command
 * line when an obligation of parse.c or getopt.c fails, and stands in, bounded, for the composition of their contracts. */
//@ native h_e2e prop=C03,C04,C05,C06,C07,C08,C09,C10 backup=C03,C04,C05,C06,C08,C09
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"

#define MAXE 6
#define MAXT 8
enum { LIT, INT, STR };
static struct { int type, min, max, opt; const char *s, *l; void* a; struct arg_hdr* h; int count; const char* val[8]; int ival[8]; } E[MAXE];
static int nE;
static struct { int code; void* parent; const char* v; } R[64];
static int nR, cap;
static void* endp;

static void err(void* parent, int code, const char* v) {
    if (nR < cap) { R[nR].code = code; R[nR].parent = parent; R[nR].v = v; nR++; }
    else { R[cap - 1].code = ARG_ELIMIT; R[cap - 1].parent = endp; R[cap - 1].v = NULL; }
}
static int number(const char* s, int* v) {
    const char* p = s;
    long x = 0;
    if (*p == '-' || *p == '+') p++;
    if (!*p || strlen(p) > 9) return 0;
    for (; *p; p++) { if (*p < '0' || *p > '9') return 0; x = x * 10 + (*p - '0'); }
    *v = (int)(*s == '-' ? -x : x);
    return 1;
}
#define BAD 1000 /* any error about the text */
static int scan(int i, const char* v) {
    int x;
    if (E[i].count == E[i].max) return ARG_ERR_MAXCOUNT;
    if (E[i].type == INT && v && !number(v, &x)) return BAD;
    if (E[i].type == INT && v) E[i].ival[E[i].count] = x;
    E[i].val[E[i].count++] = v;
    return 0;
}
static void deliver(int i, const char* v) {
    int e = scan(i, v);
    if (e) err(E[i].a, e, v);
}
static int takes(int i) { return E[i].type != LIT; }
/* the entry of a long option: -1 none, -2 ambiguous */
static int longopt(const char* name, size_t n) {
    int i, found = -1, exact = -1;
    for (i = 0; i < nE; i++) {
        const char* p = E[i].l;
        while (p && *p) {
            size_t k = strcspn(p, ",");
            if (k >= n && !strncmp(p, name, n)) {
                if (k == n) { if (exact < 0) exact = i; }
                else if (found == -1) found = i;
                else if (found != i) found = -2;
            }
            p += k;
            if (*p) p++;
        }
    }
    return exact >= 0 ? exact : found;
}
static void reference(int argc, char** argv) {
    char* rest[MAXT];
    int n = 0, i, j, e, k = 0;
    nR = 0;
    for (i = 0; i < nE; i++) E[i].count = 0;
    for (i = 1; i < argc; i++) {
        char *t = argv[i], *p;
        if (t[0] != '-' || !t[1]) { rest[n++] = t; continue; }
        if (!strcmp(t, "--")) { for (i++; i < argc; i++) rest[n++] = argv[i]; break; }
        if (t[1] == '-') {
            char* eq = strchr(t + 2, '=');
            j = longopt(t + 2, eq ? (size_t)(eq - t - 2) : strlen(t + 2));
            if (j < 0 || (!takes(j) && eq)) { err(endp, ARG_ELONGOPT, t); continue; }
            if (eq) {
                if (!eq[1]) err(endp, ARG_EMISSARG, t);
                deliver(j, eq + 1);
            } else if (!takes(j) || E[j].opt) deliver(j, NULL);
            else if (i + 1 < argc) {
                i++;
                if (!*argv[i]) err(endp, ARG_EMISSARG, argv[i]);
                deliver(j, argv[i]);
            } else err(endp, ARG_EMISSARG, t);
            continue;
        }
        for (p = t + 1; *p; p++) {
            if (*p == '-' && p[1]) vp_assume(0); /* left out: getopt takes the rest of the cluster for a long option */
            for (j = 0; j < nE; j++) if (E[j].s && strchr(E[j].s, *p)) break;
            if (j == nE) { err(endp, *p, NULL); continue; }
            if (!takes(j)) { deliver(j, NULL); continue; }
            if (p[1]) deliver(j, p + 1);
            else if (E[j].opt) deliver(j, NULL);
            else if (i + 1 < argc) deliver(j, argv[++i]);
            else err(endp, ARG_EMISSARG, t);
            break;
        }
    }
    j = 0;
    e = 0;
    for (i = 0; i < nE && j < n; i++) {
        if (E[i].s || E[i].l) continue;
        while (j < n && (e = scan(i, rest[j])) == 0) j++;
        if (e) k = i;
    }
    if (j < n && e) err(E[k].a, e, rest[j++]);
    while (j < n) err(endp, ARG_ENOMATCH, rest[j++]);
    if (nR == 0)
        for (i = 0; i < nE; i++)
            if (E[i].count < E[i].min) err(E[i].a, ARG_ERR_MINCOUNT, NULL);
}

static int plain(const char* s, int name) {
    const char* p;
    for (p = s; *p; p++) {
        if (name && (*p == '-' || *p == '=' )) return 0;
        if (!strchr("acdef=-,+0123456789", *p)) return 0;
    }
    if (name == 2 && (!*s || *s == ',' || s[strlen(s) - 1] == ',' || strstr(s, ",,"))) return 0;
    if (name == 1 && strchr(s, ',')) return 0;
    return 1;
}
void h_e2e(void) {
    void* tab[MAXE + 1];
    struct arg_end* end;
    int i, k, round, rounds = 1 + vp_choice(2), live;
    nE = vp_range(0, MAXE - 1);
    for (i = 0; i < nE; i++) {
        int t = vp_choice(3), lo = vp_choice(4) == 3 ? 1 : 0, hi = 1 + vp_choice(3), tagged = vp_choice(4), opt = vp_choice(4) == 0;
        const char *s = NULL, *l = NULL;
        if (t == LIT && !tagged) tagged = 1;
        if (tagged & 1) s = vp_cstr("#2 a|c|d|e|f");
        if (tagged & 2) l = vp_cstr("#4 a|c|ac|acd|,|d|de|def|f|ca");
        if (s && (!*s || !plain(s, 1))) vp_assume(0);
        if (l && !plain(l, 2)) vp_assume(0);
        E[i].type = t; E[i].min = lo; E[i].max = hi; E[i].s = s; E[i].l = l;
        E[i].opt = t != LIT && opt && tagged;
        if (t == LIT) E[i].a = arg_litn(s, l, lo, hi, "g");
        else if (t == INT) E[i].a = arg_intn(s, l, NULL, lo, hi, "g");
        else E[i].a = arg_strn(s, l, NULL, lo, hi, "g");
        E[i].h = E[i].a;
        if (E[i].opt) E[i].h->flag |= ARG_HASOPTVALUE;
        tab[i] = E[i].a;
    }
    cap = 1 + vp_choice(5);
    tab[nE] = end = arg_end(cap);
    endp = end;
    for (round = 0; round < rounds; round++) {
        int argc = vp_range(0, MAXT);
        char** argv = (char**)vp_ptrtable(vp_strfam((size_t)argc, "#3 -a|-c|-d|-|--|--a|--ac|--acd|--d|--de|--def|=|1|2|a|c|d|7|f|-5"), (size_t)argc + 1);
        char* keep[MAXT + 1];
        char* text[MAXT];
        int r;
        for (i = 0; i < argc; i++)
            if (!plain(argv[i], 0)) vp_assume(0);
        for (i = 0; i <= argc; i++) keep[i] = argv[i];
        for (i = 0; i < argc; i++) text[i] = strdup(argv[i]);
        live = vp_heap_live();
        r = arg_parse(argc, argv, tab);
        vp_assert(vp_heap_live() == live, "nothing allocated during the parse is kept");
        reference(argc, argv);
        for (i = 0; i <= argc; i++) vp_assert(keep[i] == argv[i], "the argument vector is left as it was");
        for (i = 0; i < argc; i++) { vp_assert(!strcmp(text[i], argv[i]), "the argument texts are left as they were"); free(text[i]); }
        vp_assert(r == end->count, "the result is the number of errors");
        vp_assert(r == nR, "the number of errors");
        for (i = 0; i < nR; i++) {
            int c = end->error[i];
            vp_assert(R[i].parent == end->parent[i], "the error is attributed to the right entry, in order");
            vp_assert(R[i].code == BAD ? c != ARG_ERR_MAXCOUNT && c != ARG_ERR_MINCOUNT && c != 0 : c == R[i].code, "the error is of the right kind");
            vp_assert(R[i].v == end->argval[i], "the error names the right argument");
        }
        for (i = 0; i < nE; i++) {
            int c = E[i].type == LIT ? ((struct arg_lit*)E[i].a)->count : E[i].type == INT ? ((struct arg_int*)E[i].a)->count : ((struct arg_str*)E[i].a)->count;
            vp_assert(c == E[i].count, "every occurrence is counted by its own entry");
            for (k = 0; k < c; k++) {
                if (E[i].type == INT && E[i].val[k]) vp_assert(((struct arg_int*)E[i].a)->ival[k] == E[i].ival[k], "the values are stored in command line order");
                if (E[i].type == STR && E[i].val[k]) vp_assert(((struct arg_str*)E[i].a)->sval[k] == E[i].val[k], "the values are stored in command line order");
            }
        }
    }
    arg_freetable(tab, (size_t)nE + 1);
    for (i = 0; i <= nE; i++) vp_assert(tab[i] == NULL, "a freed entry is set to NULL");
}
