/* regular expression options through the public interface, against a reference matcher (executed, never proved): the compiler of
 * the expressions (setjmp, growing node array) and the composition of nodes are outside the reach of the verifier. */
//@ native h_rexp prop=C12
//@ native h_rexraw prop=C12
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"

enum { ONE, SEQ, ALT, REP, BOL, EOL };
typedef struct N { int op, lo, hi, nk; unsigned char set[256]; struct N* k[4]; } N;
static char pat[256];
static int np, icase, exact, nodes;
static N pool[64];
static void put(const char* s) { while (*s) pat[np++] = *s++; pat[np] = 0; }
static N* node(int op) {
    vp_assume(nodes < 60 && np < 200);
    memset(&pool[nodes], 0, sizeof(N));
    pool[nodes].op = op;
    return &pool[nodes++];
}
static void add(N* n, int c) {
    n->set[c] = 1;
    if (icase) n->set[tolower(c)] = n->set[toupper(c)] = 1;
}
static void cls(N* n, int k) {
    int c;
    for (c = 1; c < 128; c++) {
        int up = isupper(k) != 0, in = 0;
        switch (tolower(k)) {
        case 'a': in = isalpha(c) != 0; break;
        case 'w': in = isalnum(c) || c == '_'; break;
        case 's': in = isspace(c) != 0; break;
        case 'd': in = isdigit(c) != 0; break;
        case 'x': in = isxdigit(c) != 0; break;
        case 'p': in = ispunct(c) != 0; break;
        case 'l': in = islower(c) != 0; break;
        case 'u': in = isupper(c) != 0; break;
        }
        if (in ^ up) n->set[c] = 1;
    }
    if (strchr("AWSDXP", k)) for (c = 128; c < 256; c++) n->set[c] = 1;
}
static const char* lit[] = {"a", "b", "c", "0", "B", "\\.", "\\\\", "\\n", "\\(", "_", "\\t", "\\*", "\\v", "\\f", "\\r"};
static const char litc[] = {'a', 'b', 'c', '0', 'B', '.', '\\', '\n', '(', '_', '\t', '*', '\v', '\f', '\r'};
static const char cc[] = "wWdDsSaAxXpPlu";
static N* one(void) {
    N* n = node(ONE);
    int k = vp_choice(7), i, m;
    char b[3] = "\\?";
    if (k <= 3) { i = vp_choice(k ? 4 : 15); put(lit[i]); add(n, litc[i]); return n; }
    if (k == 4) { put("."); for (i = 1; i < 256; i++) n->set[i] = 1; return n; }
    if (k == 5) { b[1] = cc[vp_choice(14)]; put(b); cls(n, b[1]); return n; }
    {
        int neg = vp_choice(2);
        put(neg ? "[^" : "[");
        for (m = 1 + vp_choice(3); m > 0; m--) {
            int w = vp_choice(5);
            if (w == 0) { put("a-c"); for (i = 'a'; i <= 'c'; i++) add(n, i); }
            else if (w == 1) { put("0-5"); for (i = '0'; i <= '5'; i++) add(n, i); }
            else if (w == 2) { b[1] = cc[vp_choice(14)]; put(b); cls(n, b[1]); }
            else { i = vp_choice(15); put(lit[i]); add(n, litc[i]); }
        }
        put("]");
        if (neg) for (i = 1; i < 256; i++) n->set[i] = !n->set[i];
    }
    return n;
}
static int nullable(N* n) {
    int i;
    if (n->op == ONE) return 0;
    if (n->op == BOL || n->op == EOL || (n->op == REP && !n->lo)) return 1;
    if (n->op == ALT) { for (i = 0; i < n->nk; i++) if (nullable(n->k[i])) return 1; return 0; }
    for (i = 0; i < n->nk; i++) if (!nullable(n->k[i])) return 0;
    return n->op == SEQ || nullable(n->k[0]);
}
static N* alt(int depth);
static N* seq(int depth, int top) {
    N *s = node(SEQ), *prev = NULL;
    int m = 1 + vp_choice(4), i, bol = 0;
    if (vp_choice(8) == 0) { put("^"); s->k[s->nk++] = node(BOL); bol = 1; }
    for (i = s->nk; i < m || s->nk == bol; i++) {
        N* x;
        int t = vp_choice(depth > 0 ? 8 : 6);
        if (t == 5 && s->nk) { put("$"); s->k[s->nk++] = node(EOL); prev = NULL; continue; }
        if (t < 6) x = one();
        else {
            put(t == 6 ? "(" : "(?:");
            x = alt(depth - 1);
            put(")");
            if (top == 1 && x->op == ALT) exact = 0;
        }
        if (prev) { /* a repetition is exact when what follows cannot be taken for one more */
            int c, hit = x->op != ONE;
            for (c = 1; c < 256 && x->op == ONE; c++) hit |= prev->set[c] && x->set[c];
            if (hit) exact = 0;
            prev = NULL;
        }
        if (vp_choice(3) == 0 && !nullable(x)) {
            static const struct { const char* t; int lo, hi; } q[] = {{"*", 0, 99}, {"+", 1, 99}, {"?", 0, 1}, {"{2}", 2, 2}, {"{1,}", 1, 99}, {"{0,2}", 0, 2}, {"{2,3}", 2, 3}, {"{3,4}", 3, 4}, {"{0}", 0, 0}};
            int k = vp_choice(9);
            N* r = node(REP);
            put(q[k].t);
            r->lo = q[k].lo;
            r->hi = q[k].hi;
            r->k[0] = x;
            if (x->op != ONE || top != 1) exact = 0;
            if (x->op == ONE) prev = x;
            x = r;
            if (prev && s->nk == 3) prev = NULL;
        }
        s->k[s->nk++] = x;
        if (s->nk == 4) break;
        if (prev && x->op == REP && i + 1 < m) {
            /* the next element has to be a plain one for the pattern to be exact */
            N* y = one();
            int c, hit = 0;
            for (c = 1; c < 256; c++) hit |= prev->set[c] && y->set[c];
            if (hit) exact = 0;
            s->k[s->nk++] = y;
            prev = NULL;
            i++;
            if (s->nk == 4) break;
        }
    }
    if (top != 1 && prev) exact = 0;
    return s;
}
static N* alt(int depth) {
    N *a = seq(depth, 0), *n;
    if (vp_choice(3)) return a;
    n = node(ALT);
    exact = 0;
    put("|");
    n->k[n->nk++] = a;
    n->k[n->nk++] = seq(depth, 0);
    return n;
}
/* the places where a match of n that starts at one of the places in m can end */
static unsigned ends(N* n, unsigned m, const char* t, int len) {
    unsigned r = 0, p;
    int i;
    switch (n->op) {
    case ONE: for (i = 0; i < len; i++) if ((m >> i & 1) && n->set[(unsigned char)t[i]]) r |= 2u << i; return r;
    case BOL: return m & 1;
    case EOL: return m & (1u << len);
    case SEQ: for (i = 0; i < n->nk; i++) m = ends(n->k[i], m, t, len); return m;
    case ALT: for (i = 0; i < n->nk; i++) r |= ends(n->k[i], m, t, len); return r;
    default:
        for (i = 0; i < n->lo; i++) m = ends(n->k[0], m, t, len);
        for (r = m; i < n->hi && i < 40; i++) { p = m; m = ends(n->k[0], m, t, len); r |= m; if (!m || m == p) break; }
        return r;
    }
}
static int accept(const char* p, const char* t, int flags) {
    void* tab[1];
    struct arg_rex* a = arg_rex1(NULL, NULL, p, NULL, flags, NULL);
    int live = vp_heap_live(), r = a->hdr.scanfn(a, t);
    vp_assert(vp_heap_live() == live, "matching keeps no memory");
    vp_assert(r == 0 || r == ARG_ERR_REGNOMATCH, "a text that does not match is reported as such");
    vp_assert(a->count == (r == 0) && (r != 0 || a->sval[0] == t), "a matching text is stored");
    tab[0] = a;
    arg_freetable(tab, 1);
    return r == 0;
}
void h_rexp(void) {
    char* text;
    N* n;
    int got, want, len;
    np = nodes = 0;
    pat[0] = 0;
    icase = vp_choice(4) == 0;
    exact = 1;
    n = vp_choice(2) ? seq(vp_choice(2), 1) : alt(2);
    text = vp_cstr("#4 a|b|c|0|B|.|(|_|A|aa|ab|abc|\n|\\| |5|\t|*|\v");
    len = (int)strlen(text);
    vp_assume(len < 24);
    got = accept(pat, text, icase ? ARG_REX_ICASE : 0);
    want = ends(n, 1, text, len) >> len & 1;
    if (got != want && (got || exact)) fprintf(stderr, "pattern %s text %s icase %d\n", pat, text, icase);
    if (got) vp_assert(want, "an accepted text is matched as a whole by the pattern");
    if (want && exact) vp_assert(got, "a text that a plain pattern matches as a whole is accepted");
}
/* any pattern: no access outside pattern, text and nodes, no memory kept */
void h_rexraw(void) {
    const char *p = vp_cstr("#6 a|b|(|)|[|]|^|$|*|+|?|{|}|1|2|,|-|\\|.|(?:|\\b|\\B|\\w|a-c|0-9|[^|\x80"), *t = vp_cstr("#3 a|b|c|0| ");
    int live = vp_heap_live();
    vp_assume(strlen(p) < 24 && strlen(t) < 8);
    {
        int q = 0, i;
        for (i = 0; p[i]; i++) q += strchr("*+?{", p[i]) != NULL;
        if (q <= 1) accept(p, t, vp_choice(2) ? ARG_REX_ICASE : 0); /* the matcher may need very long for nested repetitions */
        else {
            void* tab[1];
            tab[0] = arg_rex1(NULL, NULL, p, NULL, 0, NULL);
            arg_freetable(tab, 1);
        }
    }
    vp_assert(vp_heap_live() == live, "no memory is kept");
}
