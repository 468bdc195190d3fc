/* texts for the user: compared with a reference by execution */
//@ native h_help prop=C16
//@ native h_errtext prop=C15
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"

static char R[20000];
static size_t rn;
static void put(const char* s) {
    size_t l = strlen(s);
    memcpy(R + rn, s, l + 1);
    rn += l;
}
static void putc1(char c) {
    R[rn++] = c;
    R[rn] = 0;
}
static void value(const char* t, int opt) {
    if (opt) put("[");
    put(t);
    if (opt) put("]");
}
/* "-a<sep>-b<sep>--long<sep>--other=<type>" */
static void full(const char* s, const char* l, const char* t, int opt, const char* sep) {
    int first = 1;
    if (s)
        for (; *s; s++) {
            if (!first) put(sep);
            first = 0;
            putc1('-');
            putc1(*s);
        }
    if (l) {
        const char* p = l;
        for (;;) {
            if (!first) put(sep);
            first = 0;
            put("--");
            while (*p && *p != ',') putc1(*p++);
            if (!*p++) break;
        }
    }
    if (t) {
        put(l ? "=" : first ? "" : " ");
        value(t, opt);
    }
}
static void brief(const char* s, const char* l, const char* t, int opt) {
    if (s) {
        putc1('-');
        putc1(s[0]);
    } else if (l) {
        put("--");
        while (*l && *l != ',') putc1(*l++);
    }
    if (t) {
        put(s ? " " : l ? "=" : "");
        value(t, opt);
    }
}
static char B[4000];
static const char* sub(void) {
    strcpy(B, R);
    rn = 0;
    R[0] = 0;
    return B;
}
#define MAXT 5
static struct arg_hdr* T[MAXT + 1];
static char* text(const char* dict) {
    char* s = vp_mcstr(dict);
    if (strlen(s) > 14) s[14] = 0;
    return s;
}
static char* nonempty(const char* dict) {
    char* s = text(dict);
    vp_assume(*s && !strchr(s, '%'));
    return s;
}
static char* longname(void) {
    char *s = nonempty("long|x|,yy|opt-1"), *p;
    /* names separated by single commas */
    for (p = s; *p; p++) vp_assume(*p != ',' || (p > s && p[1] && p[1] != ','));
    return s;
}
static int table(void) {
    int n = vp_range(0, MAXT), i;
    for (i = 0; i < n; i++) {
        int kind = vp_choice(5), min = vp_range(0, 3), max = min + vp_range(0, 4), w = vp_choice(4);
        char* s = w & 1 ? nonempty("a|b|Q") : NULL;
        char* l = w & 2 ? longname() : NULL;
        char* t = vp_choice(2) ? nonempty("<t>|num") : NULL;
        char* g = vp_choice(3) ? text("some|words |that |explain|an option of this program|") : NULL;
        if (max == 0) max = 1;
        T[i] = kind == 0   ? (void*)arg_litn(s, l, min, max, g)
               : kind == 1 ? (void*)arg_intn(s, l, t, min, max, g)
               : kind == 2 ? (void*)arg_strn(s, l, t, min, max, g)
               : kind == 3 ? (void*)arg_rem(t, g)
                           : (void*)arg_filen(s, l, t, min, max, g);
        if (kind == 1 || kind == 2)
            if (vp_choice(2)) T[i]->flag |= ARG_HASOPTVALUE;
    }
    T[n] = (struct arg_hdr*)arg_end(3);
    return n;
}
static void many(struct arg_hdr* h, const char* x) {
    int i, extra = h->maxcount - h->mincount;
    for (i = 0; i < h->mincount; i++) put(" "), put(x);
    if (extra == 1 || extra == 2)
        for (i = 0; i < extra; i++) put(" ["), put(x), put("]");
    else if (extra > 2) put(" ["), put(x), put("]...");
}
void h_help(void) {
    int n = table(), i, any = 0, opt = 0;
    const char* suffix = vp_choice(2) ? "!\n" : NULL;
    arg_dstr_t ds = arg_dstr_create();
    static char X[4000];
    rn = 0;
    R[0] = 0;
    switch (vp_choice(4)) {
        case 0:
            arg_print_syntax_ds(ds, (void**)T, suffix);
            for (i = 0; i < n; i++)
                if (T[i]->shortopts && !(T[i]->flag & ARG_HASVALUE) && T[i]->mincount > 0) {
                    put(any ? "" : " -");
                    putc1(T[i]->shortopts[0]);
                    any = 1;
                }
            for (i = 0; i < n; i++)
                if (T[i]->shortopts && !(T[i]->flag & ARG_HASVALUE) && T[i]->mincount == 0) {
                    put(opt ? "" : any ? "[" : " [-");
                    putc1(T[i]->shortopts[0]);
                    opt = 1;
                }
            if (opt) put("]");
            for (i = 0; i < n; i++) {
                size_t keep = rn;
                if (T[i]->shortopts && !(T[i]->flag & ARG_HASVALUE)) continue;
                brief(T[i]->shortopts, T[i]->longopts, T[i]->datatype, T[i]->flag & ARG_HASOPTVALUE);
                strcpy(X, R + keep);
                rn = keep;
                R[rn] = 0;
                if (*X) many(T[i], X);
            }
            if (suffix) put(suffix);
            break;
        case 1:
            arg_print_syntaxv_ds(ds, (void**)T, suffix);
            for (i = 0; i < n; i++) {
                size_t keep = rn;
                full(T[i]->shortopts, T[i]->longopts, T[i]->datatype, T[i]->flag & ARG_HASOPTVALUE, "|");
                strcpy(X, R + keep);
                rn = keep;
                R[rn] = 0;
                many(T[i], X);
            }
            if (suffix) put(suffix);
            break;
        case 2: {
            const char* f = vp_choice(2) ? " %-10s: %s\n" : NULL;
            arg_print_glossary_ds(ds, (void**)T, f);
            for (i = 0; i < n; i++) {
                size_t keep = rn, k;
                if (!T[i]->glossary) continue;
                full(T[i]->shortopts, T[i]->longopts, T[i]->datatype, T[i]->flag & ARG_HASOPTVALUE, ", ");
                strcpy(X, R + keep);
                rn = keep;
                R[rn] = 0;
                put(f ? " " : "  ");
                put(X);
                for (k = strlen(X); k < (f ? 10u : 20u); k++) put(" ");
                put(f ? ": " : " ");
                put(T[i]->glossary);
                put("\n");
            }
            break;
        }
        case 3:
            arg_print_glossary_gnu_ds(ds, (void**)T);
            for (i = 0; i < n; i++) {
                size_t keep = rn, k;
                const char* g = T[i]->glossary;
                if (!g) continue;
                vp_assume(!strchr(g, '\n'));
                while (isspace((int)*g)) g++;
                vp_assume(*g && strlen(T[i]->glossary) <= 52); /* wrapping: see wrap.c */
                if (!T[i]->shortopts && T[i]->longopts) put("    ");
                full(T[i]->shortopts, T[i]->longopts, T[i]->datatype, T[i]->flag & ARG_HASOPTVALUE, ", ");
                strcpy(X, R + keep);
                rn = keep;
                R[rn] = 0;
                put("  ");
                put(X);
                for (k = strlen(X); k < 25; k++) put(" ");
                put(" ");
                if (strlen(X) > 25) {
                    put("\n  ");
                    for (k = 0; k < 26; k++) put(" ");
                }
                put(g);
                put("\n");
            }
            put("\n");
            break;
    }
    vp_assert(strcmp(arg_dstr_cstr(ds), R) == 0, "the help text is the one documented for the table");
    arg_dstr_destroy(ds);
    arg_freetable((void**)T, (size_t)n + 1);
    vp_assert(vp_heap_live() == 0, "all memory is released");
}
/* the message of every error of every type */
void h_errtext(void) {
    char *s = vp_choice(2) ? nonempty("a|b") : NULL, *l = vp_choice(2) ? longname() : NULL, *t = vp_choice(2) ? nonempty("<t>") : NULL;
    const char* v = vp_choice(4) ? text("value|x") : NULL;
    const char* av = v ? v : "";
    int kind = vp_choice(8), code;
    struct arg_hdr* h;
    struct arg_end* end = arg_end(5);
    arg_dstr_t ds = arg_dstr_create();
    rn = 0;
    R[0] = 0;
    put("prog: ");
    h = kind == 0   ? (void*)arg_lit0(s, l, "g")
        : kind == 1 ? (void*)arg_int0(s, l, t, "g")
        : kind == 2 ? (void*)arg_dbl0(s, l, t, "g")
        : kind == 3 ? (void*)arg_str0(s, l, t, "g")
        : kind == 4 ? (void*)arg_file0(s, l, t, "g")
        : kind == 5 ? (void*)arg_date0(s, l, "%Y", t, "g")
        : kind == 6 ? (void*)arg_rex0(s, l, "a+", t, 0, "g")
                    : (void*)end;
    if (kind == 7) {
        static const int codes[] = {ARG_ELIMIT, ARG_EMALLOC, ARG_ENOMATCH, ARG_EMISSARG, ARG_ELONGOPT, 'z'};
        int k = vp_choice(6);
        code = codes[k];
        if (k == 0) put("too many errors to display");
        if (k == 1) put("insufficient memory");
        if (k == 2) put("unexpected argument \""), put(av), put("\"");
        if (k == 3) put("option \""), put(av), put("\" requires an argument");
        if (k == 4) put("invalid option \""), put(av), put("\"");
        if (k == 5) put("invalid option \"-z\"");
        put("\n");
    } else if (vp_choice(3) == 0) {
        code = ARG_ERR_MINCOUNT;
        put("missing option ");
        full(s, l, h->datatype, 0, "|");
        put(kind == 0 ? "\n\n" : "\n"); /* arg_lit: with a blank line */
    } else if (vp_choice(2)) {
        code = ARG_ERR_MAXCOUNT;
        if (kind == 0) put("extraneous option "), full(s, l, NULL, 0, "|");
        else put("excess option "), full(s, l, av, 0, "|");
        put("\n");
    } else {
        static const int bad[] = {0, ARG_ERR_BADINT, ARG_ERR_BADDOUBLE, 0, 0, ARG_ERR_BADDATE, ARG_ERR_REGNOMATCH};
        code = bad[kind];
        vp_assume(code != 0);
        if (kind == 1) put("invalid argument \""), put(av), put("\" to option "), full(s, l, h->datatype, 0, "|"), put("\n");
        if (kind == 2) put("invalid argument \""), put(av), put("\" to option "), full(s, l, h->datatype, 0, "|"), put("\n");
        if (kind == 5) put("illegal timestamp format \""), put(av), put("\"\ncorrect format is \"1999\"\n");
        if (kind == 6) put("illegal value  "), full(s, l, av, 0, "|"), put("\n");
        if (kind == 1 && vp_choice(2)) {
            code = ARG_ERR_OVERFLOW;
            rn = 6;
            R[rn] = 0;
            put("integer overflow at option "), full(s, l, h->datatype, 0, "|"), put(" ("), put(av), put(" is too large)\n");
        }
    }
    end->count = 1;
    end->error[0] = code;
    end->parent[0] = h;
    end->argval[0] = v;
    arg_print_errors_ds(ds, end, "prog");
    if (strcmp(arg_dstr_cstr(ds), R)) fprintf(stderr, "got  %s\nwant %s\n", arg_dstr_cstr(ds), R);
    vp_assert(strcmp(arg_dstr_cstr(ds), R) == 0, "the message of an error names the program, the kind of error, the option and the argument");
    arg_dstr_destroy(ds);
    if (kind != 7) {
        void* x[1];
        x[0] = h;
        arg_freetable(x, 1);
    }
    {
        void* x[1];
        x[0] = end;
        arg_freetable(x, 1);
    }
    vp_assert(vp_heap_live() == 0, "all memory is released");
}
