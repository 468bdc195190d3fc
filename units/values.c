/* counting and storing of values, for every option type but arg_int (int.c) and arg_rex (rex.c) */
//@ harness h_v_dbl prop=C02
//@ harness h_v_str prop=C02
//@ harness h_v_lit prop=C02
//@ harness h_v_file prop=C02
//@ harness h_c_dbl prop=C03
//@ harness h_c_str prop=C03
//@ harness h_c_lit prop=C03
//@ harness h_c_file prop=C03
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
#include "values.h"

#define NEW(type, expr)                                                                                               \
    int mn = vp_range(0, M), mx = vp_range(0, M), max = bigger(mn, mx);                                                 \
    struct type* a = expr;                                                                                              \
    HDR(a);

static int is_empty(const char* s) { return *s == '\0'; }

void h_v_dbl(void) {
    NEW(arg_dbl, arg_dbln("d", "dbl", NULL, mn, mx, NULL));
    vp_assert((char*)a->dval >= (char*)(a + 1) && vp_off(a->dval) % sizeof(double) == 0, "aligned storage after the entry");
    {
        SCAN(a, a->dval, double);
        if (text != NULL && n < max) {
            char* e = NULL;
            double w = strtod(text, &e);
            vp_assert((r == 0) == (*e == '\0'), "a number is accepted exactly when the whole text converts");
            vp_assert(r == 0 || r == ARG_ERR_BADDOUBLE, "a bad number is reported as such");
            if (r == 0) {
                unsigned long x, y;
                memcpy(&x, &w, 8);
                memcpy(&y, &a->dval[n], 8);
                vp_assert(x == y, "the stored value is the converted one");
            }
        }
    }
}
void h_c_dbl(void) {
    NEW(arg_dbl, arg_dbln("d", "dbl", NULL, mn, mx, NULL));
    { CHECK(a, a->dval, double); }
}

void h_v_str(void) {
    NEW(arg_str, arg_strn("s", "str", NULL, mn, mx, NULL));
    if (max > 0) vp_assert(is_empty(a->sval[vp_index((size_t)max)]), "unused slots hold the empty string");
    {
        SCAN(a, a->sval, char*);
        if (text != NULL && n < max) {
            vp_assert(r == 0, "any text is a string");
            vp_assert(a->sval[n] == text, "the stored string is the argument itself");
        }
    }
}
void h_c_str(void) {
    NEW(arg_str, arg_strn("s", "str", NULL, mn, mx, NULL));
    { CHECK(a, a->sval, char*); }
}

void h_v_lit(void) {
    int n, r;
    NEW(arg_lit, arg_litn("l", "lit", mn, mx, NULL));
    n = vp_range(0, max);
    a->count = n;
    r = a->hdr.scanfn(a, NULL);
    vp_cover("flag");
    vp_assert(r == (n < max ? 0 : ARG_ERR_MAXCOUNT), "a flag is refused exactly when its limit is reached");
    vp_assert(a->count == (n < max ? n + 1 : n), "a flag is counted once, up to its limit");
}
void h_c_lit(void) {
    NEW(arg_lit, arg_litn("l", "lit", mn, mx, NULL));
    { CHECK(a, a + 1, char[0]); }
}

void h_v_file(void) {
    NEW(arg_file, arg_filen("f", "file", NULL, mn, mx, NULL));
    vp_assert(a->basename == a->filename + max && a->extension == a->basename + max, "the three arrays do not overlap");
    if (max > 0) {
        size_t k = vp_index((size_t)max);
        vp_assert(is_empty(a->filename[k]) && is_empty(a->basename[k]) && is_empty(a->extension[k]), "unused slots hold the empty string");
    }
    {
        int n = vp_range(0, max), r, snap;
        const char* text = vp_opt_cstr(TEXT);
        size_t base = (size_t)((char*)a->filename - (char*)a), w = (size_t)max * sizeof(char*), size = base + 3 * w;
        a->count = n;
        snap = vp_snapshot(a, size);
        r = a->hdr.scanfn(a, text);
        if (n == max) {
            vp_cover("full");
            vp_assert(r == ARG_ERR_MAXCOUNT, "a value past the limit is refused as excess");
            vp_assert(a->count == n && vp_unchanged(snap, 0, size), "a refused value changes nothing");
        } else if (text == NULL) {
            vp_cover("no value");
            vp_assert(r == 0 && a->count == n + 1, "an option without its optional value is counted");
            vp_assert(vp_unchanged(snap, base, size), "an option without its optional value stores nothing");
        } else {
            size_t o = (size_t)n * sizeof(char*);
            vp_cover("stored");
            vp_assert(r == 0, "any text is a file name");
            vp_assert(a->count == n + 1, "an accepted value is counted once");
            vp_assert(a->filename[n] == text, "the stored name is the argument itself");
            vp_assert(vp_unchanged(snap, base, base + o), "other slots stay");
            vp_assert(vp_unchanged(snap, base + o + 8, base + w + o), "other slots stay");
            vp_assert(vp_unchanged(snap, base + w + o + 8, base + 2 * w + o), "other slots stay");
            vp_assert(vp_unchanged(snap, base + 2 * w + o + 8, size), "other slots stay");
        }
    }
}
void h_c_file(void) {
    NEW(arg_file, arg_filen("f", "file", NULL, mn, mx, NULL));
    { CHECK(a, a->filename, char*); }
}
