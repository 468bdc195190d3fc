/* counting and storing of values: regular expressions and dates, whose matching is used by contract */
//@ contract trex_compile c_compile h_none
//@ contract dbg_printf c_dbg h_none
//@ contract trex_match c_match see:C12
//@ contract trex_free c_free h_none
//@ contract arg_strptime c_strptime see:C11
//@ harness h_v_rex prop=C02,C12 use=dbg_printf,trex_compile,trex_match,trex_free nonative=1
//@ harness h_v_date prop=C02,C11 use=arg_strptime
//@ harness h_c_rex prop=C03 use=dbg_printf,trex_compile,trex_match,trex_free nonative=1
//@ harness h_c_date prop=C03
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
#include "values.h"

#define NEW(type, expr)                                                                                               \
    int mn = vp_range(0, M), mx = vp_range(0, M), max = bigger(mn, mx);                                                 \
    struct type* a = expr;                                                                                              \
    HDR(a);

LEMMA void c_dbg(const char* format) { (void)format; }

/* ---- regular expressions */
static int g_live, g_bad, g_matches, g_obj, g_flags, g_calls;
static const char *g_pattern, *g_text;
LEMMA void* c_compile(const char* pattern, const char** error, int flags) {
    vp_requires(pattern == g_pattern && flags == g_flags, "the pattern and flags of the entry");
    vp_requires(!g_live, "one expression at a time");
    if (g_bad) return NULL;
    g_live = 1;
    return &g_obj;
}
LEMMA unsigned c_match(void* rex, const char* text) {
    vp_requires(rex == &g_obj && g_live, "a compiled expression");
    vp_requires(text == g_text, "the argument");
    g_calls++;
    return (unsigned)g_matches;
}
LEMMA void c_free(void* rex) {
    vp_requires(rex == NULL || (rex == &g_obj && g_live), "released once");
    if (rex) g_live = 0;
}
static void ghosts(void) {
    g_live = 0;
    g_calls = 0;
    g_bad = vp_choice(2);
    g_matches = vp_choice(2);
    g_pattern = vp_cstr("a|b");
    g_flags = vp_int();
}
void h_v_rex(void) {
    ghosts();
    {
        NEW(arg_rex, arg_rexn("r", "rex", g_pattern, NULL, mn, mx, g_flags, NULL));
        vp_assert(!g_live, "the trial compilation is released");
        if (max > 0) vp_assert(a->sval[vp_index((size_t)max)][0] == '\0', "unused slots hold the empty string");
        {
            int n = vp_range(0, max), r, snap;
            const char* text = vp_opt_cstr(TEXT);
            size_t base = (size_t)((char*)a->sval - (char*)a), size = base + (size_t)max * sizeof(char*);
            g_text = text;
            a->count = n;
            snap = vp_snapshot(a, size);
            r = a->hdr.scanfn(a, text);
            vp_assert(!g_live, "the compiled expression is released");
            if (n == max) {
                vp_cover("full");
                vp_assert(r == ARG_ERR_MAXCOUNT, "a value past the limit is refused as excess");
                vp_assert(a->count == n && vp_unchanged(snap, 0, size), "a refused value changes nothing");
            } else if (text == NULL) {
                vp_cover("no value");
                vp_assert(r == 0 && a->count == n + 1 && vp_unchanged(snap, base, size), "an option without its optional value is counted and stores nothing");
            } else if (g_bad || !g_matches) {
                vp_cover("no match");
                vp_assert(r != 0 && r != ARG_ERR_MAXCOUNT && r != ARG_ERR_MINCOUNT, "a text that does not match is refused as such");
                vp_assert(a->count == n && vp_unchanged(snap, 0, size), "a refused value changes nothing");
            } else {
                vp_cover("stored");
                vp_assert(r == 0 && a->count == n + 1 && a->sval[n] == text, "a matching text is counted once and stored");
                vp_assert(vp_unchanged(snap, base, base + (size_t)n * 8) && vp_unchanged(snap, base + (size_t)n * 8 + 8, size), "other slots stay");
            }
        }
    }
}
void h_c_rex(void) {
    ghosts();
    {
        NEW(arg_rex, arg_rexn("r", "rex", g_pattern, NULL, mn, mx, g_flags, NULL));
        { CHECK(a, a->sval, char*); }
    }
}

/* ---- dates */
static int g_null, g_day, g_min, g_d;
static size_t g_end, g_at;
static const char *g_format, *g_buf;
LEMMA char* c_strptime(const char* buf, const char* fmt, struct tm* tm) {
    vp_requires(buf == g_text, "the argument");
    vp_requires(fmt == g_format, "the format of the entry");
    if (vp_choice(2)) tm->tm_mday = g_day;
    if (vp_choice(2)) tm->tm_min = g_min;
    g_day = tm->tm_mday;
    g_min = tm->tm_min;
    return g_null ? NULL : (char*)g_text + g_at;
}
void h_v_date(void) {
    g_format = vp_cstr("%Y|%m|%d|-");
    {
        NEW(arg_date, arg_daten("d", "date", g_format, NULL, mn, mx, NULL));
        vp_assert(a->format == g_format, "the format is the one asked for");
        {
            int n = vp_range(0, max), r, snap;
            const char* text = vp_opt_cstr("1999|-|2|3|4|0");
            size_t base = (size_t)((char*)a->tmval - (char*)a), w = sizeof(struct tm), size = base + (size_t)max * w;
            g_text = text;
            g_at = text ? vp_index(strlen(text) + 1) : 0;
            g_null = vp_choice(2);
            g_day = vp_int();
            g_min = vp_int();
            a->count = n;
            snap = vp_snapshot(a, size);
            r = a->hdr.scanfn(a, text);
            if (n == max) {
                vp_cover("full");
                vp_assert(r == ARG_ERR_MAXCOUNT, "a value past the limit is refused as excess");
                vp_assert(a->count == n && vp_unchanged(snap, 0, size), "a refused value changes nothing");
            } else if (text == NULL) {
                vp_cover("no value");
                vp_assert(r == 0 && a->count == n + 1 && vp_unchanged(snap, base, size), "an option without its optional value is counted and stores nothing");
            } else if (r != 0) {
                vp_cover("refused");
                vp_assert(r != ARG_ERR_MAXCOUNT && r != ARG_ERR_MINCOUNT, "below the limit the error concerns the text");
                vp_assert(a->count == n && vp_unchanged(snap, 0, size), "a refused value changes nothing");
            } else {
                vp_cover("stored");
                vp_assert(a->count == n + 1, "an accepted value is counted once");
                vp_assert(vp_unchanged(snap, base, base + (size_t)n * w) && vp_unchanged(snap, base + (size_t)(n + 1) * w, size), "other slots stay");
            }
#ifndef VP_NATIVE
            if (n < max && text && r == 0) vp_assert(a->tmval[n].tm_mday == g_day && a->tmval[n].tm_min == g_min, "the date read is stored in the next free slot");
            if (n < max && text) vp_assert((r == 0) == (!g_null && text[g_at] == '\0'), "a date is accepted exactly when the format matches the whole text");
#endif
        }
    }
}
void h_c_date(void) {
    NEW(arg_date, arg_daten("d", "date", NULL, NULL, mn, mx, NULL));
    { CHECK(a, a->tmval, struct tm); }
}
