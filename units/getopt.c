/* getopt_long: arg_getopt_long.c */
//@ harness h_long prop=C08 nosp=1 lightcmp=1
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
#include "arg_getopt.h"

extern char* place;
extern int nonopt_start, nonopt_end;
int parse_long_options(char* const* nargv, const char* options, const struct option* lo, int* idx, int short_too, int flags);

/* ---- which long option a name selects: k is the number of an option, nm the names */
static int starts(void* nm, int k, const char* text, size_t len) { return strncmp(text, vp_fam(nm, (size_t)k), len) == 0; }
static int same(const struct option* a, const struct option* b) { return a->has_arg == b->has_arg && a->val == b->val; }
/* first exact match from k on, n if there is none */
static int sp_exact(void* nm, int k, int n, const char* text, size_t len) {
    if (k < 0 || k >= n) return n;
    if (starts(nm, k, text, len) && strlen(vp_fam(nm, (size_t)k)) == len) return k;
    return sp_exact(nm, k + 1, n, text, len);
}
/* first option the text abbreviates */
static int sp_first(void* nm, int k, int n, const char* text, size_t len) {
    if (k < 0 || k >= n) return n;
    if (starts(nm, k, text, len)) return k;
    return sp_first(nm, k + 1, n, text, len);
}
/* does the text abbreviate an option from k on other than m */
static int sp_other(void* nm, const struct option* o, int k, int n, const char* text, size_t len, int m) {
    if (k < 0 || k >= n || m < 0 || m >= n) return 0;
    if (starts(nm, k, text, len) && !same(o + k, o + m)) return 1;
    return sp_other(nm, o, k + 1, n, text, len, m);
}

static int g_n, g_flag, g_k, g_argc;
static void* g_names;
static struct option* g_o;
static const char* g_text;
static size_t g_len;

static int ok_option(void* p, size_t i) {
    struct option* o = p;
    if ((int)i == g_n) return o->name == NULL;
    return (o->name == vp_fam(g_names, i)) & (o->flag == &g_flag) & ((unsigned)o->has_arg <= 2);
}
static void options(void) {
    g_n = vp_range(0, 1000000);
    g_names = vp_strfam((size_t)g_n, "a|b");
    g_o = vp_array((size_t)g_n + 1, sizeof(struct option), 0, ok_option);
}
LEMMA int inv_upto(int i) { return i >= 0 && i <= g_n; }
LEMMA int inv_exact(int i) { return i >= 0 && i <= g_n && sp_exact(g_names, i, g_n, g_text, g_len) == sp_exact(g_names, 0, g_n, g_text, g_len); }
LEMMA int inv_first(int i, int match) {
    if (match == -1) return sp_first(g_names, i, g_n, g_text, g_len) == sp_first(g_names, 0, g_n, g_text, g_len);
    return match >= 0 && match < i && match == sp_first(g_names, 0, g_n, g_text, g_len);
}
LEMMA int inv_match(int i, int match) { return match >= -1 && match < i; }
LEMMA int inv_second(int i, int match, int second) {
    if (match == -1) return second == 0;
    return second ? sp_other(g_names, g_o, match + 1, g_n, g_text, g_len, match) == 1
                  : sp_other(g_names, g_o, i, g_n, g_text, g_len, match) == sp_other(g_names, g_o, match + 1, g_n, g_text, g_len, match);
}
void h_long(void) {
    int ind, r, e, f, m, amb, val;
    char *text, *eq;
    char** argv;
    options();
    g_argc = vp_range(2, 1000000);
    argv = (char**)vp_ptrtable(vp_strfam((size_t)g_argc, "a|b"), (size_t)g_argc + 1);
    optind = ind = vp_range(1, g_argc - 1);
    text = vp_cstr("a|b|=");
    place = text;
    optarg = NULL;
    opterr = 0;
    optopt = vp_int();
    g_text = text;
    eq = strchr(text, '=');
    g_len = eq ? (size_t)(eq - text) : strlen(text);
    r = parse_long_options(argv, ":", g_o, NULL, 0, 1);
    e = sp_exact(g_names, 0, g_n, g_text, g_len);
    f = sp_first(g_names, 0, g_n, g_text, g_len);
    m = e < g_n ? e : f;
    amb = e == g_n && f < g_n && sp_other(g_names, g_o, f + 1, g_n, g_text, g_len, f);
    if (m == g_n || amb) {
        vp_cover("unknown or ambiguous");
        vp_assert(r == '?' && optopt == 0 && optind == ind + 1, "a name that is unknown, or the abbreviation of several options, is refused");
        return;
    }
    val = g_o[m].val;
    if (g_o[m].has_arg == no_argument && eq) {
        vp_cover("unwanted value");
        vp_assert(r == '?' && optind == ind + 1, "a value for an option that takes none is refused");
        return;
    }
    if (g_o[m].has_arg == required_argument && !eq && ind + 1 >= g_argc) {
        vp_cover("missing value");
        vp_assert(r == ':' && optind == ind + 1, "a missing value is reported");
        return;
    }
    vp_cover("accepted");
    vp_assert(r == 0 && g_flag == val, "an exact name, or else the one option abbreviated, is selected");
    if (g_o[m].has_arg == no_argument) vp_assert(optarg == NULL && optind == ind + 1, "an option without value takes nothing");
    else if (eq) vp_assert(optarg == eq + 1 && optind == ind + 1, "the value is what follows the equal sign");
    else if (g_o[m].has_arg == optional_argument) vp_assert(optarg == NULL && optind == ind + 1, "an optional value is taken only after an equal sign");
    else vp_assert(optarg == argv[ind + 1] && optind == ind + 2, "a required value is the next argument");
}
