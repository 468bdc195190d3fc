/* getopt_long, one call: arg_getopt_long.c */
//@ contract parse_long_options c_long getopt.h_long
//@ contract permute_args c_permute h_permute
//@ harness h_getopt0 prop=C09,C10 use=parse_long_options,permute_args nosp=1 noenv=1 nonative=1 cut=getopt_internal cost=100
//@ harness h_getopt1 prop=C09,C10 use=parse_long_options,permute_args nosp=1 noenv=1 nonative=1 cut=getopt_internal cost=90
//@ harness h_getopt2 prop=C09,C10 use=parse_long_options,permute_args nosp=1 noenv=1 nonative=1 cut=getopt_internal cost=200
//@ harness h_permute prop=C10 unroll=40 bound=blocks-of-up-to-7-arguments-each
//@ harness h_getopt4 prop=C09,C10 use=parse_long_options,permute_args nosp=1 noenv=1 nonative=1 cut=getopt_internal cost=5
//@ harness h_getopt5 prop=C09,C10 use=parse_long_options,permute_args nosp=1 noenv=1 nonative=1 cut=getopt_internal cost=20
//@ harness h_getopt6 prop=C09,C10 use=parse_long_options,permute_args nosp=1 noenv=1 nonative=1 cut=getopt_internal cost=300
//@ harness h_getopt7 prop=C09,C10 use=parse_long_options,permute_args nosp=1 noenv=1 nonative=1 cut=getopt_internal cost=200
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
#include "arg_getopt.h"

extern char* place;
extern int nonopt_start, nonopt_end, optreset;
static int g_argc;
static struct option* g_o1;

/* ---- one call of getopt_long from any state that earlier calls can leave */
static void* g_fam;              /* the arguments */
static char** g_argv;
static const char* g_opts;
static int g_o, g_cnt, g_j, g_s, g_e; /* at the call: next argument, number of skipped ones */
static char* g_jp;               /* the j-th skipped one */
static int g_fresh;
static char* g_place;
static int g_long, g_lind, g_lret;
static char* g_lplace;
/* the next argument that is an option (or --) */
static int sp_next(void* fam, int i, int n) {
    char* t;
    if (i < 0 || i >= n) return n;
    t = vp_fam(fam, (size_t)i);
    if (t[0] == '-' && t[1]) return i;
    return sp_next(fam, i + 1, n);
}
static int pure_option(void* fam, int i, int n) {
    char* t = vp_fam(fam, (size_t)i);
    return i < n && t[0] == '-' && t[1];
}
static int skipped(int at) { return g_cnt + (at - g_o); }
static char* nonoption(int j) { return j < g_cnt ? g_jp : vp_fam(g_fam, (size_t)((long)g_o + j - g_cnt)); }
LEMMA int inv_at(void) { return optind >= g_o && optind <= g_argc; }
LEMMA int inv_next(void) { return sp_next(g_fam, optind, g_argc) == sp_next(g_fam, g_o, g_argc); }
LEMMA int inv_start(void) {
    if (nonopt_end != -1) return optind == g_o && nonopt_start == g_s && nonopt_end == g_e;
    if (nonopt_start == -1) return optind == g_o && g_cnt == 0;
    return skipped(optind) > 0 && nonopt_start == optind - skipped(optind);
}
LEMMA int inv_place(void) { return optind == g_o ? optreset == g_fresh && place == g_place : *place == 0; }
LEMMA int inv_jth0(void) { return nonopt_end == -1 || g_j >= g_cnt || g_argv[(long)nonopt_start + g_j] == g_jp; }
LEMMA int inv_jth(void) { return nonopt_end != -1 || nonopt_start == -1 || g_j >= g_cnt || g_argv[(long)nonopt_start + g_j] == g_jp; }
LEMMA int inv_jth2(void) { return g_j < g_cnt || (long)g_o + g_j - g_cnt >= g_argc || g_argv[(long)g_o + g_j - g_cnt] == vp_fam(g_fam, (size_t)((long)g_o + g_j - g_cnt)); }
void c_permute(int s, int e, int end, char* const* argv) {
    char* keep;
    vp_requires(argv == g_argv && 0 < s && s < e && e < end && end <= g_argc, "a block of skipped arguments is exchanged with the options after it");
    keep = g_j < e - s ? argv[(long)s + g_j] : NULL;
    vp_rotate((char**)argv, (size_t)s, (size_t)e, (size_t)end);
    if (g_j < e - s) vp_lemma(argv[(long)end - e + s + g_j] == keep, "the blocks keep their order");
}
int c_long(char* const* argv, const char* options, const struct option* lo, int* idx, int short_too, int flags) {
    int k = vp_choice(3);
    vp_requires(argv == g_argv && *options == ':' && lo == g_o1 && idx == NULL && !short_too && opterr == 0, "arguments of the long option parser");
    g_long = 1;
    g_lind = optind;
    g_lplace = place;
    optarg = NULL;
    optind++;
    if (k == 0) { optopt = 0; return g_lret = '?'; }
    if (k == 1) return g_lret = ':';
    if (vp_choice(2)) optarg = vp_cstr("a");
    else if (optind < g_argc && vp_choice(2)) optarg = argv[optind++];
    return g_lret = 0;
}

/* state: 0 new parse; 1, 2, 3 between arguments; 4, 5 inside a group; 6, 7 as 3, 2 and the next argument is an option.
 * Skipped so far: none (1, 4), some and no option since (2), some and options since (3, 5) */
static void getopt_call(int state) {
    int r, inside, i, n2, c;
    size_t off = 0;
    char *text, *p, *oli;
    g_argc = vp_range(1, 1000000);
    g_fam = vp_strfam((size_t)g_argc, "-a|-|b");
    g_argv = (char**)vp_ptrtable(g_fam, (size_t)g_argc);
    g_opts = vp_cstr("a|:");
    vp_assume(g_opts[0] == ':');
    g_o1 = vp_buf(sizeof(struct option));
    opterr = 0;
    optopt = vp_int();
    optarg = NULL;
    inside = 0;
    g_fresh = state == 0;
    optreset = 0;
    if (g_fresh) {
        optind = 0;
        place = vp_cstr("a"); /* whatever an earlier parse left */
        nonopt_start = vp_int();
        nonopt_end = vp_int();
        g_o = 1;
        g_s = g_e = -1;
        g_cnt = 0;
    } else {
        optind = g_o = vp_range(1, g_argc);
        nonopt_start = nonopt_end = g_s = g_e = -1;
        g_cnt = 0;
        inside = state == 4 || state == 5;
        if (inside) {
            vp_assume(g_o < g_argc);
            text = vp_fam(g_fam, (size_t)g_o);
            off = vp_size(10);
            vp_assume(off >= 1 && off < strlen(text) && text[0] == '-');
            place = text + off;
        } else
            place = "";
        if (state != 1 && state != 4) {
            g_s = nonopt_start = vp_range(1, g_o);
            vp_assume(g_s < g_o);
            if (state == 3 || state >= 5 && state != 7) {
                g_e = nonopt_end = vp_range(g_s + 1, g_o);
                vp_assume(g_e < g_o || inside);
                g_cnt = g_e - g_s;
            } else
                g_cnt = g_o - g_s;
        }
    }
    if (state == 2 || state == 3) vp_assume(!pure_option(g_fam, g_o, g_argc));
    if (state >= 6) vp_assume(pure_option(g_fam, g_o, g_argc));
    g_j = vp_range(0, 1000000);
    g_jp = g_j < g_cnt ? g_argv[(long)g_s + g_j] : NULL;
    g_place = place;
    r = getopt_long(g_argc, g_argv, g_opts, g_o1, NULL);
    i = inside ? g_o : sp_next(g_fam, g_o, g_argc);
    n2 = skipped(i);
    text = vp_fam(g_fam, (size_t)i);
    p = inside ? text + off : text + 1;
    if (i == g_argc || (!inside && p[0] == '-' && p[1] == 0)) {
        int end = i == g_argc ? i : i + 1;
        vp_cover("end of the options");
        vp_assert(r == -1, "the options end with -- or with the arguments");
        vp_assert(optind == end - n2, "the skipped arguments are counted");
        vp_assert(g_j >= n2 || g_argv[(long)optind + g_j] == nonoption(g_j), "and stand before the rest in the order they had");
        return;
    }
    /* the skipped arguments are kept in order */
    if (n2 > 0) {
        vp_assert(nonopt_start >= 1 && nonopt_end - nonopt_start == n2, "the skipped arguments are counted");
        vp_assert(nonopt_end <= i, "they lie before the option");
        vp_assert(g_j >= n2 || g_argv[(long)nonopt_start + g_j] == nonoption(g_j), "and are kept in the order they had");
    } else vp_assert(nonopt_start == -1 && nonopt_end == -1, "nothing was skipped");
    c = *p;
    if (c == '-') {
        if (inside) return;
        vp_cover("long");
        vp_assert(g_long && g_lind == i && g_lplace == p + 1 && r == g_lret, "a text after -- is taken for a long option");
        vp_assert(*place == 0, "and is done with");
        return;
    }
    oli = strchr(g_opts, c);
    if (c == 'W' && oli && oli[1] == ';') return;
    vp_assert(!g_long, "a single dash introduces short options");
    if (c == ':' || !oli) {
        vp_cover("unknown");
        vp_assert(r == '?' && optopt == c, "an unknown letter is reported");
    } else if (oli[1] != ':') {
        vp_cover("flag");
        vp_assert(r == c && optarg == NULL, "an option without value takes none");
    } else {
        vp_assert(*place == 0, "the value ends the group");
        if (p[1]) {
            vp_cover("attached");
            vp_assert(r == c && optarg == p + 1 && optind == i + 1, "the rest of the group is the value");
        } else if (oli[2] == ':') {
            vp_assert(r == c && optarg == NULL && optind == i + 1, "an optional value has to be attached");
        } else if (i + 1 < g_argc) {
            vp_cover("next");
            vp_assert(r == c && optarg == vp_fam(g_fam, (size_t)i + 1) && optind == i + 2, "a required value is the next argument");
        } else {
            vp_cover("missing");
            vp_assert(r == ':' && optind == g_argc, "a missing value is reported");
        }
        return;
    }
    if (p[1]) vp_assert(place == p + 1 && optind == i, "the group continues with the next letter");
    else vp_assert(*place == 0 && optind == i + 1, "the group ends with its last letter");
}
void h_getopt0(void) { getopt_call(0); }
void h_getopt1(void) { getopt_call(1); }
void h_getopt2(void) { getopt_call(2); }
void h_getopt4(void) { getopt_call(4); }
void h_getopt5(void) { getopt_call(5); }
void h_getopt6(void) { getopt_call(6); }
void h_getopt7(void) { getopt_call(7); }

/* ---- exchange of two blocks: the contents play no role, all sizes up to a bound */
void permute_args(int s, int e, int end, char* const* argv);
void h_permute(void) {
    static char text[32];
    char* a[32];
    int nn = 1 + vp_choice(7), no = 1 + vp_choice(7), s = vp_choice(2), i;
    for (i = 0; i < 18; i++) a[i] = text + i;
    permute_args(s, s + nn, s + nn + no, a);
    vp_cover("exchanged");
    for (i = 0; i < s; i++) vp_assert(a[i] == text + i, "what comes before stays");
    for (i = 0; i < no; i++) vp_assert(a[s + i] == text + s + nn + i, "the second block comes first, in order");
    for (i = 0; i < nn; i++) vp_assert(a[s + no + i] == text + s + i, "the first block comes second, in order");
    for (i = s + nn + no; i < 18; i++) vp_assert(a[i] == text + i, "what comes after stays");
}
