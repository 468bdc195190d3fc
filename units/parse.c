/* arg_parse and its phases: argtable3.c.  The table is any table: entries are arbitrary headers whose functions are monitors
 * that check the order and the arguments of the calls. */
//@ contract arg_register_error c_register h_register
//@ harness h_register prop=C05
//@ harness h_untagged prop=C04 use=arg_register_error nonative=1
//@ harness h_check prop=C03 use=arg_register_error nonative=1
//@ harness h_reset prop=C03 nonative=1
//@ contract arg_reset c_reset h_reset
//@ contract arg_endindex c_endindex h_endindex
//@ contract arg_parse_tagged c_tagged h_tagged
//@ contract arg_parse_untagged c_untagged h_untagged
//@ contract arg_parse_check c_check h_check
//@ harness h_endindex nonative=1
//@ harness h_parse prop=C06 use=arg_reset,arg_endindex,arg_parse_tagged,arg_parse_untagged,arg_parse_check nonative=1
//@ contract find_shortoption c_find h_find
//@ contract alloc_longoptions c_alloc_long h_alloc_long
//@ contract alloc_shortoptions c_alloc_short h_alloc_short
//@ contract getopt_long c_getopt h_getopt
//@ harness h_find prop=C07 nonative=1
//@ harness h_tagged prop=C07 use=arg_register_error,find_shortoption,alloc_longoptions,alloc_shortoptions,getopt_long nonative=1
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
#include "arg_getopt.h"

void arg_register_error(struct arg_end* end, void* parent, int error, const char* argval);
void arg_parse_untagged(int argc, char** argv, struct arg_hdr** table, struct arg_end* endtable);
void arg_parse_check(struct arg_hdr** table, struct arg_end* endtable);
void arg_reset(void** argtable);

/* ---- the error list */
void h_register(void) {
    int asked = vp_range(-1000000, 1000000), max = asked < 1 ? 1 : asked, n = vp_range(0, max), snap, code = vp_int();
    struct arg_end* e = arg_end(asked);
    const char *v = vp_opt_cstr("a|b"), *oldval;
    size_t k = vp_index((size_t)max);
    int o = vp_int(), oldcode;
    void* oldparent;
    vp_assert(e->hdr.maxcount == max && e->hdr.parent == e && (e->hdr.flag & ARG_TERMINATOR), "an end entry holds as many errors as asked for");
    vp_assert(e->count == 0, "a new end entry holds no errors");
    vp_assert(vp_off(e->parent) % sizeof(void*) == 0 && vp_off(e->argval) % sizeof(char*) == 0 && vp_off(e->error) % sizeof(int) == 0, "the arrays are aligned");
    e->count = n;
    e->error[k] = oldcode = vp_int();
    e->parent[k] = oldparent = &oldcode;
    e->argval[k] = oldval = "old";
    snap = vp_snapshot(e, sizeof(struct arg_hdr));
    arg_register_error(e, &o, code, v);
    if (n < max) {
        vp_cover("room");
        vp_assert(e->count == n + 1, "one more error");
        vp_assert(e->error[n] == code && e->parent[n] == &o && e->argval[n] == v, "the error is recorded in the next place");
        n = n + 1;
    } else {
        vp_cover("full");
        vp_assert(e->count == max, "the number of errors stays at the capacity");
        vp_assert(e->error[max - 1] == ARG_ELIMIT && e->parent[max - 1] == e && e->argval[max - 1] == NULL, "the last place says that there were too many");
    }
    vp_assert(vp_unchanged(snap, 0, sizeof(struct arg_hdr)), "the entry itself stays as it is");
    if (k != (size_t)n - 1) {
        vp_cover("other place");
        vp_assert(e->error[k] == oldcode && e->parent[k] == oldparent && e->argval[k] == oldval, "the other errors stay");
    }
}

/* ---- ghost state of the monitors */
static int g_argc, g_pos, g_tab, g_err, g_n, g_k, g_phase;
static char** g_argv;
static struct arg_hdr** g_t;
static struct arg_end* g_end;
static const char* g_val;
static void* g_parent;

/* what has to happen next for the current option (phase 4) */
static int g_first, g_want, g_wcode, g_then, g_scan, g_c, g_idx, g_done;
static void *g_wparent, *g_wparent2;
static const char* g_wval;

static int m_scan(void* parent, const char* v);
static int m_check(void* parent);
static void m_reset(void* parent);

static void *g_sfam, *g_lfam;

static int ok_entry(void* p, size_t i) {
    struct arg_hdr* h = p;
    if (h->shortopts && h->shortopts != vp_fam(g_sfam, i)) return 0;
    if (h->longopts && h->longopts != vp_fam(g_lfam, i)) return 0;
    if (h->parent != p || h->mincount != (int)i) return 0;
    if (((h->flag & ARG_TERMINATOR) != 0) != ((int)i == g_n - 1)) return 0;
    if (h->scanfn && h->scanfn != (arg_scanfn*)m_scan) return 0;
    if (h->checkfn && h->checkfn != (arg_checkfn*)m_check) return 0;
    if (h->resetfn && h->resetfn != (arg_resetfn*)m_reset) return 0;
    return 1;
}
/* any table of any length, the last entry the only terminator */
static void table(void) {
    g_n = vp_range(1, 1000000);
    g_sfam = vp_strfam((size_t)g_n, "a|b");
    g_lfam = vp_strfam((size_t)g_n, "aa|b|,");
    g_t = (struct arg_hdr**)vp_ptrtable(vp_family((size_t)g_n, sizeof(struct arg_end), 0, ok_entry), (size_t)g_n);
    g_end = (struct arg_end*)g_t[g_n - 1];
    g_k = (int)vp_index((size_t)g_n);
}
static void args(void) {
    g_argc = vp_range(1, 1000000);
    g_argv = (char**)vp_ptrtable(vp_strfam((size_t)g_argc, "a|b"), (size_t)g_argc + 1);
}

/* ---- untagged arguments */
static int eligible(int i) { return !g_t[i]->longopts && !g_t[i]->shortopts && g_t[i]->scanfn; }

/* loop invariants: t is the index of the current entry */
LEMMA int inv_entry(int t) { return t >= 0 && t < g_n; }
LEMMA int inv_none_skipped(int t) {
    if (g_tab < 0 || g_tab > t) return 0;
    return !(g_tab <= g_k && g_k < t && (g_phase == 1 ? eligible(g_k) : g_phase == 2 ? g_t[g_k]->checkfn != 0 : g_t[g_k]->resetfn != 0));
}
LEMMA int inv_pending(void) { return g_err == 0 || (g_pos < g_argc && g_val == g_argv[g_pos]); }
LEMMA int inv_error(int e) { return e == g_err; }

static int m_scan(void* parent, const char* v) {
    int i = ((struct arg_hdr*)parent)->mincount, e = vp_int();
    if (g_phase == 4) {
        vp_assert(g_scan && !g_want && parent == g_wparent2 && v == optarg, "an option is delivered once, to its own entry, with its own value");
        g_scan = 0;
        if (e) {
            g_want = 1;
            g_wcode = e;
            g_wparent = parent;
            g_wval = v;
        }
        return e;
    }
    vp_assert(g_pos < g_argc && v == g_argv[g_pos], "the next unclaimed argument is offered");
    vp_assert(!((struct arg_hdr*)parent)->longopts && !((struct arg_hdr*)parent)->shortopts, "positional arguments are offered to positional entries only");
    vp_assert(i >= g_tab, "an entry that refused an argument, and those before it, get no more");
    vp_assert(!(g_tab <= g_k && g_k < i && eligible(g_k)), "no positional entry is passed over");
    if (e == 0) {
        g_pos++;
        g_tab = i;
        g_err = 0;
    } else {
        g_tab = i + 1;
        g_err = e;
        g_val = v;
        g_parent = parent;
    }
    return e;
}
void c_register(struct arg_end* end, void* parent, int error, const char* argval) {
    vp_assert(end == g_end, "errors go to the end entry");
    if (g_phase == 1) {
        vp_assert(!(g_tab <= g_k && g_k < g_n - 1 && eligible(g_k)), "an argument is reported only after all entries refused it");
        vp_assert(g_pos < g_argc && argval == g_argv[g_pos], "the argument reported is the next unclaimed one");
        if (g_err)
            vp_assert(error == g_err && parent == g_parent, "the error reported is the one of the last entry that refused the argument");
        else
            vp_assert(error == ARG_ENOMATCH && parent == (void*)end, "further arguments are reported as unexpected");
        g_err = 0;
        g_tab = g_n;
        g_pos++;
    } else if (g_phase == 4) {
        vp_assert(g_want && error == g_wcode && parent == g_wparent && argval == g_wval, "the error reported is the one that occurred");
        g_want = 0;
        if (g_then) {
            g_then = 0;
            g_scan = 1;
        }
    } else {
        vp_assert(g_err != 0 && error == g_err && parent == (void*)g_t[g_tab - 1] && argval == NULL, "the error reported is the one of the entry just checked");
        g_err = 0;
    }
}
void h_untagged(void) {
    table();
    args();
    g_phase = 1;
    optind = g_pos = vp_range(1, g_argc);
    arg_parse_untagged(g_argc, g_argv, g_t, g_end);
    vp_cover("parsed");
    vp_assert(g_pos == g_argc, "every argument is claimed by an entry or reported");
    vp_assert(g_err == 0, "no refusal is forgotten");
}

/* ---- final check and reset: every entry once, in order */
static int m_check(void* parent) {
    int i = ((struct arg_hdr*)parent)->mincount, e = vp_int();
    vp_assert(g_err == 0, "the error of the previous entry was reported");
    vp_assert(i >= g_tab && !(g_tab <= g_k && g_k < i && g_t[g_k]->checkfn), "no entry is passed over or checked twice");
    g_tab = i + 1;
    g_err = e;
    return e;
}
static void m_reset(void* parent) {
    int i = ((struct arg_hdr*)parent)->mincount;
    vp_assert(i >= g_tab && !(g_tab <= g_k && g_k < i && g_t[g_k]->resetfn), "no entry is passed over or reset twice");
    g_tab = i + 1;
}
void h_check(void) {
    table();
    g_phase = 2;
    arg_parse_check(g_t, g_end);
    vp_cover("checked");
    vp_assert(g_err == 0 && !(g_tab <= g_k && g_t[g_k]->checkfn), "every entry is checked and its error reported");
}
void h_reset(void) {
    table();
    g_phase = 3;
    arg_reset((void**)g_t);
    vp_cover("reset");
    vp_assert(!(g_tab <= g_k && g_t[g_k]->resetfn), "every entry is reset");
}

/* ---- the whole */
int arg_endindex(struct arg_hdr** table);
int c_endindex(struct arg_hdr** table) { vp_requires(table == g_t, "the table"); return g_n - 1; }
void h_endindex(void) {
    table();
    g_phase = 3;
    vp_cover("end");
    vp_assert(arg_endindex(g_t) == g_n - 1, "the end entry is the first terminator");
}

static int g_step;
static char** g_copy;
static size_t g_a;
void c_reset(void** t) {
    vp_assert(t == (void**)g_t && g_step == 0, "a parse starts by resetting the whole table");
    g_step = 1;
    g_end->count = 0;
}
void c_tagged(int argc, char** argv, struct arg_hdr** t, struct arg_end* e) {
    vp_assert(g_step == 1 && argc == g_argc && t == g_t && e == g_end, "then the options are processed");
    vp_assert(argv != g_argv, "on a copy of the argument vector");
    vp_assert(argv[g_a] == g_argv[g_a] && argv[g_argc] == NULL, "that has the same arguments");
    vp_assert(vp_room(argv) >= ((size_t)argc + 1) * sizeof(char*), "and room for the terminating null pointer");
    g_copy = argv;
    g_step = 2;
    e->count = vp_range(0, 1000);
}
void c_untagged(int argc, char** argv, struct arg_hdr** t, struct arg_end* e) {
    vp_assert(g_step == 2 && argc == g_argc && argv == g_copy && t == g_t && e == g_end, "then the positional arguments");
    g_step = 3;
    e->count = vp_range(e->count, 2000);
}
void c_check(struct arg_hdr** t, struct arg_end* e) {
    vp_assert(t == g_t && e == g_end && g_step == (g_argc == 0 ? 1 : 3) && e->count == 0, "the minimum counts are checked when there was no error before");
    g_step = 4;
    e->count = vp_range(0, 1000);
}
void h_parse(void) {
    int r, live, snap;
    table();
    g_argc = vp_range(0, 1000000);
    g_argv = (char**)vp_ptrtable(vp_strfam((size_t)g_argc, "a|b"), (size_t)g_argc + 1);
    g_a = g_argc > 0 ? vp_index((size_t)g_argc) : 0;
    snap = vp_snapshot(g_argv, ((size_t)g_argc + 1) * sizeof(char*));
    live = vp_heap_live();
    r = arg_parse(g_argc, g_argv, (void**)g_t);
    vp_assert(r == g_end->count, "the result is the number of errors");
    vp_assert(g_step == 4 || (g_step == 3 && g_end->count > 0), "all phases are done");
    vp_assert(vp_heap_live() == live, "nothing allocated during the parse is kept");
    vp_assert(vp_unchanged(snap, 0, ((size_t)g_argc + 1) * sizeof(char*)), "the argument vector is left as it was");
    if (g_argc == 0) vp_cover("no arguments");
    else vp_cover("arguments");
}

/* ---- options */
struct longoptions { int getoptval; int noptions; struct option* options; };
void arg_parse_tagged(int argc, char** argv, struct arg_hdr** table, struct arg_end* endtable);
int find_shortoption(struct arg_hdr** table, char shortopt);
static int has_short(int i, int c) { return g_t[i]->shortopts && strchr(g_t[i]->shortopts, c); }
LEMMA int inv_not_before(int t) { return g_phase != 5 || t <= g_k || !has_short(g_k, (char)g_c); }
void h_find(void) {
    int r;
    table();
    g_phase = 5;
    g_c = vp_range(1, 255);
    r = find_shortoption(g_t, (char)g_c);
    if (r == -1) {
        vp_cover("unknown");
        vp_assert(g_k == g_n - 1 || !has_short(g_k, (char)g_c), "no entry has the option");
    } else {
        vp_cover("known");
        vp_assert(r >= 0 && r < g_n - 1 && has_short(r, (char)g_c), "the entry has the option");
        vp_assert(g_k >= r || !has_short(g_k, (char)g_c), "it is the first one");
    }
}
int c_find(struct arg_hdr** t, char c) {
    vp_requires(t == g_t && c == (char)g_c, "the option found");
    return g_idx;
}
static int g_left; /* options still to come: getopt_long makes progress (getopt.c) */
LEMMA int inv_first(void) { return !g_first || optind == 0; }
LEMMA int inv_left(void) { return g_left >= 0; }
static struct longoptions* g_lo;
static char* g_so;
struct longoptions* c_alloc_long(struct arg_hdr** t) {
    struct longoptions* l = malloc(sizeof *l + sizeof(struct option));
    vp_requires(t == g_t, "the table");
    l->options = (struct option*)(l + 1);
    return g_lo = l;
}
char* c_alloc_short(struct arg_hdr** t) {
    vp_requires(t == g_t, "the table");
    return g_so = malloc(2);
}
/* any option getopt_long can report */
int c_getopt(int argc, char* const* argv, const char* options, const struct option* lo, int* idx) {
    int k = vp_choice(5), f;
    vp_assert(argc == g_argc && argv == g_argv && options == g_so && lo == g_lo->options && idx == NULL, "the whole argument vector is searched for the table's options");
    vp_assert(!g_done && !g_want && !g_scan && opterr == 0, "an option is dealt with before the next one is fetched");
    if (g_first) vp_assert(optind == 0, "the search starts afresh");
    g_first = 0;
    optind = vp_range(1, g_argc);
    optarg = NULL;
    g_then = 0;
    if (k == 0 || g_left == 0) { g_done = 1; return -1; }
    g_left--;
    if (k == 1) {
        optopt = vp_range(0, 255);
        g_want = 1; g_wparent = g_end;
        g_wcode = optopt ? optopt : ARG_ELONGOPT;
        g_wval = optopt ? NULL : g_argv[optind - 1];
        return '?';
    }
    if (k == 2) {
        g_want = 1; g_wparent = g_end; g_wcode = ARG_EMISSARG; g_wval = g_argv[optind - 1];
        return ':';
    }
    g_idx = vp_range(0, g_n - 1);
    vp_assume(g_idx < g_n - 1);
    f = g_t[g_idx]->flag;
    if (f & ARG_HASOPTVALUE) optarg = vp_opt_cstr("a");
    else if (f & ARG_HASVALUE) optarg = vp_cstr("a");
    g_wparent2 = g_t[g_idx];
    g_scan = g_t[g_idx]->scanfn != 0;
    if (k == 3) {
        g_lo->getoptval = g_idx;
        if (optarg && optarg[0] == 0 && (f & ARG_HASVALUE)) {
            g_want = 1; g_wparent = g_end; g_wcode = ARG_EMISSARG; g_wval = g_argv[optind - 1];
            g_then = g_scan;
            g_scan = 0;
        }
        return 0;
    }
    g_c = vp_range(1, 255);
    vp_assume(g_c != '?' && g_c != ':');
    return g_c;
}
void h_tagged(void) {
    int live;
    table();
    args();
    g_phase = 4;
    g_first = 1;
    g_left = vp_range(0, 1000000);
    live = vp_heap_live();
    arg_parse_tagged(g_argc, g_argv, g_t, g_end);
    vp_cover("options done");
    vp_assert(g_done && !g_want && !g_scan, "the options are processed to the end");
    vp_assert(vp_heap_live() == live, "nothing allocated for the options is kept");
}
