/* the text of every error message: which pieces it is made of, in which order
 * The text is a sequence of characters, of texts given as pointers, and of option texts (arg_print_option_ds);
 * how many calls append it does not matter. */
//@ contract arg_dstr_cat c_cat see:C17
//@ contract arg_dstr_catf c_catf see:C17
//@ contract arg_print_option_ds c_option h_none
//@ contract strftime c_strftime h_none
//@ contract arg_strptime c_strptime see:C11
//@ contract trex_compile c_compile see:C12
//@ contract trex_free c_trexfree see:C12
//@ harness h_lit prop=C15 use=arg_dstr_cat,arg_dstr_catf,arg_print_option_ds cunroll=120 nonative=1
//@ harness h_int prop=C15 use=arg_dstr_cat,arg_dstr_catf,arg_print_option_ds cunroll=120 nonative=1
//@ harness h_dbl prop=C15 use=arg_dstr_cat,arg_dstr_catf,arg_print_option_ds cunroll=120 nonative=1
//@ harness h_str prop=C15 use=arg_dstr_cat,arg_dstr_catf,arg_print_option_ds cunroll=120 nonative=1
//@ harness h_file prop=C15 use=arg_dstr_cat,arg_dstr_catf,arg_print_option_ds cunroll=120 nonative=1
//@ harness h_date prop=C15 use=arg_dstr_cat,arg_dstr_catf,arg_print_option_ds,strftime,arg_strptime cunroll=120 nonative=1
//@ harness h_rex prop=C15 use=trex_compile,trex_free,arg_dstr_cat,arg_dstr_catf,arg_print_option_ds cunroll=120 nonative=1
//@ harness h_end prop=C15 use=arg_dstr_cat,arg_dstr_catf,arg_print_option_ds cunroll=120 nonative=1
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"

enum { TEXT = 256, OPTION };
static int EC[160], g_en, g_n;          /* expected pieces; how many were appended */
static const char* ES[160];
static const char *g_s, *g_l, *g_t;     /* expected option text */
static arg_dstr_t g_ds;
static char* g_buff;                    /* example of a date */
static int g_time;

static void want(const char* s) {
    int i;
    for (i = 0; s[i]; i++) EC[g_en++] = (unsigned char)s[i];
}
static void want_text(const char* s) { ES[g_en] = s, EC[g_en++] = TEXT; }
static void want_option(const char* t) { g_t = t, EC[g_en++] = OPTION; }
static void put(int c) {
    vp_requires(g_n < g_en, "nothing after the message");
    vp_requires(EC[g_n] == (c & 255), "the words of the message");
    g_n++;
}
static void put_text(const char* s) {
    vp_requires(g_n < g_en, "nothing after the message");
    vp_requires(EC[g_n] == TEXT, "the place of the text");
    vp_requires(s != NULL, "a text");
    vp_requires(s == ES[g_n] || (ES[g_n] == NULL && s[0] == '\0'), "the program name, argument or example it is about");
    g_n++;
}
static void put_all(const char* s) {
    int i;
    for (i = 0; s[i]; i++) put(s[i]);
}
LEMMA void c_cat(arg_dstr_t ds, const char* s) {
    vp_requires(ds == g_ds, "the text given");
    put_all(s);
}
LEMMA void c_catf(arg_dstr_t ds, const char* f, const char* a, const char* b) {
    int i, k = 0;
    vp_requires(ds == g_ds, "the text given");
    for (i = 0; f[i]; i++) {
        if (f[i] != '%') put(f[i]);
        else {
            i++;
            vp_requires((f[i] == 's' || f[i] == 'c') && k < 2, "a directive for a text or a character");
            if (f[i] == 'c') put((int)(long)(k ? b : a));
            else put_text(k ? b : a);
            k++;
        }
    }
}
LEMMA void c_option(arg_dstr_t ds, const char* s, const char* l, const char* t, const char* suffix) {
    vp_requires(ds == g_ds, "the text given");
    vp_requires(g_n < g_en && EC[g_n] == OPTION, "the place of the option");
    vp_requires(s == g_s && l == g_l && (t == g_t || (g_t == NULL && t != NULL && t[0] == '\0')), "the names and the value or data type of the option it is about");
    g_n++;
    if (suffix) put_all(suffix);
}
static const char* g_format;
LEMMA char* c_strptime(const char* s, const char* f, struct tm* tm) {
    (void)s;
    (void)f;
    vp_havoc(tm, sizeof(*tm));
    return (char*)s;
}
LEMMA size_t c_strftime(char* b, size_t n, const char* f, const struct tm* tm) {
    size_t k = vp_size(20);
    (void)tm;
    vp_requires(f == g_format, "the example is made with the format of the option");
    vp_havoc(b, 200);
    if (k >= n || k == 0) {
        ES[g_time] = NULL; /* contents indeterminate: nothing but "" may be shown */
        return 0;
    }
    b[k] = '\0';
    ES[g_time] = b;
    return k;
}
LEMMA void* c_compile(const char* p, const char** e, int f) {
    (void)p, (void)e, (void)f;
    return g_ds;
}
LEMMA void c_trexfree(void* p) { vp_requires(p == g_ds, "the expression"); }
static const char *s, *l, *t, *argval, *prog;
static void inputs(void) {
    int k = vp_choice(8);
    s = k & 1 ? vp_cstr("a") : NULL;
    l = k & 2 ? vp_cstr("long") : NULL;
    t = k & 4 ? vp_cstr("<t>") : NULL;
    argval = vp_opt_cstr("v");
    prog = vp_cstr("prog");
    g_ds = vp_buf(8);
    g_s = s;
    g_l = l;
    g_en = g_n = 0;
    want_text(prog);
    want(": ");
}
static void check(void* a, int code) {
    struct arg_hdr* h = a;
    h->errorfn(h->parent, g_ds, code, argval, prog);
    vp_cover("message");
    vp_assert(g_n == g_en, "the message is complete");
}
static int counts(const char* type, const char* excess, int k) {
    if (k == 0) {
        want("missing option ");
        want_option(type);
        want("\n");
        return ARG_ERR_MINCOUNT;
    }
    want(excess);
    want_option(argval);
    want("\n");
    return ARG_ERR_MAXCOUNT;
}
void h_lit(void) {
    struct arg_lit* a;
    int code;
    inputs();
    a = arg_litn(s, l, 0, 3, t);
    argval = NULL;
    code = counts(NULL, "extraneous option ", vp_choice(2));
    if (code == ARG_ERR_MINCOUNT) want("\n");
    check(a, code);
}
void h_int(void) {
    struct arg_int* a;
    int k = vp_choice(4), code;
    inputs();
    a = arg_intn(s, l, t, 0, 3, NULL);
    if (k < 2) code = counts(a->hdr.datatype, "excess option ", k);
    else if (k == 2) {
        code = ARG_ERR_BADINT;
        want("invalid argument \"");
        want_text(argval);
        want("\" to option ");
        want_option(a->hdr.datatype);
        want("\n");
    } else {
        code = ARG_ERR_OVERFLOW;
        want("integer overflow at option ");
        want_option(a->hdr.datatype);
        want(" (");
        want_text(argval);
        want(" is too large)\n");
    }
    check(a, code);
}
void h_dbl(void) {
    struct arg_dbl* a;
    int k = vp_choice(3), code;
    inputs();
    a = arg_dbln(s, l, t, 0, 3, NULL);
    if (k < 2) code = counts(a->hdr.datatype, "excess option ", k);
    else {
        code = ARG_ERR_BADDOUBLE;
        want("invalid argument \"");
        want_text(argval);
        want("\" to option ");
        want_option(a->hdr.datatype);
        want("\n");
    }
    check(a, code);
}
void h_str(void) {
    struct arg_str* a;
    inputs();
    a = arg_strn(s, l, t, 0, 3, NULL);
    check(a, counts(a->hdr.datatype, "excess option ", vp_choice(2)));
}
void h_file(void) {
    struct arg_file* a;
    inputs();
    a = arg_filen(s, l, t, 0, 3, NULL);
    check(a, counts(a->hdr.datatype, "excess option ", vp_choice(2)));
}
void h_date(void) {
    struct arg_date* a;
    int k = vp_choice(3), code;
    inputs();
    g_format = vp_cstr("%Y");
    a = arg_daten(s, l, g_format, t, 0, 3, NULL);
    if (k < 2) code = counts(a->hdr.datatype, "excess option ", k);
    else {
        code = ARG_ERR_BADDATE;
        want("illegal timestamp format \"");
        want_text(argval);
        want("\"\ncorrect format is \"");
        g_time = g_en;
        want_text(NULL);
        want("\"\n");
    }
    check(a, code);
}
void h_rex(void) {
    struct arg_rex* a;
    int k = vp_choice(3), code;
    inputs();
    a = arg_rexn(s, l, "a", t, 0, 3, 0, NULL);
    if (k < 2) code = counts(a->hdr.datatype, "excess option ", k);
    else {
        code = ARG_ERR_REGNOMATCH;
        want("illegal value  ");
        want_option(argval);
        want("\n");
    }
    check(a, code);
}
void h_end(void) {
    struct arg_end* a = arg_end(3);
    int k = vp_choice(6), code;
    inputs();
    if (k == 0) code = ARG_ELIMIT, want("too many errors to display");
    else if (k == 1) code = ARG_EMALLOC, want("insufficient memory");
    else if (k == 2) code = ARG_ENOMATCH, want("unexpected argument \""), want_text(argval), want("\"");
    else if (k == 3) code = ARG_EMISSARG, want("option \""), want_text(argval), want("\" requires an argument");
    else if (k == 4) code = ARG_ELONGOPT, want("invalid option \""), want_text(argval), want("\"");
    else {
        code = vp_range(32, 127);
        want("invalid option \"-");
        EC[g_en++] = code;
        want("\"");
    }
    want("\n");
    check(a, code);
}
