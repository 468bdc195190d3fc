/* messages of the command mechanism: which pieces they are made of, in which order (as in errtext.c) */
//@ contract arg_dstr_cat c_cat see:C17
//@ contract arg_dstr_catf c_catf see:C17
//@ contract arg_dstr_cstr c_cstr see:C17
//@ contract arg_dstr_create c_create see:C17
//@ contract arg_dstr_destroy c_destroy see:C17
//@ contract arg_print_syntaxv_ds c_syntaxv see:C16
//@ contract arg_print_glossary_ds c_glossary see:C16
//@ contract arg_print_errors_ds c_errors see:C15
//@ contract arg_hashtable_search c_search h_none
//@ harness h_version prop=C18 use=arg_dstr_cat,arg_dstr_catf,arg_dstr_cstr,arg_dstr_create,arg_dstr_destroy cunroll=120 nonative=1
//@ harness h_gethelp prop=C18 use=arg_dstr_cat,arg_dstr_catf,arg_dstr_cstr,arg_dstr_create,arg_dstr_destroy cunroll=120 nonative=1
//@ harness h_help prop=C18 use=arg_dstr_cat,arg_dstr_catf,arg_print_syntaxv_ds,arg_print_glossary_ds,arg_print_errors_ds,arg_hashtable_search cunroll=120 nonative=1
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"

enum { TEXT = 256, NUMBER, SYNTAX, GLOSSARY, ERRORS };
static int EC[200], g_en, g_n, EV[200];
static const char* ES[200];
static arg_dstr_t g_ds;
static const char* g_ver; /* text of the dynamic string the version is put together in */
static int g_made;

static void want(const char* s) {
    int i;
    for (i = 0; s[i]; i++) EC[g_en++] = (unsigned char)s[i];
}
static void want_text(const char* s) { ES[g_en] = s, EC[g_en++] = TEXT; }
static void want_number(int v) { EV[g_en] = v, EC[g_en++] = NUMBER; }
static void put(int c) {
    vp_requires(g_n < g_en, "nothing after the message");
    vp_requires(EC[g_n] == (c & 255), "the words of the message");
    g_n++;
}
static void put_text(const char* s) {
    size_t n, i;
    vp_requires(g_n < g_en, "nothing after the message");
    vp_requires(EC[g_n] == TEXT, "the place of the text");
    n = strlen(ES[g_n]);
    i = vp_index(n + 1);
    vp_requires(s[i] == ES[g_n][i], "the name, version or description it is about");
    g_n++;
}
static void put_all(const char* s) {
    int i;
    for (i = 0; s[i]; i++) put(s[i]);
}
LEMMA void c_cat(arg_dstr_t ds, const char* s) {
    vp_requires(ds == g_ds, "the text given");
    vp_requires(g_n < g_en, "nothing after the message");
    if (EC[g_n] == TEXT) put_text(s);
    else put_all(s);
}
LEMMA void c_catf(arg_dstr_t ds, const char* f, const char* a, const char* b) {
    int i, k = 0;
    vp_requires(ds == g_ds, "the text given");
    for (i = 0; f[i]; i++) {
        if (f[i] != '%') put(f[i]);
        else {
            i++;
            vp_requires((f[i] == 's' || f[i] == 'd') && k < 2, "a directive for a text or a number");
            if (f[i] == 'd') {
                vp_requires(g_n < g_en && EC[g_n] == NUMBER, "the place of a number");
                vp_requires((int)(long)(k ? b : a) == EV[g_n], "the number given");
                g_n++;
            } else put_text(k ? b : a);
            k++;
        }
    }
}
LEMMA arg_dstr_t c_create(void) {
    g_made++;
    return g_ds;
}
LEMMA void c_destroy(arg_dstr_t ds) {
    vp_requires(ds == g_ds && g_made == 1, "a text in use");
    g_made--;
}
LEMMA char* c_cstr(arg_dstr_t ds) {
    vp_requires(ds == g_ds && g_made == 1, "a text in use");
    vp_requires(g_n == g_en, "the version is complete");
    return (char*)g_ver;
}
static void** g_table;
static struct arg_end* g_end;
static const char* g_prog;
static const char* g_sfx;
LEMMA void c_syntaxv(arg_dstr_t ds, void** t, const char* suffix) {
    vp_requires(ds == g_ds && t == g_table, "the syntax of this table");
    vp_requires(g_n < g_en && EC[g_n] == SYNTAX, "the place of the syntax");
    g_n++;
    put_all(suffix);
}
LEMMA void c_glossary(arg_dstr_t ds, void** t, const char* f) {
    const char* w = "  %-23s %s\n";
    int i;
    vp_requires(ds == g_ds && t == g_table, "the glossary of this table");
    vp_requires(g_n < g_en && EC[g_n] == GLOSSARY, "the place of the glossary");
    for (i = 0; w[i]; i++) vp_requires(f[i] == w[i], "its format");
    vp_requires(f[i] == '\0', "its format");
    g_n++;
}
LEMMA void c_errors(arg_dstr_t ds, struct arg_end* e, const char* prog) {
    size_t n, i;
    vp_requires(ds == g_ds && e == g_end, "the errors of this table");
    vp_requires(g_n < g_en && EC[g_n] == ERRORS, "the place of the errors");
    n = strlen(g_prog);
    i = vp_index(n + 1);
    vp_requires(prog[i] == g_prog[i], "with the module name");
    g_n++;
}
static arg_cmd_info_t* g_info;
static const char* g_cmd;
LEMMA void* c_search(arg_hashtable_t* h, const void* k) {
    (void)h;
    vp_requires(k == g_cmd, "the name given");
    return g_info;
}
static const char *name, *tag;
static int major, minor, patch;
static void module(void) {
    name = vp_cstr("prog");
    tag = vp_cstr("beta");
    major = vp_int(), minor = vp_int(), patch = vp_int();
    vp_assume(strlen(name) < 100000);
    vp_assume(strlen(tag) < 100000);
    g_ds = vp_buf(8);
    g_ver = vp_cstr("1.2.3.beta");
    vp_assume(strlen(g_ver) < 200000);
    vp_assume(g_ver[0] != 0);
    g_en = g_n = g_made = 0;
}
static void prog(void) { g_prog = name[0] ? name : "<name>"; }
static void version(void) {
    want_number(major), want(".");
    want_number(minor), want(".");
    want_number(patch), want(".");
    want_text(tag);
}
void h_version(void) {
    int live;
    module();
    version();
    live = vp_heap_live();
    arg_set_module_version(major, minor, patch, tag);
    vp_cover("version set");
    vp_assert(g_n == g_en && g_made == 0, "the version is put together and the work text destroyed");
    vp_assert(vp_heap_live() == live + 2, "two texts are kept");
    g_n = 0;
    arg_set_module_version(major, minor, patch, tag);
    vp_assert(vp_heap_live() == live + 2, "and replaced by the next version");
}
void h_gethelp(void) {
    int v = vp_choice(2), m = vp_choice(2);
    module();
    prog();
    if (v) version(), arg_set_module_version(major, minor, patch, tag);
    if (m) arg_set_module_name(name);
    else g_prog = "<name>";
    g_en = g_n = 0;
    want_text(g_prog);
    want(" v");
    want_text(v ? g_ver : "0.0.0.0");
    want("\nPlease type '");
    want_text(g_prog);
    want(" help' to get more information.\n");
    arg_make_get_help_msg(g_ds);
    vp_cover("message");
    vp_assert(g_n == g_en, "the message is complete");
}
void h_help(void) {
    int help = vp_int(), nerrors = vp_int(), code = 77, r, has = vp_choice(2);
    arg_cmd_info_t info;
    const char* desc = vp_cstr("text");
    vp_assume(strlen(desc) < ARG_CMD_DESCRIPTION_LEN);
    memset(&info, 0, sizeof(info));
    memcpy(info.description, desc, strlen(desc));
    module();
    prog();
    arg_set_module_name(name);
    g_table = vp_buf(8);
    g_end = vp_buf(8);
    g_cmd = vp_cstr("cmd");
    g_info = has ? &info : NULL;
    if (help > 0) {
        if (has) want_text(g_cmd), want(": "), want_text(desc), want("\n");
        want("Usage:\n  ");
        want_text(g_prog);
        EC[g_en++] = SYNTAX;
        want("\n \nAvailable options:\n");
        EC[g_en++] = GLOSSARY;
        want("\n");
    } else if (nerrors > 0) {
        EC[g_en++] = ERRORS;
        want("Usage: \n  ");
        want_text(g_prog);
        EC[g_en++] = SYNTAX;
        want("\n\n");
    }
    r = arg_make_syntax_err_help_msg(g_ds, g_cmd, help, nerrors, g_table, g_end, &code);
    vp_cover("message");
    vp_assert(g_n == g_en, "the message is complete");
    if (help > 0) vp_assert(r == 1 && code == EXIT_SUCCESS, "help takes precedence and is a success");
    else if (nerrors > 0) vp_assert(r == 1 && code == EXIT_FAILURE, "errors make a failure");
    else vp_assert(r == 0 && code == 77, "nothing to say");
}
