/* commands, against the contracts of the hash table */
//@ contract arg_hashtable_search c_search h_none
//@ contract arg_hashtable_remove c_remove h_none
//@ contract arg_hashtable_insert c_insert h_none
//@ harness h_register prop=C18 use=arg_hashtable_search,arg_hashtable_remove,arg_hashtable_insert nonative=1
//@ harness h_unregister prop=C18 use=arg_hashtable_search,arg_hashtable_remove,arg_hashtable_insert nonative=1
//@ harness h_dispatch prop=C18 use=arg_hashtable_search nonative=1
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"

static const char* g_name; /* the name it is about: a copy nobody changes */
static const char* g_desc;
static size_t N, D;
static arg_cmd_info_t* g_old; /* registered before, or NULL */
static int g_removed, g_inserted, g_looked;
static void* g_ctx;
static int fn(int argc, char** argv, arg_dstr_t res, void* ctx) {
    (void)argc, (void)argv, (void)res, (void)ctx;
    return 0;
}
static void is_name(const char* k) {
    size_t i = vp_index(N + 1);
    vp_requires(strlen(k) == N, "the name given");
    vp_requires(k[i] == g_name[i], "the name given");
}
LEMMA void* c_search(arg_hashtable_t* h, const void* k) {
    (void)h;
    is_name(k);
    g_looked++;
    return g_removed ? NULL : g_old;
}
LEMMA void c_remove(arg_hashtable_t* h, const void* k) {
    (void)h;
    is_name(k);
    if (g_old && !g_removed) {
        g_removed = 1;
        free(g_old);
    }
}
LEMMA void c_insert(arg_hashtable_t* h, void* k, void* v) {
    arg_cmd_info_t* c = v;
    size_t i = vp_index(N + 1), j = vp_index(D + 1);
    (void)h;
    vp_requires(!g_inserted, "one registration");
    vp_requires(!g_old || g_removed, "the old registration is replaced");
    is_name(k);
    vp_requires(vp_off(k) == 0 && !vp_same_object(k, g_name) && !vp_same_object(k, c), "the key is a copy of its own");
    vp_requires(vp_off(c) == 0 && vp_room(c) >= sizeof(*c), "the registration is a block of its own");
    vp_requires(c->name[i] == g_name[i], "with the name");
    vp_requires(c->description[j] == g_desc[j], "the description");
    vp_requires(c->proc == fn && c->ctx == g_ctx, "the procedure and the context given");
    g_inserted = 1;
}
static const char* name;
static void registered(int has) {
    g_name = vp_cstr("name");
    g_desc = vp_cstr("text");
    N = strlen(g_name);
    D = strlen(g_desc);
    vp_assume(N < ARG_CMD_NAME_LEN);
    vp_assume(D < ARG_CMD_DESCRIPTION_LEN);
    g_old = NULL;
    g_removed = g_inserted = g_looked = 0;
    name = g_name;
    if (has) {
        g_old = malloc(sizeof(*g_old));
        memset(g_old, 0, sizeof(*g_old));
        memcpy(g_old->name, g_name, N);
    }
}
void h_register(void) {
    int has = vp_choice(3), live;
    const char* desc;
    registered(has);
    desc = g_desc;
    g_ctx = vp_buf(1);
    if (has == 2) { /* texts of the old registration itself */
        memcpy(g_old->description, g_desc, D);
        name = g_old->name;
        desc = g_old->description;
        vp_lemma(strlen(name) == N, "the same name");
        vp_lemma(strlen(desc) == D, "the same description");
    }
    live = vp_heap_live();
    arg_cmd_register(name, fn, desc, g_ctx);
    vp_cover("registered");
    vp_assert(g_inserted == 1, "the command is registered");
    vp_assert(g_removed == (has > 0), "an old registration is replaced");
    vp_assert(vp_heap_live() == live + 2 - (has > 0), "nothing else is kept");
}
void h_unregister(void) {
    int has = vp_choice(2);
    registered(has);
    arg_cmd_unregister(name);
    vp_cover("unregistered");
    vp_assert(g_removed == has && !g_inserted, "the command is removed");
}
static int g_argc, g_ran, g_result;
static char** g_argv;
static arg_dstr_t g_res;
static int run(int argc, char** argv, arg_dstr_t res, void* ctx) {
    vp_requires(argc == g_argc && argv == g_argv && res == g_res, "the procedure gets the arguments given");
    vp_requires(ctx == g_ctx, "and its own context");
    g_ran++;
    return g_result;
}
void h_dispatch(void) {
    int r;
    registered(1);
    g_ctx = vp_buf(1);
    g_argv = vp_buf(8);
    g_res = vp_buf(8);
    g_argc = vp_int();
    g_result = vp_int();
    g_ran = 0;
    g_old->proc = run;
    g_old->ctx = g_ctx;
    r = arg_cmd_dispatch(name, g_argc, g_argv, g_res);
    vp_cover("dispatched");
    vp_assert(g_ran == 1, "the procedure runs once");
    vp_assert(r == g_result, "its result is the result");
    vp_assert(arg_cmd_info(name) == g_old, "the registration is what is found");
}
