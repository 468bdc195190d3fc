/* commands: histories, executed against a reference */
//@ native h_cmds prop=C18
//@ native h_many prop=C18
//@ native h_hash prop=C18
//@ native h_msgs prop=C18
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
#define MAXC 1200
static struct cmd {
    char name[100], desc[256];
    int used, proc;
    void* ctx;
} C[MAXC];
static int nc, count;
static int g_proc, g_argc;
static void* g_ctx;
static char** g_argv;
static arg_dstr_t g_res;
static int ran(int p, int c, char** v, arg_dstr_t r, void* x) {
    g_proc = p, g_argc = c, g_argv = v, g_res = r, g_ctx = x;
    return 100 + p + c;
}
static int p0(int c, char** v, arg_dstr_t r, void* x) { return ran(0, c, v, r, x); }
static int p1(int c, char** v, arg_dstr_t r, void* x) { return ran(1, c, v, r, x); }
static int p2(int c, char** v, arg_dstr_t r, void* x) { return ran(2, c, v, r, x); }
static arg_cmdfn* const P[3] = {p0, p1, p2};
static int ctxs[4];
static struct cmd* find(const char* n) {
    int i;
    for (i = 0; i < nc; i++)
        if (C[i].used && strcmp(C[i].name, n) == 0) return C + i;
    return NULL;
}
static void put(const char* n, int p, const char* d, void* x) {
    struct cmd* c = find(n);
    if (!c) c = C + nc++, count++;
    memset(c, 0, sizeof(*c));
    strcpy(c->name, n);
    strcpy(c->desc, d);
    c->proc = p, c->ctx = x, c->used = 1;
}
static void same(arg_cmd_info_t* i, struct cmd* c) {
    vp_assert((i == NULL) == (c == NULL), "a command is known exactly when it is registered");
    if (!i) return;
    vp_assert(strcmp(i->name, c->name) == 0 && strcmp(i->description, c->desc) == 0, "name and description are those registered last");
    vp_assert(i->proc == P[c->proc] && i->ctx == c->ctx, "procedure and context are those registered last");
}
static void all(void) {
    static int seen[MAXC];
    arg_cmd_itr_t it;
    int n = 0, more;
    memset(seen, 0, sizeof(seen));
    vp_assert(arg_cmd_count() == (unsigned)count, "the number of commands");
    it = arg_cmd_itr_create();
    if (count > 0)
        do {
            char* k = arg_cmd_itr_key(it);
            struct cmd* c = find(k);
            vp_assert(c != NULL, "the iteration meets only registered commands");
            vp_assert(!seen[c - C], "and each once");
            seen[c - C] = 1;
            same(arg_cmd_itr_value(it), c);
            n++;
            more = arg_cmd_itr_advance(it);
        } while (more);
    vp_assert(n == count, "the iteration meets every registered command");
    vp_assert(!arg_cmd_itr_advance(it), "the end stays the end");
    arg_cmd_itr_destroy(it);
}
static char bign[100], bigd[256];
static char* pickname(void) {
    char* s;
    int how = vp_choice(8);
    if (how == 0) {
        int n = vp_range(90, 99);
        memset(bign, 'n', (size_t)n);
        bign[n] = 0;
        bign[n - 1] = (char)vp_range('a', 'c');
        return bign;
    }
    if (how <= 3 && nc > 0) {
        strcpy(bign, C[vp_range(0, nc - 1)].name);
        return bign;
    }
    s = vp_cstr("a|b|add|ad|list|remove|\xe4\xf6|Aa|BB");
    vp_assume(strlen(s) < ARG_CMD_NAME_LEN);
    strcpy(bign, s);
    return bign;
}
static char* pickdesc(void) {
    char* s;
    if (vp_choice(4) == 0) {
        int n = vp_range(245, 255);
        memset(bigd, 'd', (size_t)n);
        bigd[n] = 0;
        return bigd;
    }
    s = vp_cstr("does|it|");
    vp_assume(strlen(s) < ARG_CMD_DESCRIPTION_LEN);
    strcpy(bigd, s);
    return bigd;
}
static void fresh(void) {
    nc = count = 0;
    arg_cmd_init();
}
static void look(const char* n) {
    struct cmd* c = find(n);
    arg_cmd_itr_t it = arg_cmd_itr_create();
    char nm[100];
    strcpy(nm, n);
    same(arg_cmd_info(n), c);
    vp_assert((arg_cmd_itr_search(it, nm) != 0) == (c != NULL), "the search finds exactly the registered commands");
    if (c) {
        int left = 1, i, pos = -1;
        vp_assert(strcmp(arg_cmd_itr_key(it), n) == 0, "the search positions at the name");
        same(arg_cmd_itr_value(it), c);
        while (arg_cmd_itr_advance(it)) left++;
        arg_cmd_itr_destroy(it);
        it = arg_cmd_itr_create();
        for (i = 0; i < count; i++) {
            if (strcmp(arg_cmd_itr_key(it), n) == 0) pos = i;
            arg_cmd_itr_advance(it);
        }
        vp_assert(pos >= 0 && left == count - pos, "the iteration goes on from there");
    }
    arg_cmd_itr_destroy(it);
}
static void run(const char* n) {
    struct cmd* c = find(n);
    char *v[2], *w[2];
    int argc = vp_range(1, 9), r;
    arg_dstr_t d;
    if (!c) return; /* precondition: the command is registered */
    d = arg_dstr_create();
    v[0] = w[0] = (char*)n, v[1] = w[1] = NULL;
    g_proc = -1;
    r = arg_cmd_dispatch(n, argc, v, d);
    vp_assert(g_proc == c->proc && g_ctx == c->ctx && g_argc == argc && g_argv == v && g_res == d, "the procedure registered last runs with its context and the arguments given");
    vp_assert(r == 100 + c->proc + argc, "its result is the result");
    arg_dstr_destroy(d);
}
void h_cmds(void) {
    int n = vp_range(1, 14), i;
    fresh();
    for (i = 0; i < n; i++) {
        int op = vp_choice(7);
        char* nm = pickname();
        if (op < 3) {
            int p = vp_choice(3);
            char* d = pickdesc();
            void* x = &ctxs[vp_choice(4)];
            if (op == 2 && arg_cmd_info(nm) && vp_choice(2)) { /* texts of the registry itself */
                arg_cmd_info_t* o = arg_cmd_info(nm);
                char dd[256];
                strcpy(dd, o->description);
                arg_cmd_register(o->name, P[p], o->description, x);
                put(nm, p, dd, x);
            } else {
                arg_cmd_register(nm, P[p], d, x);
                put(nm, p, d, x);
            }
        } else if (op == 3) {
            struct cmd* c = find(nm);
            arg_cmd_unregister(nm);
            if (c) c->used = 0, count--;
        } else if (op == 4) run(nm);
        else look(nm);
        all();
    }
    arg_cmd_uninit();
    vp_assert(vp_heap_live() == 0, "all memory is released");
}
/* enough commands for several extensions of the table */
static void nth(char* b, int i, int salt) {
    sprintf(b, "%c%d%s", 'a' + (i * 7 + salt) % 26, i, salt & 1 ? "xyz" : "");
}
void h_many(void) {
    int n = vp_range(1, 160), salt = vp_range(0, 51), step = vp_range(1, 5), i;
    char b[100];
    if (vp_choice(24) == 0) n = vp_range(30, 560);
    fresh();
    for (i = 0; i < n; i++) {
        nth(b, i, salt);
        arg_cmd_register(b, P[i % 3], b, &ctxs[i % 4]);
        put(b, i % 3, b, &ctxs[i % 4]);
        if (i == n / 2) all();
    }
    all();
    for (i = 0; i < n; i++) nth(b, i, salt), same(arg_cmd_info(b), find(b));
    for (i = 0; i < n; i += step) {
        struct cmd* c;
        nth(b, i, salt);
        c = find(b);
        if (i % 2) {
            arg_cmd_register(b, P[(i + 1) % 3], "again", &ctxs[1]);
            put(b, (i + 1) % 3, "again", &ctxs[1]);
        } else {
            arg_cmd_unregister(b);
            if (c) c->used = 0, count--;
        }
    }
    all();
    for (i = 0; i < n; i++) nth(b, i, salt), same(arg_cmd_info(b), find(b));
    nth(b, n / 2, salt);
    look(b);
    arg_cmd_uninit();
    vp_assert(vp_heap_live() == 0, "all memory is released");
}

/* the table behind it, with any hash function (also one with nothing but collisions) */
static unsigned g_mod;
static unsigned hf(const void* k) { return (unsigned)*(const unsigned char*)k % g_mod; }
static int eq(const void* a, const void* b) { return strcmp(a, b) == 0; }
static char* dup1(int c) {
    char* p = xmalloc(2);
    p[0] = (char)c, p[1] = 0;
    return p;
}
static int V[256];
void h_hash(void) {
    static const unsigned mods[5] = {1, 2, 3, 7, 256};
    arg_hashtable_t* h;
    arg_hashtable_itr_t* it;
    int n = vp_range(1, 80), i, cnt = 0, val = 0, live, sz = vp_choice(4);
    memset(V, 0, sizeof(V));
    g_mod = mods[vp_choice(5)];
    h = arg_hashtable_create(sz == 0 ? 1 : sz == 1 ? 16 : sz == 2 ? 53 : 100, hf, eq);
    for (i = 0; i < n; i++) {
        int op = vp_choice(6), c = vp_range(1, 90);
        char k[2];
        k[0] = (char)c, k[1] = 0;
        if (op < 3) {
            if (!V[c]) {
                char* v = dup1(val = 1 + (val + 1) % 100);
                arg_hashtable_insert(h, dup1(c), v);
                V[c] = val, cnt++;
            } else {
                char* v = dup1(val = 1 + (val + 1) % 100);
                vp_assert(arg_hashtable_change(h, k, v) != 0, "a value can be changed");
                V[c] = val;
            }
        } else if (op == 3) {
            arg_hashtable_remove(h, k);
            if (V[c]) V[c] = 0, cnt--;
        } else if (op == 4) {
            char* v = arg_hashtable_search(h, k);
            vp_assert(v ? V[c] == *v : V[c] == 0, "the search finds the value stored");
            if (!V[c]) vp_assert(arg_hashtable_change(h, k, k) == 0, "only a present value can be changed");
        } else {
            it = arg_hashtable_itr_create(h);
            if (arg_hashtable_itr_search(it, h, k)) {
                int left = 0, more;
                vp_assert(V[c] == *(char*)arg_hashtable_itr_value(it), "the iterator is at the key");
                more = arg_hashtable_itr_remove(it);
                V[c] = 0, cnt--;
                while (more) {
                    char* q = arg_hashtable_itr_key(it);
                    left++;
                    vp_assert(V[(unsigned char)*q] == *(char*)arg_hashtable_itr_value(it), "the iterator goes on");
                    if (left == 2) {
                        V[(unsigned char)*q] = 0, cnt--;
                        more = arg_hashtable_itr_remove(it);
                    } else
                        more = arg_hashtable_itr_advance(it);
                }
            } else
                vp_assert(V[c] == 0, "the iterator finds a present key");
            arg_hashtable_itr_destroy(it);
        }
        vp_assert(arg_hashtable_count(h) == (unsigned)cnt, "the number of entries");
    }
    for (i = 1; i <= 90; i++) {
        char k[2], *v;
        k[0] = (char)i, k[1] = 0;
        v = arg_hashtable_search(h, k);
        vp_assert(v ? V[i] == *v : V[i] == 0, "the search finds the value stored");
    }
    it = arg_hashtable_itr_create(h);
    live = 0;
    if (cnt)
        do {
            int c = *(unsigned char*)arg_hashtable_itr_key(it);
            vp_assert(V[c] && V[c] == *(char*)arg_hashtable_itr_value(it), "the iteration meets what is stored");
            V[c] = 0;
            live++;
        } while (arg_hashtable_itr_advance(it));
    vp_assert(live == cnt, "and all of it");
    arg_hashtable_itr_destroy(it);
    arg_hashtable_destroy(h, 1);
    vp_assert(vp_heap_live() == 0, "all memory is released");
}

/* messages */
static void expect(arg_dstr_t d, const char* want) { vp_assert(strcmp(arg_dstr_cstr(d), want) == 0, "the message is the one documented"); }
void h_msgs(void) {
    static char W[20000];
    char *name = vp_cstr("prog|a"), *tag = vp_cstr("beta|"), *cmd = vp_cstr("add|x"), *desc = vp_cstr("adds it|");
    char *arg = vp_cstr("--bogus|-x|-h|file|--help");
    int major = vp_int(), minor = vp_int(), patch = vp_int(), reg = vp_choice(2), code = 77, r, nerr;
    struct arg_lit* help = arg_litn("h", "help", 0, 1, "show help");
    struct arg_file* f = arg_file0("f", "file", "<f>", "a file");
    struct arg_end* end = arg_end(20);
    void* at[3];
    char* av[3];
    arg_dstr_t d, u;
    at[0] = help, at[1] = f, at[2] = end;
    av[0] = cmd, av[1] = arg, av[2] = NULL;
    vp_assume(strlen(cmd) < ARG_CMD_NAME_LEN && strlen(desc) < ARG_CMD_DESCRIPTION_LEN && strlen(name) < 1000 && strlen(tag) < 1000 && strlen(arg) < 1000);
    fresh();
    arg_set_module_name(name);
    arg_set_module_version(major, minor, patch, tag);
    if (reg) arg_cmd_register(cmd, p0, desc, NULL);
    d = arg_dstr_create();
    u = arg_dstr_create();
    arg_make_get_help_msg(d);
    sprintf(W, "%s v%d.%d.%d.%s\nPlease type '%s help' to get more information.\n", *name ? name : "<name>", major, minor, patch, tag, *name ? name : "<name>");
    expect(d, W);
    nerr = arg_parse(2, av, at);
    arg_dstr_reset(d);
    r = arg_make_syntax_err_help_msg(d, cmd, help->count, nerr, at, end, &code);
    arg_print_syntaxv_ds(u, at, "\n");
    if (help->count > 0) {
        int n = 0;
        arg_dstr_reset(u);
        arg_print_syntaxv_ds(u, at, "\n \nAvailable options:\n");
        arg_print_glossary_ds(u, at, "  %-23s %s\n");
        if (reg) n = sprintf(W, "%s: %s\n", cmd, desc);
        sprintf(W + n, "Usage:\n  %s%s\n", *name ? name : "<name>", arg_dstr_cstr(u));
        expect(d, W);
        vp_assert(r == 1 && code == EXIT_SUCCESS, "help takes precedence and is a success");
    } else if (nerr > 0) {
        arg_dstr_t e = arg_dstr_create();
        arg_print_errors_ds(e, end, *name ? name : "<name>");
        sprintf(W, "%sUsage: \n  %s%s\n", arg_dstr_cstr(e), *name ? name : "<name>", arg_dstr_cstr(u));
        expect(d, W);
        vp_assert(r == 1 && code == EXIT_FAILURE, "errors make a failure");
        arg_dstr_destroy(e);
    } else {
        expect(d, "");
        vp_assert(r == 0 && code == 77, "nothing to say");
    }
    arg_dstr_destroy(d);
    arg_dstr_destroy(u);
    arg_freetable(at, 3);
    arg_cmd_uninit();
}
