/* Native back end of the vp_* vocabulary: replays a recorded input or searches (libFuzzer). */
#include "../units/vp.h"
#include <setjmp.h>
#include <unistd.h>

void HARNESS(void);
static void vp_harness(void) { HARNESS(); }
void vp_reset(void);

static const unsigned char* D;
static size_t N, P;
static FILE* tape;      /* explicit inputs */
static int logging;
static jmp_buf out;
static int in_run;

#define MAXA 4096
static void* owned[MAXA];
static int nowned;
static void* own(void* p) {
    if (nowned < MAXA)
        owned[nowned++] = p;
    return p;
}

static int byte(void) { return P < N ? D[P++] : 0; }
static unsigned u32(void) { unsigned a = byte(); a |= (unsigned)byte() << 8; a |= (unsigned)byte() << 16; return a | ((unsigned)byte() << 24); }
static unsigned upto(unsigned n) { /* 0..n-1 */
    if (n <= 1) return 0;
    if (n <= 256) return (unsigned)byte() % n;
    return u32() % n;
}

static void bad(const char* m) { fprintf(stderr, "VP-TAPE-MISMATCH %s\n", m); _exit(77); }

static long tape_int(const char* what) {
    char k[16], v[64];
    if (fscanf(tape, "%15s %63s", k, v) != 2) { return 0; }
    if (strcmp(k, "int") && strcmp(k, "size")) bad(what);
    return strtol(v, 0, 10);
}
static char* tape_hex(const char* what, size_t* n) {
    char k[16];
    static char v[1 << 20];
    size_t i, l;
    char* r;
    if (fscanf(tape, "%15s", k) != 1) { *n = 0; return own(calloc(1, 1)); }
    if (strcmp(k, what)) bad(what);
    if (fscanf(tape, "%1048575s", v) != 1) v[0] = 0;
    if (!strcmp(v, "-")) v[0] = 0;
    l = strlen(v) / 2;
    r = malloc(l + 1);
    for (i = 0; i < l; i++) { unsigned x; sscanf(v + 2 * i, "%2x", &x); r[i] = (char)x; }
    r[l] = 0;
    *n = l;
    return own(r);
}
static void logint(const char* k, long v) { if (logging) fprintf(stderr, "INPUT %s %ld\n", k, v); }
static void loghex(const char* k, const char* s, size_t n) {
    size_t i;
    if (!logging) return;
    fprintf(stderr, "INPUT %s ", k);
    for (i = 0; i < n; i++) fprintf(stderr, "%02x", (unsigned char)s[i]);
    if (!n) fprintf(stderr, "-");
    fprintf(stderr, "  # \"");
    for (i = 0; i < n; i++) { unsigned char c = (unsigned char)s[i]; if (c >= 32 && c < 127) fputc(c, stderr); else fprintf(stderr, "\\x%02x", c); }
    fprintf(stderr, "\"\n");
}

int vp_int(void) {
    long r;
    if (tape) r = tape_int("int");
    else switch (byte() % 8) {
        case 0: r = 0; break;
        case 1: r = 1; break;
        case 2: r = -1; break;
        case 3: r = byte() % 16; break;
        case 4: r = INT_MAX - byte() % 3; break;
        case 5: r = INT_MIN + byte() % 3; break;
        case 6: r = -(byte() % 16); break;
        default: r = (int)u32();
    }
    logint("int", r);
    return (int)r;
}
long vp_long(void) {
    long r;
    if (tape) r = tape_int("long");
    else switch (byte() % 4) {
        case 0: r = byte() - 128; break;
        case 1: r = LONG_MAX - byte(); break;
        case 2: r = LONG_MIN + byte(); break;
        default: r = (long)(((unsigned long)u32() << 32) | u32());
    }
    logint("int", r);
    return r;
}
unsigned char vp_uchar(void) { long r = tape ? tape_int("uchar") : byte(); logint("int", r); return (unsigned char)r; }
int vp_range(int lo, int hi) {
    long r;
    if (tape) r = tape_int("range");
    else if (hi <= lo) r = lo;
    else if (hi - (long)lo < 64) r = lo + (long)upto((unsigned)(hi - lo) + 1u);
    else switch (byte() % 16) { /* large ranges: mostly the small end */
        case 0: r = lo + (long)(u32() % ((unsigned long)((long)hi - lo) + 1)); break;
        case 1: r = hi - byte() % 4; break;
        default: r = lo + byte() % 5;
    }
    logint("int", r);
    if (r < lo || r > hi) { vp_assume(0); }
    return (int)r;
}
int vp_choice(int n) { return vp_range(0, n - 1); }
size_t vp_size(size_t m) {
    long r = tape ? tape_int("size") : (long)upto((unsigned)m + 1);
    logint("size", r);
    if (r > 100000) vp_assume(0);
    return (size_t)r;
}
size_t vp_index(size_t n) {
    long r;
    if (n == 0) vp_assume(0);
    r = tape ? tape_int("index") : (long)upto((unsigned)n);
    logint("size", r);
    if ((size_t)r >= n) vp_assume(0);
    return (size_t)r;
}

/* dict: tokens separated by '|' ("||" is not a token); a leading "#k" gives the usual number of tokens */
static char* gen(const char* dict, size_t* n) {
    char b[600];
    size_t l = 0;
    int maxt = 5, t, k, ntok = 1;
    const char* p = dict ? dict : "a|b|c";
    const char* q;
    char* r;
    if (*p == '#') { maxt = atoi(p + 1); p = strchr(p, ' '); p = p ? p + 1 : ""; }
    for (q = p; *q; q++) ntok += *q == '|';
    t = byte() % (maxt + 1);
    while (t-- > 0 && l < 500) {
        k = byte();
        if (k >= 250) { int c = byte(); if (c) b[l++] = (char)c; continue; }
        k %= ntok;
        q = p;
        while (k-- > 0) q = strchr(q, '|') + 1;
        while (*q && *q != '|' && l < 500) b[l++] = *q++;
    }
    b[l] = 0;
    *n = l;
    r = malloc(l + 1);
    memcpy(r, b, l + 1);
    return own(r);
}
char* vp_cstr(const char* dict) {
    size_t n;
    char* r = tape ? tape_hex("cstr", &n) : gen(dict, &n);
    loghex("cstr", r, n);
    return r;
}
char* vp_mcstr(const char* dict) { return vp_cstr(dict); }
char* vp_opt_cstr(const char* dict) { return vp_range(0, 1) ? vp_cstr(dict) : NULL; }
void* vp_buf(size_t n) {
    size_t m, i;
    char* r;
    if (tape) { r = tape_hex("bytes", &m); if (m < n) vp_assume(0); }
    else { r = own(malloc(n ? n : 1)); for (i = 0; i < n; i++) r[i] = (char)byte(); }
    loghex("bytes", r, n);
    return r;
}
struct fam { size_t n; void** e; };
void* vp_strfam(size_t n, const char* dict) {
    struct fam* f = own(malloc(sizeof *f));
    size_t i, l;
    f->n = n;
    f->e = own(calloc(n + 1, sizeof(void*)));
    if (tape) {
        char k[16];
        static char v[1 << 20];
        char* s;
        if (fscanf(tape, "%15s", k) != 1) k[0] = 0;
        if (strcmp(k, "strfam")) bad("strfam");
        if (fscanf(tape, "%1048575s", v) != 1) v[0] = 0;
        s = v;
        for (i = 0; i < n; i++) {
            char* e = strchr(s, ',');
            size_t j;
            char* r;
            if (e) *e = 0;
            l = strcmp(s, "-") ? strlen(s) / 2 : 0;
            r = own(malloc(l + 1));
            for (j = 0; j < l; j++) { unsigned x; sscanf(s + 2 * j, "%2x", &x); r[j] = (char)x; }
            r[l] = 0;
            f->e[i] = r;
            s = e ? e + 1 : s + strlen(s);
        }
    } else
        for (i = 0; i < n; i++) f->e[i] = gen(dict, &l);
    if (logging) {
        fprintf(stderr, "INPUT strfam ");
        for (i = 0; i < n; i++) { const char* s = f->e[i]; if (!*s) fputc('-', stderr); while (*s) fprintf(stderr, "%02x", (unsigned char)*s++); if (i + 1 < n) fputc(',', stderr); }
        if (!n) fputc('-', stderr);
        fprintf(stderr, "  #");
        for (i = 0; i < n; i++) fprintf(stderr, " \"%s\"", (char*)f->e[i]);
        fputc('\n', stderr);
    }
    return f;
}
void* vp_family(size_t n, size_t esz, void (*init)(void*, size_t), int (*ok)(void*, size_t)) {
    struct fam* f = own(malloc(sizeof *f));
    size_t i;
    if (tape) { long c = tape_int("family"); if ((size_t)c != n) vp_assume(0); }
    logint("size", (long)n);
    f->n = n;
    f->e = own(calloc(n + 1, sizeof(void*)));
    for (i = 0; i < n; i++) {
        f->e[i] = calloc(1, esz);
        if (init) init(f->e[i], i);
    }
    for (i = 0; ok && i < n; i++)
        if (!ok(f->e[i], i)) vp_assume(0);
    return f;
}
void* vp_array(size_t n, size_t esz, void (*init)(void*, size_t), int (*ok)(void*, size_t)) {
    char* a = own(calloc(n + 1, esz));
    size_t i;
    for (i = 0; init && i < n; i++) init(a + i * esz, i);
    for (i = 0; ok && i < n; i++)
        if (!ok(a + i * esz, i)) vp_assume(0);
    return a;
}
char* vp_fam(void* fam, size_t i) { return ((struct fam*)fam)->e[i]; }
void** vp_ptrtable(void* fam, size_t n) {
    struct fam* f = fam;
    void** t = own(calloc(n + 1, sizeof(void*)));
    size_t i;
    for (i = 0; i < n; i++) t[i] = i < f->n ? f->e[i] : NULL;
    return t;
}
void vp_assume(int c) { if (!c) { if (tape) { fprintf(stderr, "VP-ASSUME-FALSE\n"); _exit(0); } if (in_run) longjmp(out, 1); _exit(0); } }
void vp_assert(int c, const char* name) { if (!c) { fprintf(stderr, "VP-FAIL %s\n", name); fflush(stderr); abort(); } }
void vp_lemma(int c, const char* name) { vp_assert(c, name); }
void vp_requires(int c, const char* name) { vp_assert(c, name); }
void vp_cover(const char* name) { (void)name; }

struct snap { const void* p; size_t n; char* c; };
static struct snap snaps[64];
static int nsnap;
int vp_snapshot(const void* p, size_t n) {
    struct snap* s = &snaps[nsnap % 64];
    s->p = p; s->n = n; s->c = own(malloc(n + 1));
    memcpy(s->c, p, n);
    return nsnap++ % 64;
}
int vp_unchanged(int h, size_t lo, size_t hi) {
    struct snap* s = &snaps[h];
    if (hi > s->n) hi = s->n;
    return lo >= hi || !memcmp((const char*)s->p + lo, s->c + lo, hi - lo);
}
size_t vp_off(const void* p) { return (size_t)p; }
int vp_same_object(const void* a, const void* b) { (void)a; (void)b; return 1; }
size_t vp_room(const void* p) { (void)p; return (size_t)1 << 40; }
int vp_live(const void* p) { return p != 0; }
void vp_havoc_int(int* p) { (void)p; }
void vp_havoc(void* p, size_t n) { (void)p; (void)n; }
void vp_rotate(void* a, size_t s, size_t e, size_t end) { (void)a; (void)s; (void)e; (void)end; }

/* live heap blocks allocated by the code under test (library objects are linked with --wrap) */
static int live;
int vp_heap_live(void) { return live; }
void* vpw_malloc(size_t n) { live++; return malloc(n); }
void* vpw_calloc(size_t a, size_t b) { live++; return calloc(a, b); }
void vpw_free(void* p) { if (p) live--; free(p); }
void* vpw_realloc(void* p, size_t n) { if (!p) live++; return realloc(p, n); }

void vp_reset(void) __attribute__((weak));
void vp_reset(void) {}

static void once(void) {
    int i;
    nowned = 0; nsnap = 0; live = 0;
    in_run = 1;
    vp_reset();
    if (!setjmp(out)) vp_harness();
    in_run = 0;
    for (i = 0; i < nowned; i++) free(owned[i]);
}

int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    static int init;
    if (!init) {
        const char* t = getenv("VP_TAPE");
        init = 1;
        logging = getenv("VP_LOG") != NULL;
        if (t) {
            tape = fopen(t, "r");
            once();
            fprintf(stderr, "VP-OK\n");
            _exit(0);
        }
    }
    D = d; N = n; P = 0;
    once();
    return 0;
}
