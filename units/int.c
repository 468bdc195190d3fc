/* integer options: arg_int.c */
//@ contract detectsuffix c_detectsuffix h_detectsuffix
//@ contract strtol0X c_strtol0X h_strtol0X
//@ harness h_detectsuffix
//@ harness h_strtol0X merge=0
//@ harness h_int_value prop=C01 use=detectsuffix,strtol0X opaque=pure_len,pure_value,sp_suffix,sp_ws
//@ harness h_v_int prop=C02 use=detectsuffix,strtol0X opaque=pure_len,pure_value,sp_suffix,sp_ws
//@ harness h_c_int prop=C03
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
#include "values.h"

#define DICT "0|1|9|-|+| |x|X|0x|o|0o|b|0b|kb|MB|gB|B|2147483647|2147483648|-2147483648|2097151|2097152|2047|2048|1023|1024|7f|\t|9223372036854775808"

/* position of the first character that is not white space */
static size_t sp_ws(const char* s) { return isspace((int)*s) ? sp_ws(s + 1) : vp_off(s); }
LEMMA int post_ws(const char* s, size_t r) { return r >= vp_off(s) && r <= vp_off(s) + strlen(s); }
static size_t ws(const char* s) { return sp_ws(s) - vp_off(s); }

/* s is t (upper or lower case) followed by nothing but white space */
static int sp_suffix(const char* s, const char* t) {
    if (*t == '\0') return s[ws(s)] == '\0';
    if (*s == '\0') return 0;
    return toupper(*s) == toupper(*t) ? sp_suffix(s + 1, t + 1) : 0;
}

/* number notation: the optional white space and sign, 0X, then digits of the base */
static size_t pure_digits(const char* s) { size_t n = ws(s); return n + (s[n] == '+' || s[n] == '-') + 2; }
static int pure_prefixed(const char* s, int X) {
    size_t n = ws(s);
    if (s[n] == '+' || s[n] == '-') n++;
    return s[n] == '0' && toupper(s[n + 1]) == X;
}
static long conv(const char* s, char** e, int base) { return base == 16 ? strtol(s, e, 16) : base == 8 ? strtol(s, e, 8) : base == 2 ? strtol(s, e, 2) : strtol(s, e, 10); }
/* length of the number at s in the notation 0X, 0 if there is none */
static size_t pure_len(const char* s, int X, int base) {
    char* e = 0;
    const char* p;
    if (!pure_prefixed(s, X)) return 0;
    p = s + pure_digits(s);
    conv(p, &e, base);
    return e == p ? 0 : (size_t)(e - s);
}
static long pure_value(const char* s, int base) {
    char* e = 0;
    long v = conv(s + pure_digits(s), &e, base);
    return s[ws(s)] != '-' ? v : v == LONG_MIN ? LONG_MAX : -v;
}
static size_t pure_declen(const char* s) { char* e = 0; strtol(s, &e, 10); return (size_t)(e - s); }
static long pure_decvalue(const char* s) { char* e = 0; return strtol(s, &e, 10); }

/* the error of an argument text, 0 if it denotes an int; *out is the value */
static int scaled(long v, long hi, long lo, int m, int* out) {
    if (v > hi || v < lo) return ARG_ERR_OVERFLOW;
    *out = m == 0 ? (int)v : m == 1 ? (int)v * 1024 : m == 2 ? (int)v * (1024 * 1024) : (int)v * (1024 * 1024 * 1024);
    return 0;
}
static int oracle(const char* s, int* out) {
    size_t len;
    long v;
    const char* e;
    if ((len = pure_len(s, 'X', 16)) != 0) v = pure_value(s, 16);
    else if ((len = pure_len(s, 'O', 8)) != 0) v = pure_value(s, 8);
    else if ((len = pure_len(s, 'B', 2)) != 0) v = pure_value(s, 2);
    else if ((len = pure_declen(s)) != 0) v = pure_decvalue(s);
    else return ARG_ERR_BADINT;
    e = s + len;
    if (sp_suffix(e, "KB")) return scaled(v, 2097151, -2097152, 1, out);
    if (sp_suffix(e, "MB")) return scaled(v, 2047, -2048, 2, out);
    if (sp_suffix(e, "GB")) return scaled(v, 1, -2, 3, out);
    if (sp_suffix(e, "")) return scaled(v, INT_MAX, INT_MIN, 0, out);
    return ARG_ERR_BADINT;
}

/* ---- contracts of the helpers */
int detectsuffix(const char* str, const char* suffix);
int c_detectsuffix(const char* str, const char* suffix) { return sp_suffix(str, suffix); }
void h_detectsuffix(void) {
    const char* s = vp_cstr("#4 k|K|b|B|m|G| |x|\t");
    const char* t = vp_cstr("#2 K|B|M|G");
    int r, w = sp_suffix(s, t);
    sp_ws(s);
    r = detectsuffix(s, t);
    vp_cover("suffix");
    vp_assert(r == w, "a suffix is recognised without regard to case and may be followed by white space only");
}

long strtol0X(const char* str, const char** endptr, char X, int base);
long c_strtol0X(const char* str, const char** endptr, char X, int base) {
    size_t n = pure_len(str, X, base);
    *endptr = str + n;
    return n ? pure_value(str, base) : 0;
}
void h_strtol0X(void) {
    const char* s = vp_cstr("#8 " DICT);
    const char* e = s;
    int k = vp_choice(3);
    int base = k == 0 ? 16 : k == 1 ? 8 : 2;
    char X = k == 0 ? 'X' : k == 1 ? 'O' : 'B';
    long r;
    size_t n;
    sp_ws(s);
    r = strtol0X(s, &e, X, base);
    n = pure_len(s, X, base);
    vp_cover("prefixed number");
    vp_assert(e == s + n, "a prefixed number ends where its digits end");
    vp_assert(r == (n ? pure_value(s, base) : 0), "a prefixed number has the value of its digits and sign");
}

void h_int_value(void) {
    int maxc = vp_range(1, 1000000);
    struct arg_int* a = arg_intn("a", NULL, NULL, 0, maxc, NULL);
    const char* text = vp_cstr("#8 " DICT);
    int want = 0, e, n = vp_range(0, maxc - 1);
    int r;
    a->count = n;
    sp_ws(text);
    r = a->hdr.scanfn(a, text);
    e = oracle(text, &want);
    vp_assert((r == 0) == (e == 0), "an integer text is accepted exactly when it denotes a representable integer");
    vp_assert(e == r, "the kind of error is the documented one");
    if (e == 0) {
        vp_cover("accepted");
        vp_assert(a->count == n + 1, "one more value");
        vp_assert(a->ival[n] == want, "the stored value is the number written");
    } else {
        vp_cover("rejected");
        vp_assert(a->count == n, "a rejected text is not counted");
    }
}

void h_v_int(void) {
    int mn = vp_range(0, M), mx = vp_range(0, M), max = bigger(mn, mx);
    struct arg_int* a = arg_intn("i", "int", NULL, mn, mx, NULL);
    HDR(a);
    { SCAN(a, a->ival, int); }
}
void h_c_int(void) {
    int mn = vp_range(0, M), mx = vp_range(0, M), max = bigger(mn, mx);
    struct arg_int* a = arg_intn("i", "int", NULL, mn, mx, NULL);
    HDR(a);
    { CHECK(a, a->ival, int); }
}
