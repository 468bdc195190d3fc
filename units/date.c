/* dates: arg_strptime and its helpers (arg_date.c) */
//@ contract arg_strncasecmp c_ncase h_ncase
//@ contract arg_strcasecmp c_case h_case
//@ contract arg_strptime c_strptime h_safe
//@ contract conv_num c_conv h_conv
//@ harness h_ncase
//@ harness h_conv prop=C11
//@ harness h_case
//@ harness h_safe prop=C11 use=arg_strptime,conv_num,arg_strncasecmp,arg_strcasecmp keep=nul$|>=entry$ cunroll=16
//@ harness h_num prop=C11
//@ harness h_mod prop=C11
//@ harness h_nam prop=C11 use=arg_strncasecmp,arg_strcasecmp cunroll=16
//@ harness h_two prop=C11 use=arg_strcasecmp cunroll=16
//@ harness h_com prop=C11 cunroll=16
//@ native h_fmt prop=C11
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
char* arg_strptime(const char* buf, const char* fmt, struct tm* tm);
int arg_strncasecmp(const char* s1, const char* s2, size_t n);
int arg_strcasecmp(const char* s1, const char* s2);

static int lo(char c) { return tolower((int)(unsigned char)c); }
/* the first n characters agree, upper and lower case alike */
static int sp_ncase(const char* s, const char* t, size_t n) {
    if (n == 0) return 1;
    if (lo(*s) != lo(*t)) return 0;
    if (*s == '\0') return 1;
    if (n == 1) return 1;
    return sp_ncase(s + 1, t + 1, n - 1);
}
LEMMA int post_ncase(const char* s, const char* t, size_t n, int r) { return r == 0 || n > strlen(s) || n <= strlen(t); }
static int sp_case(const char* s, const char* t) {
    if (lo(*s) != lo(*t)) return 0;
    if (*s == '\0') return 1;
    return sp_case(s + 1, t + 1);
}
LEMMA int post_case(const char* s, const char* t, int r) { return r == 0 || strlen(s) == strlen(t); }
LEMMA int c_ncase(const char* s, const char* t, size_t n) { return !sp_ncase(s, t, n); }
LEMMA int c_case(const char* s, const char* t) { return !sp_case(s, t); }

static const char *g_s, *g_t;
static size_t g_n;
LEMMA int inv_ncase(const char* a, const char* b, size_t n) { return sp_ncase(a, b, n) == sp_ncase(g_s, g_t, g_n); }
LEMMA int inv_case(const char* a, const char* b) { return sp_case(a, b) == sp_case(g_s, g_t); }
void h_ncase(void) {
    const char *s = vp_cstr("a|b|C|c"), *t = vp_cstr("a|b|C|c");
    size_t n = vp_size(6);
    int r;
    g_s = s;
    g_t = t;
    g_n = n;
    r = arg_strncasecmp(s, t, n);
    vp_cover("compared");
    vp_assert((r == 0) == sp_ncase(s, t, n), "equal exactly when the first characters agree but for case");
}
void h_case(void) {
    const char *s = vp_cstr("a|b|C|c"), *t = vp_cstr("a|b|C|c");
    int r;
    g_s = s;
    g_t = t;
    r = arg_strcasecmp(s, t);
    vp_cover("compared");
    vp_assert((r == 0) == sp_case(s, t), "equal exactly when the texts agree but for case");
}

static const char *g_text, *g_fmt;
static struct tm* g_tm;
static int within(int v, int l, int h) { return (v >= l) & (v <= h); }
static int ranges(struct tm* t) {
    return within(t->tm_mday, 0, 31) & within(t->tm_mon, 0, 11) & within(t->tm_year, -1999, 8099) & within(t->tm_hour, 0, 23) & within(t->tm_min, 0, 59) &
           within(t->tm_sec, 0, 61) & within(t->tm_wday, 0, 6) & within(t->tm_yday, 0, 365);
}
LEMMA int inv_ranges(void) { return ranges(g_tm); }
/* ---- numbers: as many digits as the upper limit allows */
int conv_num(const char** buf, int* dest, int llim, int ulim);
static int digit(char c) { return c >= '0' && c <= '9'; }
/* the digits of the number at s: at most as many as the limit has, and no digit that takes ten times the number past the limit */
static int ndigits(const char* s, int ulim) {
    int v, n = 0, left = ulim;
    for (v = 0; n < 5 && digit(s[n]) && (n == 0 || (left > 0 && v * 10 <= ulim)); n++, left /= 10) v = v * 10 + (s[n] - '0');
    return n;
}
static int number(const char* s, int n) {
    int v = 0, i;
    for (i = 0; i < n; i++) v = v * 10 + (s[i] - '0');
    return v;
}
LEMMA int c_conv(const char** buf, int* dest, int llim, int ulim) {
    size_t o = vp_off(*buf) - vp_off(g_text), r = vp_size(1), n = strlen(g_text);
    int v = vp_int();
    vp_requires(vp_same_object(*buf, g_text) && o <= n, "a place in the text");
    vp_requires(0 <= llim && llim <= ulim && ulim <= 9999, "limits of a field");
    vp_assume((r >= o) & (r <= n));
    *buf = g_text + r;
    if (vp_choice(2)) return 0;
    vp_assume((v >= llim) & (v <= ulim));
    *dest = v;
    return 1;
}
static const int limits[] = {6, 12, 23, 31, 53, 59, 61, 99, 366, 9999};
void h_conv(void) {
    int llim = vp_range(0, 1), k, ulim, d = vp_int(), old = d, r, n;
    const char* p;
    size_t o;
    g_text = vp_cstr("1|2|0|9|99|a");
    k = vp_choice(10);
    ulim = limits[k];
    o = vp_index(strlen(g_text) + 1);
    p = g_text + o;
    r = conv_num(&p, &d, llim, ulim);
    vp_cover("read");
    n = ndigits(g_text + o, ulim);
    vp_assert(vp_same_object(p, g_text) && vp_off(p) == vp_off(g_text) + o + (size_t)n, "the digits of the number are taken, no more");
    if (n == 0 || number(g_text + o, n) < llim || number(g_text + o, n) > ulim) {
        vp_cover("refused");
        vp_assert(r == 0 && d == old, "text that is no number, or out of range, is refused and stores nothing");
    } else {
        vp_cover("taken");
        vp_assert(r == 1 && d == number(g_text + o, n), "the number written is stored");
    }
}
LEMMA char* c_strptime(const char* buf, const char* fmt, struct tm* tm) {
    size_t o = vp_off(buf) - vp_off(g_text), r = vp_size(1), n = strlen(g_text);
    vp_requires(vp_same_object(buf, g_text) && o <= n, "a place in the text");
    vp_requires(tm == g_tm, "the same date");
    vp_requires(ranges(tm), "every field in its range");
    vp_havoc(tm, sizeof *tm);
    vp_assume(ranges(tm));
    if (vp_choice(2)) return NULL;
    vp_assume((r >= o) & (r <= n));
    return (char*)g_text + r;
}
void h_safe(void) {
    char* r;
    size_t o;
    g_text = vp_cstr("1|2|0|-|/|:| |Mon|May|june|AM|pm|1999|31");
    g_fmt = vp_cstr("%|Y|m|d|H|M|S|-|/| |p|b|A|y|C|E|O|j|c|x|X|r|T|D|R|I|l|k|U|w|n|%%");
    g_tm = vp_buf(sizeof(struct tm));
    vp_assume(ranges(g_tm));
    o = vp_index(strlen(g_text) + 1);
    r = arg_strptime(g_text + o, g_fmt, g_tm);
    vp_cover("done");
    vp_assert(ranges(g_tm), "every field of the date stays in its range");
    if (r == NULL) return;
    vp_cover("matched");
    vp_assert(vp_same_object(r, g_text) && r >= g_text + o && r <= g_text + strlen(g_text), "the part that matches ends within the text");
}

/* ---- what each directive means: a reference interpreter of formats (proved equal for the formats below and every text; other formats are compared by execution) */
static size_t sp_skip(const char* s) {
    if (!isspace((int)*s)) return 0;
    return 1 + sp_skip(s + 1);
}
LEMMA int post_skip(const char* s, size_t r) { return r <= strlen(s); }
static const char* const dname[7] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char* const dabbr[7] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static const char* const mname[12] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static const char* const mabbr[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
struct st {
    const char* s; /* NULL: no match */
    int split;
    struct tm t;
};
static int rd(struct st* x, int lo_, int hi) { /* a number in a range, else no match */
    int n = ndigits(x->s, hi), v = number(x->s, n);
    if (n == 0 || v < lo_ || v > hi) {
        x->s = NULL;
        return 0;
    }
    x->s += n;
    return v;
}
static int rn(struct st* x, const char* const* full, const char* const* abbr, int n) {
    int i;
    for (i = 0; i < n; i++) {
        if (sp_ncase(full[i], x->s, strlen(full[i]))) {
            x->s += strlen(full[i]);
            return i;
        }
        if (sp_ncase(abbr[i], x->s, strlen(abbr[i]))) {
            x->s += strlen(abbr[i]);
            return i;
        }
    }
    x->s = NULL;
    return 0;
}
static void sub(struct st* x, const char* f);
static void one(struct st* x, char m, char c) {
    int v;
    struct tm* t = &x->t;
    const char* allow = strchr("cXxCY", c) ? "E" : strchr("deHIMmSUWw", c) ? "O" : c == 'y' ? "EO" : "";
    if (c == '%') { /* a modifier has no effect on %% */
        if (*x->s == '%') x->s++;
        else x->s = NULL;
        return;
    }
    if (m && !strchr(allow, m)) {
        x->s = NULL;
        return;
    }
    switch (c) {
        case 'c': sub(x, "%x %X"); break;
        case 'D': case 'x': sub(x, "%m/%d/%y"); break;
        case 'R': sub(x, "%H:%M"); break;
        case 'r': sub(x, "%I:%M:%S %p"); break;
        case 'T': case 'X': sub(x, "%H:%M:%S"); break;
        case 'A': case 'a': v = rn(x, dname, dabbr, 7); if (x->s) t->tm_wday = v; break;
        case 'B': case 'b': case 'h': v = rn(x, mname, mabbr, 12); if (x->s) t->tm_mon = v; break;
        case 'C':
            v = rd(x, 0, 99);
            if (!x->s) break;
            t->tm_year = (x->split ? t->tm_year % 100 : 0) + v * 100 - 1900;
            x->split = 1;
            break;
        case 'd': case 'e': v = rd(x, 1, 31); if (x->s) t->tm_mday = v; break;
        case 'k': case 'H': v = rd(x, 0, 23); if (x->s) t->tm_hour = v; break;
        case 'l': case 'I': v = rd(x, 1, 12); if (x->s) t->tm_hour = v == 12 ? 0 : v; break;
        case 'j': v = rd(x, 1, 366); if (x->s) t->tm_yday = v - 1; break;
        case 'M': v = rd(x, 0, 59); if (x->s) t->tm_min = v; break;
        case 'm': v = rd(x, 1, 12); if (x->s) t->tm_mon = v - 1; break;
        case 'p':
            if (t->tm_hour > 11) x->s = NULL;
            else if (sp_case("AM", x->s)) x->s += 2;
            else if (sp_case("PM", x->s)) x->s += 2, t->tm_hour += 12;
            else x->s = NULL;
            break;
        case 'S': v = rd(x, 0, 61); if (x->s) t->tm_sec = v; break;
        case 'U': case 'W': rd(x, 0, 53); break;
        case 'w': v = rd(x, 0, 6); if (x->s) t->tm_wday = v; break;
        case 'Y': v = rd(x, 0, 9999); if (x->s) t->tm_year = v - 1900; break;
        case 'y':
            v = rd(x, 0, 99);
            if (!x->s) break;
            t->tm_year = x->split ? t->tm_year / 100 * 100 + v : v <= 68 ? v + 100 : v;
            x->split = 1;
            break;
        case 'n': case 't': x->s += sp_skip(x->s); break;
        default: x->s = NULL;
    }
}
static void run(struct st* x, const char* f) {
    while (*f && x->s) {
        char m = 0;
        if (isspace((int)*f)) {
            x->s += sp_skip(x->s);
            f++;
        } else if (*f != '%') {
            if (*x->s == *f) x->s++;
            else x->s = NULL;
            f++;
        } else {
            f++;
            if (*f == 'E' || *f == 'O') {
                m = *f++;
            }
            if (*f == '\0') {
                x->s = NULL;
                return;
            }
            one(x, m, *f++);
        }
    }
}
static void sub(struct st* x, const char* f) {
    int s = x->split;
    x->split = 0;
    run(x, f);
    x->split = s;
}
static void compare(const char* fmt) {
    struct tm* t = vp_buf(sizeof(struct tm));
    struct st x;
    char* r;
    vp_assume(ranges(t));
    x.s = g_text;
    x.split = 0;
    x.t = *t;
    run(&x, fmt);
    r = arg_strptime(g_text, fmt, t);
    vp_cover("read");
    if (x.s == NULL) {
        vp_assert(r == NULL, "a text that does not match the format is refused");
        return;
    }
    vp_cover("matches");
    vp_assert(r == x.s, "a text that matches is accepted, up to the end of the match");
    vp_assert(t->tm_year == x.t.tm_year && t->tm_mon == x.t.tm_mon && t->tm_mday == x.t.tm_mday, "the date is the one written");
    vp_assert(t->tm_hour == x.t.tm_hour && t->tm_min == x.t.tm_min && t->tm_sec == x.t.tm_sec, "the time is the one written");
    vp_assert(t->tm_wday == x.t.tm_wday && t->tm_yday == x.t.tm_yday, "the day of the week and of the year are the ones written");
}
#define TEXT "1|2|0|-|/|:| |Mon|May|june|AM|pm|1999|31|12:30:59|02/29/96"
static const char* const num[] = {"%Y", "%m", "%d", "%e", "%H", "%k", "%I", "%l", "%M", "%S", "%y", "%C", "%j", "%U", "%W", "%w"};
void h_num(void) {
    g_text = vp_cstr(TEXT);
    compare(num[vp_choice(16)]);
}
static const char* const mod[] = {"%EY", "%Ey", "%Oy", "%EC", "%Od", "%Oe", "%OH", "%OI", "%OM", "%Om", "%OS", "%OU", "%OW", "%Ow", "%Ek", "%Em", "%OY", "%Oj"};
void h_mod(void) {
    g_text = vp_cstr(TEXT);
    compare(mod[vp_choice(18)]);
}
static const char* const nam[] = {"%a", "%A", "%b", "%B", "%h", "%p", "%n", "%t", " ", "x", "%%", "%q"};
void h_nam(void) {
    g_text = vp_cstr(TEXT);
    compare(nam[vp_choice(12)]);
}
static const char* const two[] = {"%C%y", "%y%C", "%I%p", "%H%p", "%Y %j", "%m.%d", "%H:%M", "%R"};
void h_two(void) {
    g_text = vp_cstr(TEXT);
    compare(two[vp_choice(8)]);
}
static const char* const com[] = {"%Y-%m-%d", "%H:%M:%S", "%T", "%X", "%D", "%x"};
void h_com(void) {
    g_text = vp_cstr(TEXT);
    compare(com[vp_choice(6)]);
}
void h_fmt(void) {
    g_text = vp_cstr(TEXT);
    compare(vp_cstr("%Y|%m|%d|%H|%M|%S|-|/| |%p|%b|%A|%y|%C|E|O|%j|%c|%x|%X|%r|%T|%D|%R|%I|%l|%k|%U|%w|%n|%%|:"));
}
