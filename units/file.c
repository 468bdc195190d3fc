/* file options: base name and extension of every path */
//@ harness h_file prop=C13
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"

static int dots(const char* t, size_t n) { /* the last component is "." or ".." */
    if (n == 0 || t[n - 1] != '.') return 0;
    if (n == 1 || t[n - 2] == '/') return 1;
    if (t[n - 2] != '.') return 0;
    return n == 2 || t[n - 3] == '/';
}
void h_file(void) {
    const char* t = vp_cstr("/|.|..|a|b.c|.tar|.gz|~|\\");
    int max = vp_range(1, 1000), n = vp_range(0, 999), r;
    size_t b, e, len, k;
    struct arg_file* a;
    vp_assume(n < max);
    a = arg_filen("f", "file", NULL, 0, max, NULL);
    a->count = n;
    r = a->hdr.scanfn(a, t);
    vp_assert(r == 0 && a->count == n + 1, "every text is a file name");
    vp_assert(a->filename[n] == t, "the file name is the text given");
    vp_assert(vp_same_object(a->basename[n], t) && vp_same_object(a->extension[n], t), "base name and extension are parts of the text");
    len = strlen(t);
    b = vp_off(a->basename[n]) - vp_off(t);
    e = vp_off(a->extension[n]) - vp_off(t);
    vp_assert(b <= len && e >= b && e <= len, "base name and extension are parts of the text");
    if (dots(t, len)) {
        vp_cover("directory");
        vp_assert(b == len && e == len, "the special directories . and .. have no base name");
    } else {
        vp_cover("file");
        vp_assert(b == 0 || t[b - 1] == '/', "the base name starts after a separator or with the text");
    }
    k = vp_index(len + 1);
    if (k >= b && k < len) vp_assert(t[k] != '/', "the base name contains no separator");
    if (e < len) {
        vp_cover("extension");
        vp_assert(t[e] == '.' && e > b && e + 1 < len, "the extension starts with a dot that is neither the first nor the last character of the base name");
        if (k > e && k < len) vp_assert(t[k] != '.', "the extension starts at the last dot");
    } else if (len > b && t[len - 1] != '.') {
        vp_cover("no extension");
        if (k > b && k < len) vp_assert(t[k] != '.', "without an extension there is no dot inside the base name");
    }
    if (len > b && t[len - 1] == '.') vp_assert(e == len, "a final dot is no extension");
}
