/* wrapped text: every word kept, in order, inside the margins (executed only) */
//@ native h_wrapn prop=C16
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const unsigned rmargin, const char* text);

/* any text, also with newlines: executed only */
void h_wrapn(void) {
    const char* t = vp_cstr("a|bb|ccc| |  |dddd|\n|e f|\t");
    unsigned l = (unsigned)vp_range(0, 6), r = l + (unsigned)vp_range(0, 12), w = r - l + 1;
    arg_dstr_t ds = arg_dstr_create();
    size_t i, p = 0, col, n = strlen(t), words = 1;
    char* o;
    arg_print_formatted_ds(ds, l, r, t);
    o = arg_dstr_cstr(ds);
    for (i = 0; o[i]; i++) {
        if (isspace((int)o[i])) continue;
        while (t[p] && isspace((int)t[p])) p++;
        vp_assert(t[p] == o[i], "the words in their order, none left out");
        p++;
    }
    while (t[p] && isspace((int)t[p])) p++;
    vp_assert(p == n, "every word is printed");
    for (i = 0, col = 0; o[i]; i++) {
        if (o[i] == '\n') col = 0;
        else vp_assert(++col <= w + l, "no line is longer than the column");
    }
    for (i = 0, col = 0; i < n; i++) {
        col = isspace((int)t[i]) ? 0 : col + 1;
        if (col > w) words = 0;
    }
    vp_assert(n == 0 ? *o == 0 : o[strlen(o) - 1] == '\n' || o[strlen(o) - 1] == ' ', "the last line is complete");
    if (words) { /* no word is too long: none is broken */
        for (i = 0, p = 0; o[i]; i++) {
            if (isspace((int)o[i])) continue;
            while (t[p] && isspace((int)t[p])) p++;
            while (o[i] && !isspace((int)o[i])) i++, p++;
            vp_assert(t[p] == 0 || isspace((int)t[p]), "a word that fits is not broken");
            if (!o[i]) break;
        }
    }
    if (strchr(t, '\n') == NULL) {
        /* greedy: the first word of a line did not fit on the line before */
        size_t q = 0, e;
        const char* line = o;
        int first = 1;
        while (q < n) {
            size_t s, last;
            if (!first) {
                for (i = 0; i < l; i++) vp_assert(line[i] == ' ', "a further line starts with its margin");
                line += l;
            }
            while (t[q] && isspace((int)t[q])) q++;
            s = q;
            if (n - s <= w) e = n, last = n;
            else {
                for (e = s + w; e > s && !isspace((int)t[e]); e--) {}
                if (e == s) e = s + w, last = e;
                else {
                    for (last = e; last > s && isspace((int)t[last - 1]); last--) {}
                }
            }
            vp_assert(strncmp(line, t + s, last - s) == 0 && line[last - s] == '\n', "as many words as fit are on a line");
            line += last - s + 1;
            q = last;
            first = 0;
        }
        vp_assert(*line == '\0', "nothing more is printed");
    }
    arg_dstr_destroy(ds);
}
