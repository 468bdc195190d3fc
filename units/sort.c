/* arg_mgsort: the halves are sorted, then merged; against its own contract and that of merge */
//@ contract arg_mgsort c_mgsort h_mgsort
//@ contract merge c_merge h_none
//@ harness h_mgsort prop=C19 use=arg_mgsort,merge nonative=1
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
#define MAXN (1 << 30)
static void* g_data;
static int g_esize, g_lo, g_hi, g_done;
static int la, ha, lb, hb, g_halves; /* ranges sorted so far */
static int cmp(const void* a, const void* b) { return a == b; }
LEMMA void c_mgsort(void* d, int size, int esize, int i, int k, arg_comparefn* f) {
    (void)size;
    vp_requires(d == g_data && esize == g_esize && f == cmp, "the same array");
    vp_requires(i >= g_lo && k <= g_hi, "a part of the range");
    vp_requires((long)k - i < (long)g_hi - g_lo, "a smaller one");
    vp_requires(!g_done && g_halves < 2, "before the merge");
    if (g_halves == 0) la = i, ha = k;
    else lb = i, hb = k;
    g_halves++;
}
LEMMA void c_merge(void* d, int esize, int i, int j, int k, arg_comparefn* f) {
    vp_requires(d == g_data && esize == g_esize && f == cmp, "the same array");
    vp_requires(i <= j && j < k, "two parts");
    vp_requires(!g_done && i == g_lo && k == g_hi, "the whole range is merged, once");
    vp_requires(g_halves == 2 && ((la <= i && j <= ha && lb <= j + 1 && k <= hb) || (lb <= i && j <= hb && la <= j + 1 && k <= ha)), "two sorted parts are merged");
    vp_requires(ha < lb || hb < la, "which do not overlap");
    g_done = 1;
}
void h_mgsort(void) {
    int size = vp_int();
    g_data = vp_buf(8);
    g_lo = vp_int();
    g_hi = vp_int();
    g_esize = vp_int();
    vp_assume(g_lo >= 0);
    vp_assume(g_lo < MAXN);
    vp_assume(g_hi >= -1);
    vp_assume(g_hi < MAXN);
    g_done = g_halves = 0;
    arg_mgsort(g_data, size, g_esize, g_lo, g_hi, cmp);
    vp_cover("sorted");
    if (g_lo < g_hi) vp_assert(g_done, "the range is sorted");
    else vp_assert(!g_done && !g_halves, "a single element needs no sorting");
}
