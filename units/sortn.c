/* arg_mgsort, executed against a reference */
//@ native h_sort prop=C19
#include "vp.h"
#include "argtable3.h"
#include "argtable3_private.h"
static unsigned char A[4000], B[4000];
static int g_es, g_rev;
static int cmp(const void* a, const void* b) {
    const unsigned char *x = a, *y = b;
    vp_requires(x >= A && x < A + sizeof(A) && y >= A && y < A + sizeof(A), "elements of the array are compared");
    vp_requires((x - A) % g_es == 0 && (y - A) % g_es == 0, "elements of the array are compared");
    return g_rev ? (*y > *x) - (*y < *x) : (*x > *y) - (*x < *y);
}
static int cmpq(const void* a, const void* b) {
    const unsigned char *x = a, *y = b;
    int c = g_rev ? *y - *x : *x - *y;
    int i;
    for (i = 1; !c && i < g_es; i++) c = x[i] - y[i];
    return c;
}
void h_sort(void) {
    int n = vp_range(0, 60), es, i, k, j, m = vp_range(1, 200), whole = vp_choice(2);
    static const int sizes[6] = {1, 2, 4, 8, 12, 40};
    es = g_es = sizes[vp_choice(6)];
    g_rev = vp_choice(2);
    for (j = 0; j < n; j++) {
        A[j * es] = (unsigned char)(vp_uchar() % m);
        for (i = 1; i < es; i++) A[j * es + i] = (unsigned char)(j * 3 + i);
    }
    A[n * es] = 0x5a;
    i = 0, k = n - 1;
    if (!whole && n > 0) i = vp_range(0, n - 1), k = vp_range(i, n - 1);
    memcpy(B, A, sizeof(B));
    arg_mgsort(A, n, es, i, k, cmp);
    vp_assert(memcmp(A, B, (size_t)(i * es)) == 0, "what is in front of the range stays");
    if (k >= i) vp_assert(memcmp(A + (k + 1) * es, B + (k + 1) * es, (size_t)((n - k - 1) * es + 1)) == 0, "what is behind the range stays");
    for (j = i; j < k; j++) vp_assert(cmp(A + j * es, A + (j + 1) * es) <= 0, "the range is in order");
    if (k >= i) {
        qsort(A + i * es, (size_t)(k - i + 1), (size_t)es, cmpq);
        qsort(B + i * es, (size_t)(k - i + 1), (size_t)es, cmpq);
        vp_assert(memcmp(A + i * es, B + i * es, (size_t)((k - i + 1) * es)) == 0, "each element is kept, once");
    }
    vp_assert(vp_heap_live() == 0, "all memory is released");
}
