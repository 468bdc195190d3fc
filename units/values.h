/* counting discipline common to all option types */
#define M 1000000
#define TEXT "#4 a|b|0|1|5|-|.|/|x|kb|1999-12-31|2001-1-2|e|inf| "

static int bigger(int a, int b) { return a > b ? a : b; }

#define HDR(a)                                                                                                         \
    vp_assert((a)->hdr.maxcount == max, "the limit is the larger of the two counts");                                   \
    vp_assert((a)->hdr.mincount == mn, "the minimum is the one asked for");                                             \
    vp_assert((a)->count == 0, "a new entry has no values");                                                            \
    vp_assert((a)->hdr.parent == (a), "an entry is its own parent");

/* one call of the scan function with any count and any text */
#define SCAN(a, values, elem)                                                                                          \
    int n = vp_range(0, max), r, snap;                                                                                  \
    const char* text = vp_opt_cstr(TEXT);                                                                               \
    size_t base = (size_t)((char*)(values) - (char*)(a)), size = base + (size_t)max * sizeof(elem);                     \
    (a)->count = n;                                                                                                     \
    snap = vp_snapshot((a), size);                                                                                      \
    r = (a)->hdr.scanfn((a), text);                                                                                     \
    if (n == max) {                                                                                                     \
        vp_cover("full");                                                                                               \
        vp_assert(r == ARG_ERR_MAXCOUNT, "a value past the limit is refused as excess");                                \
        vp_assert((a)->count == n && vp_unchanged(snap, 0, size), "a refused value changes nothing");                   \
    } else if (text == NULL) {                                                                                          \
        vp_cover("no value");                                                                                           \
        vp_assert(r == 0 && (a)->count == n + 1, "an option without its optional value is counted");                    \
        vp_assert(vp_unchanged(snap, base, size), "an option without its optional value stores nothing");               \
    } else if (r != 0) {                                                                                                \
        vp_assert(r != ARG_ERR_MAXCOUNT && r != ARG_ERR_MINCOUNT, "below the limit the error concerns the text");       \
        vp_assert((a)->count == n && vp_unchanged(snap, 0, size), "a rejected text changes nothing");                   \
    } else {                                                                                                            \
        vp_cover("stored");                                                                                             \
        vp_assert((a)->count == n + 1, "an accepted value is counted once");                                            \
        vp_assert(vp_unchanged(snap, base, base + (size_t)n * sizeof(elem)), "earlier values stay");                    \
        vp_assert(vp_unchanged(snap, base + (size_t)(n + 1) * sizeof(elem), size), "later slots stay");                 \
    }


/* check and reset with any count */
#define CHECK(a, values, elem)                                                                                         \
    int n = vp_range(0, max), r, snap;                                                                                  \
    size_t base = (size_t)((char*)(values) - (char*)(a)), size = base + (size_t)max * sizeof(elem);                     \
    (a)->count = n;                                                                                                     \
    snap = vp_snapshot((a), size);                                                                                      \
    r = (a)->hdr.checkfn((a));                                                                                          \
    vp_cover("checked");                                                                                                \
    vp_assert(r == (n < mn ? ARG_ERR_MINCOUNT : 0), "an entry passes the final check exactly when it has its minimum"); \
    vp_assert((a)->count == n && vp_unchanged(snap, 0, size), "the final check changes nothing");                       \
    (a)->hdr.resetfn((a));                                                                                              \
    vp_assert((a)->count == 0, "a reset entry has no values");                                                          \
    vp_assert((a)->hdr.maxcount == max && (a)->hdr.mincount == mn, "a reset keeps the limits");
