/* Vocabulary of the contract files.  The same file is given to
 *  - the verifier (irv), where every vp_* input is symbolic and unbounded, and
 *  - a native build against the real code, where the inputs come from a model of a failed
 *    obligation or from a search, so that a failed obligation can be replayed.
 */
#ifndef VP_H
#define VP_H
#include <ctype.h>
#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <assert.h>

#define LEMMA static __attribute__((used)) /* post_X: fact about sp_X, proved by induction */

/* inputs (the dictionary / maximum only steers the native search) */
int vp_int(void);
long vp_long(void);
unsigned char vp_uchar(void);
int vp_range(int lo, int hi);
int vp_choice(int n);                        /* case split */
size_t vp_size(size_t native_max);           /* any size */
char* vp_cstr(const char* dict);             /* any NUL terminated string, read-only */
char* vp_mcstr(const char* dict);            /* same, writable */
char* vp_opt_cstr(const char* dict);         /* NULL or any string */
void* vp_buf(size_t n);                      /* n bytes of arbitrary contents */
size_t vp_index(size_t n);                   /* arbitrary index < n: for all k < n */
void* vp_strfam(size_t n, const char* dict); /* n arbitrary strings */
char* vp_fam(void* fam, size_t i);           /* element i of a family */
void* vp_family(size_t n, size_t esz, void (*native_init)(void*, size_t), int (*ok)(void*, size_t));
void* vp_array(size_t n, size_t esz, void (*native_init)(void*, size_t), int (*ok)(void*, size_t));
void** vp_ptrtable(void* fam, size_t n);     /* t[i] = element i; entries past the family are NULL */

/* statements */
void vp_assume(int c);
void vp_assert(int c, const char* name);     /* a property */
void vp_lemma(int c, const char* name);      /* discharged, then used */
void vp_requires(int c, const char* name);   /* callee precondition checked at a call site */
void vp_cover(const char* name);             /* must be reachable (vacuity guard) */
int vp_snapshot(const void* p, size_t n);
int vp_unchanged(int h, size_t lo, size_t hi);
size_t vp_off(const void* p);
int vp_same_object(const void* a, const void* b);
size_t vp_room(const void* p);
int vp_live(const void* p);
int vp_heap_live(void);
void vp_havoc_int(int* p);
void vp_havoc(void* p, size_t n);             /* arbitrary contents (stubs only) */
void vp_rotate(void* a, size_t s, size_t e, size_t end); /* exchanges blocks of a pointer array (stubs only) */
#endif
