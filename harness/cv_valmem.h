/* Contracts of reallocate() and memmove() for arrays of Values of any length.
 *
 * Only used by the verifier, and only for unbounded arrays.  reallocate: a fresh block, whose elements at
 * the watched positions are those of the old block; nothing is promised about the others.  memmove: the
 * watched positions of the destination block receive what the source had there before the call; all other
 * positions of that block become arbitrary.  Both are weaker than what the C library guarantees. */
#ifndef CV_VALMEM_H
#define CV_VALMEM_H
#include "cv.h"
#define CV_NWATCH 3
static Value *cv_block; /* the block of elements in use */
static long cv_watch[CV_NWATCH]; static int cv_nwatch;
static void cv_watch_add(long i) { if (i >= 0 && cv_nwatch < CV_NWATCH) cv_watch[cv_nwatch++] = i; }
#if defined CV_CBMC && !defined CV_SMALL
void *cvs_reallocate(void *prev, size_t o, size_t n) {
    if (n == 0) { free(prev); return NULL; }
    CV_CHECK("allocation-does-not-wrap", n < ((size_t)1 << 40));
    Value *r = malloc(sizeof(Value) * (n / sizeof(Value)));
    Value *p = prev;
    for (int i = 0; i < CV_NWATCH; i++)
        if (i < cv_nwatch && p != NULL && (size_t)(cv_watch[i] + 1) * sizeof(Value) <= o && (size_t)(cv_watch[i] + 1) * sizeof(Value) <= n)
            __CPROVER_assume(r[cv_watch[i]] == p[cv_watch[i]]);
    if (p) { CV_CHECK("reallocates-the-block-in-use", p == cv_block); free(p); }
    cv_block = r;
    return r;
}
void *cvs_memmove(void *dest, const void *src, size_t n) {
    CV_CHECK("copied-range-readable", n == 0 || __CPROVER_r_ok(src, n));
    CV_CHECK("copied-range-writable", n == 0 || __CPROVER_w_ok(dest, n));
    CV_CHECK("copies-within-the-block-in-use", n == 0 || (__CPROVER_same_object(dest, cv_block) && __CPROVER_same_object(src, cv_block)));
    Value *block = cv_block;
    long d0 = __CPROVER_POINTER_OFFSET(dest), s0 = __CPROVER_POINTER_OFFSET(src), size = __CPROVER_OBJECT_SIZE(block);
    CV_CHECK("element-aligned-copy", d0 % sizeof(Value) == 0 && s0 % sizeof(Value) == 0 && n % sizeof(Value) == 0);
    Value save[CV_NWATCH];
    for (int i = 0; i < CV_NWATCH; i++) {
        save[i] = 0;
        if (i < cv_nwatch && (cv_watch[i] + 1) * (long)sizeof(Value) <= size) {
            long off = cv_watch[i] * (long)sizeof(Value);
            save[i] = off >= d0 && off < d0 + (long)n ? block[(off - d0 + s0) / (long)sizeof(Value)] : block[cv_watch[i]];
        }
    }
    __CPROVER_havoc_object(block);
    for (int i = 0; i < CV_NWATCH; i++)
        if (i < cv_nwatch && (cv_watch[i] + 1) * (long)sizeof(Value) <= size) __CPROVER_assume(block[cv_watch[i]] == save[i]);
    return dest;
}
#elif defined CV_CBMC
/* small arrays: exact, element by element */
#define CV_SMALLMAX 9
void *cvs_reallocate(void *prev, size_t o, size_t n) {
    if (n == 0) { if (prev) free(prev); return NULL; }
    Value *r = malloc(sizeof(Value) * (n / sizeof(Value))), *p = prev;
    if (p) {
        for (size_t i = 0; i < CV_SMALLMAX; i++) if ((i + 1) * sizeof(Value) <= o && (i + 1) * sizeof(Value) <= n) r[i] = p[i];
        free(p);
    }
    return r;
}
void *cvs_memmove(void *dest, const void *src, size_t n) {
    Value *d = dest; const Value *s = src; Value t[CV_SMALLMAX];
    CV_CHECK("element-aligned-copy", n % sizeof(Value) == 0 && n <= CV_SMALLMAX * sizeof(Value));
    for (size_t i = 0; i < CV_SMALLMAX; i++) if (i < n / sizeof(Value)) t[i] = s[i];
    for (size_t i = 0; i < CV_SMALLMAX; i++) if (i < n / sizeof(Value)) d[i] = t[i];
    return dest;
}
#endif
#endif
