/* cv.h: the vocabulary of the harnesses.
 *
 * A harness builds an arbitrary state satisfying a precondition, calls a function of /repo and states
 * its postcondition.  It is compiled three ways:
 *   CV_CBMC            by goto-cc: inputs are nondeterministic, the verifier decides every CV_CHECK
 *   CV_CBMC CV_SMALL   the same with container sizes cut down: used for counterexamples to replay,
 *                      and as the labelled-bounded fallback
 *   CV_NATIVE          by gcc, against the real objects of /repo: inputs come from a tape
 */
#ifndef CV_H
#define CV_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

#define CV_TAPE_MAX 512
extern uint64_t cv_tape[CV_TAPE_MAX];
extern unsigned cv_tape_n;
uint64_t cv_u64(void);

#ifdef CV_CBMC
#define CV_ASSUME(c) __CPROVER_assume(c)
#define CV_CHECK(label, c) __CPROVER_assert((c), "P:" label)
#define CV_REACH(label) __CPROVER_assert(0, "REACH:" label)
#define CV_MAYREACH(label) __CPROVER_assert(0, "REACH?:" label)
#define CV_STOP() __CPROVER_assume(0)
#define CV_HAVOC_BYTES(p, n) __CPROVER_havoc_slice((p), (n))
#else
void cv_infeasible(const char *what);
void cv_fail(const char *label);
void cv_reached(const char *label);
void cv_stop(void) __attribute__((noreturn));
#define CV_ASSUME(c) do { if (!(c)) cv_infeasible(#c); } while (0)
#define CV_CHECK(label, c) do { if (!(c)) cv_fail(label); } while (0)
#define CV_REACH(label) cv_reached(label)
#define CV_MAYREACH(label) cv_reached(label)
#define CV_STOP() cv_stop()
#endif

static inline uint32_t cv_u32(void) { return (uint32_t)cv_u64(); }
static inline int cv_int(void) { return (int)(uint32_t)cv_u64(); }
static inline bool cv_bool(void) { return (cv_u64() & 1) != 0; }
static inline double cv_double(void) { union { uint64_t u; double d; } u; u.u = cv_u64(); return u.d; }
/* lo <= result <= hi */
static inline long cv_range(long lo, long hi) {
    long v = (long)cv_u64();
#ifdef CV_NATIVE
    if (v < lo || v > hi) v = lo + (long)((unsigned long)v % (unsigned long)(hi - lo + 1));
#endif
    CV_ASSUME(v >= lo && v <= hi);
    return v;
}
#define CV_PICK(small, big) CV_PICK_(small, big)
#ifdef CV_SMALL
#define CV_PICK_(small, big) (small)
#else
#define CV_PICK_(small, big) (big)
#endif

/* what a raised error must look like in the current call; see stubs.c */
extern int cv_may_throw;   /* raising is allowed */
extern int cv_threw;       /* an error was raised (native: set before cv_stop) */
extern void *cv_throw_class; /* if non-NULL: the class the error must have */
#define CV_IMPLIES(a, b) (!(a) || (b))
#define CV_IFF(a, b) (!!(a) == !!(b))
#endif
