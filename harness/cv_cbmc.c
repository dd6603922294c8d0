#include "cv.h"
#include "value.h"
uint64_t cv_tape[CV_TAPE_MAX];
unsigned cv_tape_n;
uint64_t cv_u64(void) {
    uint64_t x;
    cv_tape[cv_tape_n++] = x;
    return x;
}
/* the numbering of objects, see cv_prelude.h */
#ifndef CV_NREG
#define CV_NREG 48
#endif
struct Obj *cv_reg[CV_NREG]; int cv_nreg = 1; int cv_reg_closed;
struct Obj *cv_as_obj(Value v) {
    int id = (int)((v >> 4) & 0xffff);
    __CPROVER_assert(id < CV_NREG, "AUX:an object reference is one of the objects in use");
    return cv_reg[id];
}
Value cv_obj_val(struct Obj *p) {
    if (p == NULL) return SIGN_BIT | QNAN;
    for (int i = 1; i < CV_NREG; i++) {
        if (i == cv_nreg) {
            __CPROVER_assert(!cv_reg_closed, "AUX:an object given a value is one of the objects in use");
            cv_reg[i] = p; cv_nreg++;
        }
        if (cv_reg[i] == p) return SIGN_BIT | QNAN | ((uint64_t)i << 4);
    }
    __CPROVER_assert(0, "AUX:room for all objects");
    __CPROVER_assume(0);
    return 0;
}
