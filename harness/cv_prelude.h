/* Force-included when a harness or a /repo file is compiled for the verifier.
 *
 * clox packs a pointer into the 50 payload bits of a quiet NaN.  The verifier's pointers do not survive a
 * trip through integer arithmetic (they carry the identity of the object, not an address), so the two
 * conversions OBJ_VAL / AS_OBJ are replaced by an injective numbering of the objects in use: the payload
 * is the number of the object, and AS_OBJ looks it up.  Tag bits, tag tests and singletons are clox's own.
 * What this drops: that a real heap address fits in the payload and comes back unchanged (C01 checks
 * that on the conversions as written, with integer addresses).
 */
#ifdef CV_CBMC
#define objectToValue objectToValue_as_written
#include "value.h"
#undef objectToValue
#undef AS_OBJ
struct Obj *cv_as_obj(Value v);
Value cv_obj_val(struct Obj *p);
#define objectToValue(p) cv_obj_val(p)
#define AS_OBJ(value) (cv_as_obj(value))
#endif
