/* Contracts of the arithmetic and bit instructions (C03). */
//@default props=C03 src=vm.c link=value.c,debugger.c stubs=callCallable,instanceFindMethod,typeOfVal,className unwind=26 fns=vm_run trust=dispatch-of-overloaded-operators-ends-at-callCallable
#define CV_OWN_ON_THROW
#include "vmh.h"
void cv_on_throw(void) { CV_MAYREACH("throw"); CV_CHECK("frames-unchanged-when-raising", ec0.frameCount == 1 && vm.curThread == &th0); }
static Obj *found_method; static ObjString *want_name; static ObjInstance *want_inst; static int g_called, g_lookups; static Value g_lhs, g_rhs; static bool g_no_overload;
Obj *cvs_instanceFindMethod(ObjInstance *obj, ObjString *name) {
    CV_CHECK("operator-method-receiver", obj == want_inst);
    CV_CHECK("operator-method-name", name == want_name);
    g_lookups++;
    return found_method;
}
bool cvs_callCallable(Value callable, int argCount, bool isMethod, CallInfo *info) {
    CV_CHECK("operator-calls-found-method", found_method != NULL && callable == OBJ_VAL(found_method) && argCount == 1 && isMethod);
    CV_CHECK("operator-receiver-and-argument", ec0.stackTop[-2] == g_lhs && ec0.stackTop[-1] == g_rhs);
    g_called++;
    Value r = vmh_value();
    ec0.stackTop--; ec0.stackTop[-1] = r; /* arguments and receiver are replaced by the result */
    return true;
}
const char *cvs_typeOfVal(Value v) { return "type"; }
char *cvs_className(ObjClass *k) { return "Class"; }

#define ARITH(NAME, OPC, METHOD, PRE, RAISES, RESULT) \
void h_##NAME(void) { \
    vmh_init(OPC); \
    double x = vmh_number(), y = vmh_number(); \
    CV_ASSUME(PRE); \
    cv_may_throw = (RAISES); cv_throw_class = lxErrClass; \
    Value X = NUMBER_VAL(x), Y = NUMBER_VAL(y); \
    vmh_push(X); vmh_push(Y); \
    InterpretResult r = vmh_step(); \
    CV_REACH("end"); \
    vmh_done(r, 1); \
    CV_CHECK("raises-when-it-must", !(RAISES)); \
    CV_CHECK("one-operand-left", vmh_depth() == 1); \
    CV_CHECK("result", vmh_isnum(vmh_at(0), (RESULT))); \
} \
/* operands that are not both numbers: the left operand's method, or a TypeError */ \
void h_##NAME##_obj(void) { \
    vmh_init(OPC); \
    Value X = vmh_value(), Y = vmh_value(); \
    CV_ASSUME(!(IS_NUMBER(X) && IS_NUMBER(Y))); \
    vmh_push(X); vmh_push(Y); \
    bool inst = IS_OBJ(X) && OBJ_IS_INSTANCE_LIKE(AS_OBJ(X)); \
    want_inst = inst ? (ObjInstance *)AS_OBJ(X) : NULL; want_name = METHOD; g_lhs = X; g_rhs = Y; g_no_overload = METHOD == NULL; \
    found_method = cv_bool() ? (Obj *)&o_clo : NULL; \
    if (METHOD == NULL) found_method = NULL; \
    cv_may_throw = !inst || !found_method; cv_throw_class = inst && METHOD != NULL ? lxNameErrClass : lxTypeErrClass; \
    InterpretResult r = vmh_step(); \
    CV_REACH("end"); \
    vmh_done(r, 1); \
    CV_CHECK("raises-when-it-must", !cv_may_throw); \
    CV_CHECK("operator-method-called-once", g_called == 1); \
    CV_CHECK("one-operand-left", vmh_depth() == 1); \
} \
//
#define INTS (x > -2147483649.0 && x < 2147483648.0 && y > -2147483649.0 && y < 2147483648.0)
#define IX ((int)x)
#define IY ((int)y)
ARITH(add, OP_ADD, &s_add, true, false, x + y)
ARITH(sub, OP_SUBTRACT, &s_diff, true, false, x - y)
ARITH(mul, OP_MULTIPLY, &s_mul, true, false, x * y)
/* the quotient is compared only for short significands (two divider circuits cannot be matched otherwise) */
static bool shortsig(double d) { return (vmh_bits(d) & 0xffffffffffffull) == 0; }
ARITH(div, OP_DIVIDE, &s_div, true, y == 0, shortsig(x) && shortsig(y) ? x / y : AS_NUMBER(vmh_at(0)))

ARITH(mod, OP_MODULO, NULL, INTS && !(IX == -2147483647 - 1 && IY == -1), IY == 0, !(IX > -512 && IX < 512 && IY > -128 && IY < 128) || IY == 0 ? AS_NUMBER(vmh_at(0)) : (double)(IX % IY))
ARITH(bitor, OP_BITOR, NULL, INTS, false, (double)(IX | IY))
ARITH(bitand, OP_BITAND, NULL, INTS, false, (double)(IX & IY))
ARITH(bitxor, OP_BITXOR, NULL, INTS, false, (double)(IX ^ IY))
/* shift counts outside 0..31 and shifts which overflow are not defined by C, and not claimed */
ARITH(shl, OP_SHOVEL_L, &s_shl, INTS && IY >= 0 && IY < 31 && IX >= 0 && ((long)IX << IY) < 2147483648L, false, (double)((long)IX << IY))
ARITH(shr, OP_SHOVEL_R, &s_shr, INTS && IY >= 0 && IY < 32, false, (double)(IX >= 0 ? IX >> IY : ~(~IX >> IY)))
//@ob add
//@ob sub
//@ob mul
//@ob div level=proof bound="quotient value compared for operands with 4-bit significands and any exponent; control flow, errors and stack effect for all"
//@ob mod bound="remainder value compared for |x|<512, |y|<128; control flow, errors and stack effect for all"
//@ob bitor
//@ob bitand
//@ob bitxor
//@ob shl
//@ob shr
//@ob add_obj
//@ob sub_obj
//@ob mul_obj
//@ob div_obj
//@ob shl_obj
//@ob shr_obj

void h_negate(void) {
    vmh_init(OP_NEGATE);
    Value X = vmh_value();
    vmh_push(X);
    cv_may_throw = !IS_NUMBER(X); cv_throw_class = lxTypeErrClass;
    InterpretResult r = vmh_step();
    CV_REACH("end");
    vmh_done(r, 1);
    CV_CHECK("raises-when-it-must", IS_NUMBER(X));
    CV_CHECK("one-operand-left", vmh_depth() == 1);
    CV_CHECK("result", vmh_isnum(vmh_at(0), -AS_NUMBER(X)));
}
//@ob negate
/* operators without an overload method: any operand pair that is not two numbers is a TypeError */
#define NOOVER(NAME, OPC) \
void h_##NAME##_obj_throws(void) { \
    vmh_init(OPC); \
    Value X = vmh_value(), Y = vmh_value(); \
    CV_ASSUME(!(IS_NUMBER(X) && IS_NUMBER(Y))); \
    vmh_push(X); vmh_push(Y); \
    want_inst = IS_OBJ(X) ? (ObjInstance *)AS_OBJ(X) : NULL; want_name = NULL; \
    cv_may_throw = 1; cv_throw_class = lxTypeErrClass; \
    vmh_step(); \
    CV_CHECK("raises-when-it-must", 0); \
}
//@ob mod_obj_throws entry=h_mod_obj_throws
//@ob bitor_obj_throws
//@ob bitand_obj_throws
//@ob bitxor_obj_throws
NOOVER(mod, OP_MODULO)
NOOVER(bitor, OP_BITOR)
NOOVER(bitand, OP_BITAND)
NOOVER(bitxor, OP_BITXOR)
