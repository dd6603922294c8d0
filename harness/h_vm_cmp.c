/* Contracts of the comparison and equality instructions (C04). */
//@default props=C04 src=vm.c link=value.c,debugger.c stubs=callMethod,callVMMethod,instanceFindMethod,typeOfVal unwind=26 fns=vm_run,cmpValues,canCmpValues,isValueOpEqual
#include "vmh.h"
const char *cvs_typeOfVal(Value v) { return "type"; }
static Value g_X, g_Y, g_ret; static int g_called; static Obj *m_eq, *m_cmp; static Obj *g_which;
Value cvs_callMethod(Obj *obj, ObjString *methodName, int argCount, Value *args, CallInfo *cinfo) {
    CV_CHECK("opCmp-receiver", OBJ_VAL(obj) == g_X);
    CV_CHECK("opCmp-name", methodName == &s_cmp);
    CV_CHECK("opCmp-argument", argCount == 1 && args[0] == g_Y);
    g_called++;
    return g_ret;
}
Obj *cvs_instanceFindMethod(ObjInstance *obj, ObjString *name) {
    CV_CHECK("operator-method-receiver", OBJ_VAL(obj) == g_X);
    CV_CHECK("operator-method-name", name == &s_eq || name == &s_cmp);
    return name == &s_eq ? m_eq : m_cmp;
}
Value cvs_callVMMethod(ObjInstance *instance, Value callable, int argCount, Value *args, CallInfo *cinfo) {
    CV_CHECK("operator-receiver-and-argument", OBJ_VAL(instance) == g_X && argCount == 1 && args[0] == g_Y);
    g_which = AS_OBJ(callable);
    g_called++;
    *ec0.stackTop++ = g_ret; /* the result is left on the stack */
    return g_ret;
}
#define CMP(NAME, OPC, OP) \
/* two numbers, neither of them NaN */ \
void h_##NAME##_num(void) { \
    vmh_init(OPC); \
    double x = vmh_number(), y = vmh_number(); \
    CV_ASSUME(x == x && y == y); \
    vmh_push(NUMBER_VAL(x)); vmh_push(NUMBER_VAL(y)); \
    InterpretResult r = vmh_step(); \
    CV_REACH("end"); \
    vmh_done(r, 1); \
    CV_CHECK("one-operand-left", vmh_depth() == 1); \
    CV_CHECK("result", vmh_at(0) == BOOL_VAL(x OP y)); \
} \
/* a NaN operand: every ordering is false */ \
void h_##NAME##_nan(void) { \
    vmh_init(OPC); \
    double x = vmh_number(), y = vmh_number(); \
    CV_ASSUME(x != x || y != y); \
    vmh_push(NUMBER_VAL(x)); vmh_push(NUMBER_VAL(y)); \
    InterpretResult r = vmh_step(); \
    CV_REACH("end"); \
    vmh_done(r, 1); \
    CV_CHECK("one-operand-left", vmh_depth() == 1); \
    CV_CHECK("nan-result", vmh_at(0) == FALSE_VAL); \
} \
/* two strings of at most three characters */ \
void h_##NAME##_str(void) { \
    vmh_init(OPC); \
    for (int i = 0; i < 3; i++) { s_chars[i] = (char)cv_range(0, 127); s2_chars[i] = (char)cv_range(0, 127); } \
    bool same = cv_bool(); \
    if (same) for (int i = 0; i < 3; i++) s2_chars[i] = s_chars[i]; \
    vmh_push(OBJ_VAL(&o_str)); vmh_push(OBJ_VAL(&o_str2)); \
    InterpretResult r = vmh_step(); \
    CV_REACH("end"); \
    vmh_done(r, 1); \
    int c = 0; \
    for (int i = 2; i >= 0; i--) { /* lexicographic order by byte, a shorter string first */ \
        if (s_chars[i] == 0 && s2_chars[i] == 0) c = 0; \
        else if (s_chars[i] != s2_chars[i]) c = s_chars[i] < s2_chars[i] ? -1 : 1; \
    } \
    CV_CHECK("one-operand-left", vmh_depth() == 1); \
    CV_CHECK("result", vmh_at(0) == BOOL_VAL(c OP 0)); \
} \
/* any other pair */ \
void h_##NAME##_obj(void) { \
    vmh_init(OPC); \
    Value X = vmh_value(), Y = vmh_value(); \
    CV_ASSUME(!(IS_NUMBER(X) && IS_NUMBER(Y))); \
    bool strs = (X == OBJ_VAL(&o_str) || X == OBJ_VAL(&o_str2)) && (Y == OBJ_VAL(&o_str) || Y == OBJ_VAL(&o_str2)); \
    CV_ASSUME(!strs); \
    bool inst = IS_OBJ(X) && OBJ_IS_INSTANCE_LIKE(AS_OBJ(X)); \
    g_X = X; g_Y = Y; \
    g_ret = vmh_value(); \
    double c = IS_NUMBER(g_ret) ? AS_NUMBER(g_ret) : 0; \
    CV_ASSUME(c > -2147483649.0 && c < 2147483648.0); \
    vmh_push(X); vmh_push(Y); \
    cv_may_throw = !inst || !IS_NUMBER(g_ret); cv_throw_class = lxTypeErrClass; \
    InterpretResult r = vmh_step(); \
    CV_REACH("end"); \
    vmh_done(r, 1); \
    CV_CHECK("raises-when-it-must", inst && IS_NUMBER(g_ret)); \
    CV_CHECK("opCmp-called-once", g_called == 1); \
    CV_CHECK("one-operand-left", vmh_depth() == 1); \
    CV_CHECK("result", vmh_at(0) == BOOL_VAL((int)c OP 0)); \
}
CMP(less, OP_LESS, <)
CMP(greater, OP_GREATER, >)
CMP(less_equal, OP_LESS_EQUAL, <=)
CMP(greater_equal, OP_GREATER_EQUAL, >=)
//@ob less_num
//@ob greater_num
//@ob less_equal_num
//@ob greater_equal_num
//@ob less_obj
//@ob greater_obj
//@ob less_equal_obj
//@ob greater_equal_obj
//@ob less_nan
//@ob less_equal_nan
//@ob greater_nan known=KF-nan-gt
//@ob greater_equal_nan known=KF-nan-ge
//@ob less_str level=bounded bound="strings of at most 3 bytes"
//@ob greater_str level=bounded bound="strings of at most 3 bytes"
//@ob less_equal_str level=bounded bound="strings of at most 3 bytes"
//@ob greater_equal_str level=bounded bound="strings of at most 3 bytes"

/* == and != without a user-defined operator: numbers by value, everything else by identity */
static bool spec_eq(Value x, Value y) {
    if (IS_NUMBER(x) && IS_NUMBER(y)) return AS_NUMBER(x) == AS_NUMBER(y);
    return x == y;
}
#define EQ(NAME, OPC, NEG) \
void h_##NAME(void) { \
    vmh_init(OPC); \
    Value X = vmh_value(), Y = vmh_value(); \
    g_X = X; g_Y = Y; m_eq = m_cmp = NULL; \
    vmh_push(X); vmh_push(Y); \
    InterpretResult r = vmh_step(); \
    CV_REACH("end"); \
    vmh_done(r, 1); \
    CV_CHECK("one-operand-left", vmh_depth() == 1); \
    CV_CHECK("result", vmh_at(0) == BOOL_VAL(NEG spec_eq(X, Y))); \
} \
/* the left operand is an instance whose class defines opEquals, or else opCmp */ \
void h_##NAME##_method(void) { \
    vmh_init(OPC); \
    Value X = vmh_value(), Y = vmh_value(); \
    CV_ASSUME(IS_OBJ(X) && OBJ_IS_INSTANCE_LIKE(AS_OBJ(X))); \
    g_X = X; g_Y = Y; g_ret = vmh_value(); \
    m_eq = cv_bool() ? (Obj *)&o_clo : NULL; m_cmp = cv_bool() ? (Obj *)&o_nat : NULL; \
    CV_ASSUME(m_eq || m_cmp); \
    double c = IS_NUMBER(g_ret) ? AS_NUMBER(g_ret) : 1; \
    CV_ASSUME(c > -2147483649.0 && c < 2147483648.0); \
    vmh_push(X); vmh_push(Y); \
    InterpretResult r = vmh_step(); \
    CV_REACH("end"); \
    vmh_done(r, 1); \
    CV_CHECK("one-operand-left", vmh_depth() == 1); \
    CV_CHECK("operator-called-once", g_called == 1); \
    CV_CHECK("opEquals-takes-precedence", g_which == (m_eq ? m_eq : m_cmp)); \
    bool want = m_eq ? (g_ret != NIL_VAL && g_ret != FALSE_VAL) : IS_NUMBER(g_ret) && (int)c == 0; \
    CV_CHECK("result", vmh_at(0) == BOOL_VAL(NEG want)); \
}
EQ(equal, OP_EQUAL, )
EQ(not_equal, OP_NOT_EQUAL, !)
//@ob equal
//@ob not_equal
//@ob equal_method
//@ob not_equal_method
