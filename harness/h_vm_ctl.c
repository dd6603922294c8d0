/* Contracts of truthiness, logical and jump instructions (C02). */
//@default props=C02 src=vm.c link=value.c,debugger.c stubs=isOnlyThread,vmCheckInts trust=no-interrupt-pending unwind=26 fns=vm_run,isTruthy
#include "vmh.h"
static bool truthy(Value v) { return v != NIL_VAL && v != FALSE_VAL; } /* nil and false are false, everything else (0 and "" too) is true */
/* objects with arbitrary contents: empty strings, arrays and maps too */
static Table any_t;
static void contents(void) {
    o_str.length = (size_t)cv_range(0, 1 << 20); o_str.hash = cv_u32(); o_ary.valAry.count = (int)cv_range(0, 1 << 20);
    any_t.count = (size_t)cv_range(0, 1 << 20); o_map.table = &any_t; o_inst.fields = &any_t;
    o_str.object.flags |= (cv_bool() ? OBJ_FLAG_FROZEN : 0); o_inst.object.flags |= (cv_bool() ? OBJ_FLAG_FROZEN : 0);
}
void h_truthy(void) {
    vmh_objects(); contents();
    Value X = vmh_value();
    CV_REACH("start");
    CV_CHECK("only-nil-and-false-are-falsy", isTruthy(X) == truthy(X));
}
//@ob truthy fns=isTruthy
void h_not(void) {
    vmh_init(OP_NOT); contents();
    Value X = vmh_value(); vmh_push(X);
    InterpretResult r = vmh_step();
    CV_REACH("end");
    vmh_done(r, 1);
    CV_CHECK("one-operand-left", vmh_depth() == 1);
    CV_CHECK("result", vmh_at(0) == BOOL_VAL(!truthy(X)));
}
//@ob not
/* "and" is compiled to JUMP_IF_FALSE_PEEK over the right operand, so its left operand is true here */
void h_and(void) {
    vmh_init(OP_AND); contents();
    Value X = vmh_value(), Y = vmh_value(); vmh_push(X); vmh_push(Y);
    CV_ASSUME(truthy(X));
    InterpretResult r = vmh_step();
    CV_REACH("end");
    vmh_done(r, 1);
    CV_CHECK("one-operand-left", vmh_depth() == 1);
    CV_CHECK("truth-of-and", truthy(vmh_at(0)) == truthy(Y));
    CV_CHECK("and-yields-right-operand-when-true", !truthy(Y) || vmh_at(0) == Y);
}
//@ob and
/* "or" is compiled to JUMP_IF_TRUE_PEEK over the right operand */
void h_or(void) {
    vmh_init(OP_OR); contents();
    Value X = vmh_value(), Y = vmh_value(); vmh_push(X); vmh_push(Y);
    CV_ASSUME(!truthy(X));
    InterpretResult r = vmh_step();
    CV_REACH("end");
    vmh_done(r, 1);
    CV_CHECK("one-operand-left", vmh_depth() == 1);
    CV_CHECK("truth-of-or", truthy(vmh_at(0)) == truthy(Y));
    CV_CHECK("or-yields-right-operand-when-true", !truthy(Y) || vmh_at(0) == Y);
}
//@ob or
/* a jump at word 0 with operand n continues at word n+1 when taken, at word 2 when not */
#define JUMP(NAME, OPC, POPS, TAKEN) \
void h_##NAME(void) { \
    vmh_init(OPC); contents(); vmh_stop_after_one(); \
    int n = (int)cv_range(1, VMH_CODE - 3); code0[1] = (bytecode_t)n; \
    Value X = vmh_value(); vmh_push(X); \
    InterpretResult r = vmh_step(); \
    CV_REACH("end"); \
    vmh_done_at(r, (TAKEN) ? n + 1 : 2); \
    CV_CHECK("operand-popped-or-kept", vmh_depth() == 1 - (POPS)); \
    CV_CHECK("kept-operand-unchanged", (POPS) || vmh_at(0) == X); \
}
JUMP(jump, OP_JUMP, 0, true)
JUMP(jump_if_false, OP_JUMP_IF_FALSE, 1, !truthy(X))
JUMP(jump_if_true, OP_JUMP_IF_TRUE, 1, truthy(X))
JUMP(jump_if_false_peek, OP_JUMP_IF_FALSE_PEEK, 0, !truthy(X))
JUMP(jump_if_true_peek, OP_JUMP_IF_TRUE_PEEK, 0, truthy(X))
//@default bound="jump distances up to 21 words"
//@ob jump
//@ob jump_if_false
//@ob jump_if_true
//@ob jump_if_false_peek
//@ob jump_if_true_peek
/* LOOP at word w with operand n continues at word w-n */
void h_loop(void) {
    vmh_init(OP_LEAVE); contents(); vmh_stop_after_one();
    int w = 12, n = (int)cv_range(0, VMH_CODE - 3); /* the position is immaterial: only the difference is used */
    CV_ASSUME(n <= w);
    code0[w] = OP_LOOP; code0[w + 1] = (bytecode_t)n;
    frames0[0].ip = code0 + w;
    InterpretResult r = vmh_step();
    CV_REACH("end");
    vmh_done_at(r, w - n);
    CV_CHECK("stack-unchanged", vmh_depth() == 0);
}
//@ob loop
/* BREAK n, pops: drops the loop's own locals and continues at word n */
void h_break(void) {
    vmh_init(OP_BREAK); contents(); vmh_stop_after_one();
    int n = (int)cv_range(3, VMH_CODE - 3), pops = (int)cv_range(0, 3);
    code0[1] = (bytecode_t)n; code0[2] = (bytecode_t)pops;
    for (int i = 0; i < 3; i++) vmh_push(vmh_value());
    InterpretResult r = vmh_step();
    CV_REACH("end");
    vmh_done_at(r, n);
    CV_CHECK("locals-of-the-loop-dropped", vmh_depth() == 3 - pops);
}
//@ob break
