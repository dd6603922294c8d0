/* vmh.h: one-instruction harness for the interpreter loop.
 *
 * Builds a thread, an execution context, a call frame, an operand stack of arbitrary depth and a chunk
 * that holds one instruction (with its operands) surrounded by OP_LEAVE.  vm_run() then executes that
 * instruction of /repo's vm.c and stops at the OP_LEAVE the instruction pointer reaches, so that the
 * position of the instruction pointer, the operand stack and every other word of the state can be
 * compared with the contract of the instruction.
 */
#ifndef VMH_H
#define VMH_H
#include "cv.h"
#include "vm.c"
#include "cv_stubs.h"
#include "objh.h"

#define VMH_STACK 24
#define VMH_CODE 24
#define VMH_CONSTS 6
static CallFrame frames0[3]; static Value stack0[VMH_STACK];
static Chunk chunk0; static bytecode_t code0[VMH_CODE]; static int lines0[VMH_CODE], nd0[VMH_CODE], nw0[VMH_CODE];
static ValueArray consts0; static Value constvals0[VMH_CONSTS]; static ObjFunction fn0; static ObjClosure clo0; static ObjScope scope0;
static Value locals0[8];

static int vmh_base;      /* operands below those of the instruction */
static Value vmh_snap[VMH_STACK];
static int vmh_watch;     /* an arbitrary stack slot */
/* the state before one instruction; push the operands with vmh_push */
static void vmh_init(bytecode_t op) {
    vmh_objects();
    chunk0.code = code0; chunk0.lines = lines0; chunk0.ndepths = nd0; chunk0.nwidths = nw0;
    for (int i = 0; i < VMH_CONSTS; i++) constvals0[i] = NIL_VAL;
    consts0.values = constvals0; consts0.count = VMH_CONSTS; consts0.capacity = VMH_CONSTS; chunk0.constants = &consts0; chunk0.count = VMH_CODE; chunk0.capacity = VMH_CODE;
    vmh_obj(&fn0, OBJ_T_FUNCTION, false); vmh_obj(&clo0, OBJ_T_CLOSURE, false); vmh_obj(&scope0, OBJ_T_SCOPE, false);
    fn0.chunk = &chunk0; fn0.name = &o_name; fn0.ftype = FUN_TYPE_NAMED; clo0.function = &fn0;
    frames0[0].closure = &clo0; frames0[0].ip = code0; frames0[0].slots = stack0; frames0[0].scope = &scope0;
    scope0.function = &fn0; scope0.localsTable.tbl = locals0; scope0.localsTable.size = 0; scope0.localsTable.capacity = 8;
    ec0.frames = frames0; ec0.frameCount = 1; ec0.frames_capa = 3; ec0.stack = stack0; ec0.stack_capa = VMH_STACK;
    th0.ec = &ec0; th0.opsRemaining = 1000; th0.lastSplatNumArgs = -1; th0.lastErrorThrown = NIL_VAL; th0.errorToThrow = NIL_VAL;
    vm.curThread = &th0; vm.mainThread = &th0; vm.inited = true; vm.exited = false;
    #ifdef VMH_ANYBASE
    vmh_base = (int)cv_range(1, 3);
#else
    vmh_base = 2;
#endif
    for (int i = 0; i < 3; i++) stack0[i] = NUMBER_VAL(cv_double());
    ec0.stackTop = stack0 + vmh_base;
    for (int i = 0; i < VMH_CODE; i++) code0[i] = OP_LEAVE;
    code0[0] = op;
}
static void vmh_push(Value v) { *ec0.stackTop++ = v; }
static Value vmh_below0;
static int vmh_w;
static InterpretResult vmh_step(void) {
    vmh_w = (int)cv_range(0, 2);
    vmh_below0 = stack0[vmh_w];
    return vm_run();
}
static bool vmh_frame_ok(void) { /* nothing below the operands changed, no frame pushed or popped */
    return (vmh_w >= vmh_base || stack0[vmh_w] == vmh_below0) && ec0.frameCount == 1 && ec0.stack == stack0 && ec0.frames == frames0 && vm.curThread == &th0 && th0.ec == &ec0;
}
static int vmh_depth(void) { return (int)(ec0.stackTop - stack0) - vmh_base; } /* operands now on the stack */
static Value vmh_at(int i) { return stack0[vmh_base + i]; }
/* For instructions whose target is not a constant: the scheduler hook, which runs between two
 * instructions, ends the run before the next one is read. */
bool cvs_isOnlyThread(void) { th0.hadError = true; return true; }
void cvs_vmCheckInts(LxThread *th) { CV_CHECK("interrupt-check-thread", th == &th0); } /* no interrupt is pending */
static void vmh_stop_after_one(void) { th0.opsRemaining = 2; }
static void vmh_done_at(InterpretResult r, int ip) {
    CV_CHECK("instruction-completes", r == INTERPRET_RUNTIME_ERROR && th0.hadError);
    CV_CHECK("lower-stack-and-frames-unchanged", (vmh_w >= vmh_base || stack0[vmh_w] == vmh_below0) && ec0.frameCount == 1 && ec0.stack == stack0 && ec0.frames == frames0);
    CV_CHECK("instruction-pointer", frames0[0].ip - code0 == ip);
}
static int vmh_ip(void) { return (int)(frames0[0].ip - code0) - 1; } /* position of the OP_LEAVE that was executed */
static uint64_t vmh_bits(double d) { union { double d; uint64_t u; } x; x.d = d; return x.u; }
static bool vmh_isnum(Value v, double d) { /* v is the number d; every NaN counts as one value */
    return IS_NUMBER(v) && (d != d ? AS_NUMBER(v) != AS_NUMBER(v) : vmh_bits(AS_NUMBER(v)) == vmh_bits(d));
}
static void vmh_done(InterpretResult r, int ip) {
    CV_CHECK("instruction-completes", r == INTERPRET_OK);
    CV_CHECK("lower-stack-and-frames-unchanged", vmh_frame_ok());
    CV_CHECK("instruction-pointer", vmh_ip() == ip);
}
#endif
