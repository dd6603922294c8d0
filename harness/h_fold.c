/* Contract of constant folding (C05): an operation on two number literals is replaced by the number it would give at
 * run time (h_vm_arith.c), and left alone where it would raise an error. */
//@default props=C05 src=compiler.c link=chunk.c stubs=xfree,fprintf unwind=6 flags=--no-pointer-check
#include "compiler.c"
#include "cv_stubs.h"
#include <math.h>
static Insn *A, *B, *C, *L; static Iseq seq; static ValueArray consts; static Value cv[3];
int cvs_fprintf(FILE *f, const char *fmt, ...) { return 0; }
void cvs_xfree(void *p) { (void)p; }
static double num_(void) { double d = cv_double(); union { double d; uint64_t u; } x; x.d = d; CV_ASSUME((x.u & QNAN) != QNAN); return d; }
static uint64_t bits(double d) { union { double d; uint64_t u; } x; x.d = d; return x.u; }
static bool isnum(Value v, double d) { return IS_NUMBER(v) && (d != d ? AS_NUMBER(v) != AS_NUMBER(v) : bits(AS_NUMBER(v)) == bits(d)); }
static bool intrange(double d) { return d > -2147483649.0 && d < 2147483648.0; }
static void start(bytecode_t op) {
    A = calloc(1, sizeof(Insn)); B = calloc(1, sizeof(Insn)); C = calloc(1, sizeof(Insn)); L = calloc(1, sizeof(Insn));
    A->code = B->code = OP_CONSTANT; A->numOperands = B->numOperands = 1; A->flags = B->flags = INSN_FL_NUMBER;
    B->operands[0] = 1; C->code = op; L->code = OP_LEAVE;
    consts.values = cv; consts.count = 3; consts.capacity = 3; seq.constants = &consts;
    cv[2] = NIL_VAL;
    iseqAddInsn(&seq, A); iseqAddInsn(&seq, B); iseqAddInsn(&seq, C); iseqAddInsn(&seq, L);
}
static bool folded(void) { return seq.insns == A && A->next == L; }
static bool untouched(double a, double b) { return seq.insns == A && A->next == B && B->next == C && C->next == L && isnum(cv[0], a) && isnum(cv[1], b) && cv[2] == NIL_VAL; }
#define FOLD(NAME, OPC, OPERANDS, ERROR, RESULT) \
void h_fold_##NAME(void) { \
    start(OPC); \
    double a = num_(), b = num_(); OPERANDS; \
    cv[0] = NUMBER_VAL(a); cv[1] = NUMBER_VAL(b); \
    optimizeIseq(&seq); \
    CV_REACH("end"); \
    if (ERROR) CV_CHECK("not-folded-when-it-raises", untouched(a, b)); \
    else { CV_CHECK("folded-or-left-alone", folded() || untouched(a, b)); if (folded()) CV_CHECK("the-number-of-the-operation", A->code == OP_CONSTANT && isnum(cv[A->operands[0]], RESULT)); } \
}
#define INTS CV_ASSUME(intrange(a) && intrange(b)); int x = (int)a, y = (int)b
FOLD(add, OP_ADD, , false, a + b)
FOLD(sub, OP_SUBTRACT, , false, a - b)
FOLD(mul, OP_MULTIPLY, , false, a * b)
#ifdef CV_NATIVE
#define SHORTSIG
#else
#define SHORTSIG CV_ASSUME((bits(a) & 0x1ffffffffffffULL) == 0 && (bits(b) & 0x1ffffffffffffULL) == 0)
#endif
FOLD(div, OP_DIVIDE, SHORTSIG, b == 0, a / b)
FOLD(mod, OP_MODULO, INTS; CV_ASSUME(x > -300 && x < 300 && y > -300 && y < 300), y == 0, (double)(x % y))
FOLD(or, OP_BITOR, INTS, false, (double)(x | y))
FOLD(and, OP_BITAND, INTS, false, (double)(x & y))
FOLD(xor, OP_BITXOR, INTS, false, (double)(x ^ y))
FOLD(shl, OP_SHOVEL_L, INTS; CV_ASSUME(y >= 0 && y < 32), false, (double)(int)((unsigned)x << y))
FOLD(shr, OP_SHOVEL_R, INTS; CV_ASSUME(y >= 0 && y < 32), false, (double)(x >> y))
//@default fns=foldConstant,changeConstant,optimizeIseq,isNumConstOp,isBinOp
//@ob fold_add
//@ob fold_sub
//@ob fold_mul
//@ob fold_div level=bounded bound="quotient compared for significands of 4 bits"
//@ob fold_mod level=bounded bound="operands between -300 and 300"
//@ob fold_or
//@ob fold_and
//@ob fold_xor
//@ob fold_shl
//@ob fold_shr
/* an operand which is no number literal, or an instruction which a jump continues at: nothing is folded */
static void fold_not(bytecode_t op, int k) {
    start(op);
    cv[0] = NUMBER_VAL(8); cv[1] = NUMBER_VAL(2);
    switch (k) {
    case 0: A->flags = 0; break; /* a string */
    case 1: B->flags = 0; break;
    case 2: A->code = OP_GET_GLOBAL; break;
    case 3: B->isLabel = true; break;
    default: C->isLabel = true; break;
    }
    optimizeIseq(&seq);
    CV_REACH("end");
    CV_CHECK("left-alone", untouched(8, 2));
}
#define KINDS(op) switch (cv_range(0, 4)) { case 0: fold_not(op, 0); break; case 1: fold_not(op, 1); break; case 2: fold_not(op, 2); break; case 3: fold_not(op, 3); break; default: fold_not(op, 4); } break
void h_fold_not(void) {
    switch (cv_range(0, 4)) {
    case 0: KINDS(OP_ADD);
    case 1: KINDS(OP_MULTIPLY);
    case 2: KINDS(OP_DIVIDE);
    case 3: KINDS(OP_BITOR);
    default: KINDS(OP_MODULO);
    }
}
//@ob fold_not
/* every number literal has a constant of its own, so that folding one does not change another */
static Compiler comp; static Value room[8];
void *cvs_reallocate(void *p, size_t o, size_t n) { CV_CHECK("room-for-two", n <= sizeof room); return room; }
void h_fold_own_constant(void) {
    current = &comp; comp.iseq.constants = &consts; consts.count = consts.capacity = 0;
    double a = num_(), b = num_();
    Insn *x = emitConstant(NUMBER_VAL(a), CONST_T_NUMLIT), *y = emitConstant(NUMBER_VAL(b), CONST_T_NUMLIT);
    CV_REACH("end");
    CV_CHECK("constants-of-their-own", x->operands[0] != y->operands[0] && x->operands[0] < (unsigned)consts.count && y->operands[0] < (unsigned)consts.count);
    CV_CHECK("the-numbers", isnum(consts.values[x->operands[0]], a) && isnum(consts.values[y->operands[0]], b) && (x->flags & INSN_FL_NUMBER) && (y->flags & INSN_FL_NUMBER));
}
//@ob fold_own_constant link=chunk.c,value.c stubs+=reallocate fns=emitConstant,makeConstant,iseqAddConstant
