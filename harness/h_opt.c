/* Contracts of the peephole optimizer (C18): the optimized instructions do what the original ones do.
 *
 * First the optimizer itself, with jumps that name the instruction they continue at (tgt): removing an
 * instruction and changing the length of one are replaced by their contracts.  Then the functions that
 * keep the operands of jumps in step with that. */
//@default props=C18 src=compiler.c link=chunk.c
#include "compiler.c"
#include "cv_stubs.h"
#ifdef CV_CBMC
#define CV_OUTDATED(c) __CPROVER_assert(c, "AUX:the optimizer uses the functions this contract knows")
#else
#define CV_OUTDATED(c) do { if (!(c)) cv_stop(); } while (0)
#endif
#ifndef N
#define N 3
#endif
#ifdef FORWARD
#define STEPS (N + 1)
#else
#define STEPS (2 * N + 2)
#endif
#define D 4 /* operand stack of the interpreter below */
static Insn I0, I1, I2, I3, I4; static Insn *const I[5] = { &I0, &I1, &I2, &I3, &I4 };
static int tgt[N + 1]; static int start, row_from, row_to, row_target; static bool gone[N + 1]; static int gsize[N + 1]; static int nx[N + 1];
static int idx(Insn *in) { return in->lineno; } /* the optimizer does not look at line numbers */
/* constant folding (C05): a value that depends on the operator and both operands only, none for some pairs */
static unsigned fold(bytecode_t op, unsigned a, unsigned b) { return op == OP_DIVIDE && b == 0 ? 0xff : ((a * 3 + b + (op == OP_DIVIDE)) & 0x3f); }
static ValueArray consts; static Value cvals[N + 1];
Value cvs_foldConstant(Iseq *seq, Insn *cur, Insn *bin, Insn *ain) {
    CV_CHECK("folds-number-constants-only", (bin->flags & INSN_FL_NUMBER) && (ain->flags & INSN_FL_NUMBER) && bin->code == OP_CONSTANT && ain->code == OP_CONSTANT);
    unsigned r = fold(cur->code, (unsigned)cvals[ain->operands[0]] & 0x3f, (unsigned)cvals[bin->operands[0]] & 0x3f);
    return r == 0xff ? UNDEF_VAL : (Value)r; /* small payloads stand for numbers: the optimizer does not look at them */
}
/* the lengths change: jumps continue at the same instruction */
void cvs_patchOffsetsAfter(Iseq *seq, Insn *insn, int delta) {
    int k = idx(insn);
    CV_CHECK("patched-before-the-length-changes", gsize[k] == insn->numOperands + 1 && !gone[k]);
    gsize[k] += delta;
}
/* removed: jumps to it continue at the next one */
bool cvs_iseqRmInsn(Iseq *seq, Insn *in) {
    int k = idx(in);
    CV_CHECK("removed-once-and-jumps-patched-first", !gone[k] && gsize[k] == 0);
    CV_CHECK("not-the-last-instruction", in->next != NULL);
    int n = in->next ? idx(in->next) : k;
    if (in->prev) { in->prev->next = in->next; } else seq->insns = in->next;
    if (in->next) in->next->prev = in->prev; else seq->tail = in->prev;
    seq->count--; seq->wordCount -= in->numOperands + 1;
    gone[k] = true;
    for (int i = 0; i <= N; i++) if (tgt[i] == k) tgt[i] = n;
    if (start == k) start = n;
    if (row_from == k) row_from = n; if (row_to == k) row_to = n; if (row_target == k) row_target = n;
    return true;
}
static bool is_jump(bytecode_t op) { return op == OP_JUMP || op == OP_JUMP_IF_FALSE || op == OP_JUMP_IF_TRUE || op == OP_JUMP_IF_FALSE_PEEK || op == OP_JUMP_IF_TRUE_PEEK || op == OP_LOOP || op == OP_BREAK; }
static bool catching;
void cvs_markJumpTargets(Iseq *seq) {
    for (int i = 0; i <= N; i++) if (is_jump(I[i]->code)) I[tgt[i]]->isLabel = true;
    if (catching) I[row_target]->isLabel = true;
}
static int size_of(bytecode_t op) {
    switch (op) {
    case OP_CONSTANT: case OP_POP_N: case OP_JUMP: case OP_JUMP_IF_FALSE: case OP_JUMP_IF_TRUE: case OP_JUMP_IF_FALSE_PEEK: case OP_JUMP_IF_TRUE_PEEK: case OP_LOOP: case OP_GET_CONST: return 2;
    case OP_BREAK: return 3;
    default: return 1;
    }
}
/* what instructions do.  Values: 0x00..0x3f numbers, 0x40 a string constant, 0x80 nil, 0x81 false, 0x82 true, or unknown */
typedef struct { unsigned char st[D]; int sp, pc; unsigned trace; bool under, over, left; } M;
typedef struct { bytecode_t code, a, b; int tgt, next; } P; /* a program: one P for each instruction */
static unsigned char unknown[4];
static bool mtruthy(unsigned v) { return v != 0x80 && v != 0x81; }
static void mpush(M *m, unsigned v) { if (m->sp >= D) m->over = true; else m->st[m->sp++] = (unsigned char)v; }
static unsigned mpop(M *m) { if (m->sp <= 0) { m->under = true; return 0; } return m->st[--m->sp]; }
static void mobs(M *m, unsigned v) { m->trace = m->trace * 257 + v + 1; }
static void mstep(M *m, const P *p, const Value *cv) {
    if (m->left || m->under || m->over) return;
    const P q = p[m->pc];
    int to = q.next;
    switch (q.code) {
    case OP_CONSTANT: mpush(m, (unsigned)cv[q.a <= N ? q.a : 0] & 0x7f); break;
    case OP_NIL: mpush(m, 0x80); break;
    case OP_FALSE: mpush(m, 0x81); break;
    case OP_TRUE: mpush(m, 0x82); break;
    case OP_GET_CONST: mpush(m, unknown[q.a & 3]); break;
    case OP_POP: mpop(m); break;
    case OP_POP_N: if ((int)q.a > m->sp) m->under = true; else m->sp -= (int)q.a; break;
    case OP_PRINT: mobs(m, mpop(m)); break;
    case OP_ADD: case OP_DIVIDE: {
        unsigned y = mpop(m), x = mpop(m), r = (x < 0x40 && y < 0x40) ? fold(q.code, x, y) : 0xff;
        if (r == 0xff) { mobs(m, x); mobs(m, y); r = 0x40; } /* an error, or a call of an operator method */
        mpush(m, r); break; }
    case OP_JUMP: case OP_LOOP: to = q.tgt; break;
    case OP_JUMP_IF_FALSE: if (!mtruthy(mpop(m))) to = q.tgt; break;
    case OP_JUMP_IF_TRUE: if (mtruthy(mpop(m))) to = q.tgt; break;
    case OP_JUMP_IF_FALSE_PEEK: { unsigned x = mpop(m); mpush(m, x); if (!mtruthy(x)) to = q.tgt; break; }
    case OP_JUMP_IF_TRUE_PEEK: { unsigned x = mpop(m); mpush(m, x); if (mtruthy(x)) to = q.tgt; break; }
    case OP_BREAK: to = q.tgt; if ((int)q.b > m->sp) m->under = true; else m->sp -= (int)q.b; break;
    default: m->left = true; break;
    }
    m->pc = to;
}
static Iseq seq;
static bytecode_t pick(void) {
    static const bytecode_t ops[] = { OP_CONSTANT, OP_POP, OP_JUMP, OP_JUMP_IF_FALSE, OP_TRUE, OP_PRINT, OP_GET_CONST, OP_ADD,
        OP_NIL, OP_POP_N, OP_JUMP_IF_TRUE, OP_JUMP_IF_FALSE_PEEK, OP_JUMP_IF_TRUE_PEEK, OP_LOOP, OP_BREAK, OP_DIVIDE };
#ifdef FORWARD /* without backward jumps a run takes fewer steps */
    static const bytecode_t fwd[] = { OP_CONSTANT, OP_POP, OP_JUMP, OP_JUMP_IF_FALSE, OP_PRINT, OP_ADD, OP_NIL, OP_JUMP_IF_TRUE_PEEK };
#ifdef CUBE
    static int nth; if (++nth == 2) return fwd[CUBE];
#endif
    return fwd[cv_u64() & 7];
#endif
    return ops[cv_u64() & 15];
}
static P p0[N + 1], p1[N + 1];
static void build(void) {
    consts.values = cvals; consts.count = N + 1; consts.capacity = N + 1; seq.constants = &consts;
    for (int i = 0; i < 4; i++) unknown[i] = (unsigned char)(cv_u64() & 0xff);
    for (int i = 0; i <= N; i++) {
        Insn *in = I[i];
        in->code = i == N ? OP_LEAVE : pick();
        gsize[i] = size_of(in->code); in->lineno = i;
        in->numOperands = gsize[i] - 1;
        int t = (int)cv_range(0, N); unsigned k = (unsigned)cv_u64() & 127;
        tgt[i] = t;
        in->operands[0] = k & 3;
        if (in->code == OP_CONSTANT) { /* every number literal has a constant of its own */
            in->operands[0] = (bytecode_t)i; bool isnum = (k & 1) != 0; if (isnum) in->flags = INSN_FL_NUMBER;
            cvals[i] = isnum ? (Value)((k >> 1) & 0x3f) : (Value)0x40;
        }
        if (in->code == OP_POP_N) in->operands[0] = 1 + (k & 1);
        if (is_jump(in->code)) { if (in->code == OP_LOOP) CV_ASSUME(t < i); else CV_ASSUME(t > i); in->operands[0] = 1 + (k & 7); }
        if (in->code == OP_BREAK) in->operands[1] = k & 1;
        seq.wordCount += gsize[i];
        if (i) { I[i]->prev = I[i - 1]; I[i - 1]->next = I[i]; }
        p0[i].code = in->code; p0[i].a = in->operands[0]; p0[i].b = in->operands[1]; p0[i].tgt = t; p0[i].next = i < N ? i + 1 : i;
    }
    seq.insns = I[0]; seq.tail = I[N]; seq.count = N + 1;
    catching = cv_bool();
    row_from = (int)cv_range(0, N); row_to = (int)cv_range(0, N); row_target = (int)cv_range(0, N); CV_ASSUME(row_from <= row_to);
    compilerOpts.noRemoveUnusedExpressions = cv_bool();
}
void h_optimizer(void) {
    build();
    Value old[N + 1]; for (int i = 0; i <= N; i++) old[i] = cvals[i];
    int from0 = row_from, to0 = row_to, tgt0 = row_target; 
    optimizeIseq(&seq);
    CV_REACH("end");
    int words = 0, count = 0;
    for (int i = 0; i <= N; i++) {
        Insn *in = I[i];
        CV_CHECK("lengths-patched-as-they-changed", gone[i] ? gsize[i] == 0 : gsize[i] == in->numOperands + 1 && gsize[i] == size_of(in->code));
        if (p0[i].code == OP_PRINT) CV_CHECK("effects-are-kept", !gone[i]);
        if (!gone[i]) {
            words += gsize[i]; count++;
            if (catching) CV_CHECK("protected-instructions-stay-protected", (i >= from0) == (i >= row_from) && (i < to0) == (i < row_to));
        }
        p1[i].code = in->code; p1[i].a = in->operands[0]; p1[i].b = in->operands[1]; p1[i].tgt = tgt[i]; p1[i].next = in->next ? idx(in->next) : i;
    }
    CV_CHECK("word-and-instruction-count", words == seq.wordCount && count == seq.count);
    M a = {0}, b = {0};
    a.sp = b.sp = (int)cv_range(0, 2);
    for (int i = 0; i < 2; i++) a.st[i] = b.st[i] = (unsigned char)(cv_u64() & 0xff);
    b.pc = start;
    if (catching && cv_bool()) { a.pc = tgt0; b.pc = row_target; }
    for (int i = 0; i < STEPS; i++) mstep(&a, p0, old);
    CV_ASSUME(a.left && !a.under && !a.over);
    for (int i = 0; i < STEPS; i++) mstep(&b, p1, cvals);
    CV_CHECK("ends-as-before", b.left && !b.under && !b.over);
    CV_CHECK("prints-what-it-printed-before", b.trace == a.trace);
    CV_CHECK("leaves-the-same-operand-stack", b.sp == a.sp && (a.sp < 1 || a.st[0] == b.st[0]) && (a.sp < 2 || a.st[1] == b.st[1]) && (a.sp < 3 || a.st[2] == b.st[2]) && (a.sp < 4 || a.st[3] == b.st[3]));
}
//@default stubs=foldConstant,patchOffsetsAfter,iseqRmInsn,markJumpTargets unwind=13 fns=optimizeIseq,rmInsnAndPatchJumps,addInsnOperand,replaceJumpInsn trust=execution-of-instructions-is-that-of-C02-and-C03
//@default level=bounded bound="sequences of N instructions and a LEAVE, 16 kinds of instructions, one catch row, runs of 2N+2 steps"
//@ob optimizer2 entry=h_optimizer defs=N=2 unwindset=optimizeIseq.0:7 flags=--no-pointer-check
//@ob optimizer3_0 entry=h_optimizer defs=N=3,FORWARD,CUBE=0 unwindset=optimizeIseq.0:8 flags=--no-pointer-check,--no-bounds-check
//@ob optimizer3_1 entry=h_optimizer defs=N=3,FORWARD,CUBE=1 unwindset=optimizeIseq.0:8 flags=--no-pointer-check,--no-bounds-check
//@ob optimizer3_2 entry=h_optimizer defs=N=3,FORWARD,CUBE=2 unwindset=optimizeIseq.0:8 flags=--no-pointer-check,--no-bounds-check
//@ob optimizer3_3 entry=h_optimizer defs=N=3,FORWARD,CUBE=3 unwindset=optimizeIseq.0:8 flags=--no-pointer-check,--no-bounds-check
//@ob optimizer3_4 entry=h_optimizer defs=N=3,FORWARD,CUBE=4 unwindset=optimizeIseq.0:8 flags=--no-pointer-check,--no-bounds-check
//@ob optimizer3_5 entry=h_optimizer defs=N=3,FORWARD,CUBE=5 unwindset=optimizeIseq.0:8 flags=--no-pointer-check,--no-bounds-check
//@ob optimizer3_6 entry=h_optimizer defs=N=3,FORWARD,CUBE=6 unwindset=optimizeIseq.0:8 flags=--no-pointer-check,--no-bounds-check
//@ob optimizer3_7 entry=h_optimizer defs=N=3,FORWARD,CUBE=7 unwindset=optimizeIseq.0:8 flags=--no-pointer-check,--no-bounds-check
//@ob optimizer3 entry=h_optimizer defs=N=3 unwindset=optimizeIseq.0:12 tier=thorough timeout=1800
//@ob optimizer4 entry=h_optimizer defs=N=4 tier=thorough timeout=2000 unwindset=optimizeIseq.0:16
