/* Contracts of instruction sequences and the operands of jumps (C18): after instructions are added, removed or
 * lengthened, every jump still continues at the instruction it named. */
//@default props=C18 src=compiler.c link=chunk.c stubs=xfree,writeChunkWord unwind=8
#include "compiler.c"
#include "cv_stubs.h"
#ifndef N
#define N 4
#endif
void cvs_xfree(void *p) { (void)p; }
static Insn *I[N + 1];
static int tgt[N + 1], at0[N + 1], words0, w1; static bool gone[N + 1]; static Iseq seq; static Chunk chunk; static CatchTable row[2]; static int rfrom[2], rto[2], rtgt[2];
static ValueArray consts; static Compiler comp;
static bytecode_t W1[4 * (N + 1)];
void cvs_writeChunkWord(Chunk *c, bytecode_t word, int line, int nDepth, int nWidth) {
    CV_CHECK("writes-to-the-chunk", c == &chunk && w1 < 4 * (N + 1));
    if (w1 < 4 * (N + 1)) W1[w1] = word;
    w1++;
}
static bool is_jump(bytecode_t op) { return op == OP_JUMP || op == OP_JUMP_IF_FALSE || op == OP_JUMP_IF_TRUE || op == OP_JUMP_IF_FALSE_PEEK || op == OP_JUMP_IF_TRUE_PEEK || op == OP_LOOP || op == OP_BREAK; }
/* where a jump found at word `at` continues (h_vm_ctl.c) */
static int dest(Insn *in, int at) {
    if (in->code == OP_LOOP) return at - (int)in->operands[0];
    if (in->code == OP_BREAK) return at + (int)in->operands[0];
    return at + (int)in->operands[0] + 1;
}
static void set_dest(Insn *in, int at, int to) {
    if (in->code == OP_LOOP) in->operands[0] = (bytecode_t)(at - to);
    else if (in->code == OP_BREAK) in->operands[0] = (bytecode_t)(to - at);
    else in->operands[0] = (bytecode_t)(to - at - 1);
}
static bytecode_t pick(void) {
    static const bytecode_t ops[] = { OP_ADD, OP_POP, OP_CONSTANT, OP_GET_LOCAL, OP_JUMP, OP_JUMP_IF_FALSE, OP_LOOP, OP_BREAK };
    return ops[cv_u64() & 7];
}
static void kind(Insn *in) { in->code = pick(); in->numOperands = in->code == OP_ADD || in->code == OP_POP ? 0 : in->code == OP_GET_LOCAL || in->code == OP_BREAK ? 2 : 1; }
/* a sequence of N instructions and a LEAVE; jumps go anywhere, loops backwards */
static void build(void) {
    int off = 0;
    for (int i = 0; i <= N; i++) {
        I[i] = calloc(1, sizeof(Insn)); kind(I[i]); if (i == N) { I[i]->code = OP_LEAVE; I[i]->numOperands = 0; }
        I[i]->lineno = i; at0[i] = off; off += I[i]->numOperands + 1;
        iseqAddInsn(&seq, I[i]);
    }
    words0 = off;
    for (int i = 0; i <= N; i++) {
        tgt[i] = (int)cv_range(0, N);
        I[i]->operands[0] = (bytecode_t)(cv_u64() & 7);
        if (is_jump(I[i]->code)) { if (I[i]->code == OP_LOOP) CV_ASSUME(tgt[i] < i); else CV_ASSUME(tgt[i] > i); set_dest(I[i], at0[i], at0[tgt[i]]); }
    }
    for (int r = 0; r < 2; r++) {
        rfrom[r] = (int)cv_range(0, N); rto[r] = (int)cv_range(0, N); rtgt[r] = (int)cv_range(0, N);
        row[r].ifrom = at0[rfrom[r]]; row[r].ito = at0[rto[r]]; row[r].itarget = at0[rtgt[r]];
    }
    row[0].next = &row[1]; if (cv_bool()) seq.catchTbl = &row[0];
    seq.constants = &consts; current = &comp;
}
/* offset of instruction k now, or of the first one after it which is still there */
static int at_now(int k) {
    int off = 0;
    for (int i = 0; i <= N; i++) { if (i >= k && !gone[i]) return off; if (!gone[i]) off += I[i]->numOperands + 1; }
    return off;
}
static void linked(void) {
    Insn *in = seq.insns, *prev = NULL; int words = 0, count = 0;
    for (int i = 0; i <= N; i++) if (!gone[i]) {
        CV_CHECK("the-others-in-order", in == I[i] && in->prev == prev);
        words += I[i]->numOperands + 1; count++; prev = in; in = in ? in->next : NULL;
    }
    CV_CHECK("list-ends", in == NULL && seq.tail == prev);
    CV_CHECK("counts", seq.count == count && seq.wordCount == words);
}
static void same_targets(int except) {
    for (int i = 0; i <= N; i++) if (!gone[i] && i != except && is_jump(I[i]->code)) CV_CHECK("jumps-continue-at-the-same-instruction", dest(I[i], at_now(i)) == at_now(tgt[i]));
    if (seq.catchTbl) for (int r = 0; r < 2; r++) CV_CHECK("catch-rows-cover-and-name-the-same-instructions", row[r].ifrom == at_now(rfrom[r]) && row[r].ito == at_now(rto[r]) && row[r].itarget == at_now(rtgt[r]));
}
void h_iseq_add(void) {
    build();
    CV_REACH("end");
    linked();
    int k = (int)cv_range(0, N);
    CV_CHECK("instruction-at-offset", insnAtOffset(&seq, at0[k]) == I[k] && iseqInsnIndex(&seq, I[k]) == k);
    CV_CHECK("distance-in-words", insnOffset(seq.insns, I[k]) == at0[k]);
}
//@default level=bounded bound="sequences of 4 instructions and a LEAVE, two catch rows"
//@ob iseq_add fns=iseqAddInsn,insnAtOffset,iseqInsnIndex,insnOffset
void h_iseq_rm(void) {
    build();
    int k = (int)cv_range(0, N - 1); bool label = cv_bool(); I[k]->isLabel = label;
    rmInsnAndPatchJumps(&seq, I[k]);
    gone[k] = true;
    CV_REACH("end");
    linked(); same_targets(-1);
    CV_CHECK("the-next-instruction-is-the-target-now", !label || I[k + 1]->isLabel);
}
//@ob iseq_rm fns=rmInsnAndPatchJumps,patchOffsetsAfter,iseqRmInsn,jumpTargetOffset,patchJumpInsnWithOffset
void h_iseq_addop(void) {
    build();
    int k = (int)cv_range(0, N); CV_ASSUME(!is_jump(I[k]->code) && I[k]->numOperands < MAX_INSN_OPERANDS);
    int n = I[k]->numOperands; bytecode_t op = (bytecode_t)cv_u64();
    addInsnOperand(&seq, I[k], op);
    CV_REACH("end");
    CV_CHECK("operand-added", I[k]->numOperands == n + 1 && I[k]->operands[n] == op);
    linked(); same_targets(-1);
}
//@ob iseq_addop fns=addInsnOperand,patchOffsetsAfter
void h_iseq_jump_to_pop(void) {
    build();
    int k = (int)cv_range(0, N - 1); CV_ASSUME(I[k]->code == OP_JUMP_IF_FALSE);
    bool label = cv_bool(); I[k]->isLabel = label;
    int r = replaceJumpInsn(&seq, I[k]);
    CV_REACH("end");
    CV_CHECK("becomes-a-pop-unless-it-is-a-target", r == 0 && I[k]->code == (label ? OP_JUMP_IF_FALSE : OP_POP));
    linked(); same_targets(-1);
}
//@ob iseq_jump_to_pop fns=replaceJumpInsn,patchOffsetsAfter
void h_iseq_mark(void) {
    build();
    markJumpTargets(&seq);
    CV_REACH("end");
    for (int i = 0; i <= N; i++) if (is_jump(I[i]->code)) CV_CHECK("targets-of-jumps-are-marked", I[tgt[i]]->isLabel);
    if (seq.catchTbl) for (int r = 0; r < 2; r++) CV_CHECK("targets-of-catch-rows-are-marked", I[rtgt[r]]->isLabel);
    linked(); same_targets(-1);
}
//@ob iseq_mark fns=markJumpTargets,jumpTargetOffset
void h_iseq_copy(void) {
    build(); compilerOpts.noOptimize = true;
    copyIseqToChunk(&seq, &chunk);
    CV_REACH("end");
    CV_CHECK("every-word-is-written", w1 == words0 && chunk.catchTbl == seq.catchTbl && chunk.constants == &consts);
    for (int i = 0; i <= N; i++) { CV_CHECK("instruction-word", W1[at0[i]] == I[i]->code); for (int j = 0; j < I[i]->numOperands && j < 3; j++) CV_CHECK("operand-words", W1[at0[i] + 1 + j] == I[i]->operands[j]); }
}
//@ob iseq_copy fns=copyIseqToChunk
/* a jump emitted with operand 0 is given its target when that is known */
static bool later; /* target: an instruction still to be emitted */
void h_iseq_patch(void) {
    build();
    int k = (int)cv_range(0, N), t = (int)cv_range(0, N); CV_ASSUME(k < t || (k == t && cv_bool()));
    CV_ASSUME(I[k]->code == OP_JUMP || I[k]->code == OP_JUMP_IF_FALSE);
    I[k]->operands[0] = 0; I[k]->jumpTo = NULL; comp.iseq = seq;
    bool tail = cv_bool(); 
    for (int i = 0; i <= N; i++) I[i]->isLabel = false;
    patchJump(I[k], -1, tail ? NULL : I[t]);
    CV_REACH("end");
    int after = tail ? N : t; /* continues after this instruction */
    CV_CHECK("continues-after-the-instruction-named", dest(I[k], at0[k]) == at0[after] + I[after]->numOperands + 1);
    tgt[k] = after + 1; /* other jumps keep their operands */
    for (int i = 0; i <= N; i++) if (i != k && is_jump(I[i]->code)) CV_CHECK("other-jumps-unchanged", dest(I[i], at0[i]) == at0[tgt[i]]);
}
//@ob iseq_patch fns=patchJump,insnOffset
void h_iseq_breaks(void) {
    build(); comp.iseq = seq;
    int s = (int)cv_range(0, N), e = (int)cv_range(0, N); CV_ASSUME(s < e);
    int off = cv_bool() ? 1 : 0; bool open[N + 1];
    for (int i = 0; i <= N; i++) { open[i] = I[i]->code == OP_BREAK && cv_bool(); if (open[i]) I[i]->operands[0] = 0; }
    patchBreaks(I[s], I[e], off);
    CV_REACH("end");
    for (int i = 0; i <= N; i++) {
        if (open[i] && i >= s && i < e) CV_CHECK("breaks-of-the-loop-continue-behind-it", dest(I[i], at0[i]) == (off ? at0[e] + I[e]->numOperands + 1 : at0[e]));
        else if (open[i]) CV_CHECK("other-breaks-stay-open", I[i]->operands[0] == 0);
        else if (is_jump(I[i]->code)) CV_CHECK("other-jumps-unchanged", dest(I[i], at0[i]) == at0[tgt[i]]);
    }
}
//@ob iseq_breaks fns=patchBreaks,patchBreak,insnOffset
void h_iseq_continues(void) {
    build(); comp.iseq = seq;
    int s = (int)cv_range(0, N), e = (int)cv_range(0, N); CV_ASSUME(s < e);
    bool open[N + 1];
    for (int i = 0; i <= N; i++) { open[i] = I[i]->code == OP_JUMP && cv_bool(); if (open[i]) { I[i]->operands[0] = 0; I[i]->flags |= INSN_FL_CONTINUE; } }
    patchContinuesBetween(I[s], I[e]);
    CV_REACH("end");
    for (int i = 0; i <= N; i++) {
        if (open[i] && i >= s && i <= e) CV_CHECK("continues-of-the-loop-continue-after-its-body", dest(I[i], at0[i]) == at0[e] + I[e]->numOperands + 1);
        else if (open[i]) CV_CHECK("other-continues-stay-open", I[i]->operands[0] == 0);
        else if (is_jump(I[i]->code)) CV_CHECK("other-jumps-unchanged", dest(I[i], at0[i]) == at0[tgt[i]]);
    }
}
//@ob iseq_continues fns=patchContinuesBetween,patchJump
void h_iseq_loop(void) {
    build(); comp.iseq = seq; nextInsnIsLabel = cv_bool(); bool lbl = nextInsnIsLabel;
    int t = (int)cv_range(0, N);
    emitLoop(at0[t] + 2);
    CV_REACH("end");
    Insn *in = comp.iseq.tail;
    CV_CHECK("a-loop-instruction-is-added-last", in && in->code == OP_LOOP && in->numOperands == 1 && in->prev == I[N] && in->isLabel == lbl && comp.iseq.count == N + 2 && comp.iseq.wordCount == words0 + 2);
    if (in) CV_CHECK("it-continues-at-the-start-of-the-loop", dest(in, words0) == at0[t]);
    CV_CHECK("the-start-is-marked-as-target", I[t]->isLabel);
}
//@ob iseq_loop fns=emitLoop,emitOp1,emitInsn
