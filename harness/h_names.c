/* Contracts of the compiler's resolution of names (C14): a name means its innermost declaration. */
//@default props=C14 src=compiler.c level=bounded bound="three nested functions with up to two locals and one captured variable each" unwind=6 flags=--no-pointer-check,--no-bounds-check stubs=emitInsn,identifierConstant,getOptions,tokStr,error,addVarInfo,internedString
#include "compiler.c"
#ifndef NU1
#define NU1 0
#endif
#include "cv_stubs.h"
static Compiler c0, c1, c2; static ObjFunction f0, f1, f2; static char nbuf[7][2]; static Insn out; static int norder, order[4]; static int emitted;
static CloxOptions opts; CloxOptions *cvs_getOptions(void) { return &opts; } /* no debug output */
char *cvs_tokStr(Token *t) { return t->lexeme; }
static int errors;
#ifdef DECLARE
void cvs_error(const char *fmt, ...) { errors++; }
#else
void cvs_error(const char *fmt, ...) { CV_CHECK("no-compile-error", 0); CV_STOP(); }
#endif
void cvs_addVarInfo(Chunk *chunk, ObjString *varName, int slot) { CV_CHECK("variable-info-of-the-slot", slot == (int)out.operands[0]); }
ObjString *cvs_internedString(char *chars, size_t len, int flags) { return NULL; }
Insn *cvs_emitInsn(Insn in) { if (norder < 4) order[norder++] = in.code; emitted++; out = in; return &out; }
bytecode_t cvs_identifierConstant(Token *name) { return 77; }
/* the locals of a function: 0 means a variable of another name, 1 one of the name looked up */
static const signed char shape[6][2] = { {-1, -1}, {0, -1}, {1, -1}, {0, 1}, {1, 0}, {1, 1} };
static void fn_init(Compiler *c, ObjFunction *f, Compiler *enc, int k, int sh, int nup) {
    c->function = f; c->enclosing = enc; c->scopeDepth = 1;
    c->localCount = 0;
    for (int i = 0; i < 2; i++) {
        nbuf[2 * k + i][0] = shape[sh][i] == 1 ? 'n' : (char)('a' + i);
        c->locals[i].name.lexeme = nbuf[2 * k + i]; c->locals[i].name.length = 1; c->locals[i].isUpvalue = false; c->locals[i].depth = 1;
        if (shape[sh][i] >= 0) c->localCount++;
    }
    f->upvalueCount = nup;
}
static int innermost(Compiler *c, char n, int k) { return c->localCount > 1 && nbuf[2 * k + 1][0] == n ? 1 : c->localCount > 0 && nbuf[2 * k][0] == n ? 0 : -1; }
static Upvalue pre1, pre2; static bool set;
static void named_variable(int s0, int s1, int s2, int nu1, int nu2) {
    fn_init(&c0, &f0, NULL, 0, s0, 0); fn_init(&c1, &f1, &c0, 1, s1, nu1); fn_init(&c2, &f2, &c1, 2, s2, nu2);
    c1.upvalues[0] = pre1; c2.upvalues[0] = pre2; emitted = 0; norder = 0;
    current = &c2;
    Upvalue u1 = c1.upvalues[0], u2 = c2.upvalues[0]; int n1 = f1.upvalueCount, n2 = f2.upvalueCount;
    char n = nbuf[6][0] = 'n'; Token tok; tok.lexeme = nbuf[6]; tok.length = 1;
    namedVariable(tok, set ? VAR_SET : VAR_GET);
    CV_CHECK("one-instruction", emitted == 1);
    int l2 = innermost(&c2, n, 2), l1 = innermost(&c1, n, 1), l0 = innermost(&c0, n, 0);
    CV_CHECK("earlier-captures-unchanged", (n1 == 0 || (c1.upvalues[0].index == u1.index && c1.upvalues[0].isLocal == u1.isLocal)) && (n2 == 0 || (c2.upvalues[0].index == u2.index && c2.upvalues[0].isLocal == u2.isLocal)));
    CV_CHECK("captures-at-most-one-variable-per-function", f1.upvalueCount >= n1 && f1.upvalueCount <= n1 + 1 && f2.upvalueCount >= n2 && f2.upvalueCount <= n2 + 1);
    CV_CHECK("one-entry-per-captured-variable", f2.upvalueCount < 2 || c2.upvalues[0].index != c2.upvalues[1].index || c2.upvalues[0].isLocal != c2.upvalues[1].isLocal);
    if (l2 >= 0) {
        CV_CHECK("own-local-first", out.code == (set ? OP_SET_LOCAL : OP_GET_LOCAL) && out.operands[0] == (bytecode_t)l2 && out.numOperands == 2);
        CV_CHECK("nothing-captured-for-a-local", f1.upvalueCount == n1 && f2.upvalueCount == n2);
    } else if (l1 >= 0 || l0 >= 0) {
        CV_CHECK("captured-variable", out.code == (set ? OP_SET_UPVALUE : OP_GET_UPVALUE) && out.numOperands == 2 && (int)out.operands[0] < f2.upvalueCount);
        int r = (int)out.operands[0] & 1;
        if (l1 >= 0) {
            CV_CHECK("local-of-the-enclosing-function", c2.upvalues[r].isLocal && c2.upvalues[r].index == l1);
            CV_CHECK("marked-as-captured", c1.locals[l1].isUpvalue);
        } else {
            CV_CHECK("through-the-enclosing-function", !c2.upvalues[r].isLocal && c2.upvalues[r].index < f1.upvalueCount);
            int q = c2.upvalues[r].index & 1;
            CV_CHECK("local-of-the-outermost-function", c1.upvalues[q].isLocal && c1.upvalues[q].index == l0);
            CV_CHECK("marked-as-captured", c0.locals[l0].isUpvalue);
        }
    } else {
        CV_CHECK("global-otherwise", out.code == (set ? OP_SET_GLOBAL : OP_GET_GLOBAL) && out.operands[0] == 77 && out.numOperands == 1);
        CV_CHECK("nothing-captured-for-a-global", f1.upvalueCount == n1 && f2.upvalueCount == n2);
    }
    for (int i = 0; i < 2; i++) {
        CV_CHECK("no-other-variable-marked", !c2.locals[i].isUpvalue && (!c1.locals[i].isUpvalue || (l2 < 0 && l1 == i)) && (!c0.locals[i].isUpvalue || (l2 < 0 && l1 < 0 && l0 == i)));
    }
}
void h_named_variable(void) {
    pre1.index = (uint8_t)(cv_u64() & 1); pre1.isLocal = cv_bool(); pre2.index = (uint8_t)(cv_u64() & 1); pre2.isLocal = cv_bool(); set = cv_bool();
    int sel = (int)cv_range(0, 23), k = 0;
    static const int S0[2] = {1, 3}, S1[3] = {0, 3, 5}, S2[2] = {1, 4};
    for (int a = 0; a < 2; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 2; c++) for (int u = 0; u < 2; u++, k++)
        if (sel == k) { named_variable(S0[a], S1[b], S2[c], NU1, u); CV_REACH("end"); }
}
//@ob named_variable0 entry=h_named_variable defs=NU1=0 flags+=--max-field-sensitivity-array-size,300,--slice-formula fns=namedVariable,resolveLocal,resolveUpvalue,addUpvalue,identifiersEqual
//@ob named_variable1 entry=h_named_variable defs=NU1=1 flags+=--max-field-sensitivity-array-size,300,--slice-formula fns=namedVariable,resolveLocal,resolveUpvalue,addUpvalue,identifiersEqual
/* leaving a block of statements: its locals are popped or closed, innermost first, the others stay */
static Scope sc0, sc1;
void h_pop_scope(void) {
    int n = (int)cv_range(0, 3), depth = (int)cv_range(1, 2); int d[3]; bool upv[3], pop[3];
    c0.function = &f0; c0.type = cv_bool() ? FUN_TYPE_BLOCK : FUN_TYPE_NAMED; c0.localCount = n; c0.scopeDepth = depth; current = &c0; curScope = &sc1; sc1.parent = &sc0;
    for (int i = 0; i < 3; i++) {
        d[i] = (int)cv_range(1, 2); upv[i] = cv_bool(); pop[i] = cv_bool();
        CV_ASSUME(i == 0 || d[i] >= d[i-1]); CV_ASSUME(d[i] <= depth);
        c0.locals[i].depth = d[i]; c0.locals[i].isUpvalue = upv[i]; c0.locals[i].popOnScopeEnd = pop[i];
    }
    popScope(COMPILE_SCOPE_BLOCK);
    CV_REACH("end");
    int keep = 0, k = 0;
    for (int i = 0; i < 3; i++) if (i < n && d[i] < depth) keep++;
    CV_CHECK("locals-of-the-scope-forgotten", c0.localCount == keep && c0.scopeDepth == depth - 1 && curScope == &sc0);
    for (int i = 2; i >= 0; i--) {
        if (i >= n || d[i] < depth) continue;
        if (upv[i]) { CV_CHECK("captured-local-closed", k < norder && order[k] == OP_CLOSE_UPVALUE); k++; }
        else if (c0.type != FUN_TYPE_BLOCK && pop[i]) { CV_CHECK("local-popped", k < norder && order[k] == OP_POP); k++; }
    }
    CV_CHECK("nothing-else-popped", k == norder);
}
//@ob pop_scope fns=popScope,popLocal,emitCloseUpvalue bound="up to three locals"

/* declaring a variable: a local of the innermost scope, or a global outside of functions and blocks */
static LocalVariable vars[4]; static int nvars; static LocalVariable *vdata[8];
void *cvs_reallocate(void *prev, size_t old, size_t newSize) { CV_CHECK("one-record-per-local", nvars < 4 && prev == NULL); return &vars[nvars++]; }
ObjString *cvs_copyString(const char *c, size_t len, int flags) { return NULL; }
static int tset; static Value tval; bool cvs_tableSet(Table *t, Value k, Value v) { CV_CHECK("table-of-the-function", t == &f0.localsTable); tset++; tval = v; return true; }
static int cnt, dep; static int ld[3]; static char ln[3]; static bool lu[3], lp[3];
Token cvs_syntheticToken(const char *s) { Token k; k.lexeme = (char *)s; k.length = 1; return k; }
static void locals_init(int n) {
    cnt = n; dep = (int)cv_range(0, 2);
    c0.function = &f0; c0.type = FUN_TYPE_NAMED; c0.localCount = cnt; c0.localCountMax = (int)cv_range(cnt, 5); c0.scopeDepth = dep; current = &c0; curScope = &sc1;
    f0.variables.data = vdata; f0.variables.length = 0; f0.variables.capacity = 8;
    for (int i = 0; i < 3; i++) {
        ld[i] = (int)cv_range(0, 2); CV_ASSUME(ld[i] <= dep && (i == 0 || ld[i] >= ld[i-1]));
        ln[i] = (char)('a' + (int)cv_range(0, 2)); nbuf[i][0] = ln[i];
        c0.locals[i].depth = ld[i]; c0.locals[i].name.lexeme = nbuf[i]; c0.locals[i].name.length = 1; c0.locals[i].isUpvalue = lu[i] = cv_bool(); c0.locals[i].popOnScopeEnd = lp[i] = cv_bool();
    }
}
static void declare(int n) {
    locals_init(n);
    int max = c0.localCountMax;
    nbuf[6][0] = 'b'; Token tok; tok.lexeme = nbuf[6]; tok.length = 1; tok.line = 3;
    bool twice = false; for (int i = 0; i < 3; i++) if (i < cnt && ld[i] == dep && ln[i] == 'b') twice = true;
    int r = declareVariable(&tok);
    CV_REACH("end");
    CV_CHECK("a-second-declaration-in-one-scope-is-an-error", (errors == 1) == (dep > 0 && twice) && errors <= 1);
    if (dep == 0) CV_CHECK("global-outside-of-blocks", r == 77 && c0.localCount == cnt && tset == 0);
    else if (twice) CV_CHECK("nothing-declared", r == -1 && c0.localCount == cnt && tset == 0);
    else {
        CV_CHECK("the-next-slot", r == cnt && c0.localCount == cnt + 1);
        CV_CHECK("frame-is-large-enough", c0.localCountMax == (max > cnt + 1 ? max : cnt + 1));
        CV_CHECK("in-the-innermost-scope", c0.locals[cnt].depth == dep && c0.locals[cnt].name.lexeme == nbuf[6] && c0.locals[cnt].name.length == 1);
        CV_CHECK("not-captured-yet", !c0.locals[cnt].isUpvalue && c0.locals[cnt].popOnScopeEnd);
        CV_CHECK("slot-by-name", tset == 1 && IS_NUMBER(tval) && AS_NUMBER(tval) == cnt);
        CV_CHECK("recorded-for-bindings", nvars == 1 && vars[0].slot == cnt && vars[0].scope == &sc1 && f0.variables.length == 1 && f0.variables.data[0] == &vars[0]);
    }
    for (int i = 0; i < 3; i++) if (i < cnt) CV_CHECK("other-locals-unchanged", c0.locals[i].depth == ld[i] && c0.locals[i].name.lexeme == nbuf[i] && c0.locals[i].isUpvalue == lu[i] && c0.locals[i].popOnScopeEnd == lp[i]);
    CV_CHECK("no-code", emitted == 0);
}
void h_declare(void) { int sel = (int)cv_range(0, 3); for (int n = 0; n <= 3; n++) if (sel == n) declare(n); }
//@ob declare defs=DECLARE stubs+=reallocate,copyString,tableSet,syntheticToken flags+=--max-field-sensitivity-array-size,300,--slice-formula fns=declareVariable,addLocal,incrLocalCount,identifiersEqual bound="up to three locals in three scopes"
static void declare_fake(int n) {
    locals_init(n); CV_ASSUME(dep > 0);
    int max = c0.localCountMax; bool pop = cv_bool();
    int r = addFakeLocal(pop);
    CV_REACH("end");
    CV_CHECK("the-next-slot", r == cnt && c0.localCount == cnt + 1 && errors == 0);
    CV_CHECK("frame-is-large-enough", c0.localCountMax == (max > cnt + 1 ? max : cnt + 1));
    CV_CHECK("in-the-innermost-scope", c0.locals[cnt].depth == dep && !c0.locals[cnt].isUpvalue && c0.locals[cnt].popOnScopeEnd == pop);
}
void h_declare_fake(void) { int sel = (int)cv_range(0, 3); for (int n = 0; n <= 3; n++) if (sel == n) declare_fake(n); }
//@ob declare_fake defs=DECLARE stubs+=reallocate,copyString,tableSet,syntheticToken flags+=--max-field-sensitivity-array-size,300,--slice-formula fns=addFakeLocal,incrLocalCount bound="up to three locals in three scopes"
/* no more locals than an instruction can name */
void h_declare_many(void) {
    locals_init(3); CV_ASSUME(dep > 0); c0.localCount = UINT8_MAX; c0.localCountMax = UINT8_MAX;
    bool fake = cv_bool(); Token tok; tok.lexeme = nbuf[6]; tok.length = 1;
    int r = fake ? addFakeLocal(true) : addLocal(tok);
    CV_REACH("end");
    CV_CHECK("too-many-locals-are-an-error", r == -1 && errors == 1 && c0.localCount == UINT8_MAX && nvars == 0);
}
//@ob declare_many defs=DECLARE stubs+=reallocate,copyString,tableSet,syntheticToken flags+=--max-field-sensitivity-array-size,300,--slice-formula fns=addLocal,addFakeLocal level=proof
/* popping counts the locals of the innermost scope */
static void define(bytecode_t arg) {
    locals_init(3); Token tok;
    defineVariable(&tok, arg, true);
    CV_REACH("end");
    if (dep == 0) CV_CHECK("global-outside-of-blocks", emitted == 1 && out.code == OP_DEFINE_GLOBAL && out.operands[0] == arg && out.numOperands == 1);
    else CV_CHECK("local-of-the-innermost-scope", emitted == 0 && c0.locals[arg].depth == dep);
    for (int i = 0; i < 3; i++) if (dep == 0 || i != (int)arg) CV_CHECK("other-locals-unchanged", c0.locals[i].depth == ld[i]);
    CV_CHECK("same-locals", c0.localCount == cnt && errors == 0);
}
void h_define(void) { int sel = (int)cv_range(0, 2); for (int n = 0; n <= 2; n++) if (sel == n) define((bytecode_t)n); }
//@ob define defs=DECLARE flags+=--max-field-sensitivity-array-size,300,--slice-formula fns=defineVariable bound="up to three locals in three scopes"
