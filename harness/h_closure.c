/* Contracts of captured variables and closures (C13) and of locals (C14).
 * The positions of variables are enumerated (small numbers of slots); their values are arbitrary. */
//@default props=C13 src=vm.c link=value.c,debugger.c stubs=isOnlyThread,vmCheckInts,objWrite trust=no-interrupt-pending unwind=26 flags=--no-pointer-check,--no-bounds-check fns=vm_run level=bounded
#include "vmh.h"
/* a value that is only moved around: any number, nil, or an object */
static Value anyv(void) { uint64_t k = cv_u64() & 3; return k == 0 ? NIL_VAL : k == 1 ? OBJ_VAL(&o_str) : NUMBER_VAL(vmh_number()); }
/* ---- C13: the list of open captured variables ---- */
#define NUP 3
#define NS 4
static ObjUpvalue up[NUP], up_new; static ObjInstance thi; static int made;
ObjUpvalue *cvs_newUpvalue(Value *slot, int flags) {
    CV_CHECK("one-variable-made-at-most", made == 0);
    made++;
    vmh_obj(&up_new, OBJ_T_UPVALUE, false); up_new.value = slot; up_new.closed = NIL_VAL; up_new.next = NULL;
    return &up_new;
}
ObjInstance *cvs_FIND_THREAD_INSTANCE(pthread_t tid) { return &thi; }
int cvs_printValue(FILE *f, Value v, bool canCallMethods, int maxLen) { return 0; }
static CloxOptions opts;
CloxOptions *cvs_getOptions(void) { return &opts; } /* no debug output */
/* the write barrier: o_str is the only object among the values */
static bool noted; static Value strv; void cvs_objWrite(Value owner, Value val) { if (val == strv) noted = true; }
/* open variables for a set of stack slots below NS, the topmost slot first: n_open of them, at[i] the slot of the i-th */
static int n_open, at[NUP]; static Value v[NS];
static void open_init(int set) {
    made = 0; n_open = 0; noted = false;
    for (int s = NS - 1; s >= 0; s--) {
        stack0[s] = v[s];
        if ((set & (1 << s)) && n_open < NUP) at[n_open++] = s;
    }
    for (int i = 0; i < NUP; i++) {
        vmh_obj(&up[i], OBJ_T_UPVALUE, false); up[i].value = i < n_open ? &stack0[at[i]] : NULL; up[i].closed = NIL_VAL; up[i].next = i + 1 < n_open ? &up[i+1] : NULL;
    }
    ec0.stackTop = stack0 + NS;
    th0.openUpvalues = n_open ? &up[0] : NULL;
}
static void open_values(void) { OBJ_VAL(&thi); OBJ_VAL(&up_new); strv = OBJ_VAL(&o_str); for (int i = 0; i < NUP; i++) OBJ_VAL(&up[i]); vm.curThread = &th0; th0.ec = &ec0; vm.inited = true; ec0.stack = stack0; ec0.stack_capa = VMH_STACK; for (int i = 0; i < NS; i++) v[i] = anyv(); }
static void capture(int set, int k) {
    open_init(set);
    int old = -1; bool found = false;
    for (int i = 0; i < n_open; i++) if (at[i] == k) { found = true; old = i; }
    ObjUpvalue *u = captureUpvalue(&stack0[k]);
    CV_CHECK("captures-the-variable", u->value == &stack0[k]);
    CV_CHECK("a-variable-captured-before-is-shared", !found || (made == 0 && u == &up[old]));
    CV_CHECK("new-otherwise", found || made == 1);
    /* the list holds the old ones and the new one, topmost slot first */
    ObjUpvalue *p = th0.openUpvalues; int seen = 0, i = 0;
    for (int j = 0; j < NUP + 1; j++) {
        if (!p) break;
        CV_CHECK("open-variables-ordered-by-slot", p->next == NULL || p->next->value < p->value);
        CV_CHECK("the-others-still-open", p == u || (i < n_open && p == &up[i]));
        if (!(p == u && !found)) { CV_CHECK("the-others-keep-their-slot", i < n_open && up[i].value == &stack0[at[i]]); i++; }
        if (p == u) seen++;
        p = p->next;
    }
    CV_CHECK("nothing-lost", p == NULL && i == n_open && seen == 1);
    for (int s = 0; s < NS; s++) CV_CHECK("variables-keep-their-values", stack0[s] == v[s]);
}
static int bits(int set) { int n = 0; for (int s = 0; s < NS; s++) if (set & (1 << s)) n++; return n; }
void h_capture(void) {
    open_values();
    int set = (int)cv_range(0, (1 << NS) - 1), k = (int)cv_range(0, NS - 1);
    for (int s = 0; s < (1 << NS); s++) if (bits(s) <= NUP)
        for (int j = 0; j < NS; j++) if (set == s && k == j) { capture(s, j); CV_REACH("end"); }
}
//@ob capture entry=h_capture fns=captureUpvalue stubs+=newUpvalue,FIND_THREAD_INSTANCE,printValue,getOptions unwind=34 bound="up to 3 open variables in 4 stack slots"
static void close_all(int set, int k) {
    open_init(set);
    closeUpvalues(&stack0[k]);
    ObjUpvalue *p = th0.openUpvalues;
    for (int i = 0; i < n_open; i++) {
        if (at[i] >= k) {
            CV_CHECK("closed-variable-keeps-its-value", up[i].value == &up[i].closed && up[i].closed == v[at[i]]);
            CV_CHECK("closed-variable-is-noted-for-the-collector", v[at[i]] != strv || noted);
        } else {
            CV_CHECK("variables-below-stay-open", up[i].value == &stack0[at[i]] && p == &up[i]);
            if (p) p = p->next;
        }
    }
    CV_CHECK("list-holds-the-open-ones", p == NULL);
    for (int s = 0; s < NS; s++) CV_CHECK("stack-unchanged", stack0[s] == v[s]);
}
void h_close(void) {
    open_values();
    int set = (int)cv_range(0, (1 << NS) - 1), k = (int)cv_range(0, NS);
    for (int s = 0; s < (1 << NS); s++) if (bits(s) <= NUP)
        for (int j = 0; j <= NS; j++) if (set == s && k == j) { close_all(s, j); CV_REACH("end"); }
}
//@ob close props=C13,C22 entry=h_close fns=closeUpvalues unwind=34 bound="up to 3 open variables in 4 stack slots"
static void close_op(int set) {
    open_init(set);
    frames0[0].ip = code0; code0[0] = OP_CLOSE_UPVALUE; Value top = stack0[NS - 1];
    InterpretResult r = vm_run();
    CV_CHECK("instruction-completes", r == INTERPRET_OK && vmh_ip() == 1 && ec0.frameCount == 1);
    CV_CHECK("variable-popped", ec0.stackTop == stack0 + NS - 1);
    CV_CHECK("top-variable-closed", n_open == 0 || at[0] != NS - 1 || (up[0].value == &up[0].closed && up[0].closed == top && th0.openUpvalues == up[0].next));
    CV_CHECK("others-stay-open", n_open == 0 || at[0] == NS - 1 || (th0.openUpvalues == &up[0] && up[0].value == &stack0[at[0]]));
}
void h_close_op(void) {
    vmh_init(OP_CLOSE_UPVALUE); open_values();
    switch (cv_u64() & 3) {
    case 0: close_op(0); break;
    case 1: close_op(1 << (NS - 1)); break;
    case 2: close_op(1 << (NS - 1) | 1 << 1); break;
    default: close_op(1 << 2); break;
    }
    CV_REACH("end");
}
//@ob close_op entry=h_close_op fns=vm_run,closeUpvalues bound="up to 2 open variables"
/* ---- C13: a closure's frame on top of the frame that declared the variable ---- */
static ObjFunction fn1; static ObjScope scope1; static ObjClosure clo1; static Value locals1[4]; static ObjUpvalue *ups[3]; static void *ecs[2];
static int slot; static bool is_open; static Value l0[8], s0[8];
static void call_init(bytecode_t op) {
    vmh_init(op); strv = OBJ_VAL(&o_str); for (int i = 0; i < 3; i++) OBJ_VAL(&up[i]);
    vmh_obj(&fn1, OBJ_T_FUNCTION, false); vmh_obj(&clo1, OBJ_T_CLOSURE, false); vmh_obj(&scope1, OBJ_T_SCOPE, false);
    fn1.chunk = &chunk0; fn1.name = &o_name; clo1.function = &fn1; clo1.upvalues = ups; clo1.upvalueCount = 3; fn1.upvalueCount = 3; scope1.function = &fn1;
    scope1.localsTable.tbl = locals1; scope1.localsTable.size = 4; scope1.localsTable.capacity = 4;
    for (int i = 0; i < 6; i++) s0[i] = anyv(); /* any values: they are only moved */
    for (int i = 0; i < 8; i++) l0[i] = i < 4 ? s0[i] : anyv(); /* the locals table agrees with the stack */
    for (int i = 0; i < 3; i++) { vmh_obj(&up[i], OBJ_T_UPVALUE, false); ups[i] = &up[i]; up[i].closed = anyv(); }
}
static void call_case(int sl, int size) { /* the variable captured is in slot sl of the frame below, or closed if sl < 0; that frame's table covers size variables */
    frames0[0].ip = code0; frames0[0].slots = stack0;
    frames0[1] = frames0[0]; frames0[1].closure = &clo1; frames0[1].scope = &scope1; frames0[1].slots = stack0 + 4; frames0[1].prev = &frames0[0];
    ec0.frameCount = 2; ec0.stackTop = stack0 + 6;
    ecs[0] = &ec0; th0.v_ecs.data = ecs; th0.v_ecs.length = 1; th0.v_ecs.capacity = 2;
    scope0.localsTable.size = size;
    for (int i = 0; i < 6; i++) stack0[i] = s0[i];
    for (int i = 0; i < 8; i++) locals0[i] = l0[i];
    for (int i = 0; i < 4; i++) locals1[i] = i < 2 ? s0[4 + i] : NIL_VAL;
    for (int i = 0; i < 3; i++) up[i].value = &up[i].closed;
    slot = sl; is_open = sl >= 0;
    if (is_open) up[1].value = &stack0[sl];
    code0[1] = 1;
}
static void call_done(InterpretResult r) {
    CV_CHECK("instruction-completes", r == INTERPRET_OK && frames0[1].ip - code0 == 4 && ec0.frameCount == 2);
    CV_CHECK("frames-unchanged", ec0.stack == stack0 && ec0.frames == frames0 && vm.curThread == &th0 && th0.ec == &ec0 && frames0[0].slots == stack0 && frames0[1].slots == stack0 + 4);
}
static void get_upvalue(int sl) {
    call_case(sl, 8);
    Value x = is_open ? s0[sl] : up[1].closed;
    InterpretResult r = vm_run();
    call_done(r);
    CV_CHECK("pushes-the-variable", ec0.stackTop == stack0 + 7 && stack0[6] == x);
    CV_CHECK("variable-unchanged", *up[1].value == x);
    for (int w = 0; w < 6; w++) CV_CHECK("stack-unchanged", stack0[w] == s0[w]);
}
void h_get_upvalue(void) {
    call_init(OP_GET_UPVALUE);
    switch (cv_u64() & 3) { case 0: get_upvalue(-1); break; case 1: get_upvalue(0); break; case 2: get_upvalue(2); break; default: get_upvalue(3); break; }
    CV_REACH("end");
}
//@ob get_upvalue bound="the variable closed or in slots 0, 2, 3 of the calling frame"
static void set_upvalue(int sl, int size) {
    call_case(sl, size);
    Value X = anyv(); *ec0.stackTop++ = X; noted = false;
    InterpretResult r = vm_run();
    call_done(r);
    CV_CHECK("assigned-closed-variable-is-noted-for-the-collector", is_open || X != strv || noted);
    CV_CHECK("value-stays-on-the-stack", ec0.stackTop == stack0 + 7 && stack0[6] == X);
    CV_CHECK("variable-assigned", *up[1].value == X && up[1].value == (is_open ? &stack0[slot] : &up[1].closed));
    CV_CHECK("enclosing-function-sees-the-new-value", !is_open || slot >= size || locals0[slot] == X);
    for (int w = 0; w < 6; w++) CV_CHECK("other-stack-slots-unchanged", (is_open && w == slot) || stack0[w] == s0[w]);
    for (int w = 0; w < 8; w++) CV_CHECK("other-locals-unchanged", (is_open && w == slot) || locals0[w] == l0[w]);
    for (int w = 0; w < 2; w++) CV_CHECK("own-locals-unchanged", locals1[w] == s0[4 + w]);
    CV_CHECK("other-variables-unchanged", up[0].value == &up[0].closed && up[2].value == &up[2].closed);
}
void h_set_upvalue(void) {
    call_init(OP_SET_UPVALUE);
    switch (cv_u64() & 3) { case 0: set_upvalue(-1, 8); break; case 1: set_upvalue(0, 4); break; case 2: set_upvalue(3, 4); break; default: set_upvalue(2, 2); break; }
    CV_REACH("end");
}
//@ob set_upvalue props=C13,C22 fns=vm_run,setUpvalue bound="the variable closed or in slots 0, 2, 3 of the calling frame"
/* ---- C13: creating a closure ---- */
static ObjClosure made_clo; static ObjUpvalue *made_ups[3]; static int n_caps; static Value *captured[3]; static ObjUpvalue cap_up[3]; static bool made_closure;
ObjClosure *cvs_newClosure(ObjFunction *func, int flags) {
    CV_CHECK("closure-of-the-function-constant", func == &fn0 && !made_closure);
    made_closure = true;
    vmh_obj(&made_clo, OBJ_T_CLOSURE, false); made_clo.function = func; made_clo.upvalueCount = func->upvalueCount; made_clo.upvalues = made_ups;
    return &made_clo;
}
ObjUpvalue *cvs_captureUpvalue(Value *local) { /* the same variable for the same slot */
    CV_CHECK("captured-as-often-as-told", n_caps < 3);
    captured[n_caps] = local;
    return &cap_up[n_caps++];
}
static void closure(int n, int loc0, int ix0, int loc1, int ix1) {
    int loc[2] = {loc0, loc1}, ix[2] = {ix0, ix1};
    call_case(-1, 8);
    made_closure = false; n_caps = 0;
    constvals0[1] = OBJ_VAL(&fn0); fn0.upvalueCount = n;
    for (int i = 0; i < n; i++) { code0[2 + 2*i] = (bytecode_t)loc[i]; code0[3 + 2*i] = (bytecode_t)ix[i]; }
    InterpretResult r = vm_run();
    CV_CHECK("instruction-completes", r == INTERPRET_OK && frames0[1].ip - code0 == 3 + 2 * n && ec0.frameCount == 2);
    CV_CHECK("pushes-the-closure", ec0.stackTop == stack0 + 7 && made_closure && stack0[6] == OBJ_VAL(&made_clo));
    int c = 0;
    for (int i = 0; i < n; i++) {
        if (loc[i]) { CV_CHECK("captures-the-local-of-this-frame", c < n_caps && captured[c] == stack0 + 4 + ix[i] && made_ups[i] == &cap_up[c]); c++; }
        else CV_CHECK("shares-the-variable-captured-by-this-closure", made_ups[i] == &up[ix[i]]);
    }
    CV_CHECK("captures-nothing-else", c == n_caps);
    for (int w = 0; w < 6; w++) CV_CHECK("stack-unchanged", stack0[w] == s0[w]);
}
void h_closure(void) {
    call_init(OP_CLOSURE);
    switch (cv_range(0, 4)) {
    case 0: closure(0, 0, 0, 0, 0); break;
    case 1: closure(1, 1, 1, 0, 0); break;
    case 2: closure(1, 0, 2, 0, 0); break;
    case 3: closure(2, 1, 2, 0, 1); break;
    default: closure(2, 0, 0, 1, 1); break;
    }
    CV_REACH("end");
}
//@ob closure entry=h_closure stubs+=newClosure,captureUpvalue bound="up to 2 captured variables"
/* ---- C14: local variables ---- */
//@default props=C14
static void locals_init(bytecode_t op) {
    vmh_init(op);
    for (int i = 0; i < 8; i++) { s0[i] = anyv(); l0[i] = anyv(); }
}
static void locals_case(int s, int size) {
    frames0[0].ip = code0; ec0.stackTop = stack0 + 8;
    for (int i = 0; i < 8; i++) { stack0[i] = s0[i]; locals0[i] = l0[i]; }
    scope0.localsTable.size = size; code0[1] = (bytecode_t)s;
}
static void get_local(int s, int size) {
    locals_case(s, size);
    InterpretResult r = vm_run();
    CV_CHECK("instruction-completes", r == INTERPRET_OK && vmh_ip() == 3 && ec0.frameCount == 1);
    CV_CHECK("pushes-the-local", ec0.stackTop == stack0 + 9 && stack0[8] == (s < size ? l0[s] : s0[s]));
    for (int w = 0; w < 8; w++) CV_CHECK("locals-unchanged", stack0[w] == s0[w] && locals0[w] == l0[w]);
    CV_CHECK("table-unchanged", scope0.localsTable.size == size);
}
void h_get_local(void) {
    locals_init(OP_GET_LOCAL);
    switch (cv_range(0, 5)) { case 0: get_local(0, 0); break; case 1: get_local(0, 1); break; case 2: get_local(3, 8); break; case 3: get_local(3, 3); break; case 4: get_local(7, 8); break; default: get_local(4, 5); break; }
    CV_REACH("end");
}
//@ob get_local bound="some slots of a frame of 8 locals"
static void set_local(int s, int size) {
    locals_case(s, size);
    Value X = anyv(); vmh_push(X);
    InterpretResult r = vm_run();
    CV_CHECK("instruction-completes", r == INTERPRET_OK && vmh_ip() == 3 && ec0.frameCount == 1);
    CV_CHECK("value-stays-on-the-stack", ec0.stackTop == stack0 + 9 && stack0[8] == X);
    CV_CHECK("assigned-where-it-is-read", s < scope0.localsTable.size && scope0.localsTable.tbl[s] == X);
    CV_CHECK("assigned-where-closures-read-it", stack0[s] == X);
    for (int w = 0; w < 8; w++) CV_CHECK("other-locals-unchanged", w == s || (stack0[w] == s0[w] && (w >= size || locals0[w] == l0[w])));
    CV_CHECK("locals-table-covers-it", scope0.localsTable.size >= (s >= size ? s + 1 : size) && scope0.localsTable.tbl == locals0);
}
void h_set_local(void) {
    locals_init(OP_SET_LOCAL);
    switch (cv_range(0, 5)) { case 0: set_local(0, 0); break; case 1: set_local(0, 1); break; case 2: set_local(3, 8); break; case 3: set_local(3, 3); break; case 4: set_local(7, 8); break; default: set_local(4, 2); break; }
    CV_REACH("end");
}
//@ob set_local fns=vm_run,growLocalsTable bound="some slots of a frame of 8 locals"
/* var a, b = array;  The array lies below the variables, which are assigned in order. */
static Value el[3];
bool cvs_instanceIsA(ObjInstance *o, ObjClass *c) { return o == (ObjInstance *)&o_ary && c == &c_ary; }
const char *cvs_typeOfObj(Obj *o) { return "obj"; }
static void unpack(int count, int u) {
    int A = 3, s = A + 1 + u;
    locals_case(s, 8);
    o_ary.valAry.values = el; o_ary.valAry.count = count; o_ary.valAry.capacity = 3;
    stack0[A] = OBJ_VAL(&o_ary);
    code0[2] = (bytecode_t)u;
    ec0.stackTop = stack0 + s;
    InterpretResult r = vm_run();
    CV_CHECK("instruction-completes", r == INTERPRET_OK && vmh_ip() == 4 && ec0.frameCount == 1);
    CV_CHECK("variable-on-top", ec0.stackTop == stack0 + s + 1);
    Value want = u < count ? el[u] : NIL_VAL;
    CV_CHECK("assigned-the-element-or-nil", stack0[s] == want && locals0[s] == want);
    for (int w = 0; w < 8; w++) CV_CHECK("other-locals-unchanged", w == s || (locals0[w] == l0[w] && (w > s || w == A || stack0[w] == s0[w])));
    CV_CHECK("array-stays", stack0[A] == OBJ_VAL(&o_ary));
}
void h_unpack_local(void) {
    locals_init(OP_UNPACK_SET_LOCAL);
    for (int i = 0; i < 3; i++) el[i] = anyv();
    switch (cv_range(0, 5)) { case 0: unpack(0, 0); break; case 1: unpack(1, 0); break; case 2: unpack(1, 1); break; case 3: unpack(3, 2); break; case 4: unpack(2, 1); break; default: unpack(2, 2); break; }
    CV_REACH("end");
}
//@ob unpack_local stubs+=instanceIsA,typeOfObj fns=vm_run,unpackValue bound="arrays of up to 3 elements"

/* a called function starts with its arguments as its first locals */
static Value grown[16]; static int grows; static size_t grown_size;
void *cvs_reallocate(void *prev, size_t old, size_t newSize) { CV_CHECK("grows-once", grows == 0 && newSize <= sizeof(grown)); grows++; grown_size = newSize; for (size_t i = 0; i < 8; i++) if (prev && i < old / sizeof(Value)) grown[i] = ((Value *)prev)[i]; return grown; }
void cvs_nil_mem(Value *p, size_t n) { for (size_t i = 0; i < 16; i++) if (i < n) p[i] = NIL_VAL; }
static void setup_locals(int n, int size, int capa) {
    locals_case(0, size); scope0.localsTable.capacity = capa; scope0.localsTable.tbl = capa ? locals0 : NULL; grows = 0;
    frames0[0].slots = stack0 + 2; ec0.stackTop = stack0 + 2 + n;
    setupLocalsTable(&frames0[0]);
    int want = n > size ? n : size;
    CV_CHECK("one-local-per-argument-at-least", scope0.localsTable.size == want && scope0.localsTable.capacity >= want);
    CV_CHECK("grown-only-when-needed", grows == (want > capa) && (!grows || grown_size == sizeof(Value) * scope0.localsTable.capacity));
    for (int i = 0; i < n; i++) CV_CHECK("locals-are-the-arguments", scope0.localsTable.tbl[i] == s0[2 + i]);
    for (int i = n; i < size; i++) CV_CHECK("others-unchanged", scope0.localsTable.tbl[i] == l0[i]);
    for (int w = 0; w < 8; w++) CV_CHECK("stack-unchanged", stack0[w] == s0[w]);
    CV_CHECK("stack-top-unchanged", ec0.stackTop == stack0 + 2 + n);
}
void h_setup_locals(void) {
    locals_init(OP_NIL);
    switch (cv_range(0, 6)) { case 0: setup_locals(0, 0, 0); break; case 1: setup_locals(1, 0, 0); break; case 2: setup_locals(3, 0, 0); break; case 3: setup_locals(2, 0, 4); break; case 4: setup_locals(3, 5, 8); break; case 5: setup_locals(4, 2, 2); break; default: setup_locals(1, 1, 1); break; }
    CV_REACH("end");
}
//@ob setup_locals stubs+=reallocate,nil_mem fns=setupLocalsTable,growLocalsTable bound="up to four arguments"
