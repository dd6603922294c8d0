/* Contracts of the garbage collector (C22): what a collection may free. */
//@default props=C22 src=memory.c link=table.c,value.c,vendor/vec.c stubs=getOptions,reallocate,className,freeObject,addHeap,startGCRunProfileTimer,stopGCRunProfileTimer,printGCStats,printGenerationInfo,grayCompilerRoots,threadGetHidden,callFunctionValue,collectYoungGarbage,collectGarbage unwind=8 subst=memory.c:HEAP_SLOTS:8,memory.c:YOUNG_MARK_STACK_MAX:160 trust=heap-pages-of-8-slots fns=memory.c level=bounded
#include "memory.c"
#include "options.h"
#include "cv_stubs.h"
#include "objh.h"
/* objects that may be referred to: T[k] refers to C[k] (as a closed variable does), which nothing else refers to */
#ifndef NT
#define NT 24
#endif
static ObjUpvalue T[NT]; static ObjUpvalue C[NT];
static Obj *graystk[2 * NT + 8];
static Obj *t_(int k) { return (Obj *)&T[k]; }
static Value tvs[NT]; static Value tv(int k) { return tvs[k]; } /* numbered at the start */
static void values_init(void) { for (int k = 0; k < NT; k++) tvs[k] = OBJ_VAL(&T[k]); }
static CloxOptions opts; CloxOptions *cvs_getOptions(void) { return &opts; } /* no debug output */
const char *cvs_className(ObjClass *k) { return "class"; }
static int n_freed; static Obj *freed[64];
void cvs_freeObject(Obj *o) {
    CV_CHECK("no-hidden-object-freed", !OBJ_IS_HIDDEN(o));
    CV_CHECK("no-object-freed-twice", o->type != OBJ_T_NONE);
    if (n_freed < 64) freed[n_freed] = o;
    n_freed++; o->type = OBJ_T_NONE;
}
static int heaps_added;
#ifndef NEWOBJ
void cvs_addHeap(void) { heaps_added++; }
#endif
void cvs_startGCRunProfileTimer(struct timeval *t) {} void cvs_stopGCRunProfileTimer(struct timeval *a, struct timeval *b) {}
void cvs_printGCStats(void) {} void cvs_printGenerationInfo(void) {}
static void gc_init(void) {
    vm.grayStack = graystk; vm.grayCapacity = 2 * NT + 8; vm.grayCount = 0;
}
/* ---- marking one object ---- */
//@ob gray_object stubs=getOptions,reallocate level=proof subst= unwind=26
#include <string.h>
void h_gray_object(void) {
    static Obj ob; Value obv = OBJ_VAL(&ob);
    values_init(); gc_init();
    vm.grayStack = malloc(2 * sizeof(Obj *)); vm.grayCapacity = 2; vm.grayCount = (int)cv_range(0, 2);
    ob.type = OBJ_T_STRING; uint16_t f0 = ob.flags = (uint16_t)cv_range(0, 65535); ob.GCGen = (unsigned short)cv_range(0, GC_GEN_MAX);
    Obj *e0 = t_(0), *e1 = t_(1); vm.grayStack[0] = e0; vm.grayStack[1] = e1;
    inYoungGC = cv_bool(); bool sel = cv_bool(); unsigned short g0 = ob.GCGen; int n0 = vm.grayCount;
    bool null = cv_bool(), dark = OBJ_IS_DARK(&ob), skip = null || dark || (inYoungGC && ob.GCGen > GC_GEN_MIN);
    if (sel) grayObject(null ? NULL : &ob);
    else { Value v = null ? (cv_bool() ? NIL_VAL : NUMBER_VAL(vmh_number())) : obv; grayValue(v); }
    CV_CHECK("marked-objects-are-queued-once", vm.grayCount == n0 + (skip ? 0 : 1));
    if (!skip) CV_CHECK("marked-object-is-queued", vm.grayStack[n0] == &ob);
    if (n0 > 0) CV_CHECK("queue-keeps-its-objects", vm.grayStack[0] == e0);
    if (n0 > 1) CV_CHECK("queue-keeps-its-objects", vm.grayStack[1] == e1);
    if (!skip) CV_CHECK("object-is-marked", OBJ_IS_DARK(&ob));
    CV_CHECK("other-flags-are-kept", (ob.flags | OBJ_FLAG_DARK) == (f0 | OBJ_FLAG_DARK));
    CV_CHECK("marking-keeps-the-generation-of-young-objects", !(inYoungGC && ob.GCGen != g0));
    CV_REACH("gray-object");
}
/* what a caller of grayObject relies on (gray_object): the object is marked and queued */
static bool grayed[NT]; static int n_grayed;
void cvs_grayObject(Obj *o) { if (o) { n_grayed++; for (int k = 0; k < NT; k++) if (o == t_(k)) grayed[k] = true; } }
/* ---- the objects in a table ---- */
//@ob gray_table stubs=reallocate,grayObject unwind=26 subst= bound="tables of 4 slots"
void h_gray_table(void) {
    static Entry e[4]; static Table t; values_init();
    int n = 0;
    for (int i = 0; i < 4; i++) {
        int k = (int)cv_range(0, 3);
        if (k == 0) { e[i].key = UNDEF_VAL; e[i].value = cv_bool() ? NIL_VAL : UNDEF_VAL; }
        else { n++; e[i].key = k & 1 ? tv(2 * i) : NUMBER_VAL(3); e[i].value = k & 2 ? tv(2 * i + 1) : TRUE_VAL; }
    }
    t.count = n; t.capacityMask = 3; t.entries = e;
    grayTable(&t);
    for (int i = 0; i < 4; i++) {
        if (e[i].key == tv(2 * i)) CV_CHECK("keys-are-marked", grayed[2 * i]);
        if (e[i].value == tv(2 * i + 1)) CV_CHECK("values-are-marked", grayed[2 * i + 1]);
    }
    static Table empty; initTable(&empty); int c = n_grayed; grayTable(&empty);
    CV_CHECK("an-empty-table-marks-nothing", n_grayed == c);
    CV_REACH("gray-table");
}
/* ---- the references of one object ---- */
static int nt; static int marked_internal; static Obj *markarg;
static void mark_cb(Obj *o) { marked_internal++; markarg = o; }
static bool have; /* optional references are there */
static Obj *ref(void) { return have ? t_(nt++) : NULL; }
static Obj *must(void) { return t_(nt++); }
static Value refv(void) { return have ? tv(nt++) : NIL_VAL; }
static Entry tent[6][2]; static Table tabs[6]; static int ntab;
static Table *tab(void) {
    Table *t = &tabs[ntab]; Entry *e = tent[ntab++];
    t->capacityMask = 1; t->entries = e; t->count = have ? 1 : 0; e[0].key = UNDEF_VAL; e[0].value = NIL_VAL;
    e[1].key = have ? tv(nt++) : UNDEF_VAL; e[1].value = have ? tv(nt++) : NIL_VAL;
    return t;
}
static void inst(void *o, ObjType type) { ObjInstance *i = o; vmh_obj(i, type, true); i->klass = (ObjClass *)must(); i->singletonKlass = (ObjClass *)ref(); i->finalizerFunc = ref(); i->fields = tab(); }
static ObjRegex o_re; static ObjScope o_scope; static ObjUpvalue o_up; static ObjInternal o_int; static ObjIClass o_icls; static ClassInfo gci; static LocalVariable lvar[2]; static void *lvars[2];
static void blacken(int kind, bool h) {
    have = h; nt = 0; ntab = 0; marked_internal = 0; markarg = NULL; bool cb = false;
    for (int i = 0; i < NT; i++) grayed[i] = false;
    Obj *o = NULL; Obj *cbarg = NULL;
    static Value els[3]; static ObjUpvalue *ups[3];
    switch (kind) {
    case 0: o = (Obj *)&o_bnd; vmh_obj(o, OBJ_T_BOUND_METHOD, false); o_bnd.receiver = refv(); o_bnd.callable = must(); break;
    case 1: case 2: { /* class, module */
        ObjClass *c = kind == 1 ? &o_cls : (ObjClass *)&o_mod; o = (Obj *)c; inst(c, kind == 1 ? OBJ_T_CLASS : OBJ_T_MODULE); if (!h) c->klass = NULL;
        c->classInfo = &gci; gci.name = (ObjString *)ref(); gci.superclass = kind == 1 ? ref() : NULL;
        gci.methods = tab(); gci.getters = tab(); gci.setters = tab(); gci.constants = tab(); if (!h) nt = 0; break; }
    case 3: o = (Obj *)&o_icls; vmh_obj(o, OBJ_T_ICLASS, false); o_icls.klass = (ObjClass *)must(); o_icls.mod = (ObjModule *)must(); o_icls.superklass = ref(); break;
    case 4: o = (Obj *)&o_fun; vmh_obj(o, OBJ_T_FUNCTION, false); o_fun.name = (ObjString *)ref(); o_fun.localsTable = *tab();
        for (int i = 0; i < 2; i++) { lvar[i].name = (ObjString *)must(); lvars[i] = &lvar[i]; }
        o_fun.variables.data = (void *)lvars; o_fun.variables.length = o_fun.variables.capacity = 2; break;
    case 5: o = (Obj *)&o_clo; vmh_obj(o, OBJ_T_CLOSURE, false); o_clo.function = (ObjFunction *)must(); o_clo.upvalueCount = h ? 3 : 0; o_clo.upvalues = ups; if (h) for (int i = 0; i < 3; i++) ups[i] = (ObjUpvalue *)must(); break;
    case 6: o = (Obj *)&o_scope; vmh_obj(o, OBJ_T_SCOPE, false); o_scope.function = (ObjFunction *)must(); o_scope.localsTable.size = h ? 3 : 0; o_scope.localsTable.tbl = els; if (h) { els[0] = refv(); els[1] = NUMBER_VAL(1); els[2] = refv(); } break;
    case 7: o = (Obj *)&o_nat; vmh_obj(o, OBJ_T_NATIVE_FUNCTION, false); o_nat.name = (ObjString *)must(); o_nat.klass = ref(); break;
    case 8: o = (Obj *)&o_inst; inst(o, OBJ_T_INSTANCE); o_inst.internal = NULL; if (h) { o_inst.internal = &o_int; o_int.markFunc = mark_cb; cb = true; cbarg = (Obj *)&o_int; } break;
    case 9: o = (Obj *)&o_ary; inst(o, OBJ_T_ARRAY); o_ary.valAry.values = els; o_ary.valAry.count = h ? 3 : 0; if (h) { els[0] = refv(); els[1] = refv(); els[2] = refv(); } break;
    case 10: o = (Obj *)&o_map; inst(o, OBJ_T_MAP); o_map.table = tab(); break;
    case 11: o = (Obj *)&o_re; inst(o, OBJ_T_REGEX); break;
    case 12: o = (Obj *)&o_int; vmh_obj(o, OBJ_T_INTERNAL, false); o_int.markFunc = h ? mark_cb : NULL; cb = h; cbarg = o; break;
    case 13: o = (Obj *)&o_up; vmh_obj(o, OBJ_T_UPVALUE, false); o_up.closed = refv(); break;
    default: o = (Obj *)&o_str; inst(o, OBJ_T_STRING); break;
    }
    blackenObject(o);
    for (int i = 0; i < nt; i++) {
        CV_CHECK("every-reference-is-marked", grayed[i]);
    }
    CV_CHECK("internal-data-is-marked", marked_internal == (cb ? 1 : 0) && (!cb || markarg == cbarg));
}
#define NKINDS 15
//@ob blacken stubs+=grayObject unwind=26 subst= unwindset=h_blacken.0:32
void h_blacken(void) {
    values_init(); int sel = (int)cv_range(0, 2 * NKINDS - 1);
    for (int k = 0; k < 2 * NKINDS; k++) if (sel == k) blacken(k / 2, k & 1);
    CV_REACH("blacken");
}
#ifdef COLLECT
/* ---- one whole collection, with every kind of root ---- */
static LxThread th1, thz; static VMExecContext ec1; static Value stack0[4], stack1[4]; static CallFrame fr0[1], fr1[1]; static CallInfo ci0;
static void *thv[4], *ecv0[1], *ecv1[1], *blk0[1], *so0[2], *so1[1], *exitv[1], *hidv[2]; static BlockStackEntry be0; static Value lastv0, lastv1, loaded[1];
static SigHandler sg[2]; static Obj *zombie_objs[2]; static ObjUpvalue Z[2];
static Obj *comp_root; void cvs_grayCompilerRoots(void) { grayObject(comp_root); }
static Obj *th_main, *th_other, *th_z1, *th_z2;
struct LxThread *cvs_threadGetHidden(Value t) {
    Obj *o = AS_OBJ(t);
    if (o == th_main) return &th0;
    if (o == th_other) return &th1;
    CV_CHECK("only-threads-are-asked-for-their-state", o == th_z1 || o == th_z2);
    return &thz;
}
#define VEC(v, a, n) ((v).data = (void *)(a), (v).length = (n), (v).capacity = (n))
static void table_of(Table *t, int k) { static Entry es[8][2]; Entry *e = es[k]; e[0].key = refv(); e[0].value = refv(); e[1].key = UNDEF_VAL; e[1].value = NIL_VAL; t->entries = e; t->capacityMask = 1; t->count = 1; }
#define NX 6
static ObjString X[NX]; /* further objects, that nothing refers to */
static Value xv[NX], cvals[NT], zv[2];
static void numbers(void) { values_init(); for (int k = 0; k < NT; k++) cvals[k] = OBJ_VAL(&C[k]); for (int k = 0; k < NX; k++) xv[k] = OBJ_VAL(&X[k]); for (int k = 0; k < 2; k++) zv[k] = OBJ_VAL(&Z[k]); }
static int n_young, n_weak; /* T[0..n_young-1] are the roots of both collections, up to nt those of full ones only */
static void roots(bool full, bool all) {
    gc_init(); have = all; nt = 0; n_freed = 0; inYoungGC = false; inFullGC = false; inGC = false; GCOn = true; activeFinalizers = 0; heaps_added = 0;
    for (int i = 0; i < NT; i++) {
        vmh_obj(&T[i], OBJ_T_UPVALUE, false); vmh_obj(&C[i], OBJ_T_UPVALUE, false); T[i].closed = cvals[i]; C[i].closed = NIL_VAL; T[i].object.GCGen = C[i].object.GCGen = 0;
        T[i].next = C[i].next = NULL; T[i].value = &T[i].closed;
    }
    for (int i = 0; i < NX; i++) { vmh_obj(&X[i], OBJ_T_STRING, true); X[i].object.GCGen = 0; }
    th_main = must(); th_other = must(); th_z1 = (Obj *)&Z[0]; th_z2 = (Obj *)&Z[1];
    for (int i = 0; i < 2; i++) { vmh_obj(&Z[i], OBJ_T_UPVALUE, false); Z[i].closed = NIL_VAL; Z[i].object.GCGen = 0; }
    thv[0] = th_z1; thv[1] = th_main; thv[2] = th_z2; thv[3] = th_other; VEC(vm.threads, thv, 4);
    thz.status = THREAD_ZOMBIE; thz.joined = true; thz.detached = false; thz.lastErrorThrown = NIL_VAL;
    vm.curThread = &th0; vm.mainThread = &th0; th0.tid = GVLOwner; vm.inited = true; th0.status = THREAD_RUNNING; th1.status = THREAD_SLEEPING;
    lastv0 = refv(); th0.lastValue = &lastv0; th0.tlsMap = (ObjMap *)ref(); th0.thisObj = ref(); th0.lastErrorThrown = refv();
    th1.lastValue = NULL; th1.tlsMap = NULL; th1.thisObj = NULL; th1.lastErrorThrown = NIL_VAL;
    ecv0[0] = &ec0; ecv1[0] = &ec1; VEC(th0.v_ecs, ecv0, 1); VEC(th1.v_ecs, ecv1, 1); th0.ec = &ec0; th1.ec = &ec1;
    table_of(&ec0.roGlobals, 0); table_of(&ec1.roGlobals, 1);
    ec0.stack = stack0; ec0.stack_capa = 4; ec0.stackTop = stack0 + 3; stack0[0] = refv(); stack0[1] = NUMBER_VAL(1); stack0[2] = refv(); stack0[3] = NIL_VAL;
    ec1.stack = stack1; ec1.stack_capa = 4; ec1.stackTop = stack1 + 1; stack1[0] = refv();
    ec0.filename = (ObjString *)ref(); ec1.filename = NULL; ec0.lastValue = NULL; lastv1 = refv(); ec1.lastValue = &lastv1;
    ec0.frames = fr0; ec0.frameCount = 1; ec1.frames = fr1; ec1.frameCount = 1;
    fr0[0].closure = (ObjClosure *)ref(); fr0[0].instance = (ObjInstance *)ref(); fr0[0].scope = (ObjScope *)ref(); fr0[0].callInfo = &ci0;
    fr1[0].closure = NULL; fr1[0].instance = NULL; fr1[0].scope = NULL; fr1[0].klass = NULL; fr1[0].nativeFunc = NULL; fr1[0].callInfo = NULL;
    be0.callable = ref(); be0.cachedBlockClosure = (ObjClosure *)ref(); be0.blockInstance = (ObjInstance *)ref(); blk0[0] = &be0; VEC(th0.v_blockStack, blk0, 1);
    so0[0] = must(); so0[1] = must(); VEC(th0.stackObjects, so0, 2); so1[0] = must(); VEC(th1.stackObjects, so1, 1);
    ObjUpvalue *u0 = (ObjUpvalue *)must(), *u1 = (ObjUpvalue *)must(); th0.openUpvalues = u0; u0->next = u1; u0->value = &stack0[2]; u1->value = &stack0[0]; th1.openUpvalues = NULL;
    table_of(&vm.globals, 2); table_of(&vm.constants, 3);
    loaded[0] = refv(); vm.loadedScripts.data = loaded; vm.loadedScripts.length = vm.loadedScripts.capacity = 1;
    vm.printBuf = (ObjString *)ref(); sg[0].callable = must(); sg[0].next = &sg[1]; sg[1].callable = must(); sg[1].next = NULL; sigHandlers = &sg[0];
    n_young = nt;
    if (full) {
        table_of(&vm.strings, 4); table_of(&vm.regexLiterals, 5); table_of(&vm.autoloadTbl, 6);
        fr0[0].klass = (ObjClass *)ref(); fr0[0].nativeFunc = (ObjNative *)ref(); ci0.blockInstance = (ObjInstance *)ref(); ci0.blockFunction = (ObjFunction *)ref();
        comp_root = ref(); vm.initString = (ObjString *)ref(); vm.fileString = (ObjString *)ref(); vm.dirString = (ObjString *)ref();
        exitv[0] = ref(); VEC(vm.exitHandlers, exitv, 1);
        hidv[0] = must(); OBJ_SET_HIDDEN(hidv[0]); VEC(vm.hiddenObjs, hidv, 1);
    }
    CV_CHECK("AUX:room-for-the-roots", nt <= NT);
}
static ObjAny F0; /* the free list before */
static bool is_freed(void *o) { for (int i = 0; i < n_freed && i < 64; i++) if (freed[i] == (Obj *)o) return true; return false; }
static int on_free_list(void *o) { int n = 0; ObjAny *p = freeList; for (int i = 0; i < 12 && p; i++) { if (p == (ObjAny *)o) n++; p = ((Obj *)p)->nextFree; } return n; }
static void kept(bool full) {
    for (int i = 0; i < nt; i++) if (full || i < n_young) {
        CV_CHECK("roots-are-kept", T[i].object.type == OBJ_T_UPVALUE);
        CV_CHECK("objects-roots-refer-to-are-kept", C[i].object.type == OBJ_T_UPVALUE);
    }
    CV_CHECK("the-mark-queue-is-empty-afterwards", vm.grayCount == 0);
}
static void *rem_[2];
/* X[0], X[5]: garbage, X[1]: older, X[2]: hidden, X[3]: remembered, X[4]: has a finalizer */
static void young(void) {
    roots(false, true);
    vmh_obj(&F0, OBJ_T_NONE, false); ((Obj *)&F0)->nextFree = NULL; freeList = &F0;
    X[1].object.GCGen = 1; OBJ_SET_HIDDEN(&X[2]);
    X[4].object.type = OBJ_T_INSTANCE; X[4].finalizerFunc = t_(0); activeFinalizers = 1;
    rem_[0] = &X[3]; rememberSet.data = (void *)rem_; rememberSet.capacity = 2; rememberSet.length = 1;
    youngStackSz = 0;
    youngStack[youngStackSz++] = (Obj *)&X[0];
    for (int i = 0; i < nt; i++) { youngStack[youngStackSz++] = (Obj *)&C[i]; youngStack[youngStackSz++] = t_(i); }
    for (int i = 1; i < NX; i++) youngStack[youngStackSz++] = (Obj *)&X[i];
    collectYoungGarbage();
    kept(false);
    CV_CHECK("older-objects-are-kept", !is_freed(&X[1]));
    CV_CHECK("hidden-objects-are-kept", !is_freed(&X[2]));
    CV_CHECK("remembered-objects-are-kept", !is_freed(&X[3]));
    CV_CHECK("objects-with-a-finalizer-are-kept-for-it", !is_freed(&X[4]));
    for (int i = 0; i < NX; i++) {
        CV_CHECK("a-slot-is-on-the-free-list-once-if-freed", on_free_list(&X[i]) == (is_freed(&X[i]) ? 1 : 0));
        if (!is_freed(&X[i])) CV_CHECK("no-mark-is-left", !OBJ_IS_DARK(&X[i]));
    }
    CV_CHECK("free-slots-stay-free", on_free_list(&F0) == 1);
    for (int i = 0; i < nt; i++) CV_CHECK("no-mark-is-left", !OBJ_IS_DARK(&T[i]) && !OBJ_IS_DARK(&C[i]));
    CV_CHECK("survivors-are-no-longer-young", youngStackSz == 0 && T[3].object.GCGen > GC_GEN_MIN && C[4].object.GCGen > GC_GEN_MIN && X[3].object.GCGen > GC_GEN_MIN);
    CV_CHECK("collection-ended", !isInGC() && !inYoungGC);
    CV_CHECK("the-next-collection-remembers-nothing-of-this-one", rememberSet.length == 0);
}
//@ob young_gc defs=COLLECT,NT=48,CV_NREG=120 unwind=122 timeout=300 flags=--max-field-sensitivity-array-size,300,--no-pointer-check,--no-bounds-check
void h_young_gc(void) {
    numbers(); young();
    CV_REACH("young-gc");
}

/* slots: 0 free, 1 root, 2 garbage, 3 hidden, 4 on a C stack, 5 referred to by a root, 6 garbage, 7 old garbage */
static ObjAny page0[HEAP_SLOTS]; static ObjAny *pages[1]; static Value pagev[HEAP_SLOTS]; static void full(void) {
    roots(true, true);
    for (int i = 0; i < HEAP_SLOTS; i++) { ObjUpvalue *u = &page0[i].as.upvalue; vmh_obj(u, i == 0 ? OBJ_T_NONE : OBJ_T_UPVALUE, false); u->closed = NIL_VAL; u->value = NULL; u->next = NULL; u->object.GCGen = 0; u->object.nextFree = NULL; }
    for (int i = 0; i < 3; i++) T[i].closed = cvals[i];
    lastv0 = pagev[1]; hidv[1] = &page0[3]; VEC(vm.hiddenObjs, hidv, 2); OBJ_SET_HIDDEN(&page0[3]);
    so0[1] = (Obj *)&page0[4]; stack0[0] = pagev[5]; page0[7].as.upvalue.object.GCGen = GC_GEN_MAX;
    heapList = pages; pages[0] = page0; heapsUsed = 1; heapListSize = 1; freeList = &page0[0]; youngStackSz = 3; rememberSet.length = 0;
    collectGarbage();
    kept(true);
    for (int i = 0; i < HEAP_SLOTS; i++) {
        bool live = i == 1 || (i >= 3 && i <= 5), free0 = i == 0;
        if (live) CV_CHECK("objects-in-use-are-kept", !is_freed(&page0[i]) && on_free_list(&page0[i]) == 0);
        else if (!free0) CV_CHECK("garbage-is-freed", is_freed(&page0[i]) && on_free_list(&page0[i]) == 1);
        else CV_CHECK("free-slots-stay-free", on_free_list(&page0[i]) == 1);
        if (live) CV_CHECK("no-mark-is-left", !OBJ_IS_DARK(&page0[i]));
    }
    CV_CHECK("collection-ended", !isInGC() && !inFullGC && youngStackSz == 0);
    CV_CHECK("ended-threads-leave-the-list-of-threads", vm.threads.length == 2 && thv[0] == th_main && thv[1] == th_other);
}
//@ob full_gc defs=COLLECT,NT=64,CV_NREG=150 unwind=152 timeout=300 flags=--max-field-sensitivity-array-size,300,--no-pointer-check,--no-bounds-check
void h_full_gc(void) {
    numbers(); for (int i = 0; i < HEAP_SLOTS; i++) pagev[i] = OBJ_VAL(&page0[i]);
    full();
    CV_REACH("full-gc");
}
#ifdef FIN
/* pages of one slot: garbage with a finalizer, garbage, an object in use with a finalizer, a free slot */
static ObjInstance I0, I1; static ObjUpvalue U0, N0; static ObjAny *onepages[4]; static Value iv0, iv1, finv; static int finalized; static Table nofields;
Value cvs_callFunctionValue(Value f, int argc, Value *args) {
    finalized++;
    CV_CHECK("the-finalizer-is-called-with-its-object", f == finv && argc == 1 && args[0] == iv0);
    CV_CHECK("nothing-is-freed-before-the-finalizers-ran", n_freed == 0);
    return NIL_VAL;
}
//@ob full_gc_fin defs=COLLECT,FIN=1,NT=20,CV_NREG=60 unwind=62 timeout=300 link+=object.c subst=memory.c:HEAP_SLOTS:1 flags=--max-field-sensitivity-array-size,300,--no-pointer-check,--no-bounds-check
//@ob full_gc_fin2 entry=h_full_gc_fin defs=COLLECT,FIN=2,NT=20,CV_NREG=60 unwind=62 timeout=300 link+=object.c subst=memory.c:HEAP_SLOTS:1 flags=--max-field-sensitivity-array-size,300,--no-pointer-check,--no-bounds-check
void h_full_gc_fin(void) {
    numbers(); iv0 = OBJ_VAL(&I0); iv1 = OBJ_VAL(&I1);
    roots(true, false); finalized = 0; finv = tvs[NT - 1];
    vmh_obj(&I0, OBJ_T_INSTANCE, true); I0.finalizerFunc = t_(NT - 1); I0.object.GCGen = 2; I0.fields = &nofields;
    vmh_obj(&I1, OBJ_T_INSTANCE, true); I1.finalizerFunc = t_(NT - 2); I1.object.GCGen = 2; I1.fields = &nofields;
    vmh_obj(&U0, OBJ_T_UPVALUE, false); vmh_obj(&N0, OBJ_T_NONE, false); lastv0 = iv1;
    activeFinalizers = FIN;
    onepages[0] = (ObjAny *)&I1; onepages[1] = (ObjAny *)&U0; onepages[2] = (ObjAny *)&I0; onepages[3] = (ObjAny *)&N0;
    heapList = onepages; heapsUsed = heapListSize = 4; freeList = (ObjAny *)&N0; youngStackSz = 0; rememberSet.length = 0;
    int a = activeFinalizers;
    collectGarbage();
    kept(true);
    CV_CHECK("each-finalizer-is-called-once", finalized == 1 && activeFinalizers == a - 1);
    CV_CHECK("garbage-is-freed", is_freed(&I0) && is_freed(&U0) && on_free_list(&I0) == 1 && on_free_list(&U0) == 1);
    CV_CHECK("objects-in-use-are-kept", !is_freed(&I1) && on_free_list(&I1) == 0 && I1.finalizerFunc == t_(NT - 2) && !OBJ_IS_DARK(&I1));
    CV_CHECK("free-slots-stay-free", on_free_list(&N0) == 1);
    CV_REACH("full-gc-fin");
}
#endif
#endif
/* ---- new objects ---- */
#ifdef NEWOBJ
static ObjAny slots[3]; static int minor, major;
void cvs_collectYoungGarbage(void) { minor++; youngStackSz = 0; if (cv_bool() && !freeList) { freeList = &slots[0]; ((Obj *)&slots[0])->nextFree = NULL; } }
void cvs_collectGarbage(void) { major++; youngStackSz = 0; if (!freeList) { freeList = &slots[1]; ((Obj *)&slots[1])->nextFree = NULL; } }
//@ob new_object defs=NEWOBJ stubs=getOptions,reallocate,collectYoungGarbage,collectGarbage,addHeap unwind=5 subst=memory.c:YOUNG_MARK_STACK_MAX:8
void cvs_addHeap(void) { heaps_added++; CV_CHECK("a-heap-is-added-only-when-no-slot-is-left", 1); freeList = &slots[2]; ((Obj *)&slots[2])->nextFree = NULL; }
void h_new_object(void) {
    static ObjAny a, b; freeList = cv_bool() ? &a : NULL; ((Obj *)&a)->nextFree = cv_bool() ? &b : NULL; ((Obj *)&a)->type = OBJ_T_NONE;
    GCOn = cv_bool(); dontGC = cv_bool(); youngStackSz = (int)cv_range(0, YOUNG_MARK_STACK_MAX); bool old = cv_bool(), had = freeList != NULL, off = !GCOn || dontGC; int y0 = youngStackSz;
    ObjAny *next = had ? ((Obj *)&a)->nextFree : NULL;
    Obj *o = getNewObject(OBJ_T_STRING, sizeof(ObjString), old ? NEWOBJ_FLAG_OLD : NEWOBJ_FLAG_NONE);
    CV_CHECK("an-object-gets-a-free-slot", o == (Obj *)&a || o == (Obj *)&slots[0] || o == (Obj *)&slots[1] || o == (Obj *)&slots[2]);
    CV_CHECK("its-slot-is-no-longer-free", freeList == (o == (Obj *)&a ? next : NULL));
    CV_CHECK("a-free-slot-is-used-first", CV_IMPLIES(had, o == (Obj *)&a));
    CV_CHECK("no-collection-while-it-is-off", CV_IMPLIES(off, minor + major == 0));
    CV_CHECK("new-objects-are-known-as-young", CV_IMPLIES(!old && youngStackSz > 0 && minor + major + off > 0 && y0 < YOUNG_MARK_STACK_MAX, youngStack[youngStackSz - 1] == o) && CV_IMPLIES(!old && (minor + major > 0 || y0 < YOUNG_MARK_STACK_MAX), youngStackSz > 0));
    CV_REACH("new-object");
}
#endif
/* ---- objects kept by hand ---- */
void *cvs_memmove(void *d, const void *s, size_t n) { void *t[2]; CV_CHECK("moves-pointers", n <= sizeof(t) && n % sizeof(void *) == 0); for (size_t i = 0; i < 2; i++) if (i < n / sizeof(void *)) t[i] = ((void **)s)[i]; for (size_t i = 0; i < 2; i++) if (i < n / sizeof(void *)) ((void **)d)[i] = t[i]; return d; }
//@ob hide level=bounded bound="two hidden objects" stubs=memmove,getOptions,reallocate unwind=26 subst=
void h_hide(void) {
    static void *hv[4]; static Obj a, b; vm.inited = true; vm.hiddenObjs.data = hv; vm.hiddenObjs.capacity = 4; vm.hiddenObjs.length = 1; hv[0] = &b; b.flags = OBJ_FLAG_NOGC;
    uint16_t f = a.flags = (uint16_t)(cv_range(0, 65535) & ~OBJ_FLAG_NOGC);
    hideFromGC(&a); CV_CHECK("hidden-objects-are-roots", OBJ_IS_HIDDEN(&a) && vm.hiddenObjs.length == 2 && hv[1] == &a && hv[0] == &b);
    hideFromGC(&a); CV_CHECK("hidden-once", vm.hiddenObjs.length == 2);
    if (cv_bool()) { unhideFromGC(&a); CV_CHECK("no-longer-a-root", a.flags == f && vm.hiddenObjs.length == 1 && hv[0] == &b); }
    else { unhideFromGC(&b); CV_CHECK("no-longer-a-root", !OBJ_IS_HIDDEN(&b) && OBJ_IS_HIDDEN(&a) && vm.hiddenObjs.length == 1 && hv[0] == &a); }
    unhideFromGC(&b); CV_REACH("hide");
}
/* ---- the write barrier ---- */
//@ob barrier level=proof stubs=getOptions,reallocate,pushRememberSet unwind=26 subst=
static Obj *remd; static int n_rem; void cvs_pushRememberSet(Obj *o) { remd = o; n_rem++; }
void h_barrier(void) {
    static Obj a; Value v = OBJ_VAL(&a); a.GCGen = (unsigned short)cv_range(0, GC_GEN_MAX); Value w = cv_bool() ? v : NUMBER_VAL(vmh_number());
    objWrite(NIL_VAL, w); CV_CHECK("young-objects-are-remembered", CV_IMPLIES(w == v && a.GCGen == GC_GEN_MIN, n_rem == 1 && remd == &a)); CV_CHECK("numbers-are-not", CV_IMPLIES(w != v, n_rem == 0));
    CV_REACH("barrier");
}
