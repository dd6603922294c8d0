/* Contracts of super, properties and method definition (C16). */
//@default props=C16 src=vm.c link=value.c,debugger.c stubs=isOnlyThread,vmCheckInts,tableGet,objWrite,newBoundMethod,setupIClass trust=no-interrupt-pending unwind=26 flags=--no-pointer-check,--no-bounds-check level=bounded bound="classes K < B < Object with up to 3 modules, in 9 arrangements; every subset of them defining the name"
#include "vmh.h"
void setupIClass(ObjIClass *iclass);
void cvs_setupIClass(ObjIClass *iclass) { /* the contract proved in h_method.c (object.c): inserted right above its class */
    iclass->superklass = CLASSINFO(iclass->klass)->superclass; CLASSINFO(iclass->klass)->superclass = TO_OBJ(iclass); iclass->isSetup = true;
}
#include "mro.h"
static ObjBoundMethod bm; static Obj *bm_callable; static ObjInstance *bm_inst; static int nbm;
ObjBoundMethod *cvs_newBoundMethod(ObjInstance *receiver, Obj *callable, int flags) { bm_inst = receiver; bm_callable = callable; nbm++; return &bm; }
#define SHAPES(call) { int sh = (int)cv_range(0, NSHAPES - 1); for (int s = 0; s < NSHAPES; s++) if (s == sh) { mro_build(s); call; CV_REACH("end"); } }
static enum MethodType mt;
#ifndef HALF
#define HALF 0
#endif
static void lookup(bool given) {
    Value r = NIL_VAL;
    for (int i = 0; i < norder; i++) {
        if (given && chain[i] != TO_OBJ(&kK) && chain[i] != TO_OBJ(&kB)) continue;
        if (!given && (i & 1) != HALF) continue;
        bool ok = lookupMethod(&obj0, chain[i], &mname, mt, &r, given);
        int want = mro_find(given ? (chain[i] == TO_OBJ(&kK) ? 0 : i) : i + 1);
        CV_CHECK("found-when-defined", ok == (want >= 0));
        CV_CHECK("first-definition-in-lookup-order", !ok || r == mval[want < 0 ? 0 : want]);
    }
}
static void lookup_init(void) { mro_init(); mt = METHOD_TYPE_METHOD; table_kind = tm; }
void h_lookup(void) { lookup_init(); SHAPES(lookup(true)) }
//@ob lookup fns=lookupMethod
void h_lookup_super(void) { lookup_init(); SHAPES(lookup(false)) }
//@ob lookup_super0 entry=h_lookup_super defs=HALF=0 fns=lookupMethod
//@ob lookup_super1 entry=h_lookup_super defs=HALF=1 fns=lookupMethod
static void findm(void) {
    for (int i = 0; i < norder; i++) {
        Obj *r = findMethod(chain[i], &mname); int want = mro_find(i);
        CV_CHECK("first-definition-from-there", r == (want < 0 ? NULL : TO_OBJ(&meth[want])));
    }
}
void h_findmethod(void) { lookup_init(); SHAPES(findm()) }
//@ob findmethod fns=findMethod
/* super in a method found at position p of the lookup order */
static int gp; static void *cr[1];
void cv_on_throw2(void) {}
static void get_super(int sh, int p) {
    mro_build(sh);
    if (p >= norder) return;
    frames0[0].ip = code0; ec0.stackTop = stack0 + 2; nbm = 0; th0.thisObj = TO_OBJ(&obj0);
    fn0.klass = chain[p]->type == OBJ_T_ICLASS ? TO_OBJ(((ObjIClass *)chain[p])->mod) : chain[p];
    int want = mro_find(p + 1);
    cv_may_throw = want < 0;
    InterpretResult r = vm_run();
    CV_CHECK("an-error-when-there-is-none", want >= 0);
    CV_CHECK("instruction-completes", r == INTERPRET_OK && vmh_ip() == 2 && ec0.frameCount == 1);
    CV_CHECK("pushes-one-method-bound-to-this", ec0.stackTop == stack0 + 3 && nbm == 1 && bm_inst == &obj0 && stack0[2] == OBJ_VAL(&bm));
    CV_CHECK("the-next-definition", bm_callable == TO_OBJ(&meth[want < 0 ? 0 : want]));
    CV_REACH("end");
}
#ifndef P
#define P 0
#endif
void h_get_super(void) {
    lookup_init(); vmh_init(OP_GET_SUPER); constvals0[1] = OBJ_VAL(&mname); code0[1] = 1; vmh_obj(&bm, OBJ_T_BOUND_METHOD, false); OBJ_VAL(&bm); OBJ_VAL(&obj0);
    switch (cv_range(0, 4)) {
    case 0: get_super(2, P); break; case 1: get_super(4, P); break; case 2: get_super(6, P); break; case 3: get_super(7, P); break; default: get_super(8, P); break;
    }
}
//@ob get_super0 entry=h_get_super defs=P=0 fns=vm_run,lookupMethod
//@ob get_super1 entry=h_get_super defs=P=1 fns=vm_run,lookupMethod
//@ob get_super2 entry=h_get_super defs=P=2 fns=vm_run,lookupMethod
//@ob get_super3 entry=h_get_super defs=P=3 fns=vm_run,lookupMethod
