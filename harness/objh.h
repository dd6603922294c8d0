/* objh.h: objects and values for the harnesses */
#ifndef OBJH_H
#define OBJH_H
#include "cv.h"
#include "object.h"
#include "vm.h"
#include "runtime.h"
#include "memory.h"
#include "compiler.h"
static LxThread th0; static VMExecContext ec0;
/* objects a symbolic value may point to: one of each kind that the interpreter distinguishes */
static ObjString o_str, o_str2; static ObjInstance o_inst; static ObjClass o_cls; static ObjModule o_mod; static ObjArray o_ary; static ObjMap o_map;
static ObjClosure o_clo; static ObjNative o_nat; static ObjBoundMethod o_bnd; static ObjFunction o_fun;
static ClassInfo o_cinfo, o_minfo, o_kinfo;
static ObjClass o_kls; /* the class of o_inst */
static char s_chars[4] = "st", s2_chars[4] = "su", n_chars[8] = "name";
static ObjString o_name, s_add, s_diff, s_mul, s_div, s_shl, s_shr, s_idxget, s_idxset, s_eq, s_cmp, s_init;
static ObjClass c_err, c_type, c_name, c_arg, c_obj, c_strc, c_ary, c_mapc, c_iter, c_modc, c_clsc;

static void vmh_obj(void *o, ObjType t, bool instLike) { ((Obj *)o)->type = t; ((Obj *)o)->flags = instLike ? OBJ_FLAG_INSTANCE_LIKE : 0; }
static void vmh_name(ObjString *s, char *c, size_t len) { vmh_obj(s, OBJ_T_STRING, true); s->chars = c; s->length = len; s->capacity = len; s->klass = &c_strc; }
static void vmh_class(ObjClass *c) { vmh_obj(c, OBJ_T_CLASS, true); c->klass = &c_clsc; c->classInfo = &o_kinfo; }

#define VMH_NPOOL 10
static Value vmh_pool(int k);
static void vmh_objects(void) {
    vmh_name(&o_str, s_chars, 2); vmh_name(&o_str2, s2_chars, 2); vmh_name(&o_name, n_chars, 4);
    vmh_name(&s_add, "opAdd", 5); vmh_name(&s_diff, "opDiff", 6); vmh_name(&s_mul, "opMul", 5); vmh_name(&s_div, "opDiv", 5);
    vmh_name(&s_shl, "opShovelLeft", 12); vmh_name(&s_shr, "opShovelRight", 13);
    vmh_name(&s_idxget, "opIndexGet", 10); vmh_name(&s_idxset, "opIndexSet", 10); vmh_name(&s_eq, "opEquals", 8); vmh_name(&s_cmp, "opCmp", 5);
    vmh_name(&s_init, "init", 4);
    vm.opAddString = &s_add; vm.opDiffString = &s_diff; vm.opMulString = &s_mul; vm.opDivString = &s_div;
    vm.opShovelLString = &s_shl; vm.opShovelRString = &s_shr; vm.opIndexGetString = &s_idxget; vm.opIndexSetString = &s_idxset;
    vm.opEqualsString = &s_eq; vm.opCmpString = &s_cmp; vm.initString = &s_init;
    o_kinfo.name = &o_name; o_cinfo.name = &o_name; o_minfo.name = &o_name;
    vmh_class(&c_err); vmh_class(&c_type); vmh_class(&c_name); vmh_class(&c_arg); vmh_class(&c_obj); vmh_class(&c_strc); vmh_class(&c_ary);
    vmh_class(&c_mapc); vmh_class(&c_iter); vmh_class(&c_modc); vmh_class(&c_clsc); vmh_class(&o_kls);
    lxErrClass = &c_err; lxTypeErrClass = &c_type; lxNameErrClass = &c_name; lxArgErrClass = &c_arg; lxObjClass = &c_obj; lxStringClass = &c_strc;
    lxAryClass = &c_ary; lxMapClass = &c_mapc; lxIteratorClass = &c_iter; lxModuleClass = &c_modc; lxClassClass = &c_clsc;
    vmh_obj(&o_inst, OBJ_T_INSTANCE, true); o_inst.klass = &o_kls;
    vmh_obj(&o_cls, OBJ_T_CLASS, true); o_cls.klass = &c_clsc; o_cls.classInfo = &o_cinfo;
    vmh_obj(&o_mod, OBJ_T_MODULE, true); o_mod.klass = &c_modc; o_mod.classInfo = &o_minfo;
    vmh_obj(&o_ary, OBJ_T_ARRAY, true); o_ary.klass = &c_ary;
    vmh_obj(&o_map, OBJ_T_MAP, true); o_map.klass = &c_mapc;
    vmh_obj(&o_clo, OBJ_T_CLOSURE, false); o_clo.function = &o_fun;
    vmh_obj(&o_fun, OBJ_T_FUNCTION, false); o_fun.name = &o_name;
    vmh_obj(&o_nat, OBJ_T_NATIVE_FUNCTION, false); o_nat.name = &o_name;
    vmh_obj(&o_bnd, OBJ_T_BOUND_METHOD, false); o_bnd.callable = (Obj *)&o_clo;
    for (int i = 0; i < VMH_NPOOL; i++) vmh_pool(i); /* number the objects */
}
static Value vmh_pool(int k) {
    switch (k) {
    case 0: return OBJ_VAL(&o_str); case 1: return OBJ_VAL(&o_str2); case 2: return OBJ_VAL(&o_inst); case 3: return OBJ_VAL(&o_cls); case 4: return OBJ_VAL(&o_mod);
    case 5: return OBJ_VAL(&o_ary); case 6: return OBJ_VAL(&o_map); case 7: return OBJ_VAL(&o_clo); case 8: return OBJ_VAL(&o_nat); default: return OBJ_VAL(&o_bnd);
    }
}
/* an arbitrary number: every bit pattern which is not tagged */
static double vmh_number(void) {
    double d = cv_double();
    union { double d; uint64_t u; } x; x.d = d;
    CV_ASSUME((x.u & QNAN) != QNAN);
    return d;
}
/* an arbitrary lox value */
static Value vmh_value(void) {
    long k = cv_range(0, 3 + VMH_NPOOL);
    if (k == 0) return NIL_VAL;
    if (k == 1) return TRUE_VAL;
    if (k == 2) return FALSE_VAL;
    if (k == 3) return NUMBER_VAL(vmh_number());
    return vmh_pool((int)k - 4);
}

extern volatile pthread_t GVLOwner;
/* a thread that owns the lock, outside a collection; for functions called directly */
static CallFrame frame_n; static CallInfo ci_n;
static void obj_init(void) {
    vmh_objects(); ec0.frames = &frame_n; ec0.frameCount = 1; ec0.frames_capa = 1; frame_n.callInfo = &ci_n; frame_n.isCCall = true;
    vm.curThread = &th0; vm.mainThread = &th0; th0.ec = &ec0; th0.tid = GVLOwner; vm.inited = true;
}
#endif
