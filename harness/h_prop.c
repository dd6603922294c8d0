/* Contracts of properties (C16) and of frozen objects (C11, C16). */
//@default props=C16 src=vm.c link=value.c,debugger.c stubs=isOnlyThread,vmCheckInts,tableGet,tableSet,objWrite,newBoundMethod,instanceFindGetter,instanceFindSetter,instanceFindMethod,callVMMethod,typeOfObj trust=no-interrupt-pending unwind=26 flags=--no-pointer-check,--no-bounds-check level=proof
#define CV_OWN_ON_THROW
#include "vmh.h"
static Table fields; static ObjBoundMethod bm; static Value field_v, got_v, set_v; static bool has_field; static Obj *getter, *setter, *method;
static int nget, nset, ncall, nbm; static Value stored, keyv;
void cv_on_throw(void) { CV_CHECK("nothing-changed-before-the-error", nset == 0 && ncall == 0); }
bool cvs_tableGet(Table *t, Value key, Value *value) { CV_CHECK("the-property-of-this-object", t == &fields && key == keyv); if (!has_field) return false; *value = field_v; return true; }
bool cvs_tableSet(Table *t, Value key, Value value) { CV_CHECK("stores-the-property-of-this-object", t == &fields && key == keyv); nset++; stored = value; return true; }
static bool noted_key, noted_val; static Value X; void cvs_objWrite(Value owner, Value val) { if (val == keyv) noted_key = true; if (val == X) noted_val = true; CV_CHECK("write-noted-for-this-object", owner == OBJ_VAL(&o_inst)); }
ObjBoundMethod *cvs_newBoundMethod(ObjInstance *receiver, Obj *callable, int flags) { CV_CHECK("method-bound-to-the-object", receiver == &o_inst && callable == method); nbm++; return &bm; }
Obj *cvs_instanceFindGetter(ObjInstance *o, ObjString *n) { CV_CHECK("getter-of-this-object", o == &o_inst && n == &o_name); return getter; }
Obj *cvs_instanceFindSetter(ObjInstance *o, ObjString *n) { CV_CHECK("setter-of-this-object", o == &o_inst && n == &o_name); return setter; }
Obj *cvs_instanceFindMethod(ObjInstance *o, ObjString *n) { CV_CHECK("method-of-this-object", o == &o_inst && n == &o_name); return method; }
const char *cvs_typeOfObj(Obj *o) { return "object"; }
Value cvs_callVMMethod(ObjInstance *o, Value callable, int argCount, Value *args, CallInfo *cinfo) {
    CV_CHECK("called-on-the-object", o == &o_inst && ncall == 0);
    ncall++;
    if (argCount == 0) CV_CHECK("getter-called", getter && callable == OBJ_VAL(getter) );
    else { CV_CHECK("setter-called-with-the-value", argCount == 1 && setter && callable == OBJ_VAL(setter)); set_v = args[0]; }
    *ec0.stackTop++ = got_v;
    return got_v;
}
static void prop_init(bytecode_t op) {
    vmh_init(op);
    vmh_obj(&bm, OBJ_T_BOUND_METHOD, false); OBJ_VAL(&bm);
    o_inst.fields = &fields; keyv = OBJ_VAL(&o_name); constvals0[1] = keyv; code0[1] = 1;
    field_v = vmh_value(); got_v = vmh_value(); has_field = cv_bool();
    getter = cv_bool() ? TO_OBJ(&o_nat) : NULL; setter = cv_bool() ? TO_OBJ(&o_nat) : NULL; method = cv_bool() ? TO_OBJ(&o_clo) : NULL;
}
void h_prop_get(void) {
    prop_init(OP_PROP_GET);
    vmh_push(OBJ_VAL(&o_inst));
    if (cv_bool()) o_inst.object.flags |= OBJ_FLAG_FROZEN;
    InterpretResult r = vmh_step();
    CV_REACH("end");
    vmh_done(r, 2);
    CV_CHECK("object-replaced-by-the-value", vmh_depth() == 1);
    Value want = has_field ? field_v : getter ? got_v : method ? OBJ_VAL(&bm) : NIL_VAL;
    CV_CHECK("field-then-getter-then-method-then-nil", vmh_at(0) == want);
    CV_CHECK("getter-called-only-when-needed", ncall == (!has_field && getter ? 1 : 0) && nbm == (!has_field && !getter && method ? 1 : 0));
    CV_CHECK("reading-changes-nothing", nset == 0);
}
//@ob prop_get fns=vm_run,propertyGet
static bool frozen;
void h_prop_set(void) {
    prop_init(OP_PROP_SET);
    frozen = cv_bool(); if (frozen) o_inst.object.flags |= OBJ_FLAG_FROZEN;
    X = vmh_value(); vmh_push(OBJ_VAL(&o_inst)); vmh_push(X);
    cv_may_throw = frozen;
    InterpretResult r = vmh_step();
    CV_REACH("end");
    CV_CHECK("frozen-object-rejected", !frozen);
    vmh_done(r, 2);
    CV_CHECK("value-of-the-assignment-stays", vmh_depth() == 1 && vmh_at(0) == X);
    if (setter) CV_CHECK("setter-instead-of-field", ncall == 1 && set_v == X && nset == 0);
    else CV_CHECK("field-stored", ncall == 0 && nset == 1 && stored == X);
    if (!setter) CV_CHECK("stored-object-is-noted-for-the-collector", (!IS_OBJ(X) || noted_val) && noted_key);
}
//@ob prop_set props=C16,C22 fns=vm_run,propertySet
#ifndef OP
#define OP OP_PROP_GET
#endif
/* a property of something that has none */
void h_prop_get_bad(void) {
    prop_init(OP);
    Value v = vmh_value(); CV_ASSUME(!IS_OBJ(v) || v == OBJ_VAL(&o_clo) || v == OBJ_VAL(&o_nat) || v == OBJ_VAL(&o_bnd));
    vmh_push(v); if (OP == OP_PROP_SET) { vmh_push(NIL_VAL); }
    cv_may_throw = 1; cv_throw_class = &c_type;
    CV_REACH("start");
    vmh_step();
    CV_CHECK("type-error-raised", 0);
}
//@ob prop_get_bad defs=OP=OP_PROP_GET fns=vm_run
//@ob prop_set_bad entry=h_prop_get_bad defs=OP=OP_PROP_SET fns=vm_run
