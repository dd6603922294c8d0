/* Contracts of method lookup, inheritance and module inclusion (C16). */
//@default props=C16 src=object.c link= level=bounded bound="classes K < B < Object with up to 3 modules included in them and in a singleton class, in 9 arrangements; every subset of them defining the name" unwind=12 flags=--no-pointer-check,--no-bounds-check stubs=tableGet,objWrite
#include "object.c"
#include "cv_stubs.h"
#include "mro.h"
#define SHAPES(call) { int sh = (int)cv_range(0, NSHAPES - 1); for (int s = 0; s < NSHAPES; s++) if (s == sh) { mro_build(s); call; CV_REACH("end"); } }
static void found(Obj *r, int p) {
    int want = mro_find(p);
    CV_CHECK("first-definition-in-lookup-order", r == (want < 0 ? NULL : TO_OBJ(&meth[want])));
}
void h_find_method(void) { mro_init(); table_kind = tm; SHAPES(found(instanceFindMethod(&obj0, &mname), 0)) }
//@ob find_method fns=instanceFindMethod,setupIClass
void h_find_getter(void) { mro_init(); table_kind = tg; SHAPES(found(instanceFindGetter(&obj0, &mname), 0)) }
//@ob find_getter fns=instanceFindGetter
void h_find_setter(void) { mro_init(); table_kind = ts; SHAPES(found(instanceFindSetter(&obj0, &mname), 0)) }
//@ob find_setter fns=instanceFindSetter
static void is_a(void) {
    ObjClass other; mro_class(&other, &iM[3], 3, TO_OBJ(&kO));
    CV_CHECK("instance-of-its-class-and-those-above", instanceIsA(&obj0, &kK) && instanceIsA(&obj0, &kB) && instanceIsA(&obj0, &kO));
    CV_CHECK("not-of-another-class", !instanceIsA(&obj0, &other));
    CV_CHECK("subclass-of-those-above", isSubclass(&kK, &kK) && isSubclass(&kK, &kB) && isSubclass(&kK, &kO) && isSubclass(&kB, &kO) && isSubclass(&kO, &kO));
    CV_CHECK("not-of-those-below", !isSubclass(&kB, &kK) && !isSubclass(&kO, &kK) && !isSubclass(&kO, &kB) && !isSubclass(&kK, &other) && !isSubclass(&other, &kB));
}
void h_is_a(void) { mro_init(); SHAPES(is_a()) }
//@ob is_a fns=instanceIsA,isSubclass
/* static methods: the singleton classes of the class and of those above it (and of modules included), then class Class and Object */
static ObjClass sK, sB, kCls; static ClassInfo i_sK, i_sB, iCls; static bool with_sK, with_sB;
static void find_static(void) {
    /* tables: 5 singleton of K, 6 singleton of B, 4 class Class, 7 Object */
    mro_class(&sK, &i_sK, 5, TO_OBJ(&kB)); mro_class(&sB, &i_sB, 6, TO_OBJ(&kO)); mro_class(&kCls, &iCls, 4, TO_OBJ(&kO));
    kK.klass = &kCls; kB.klass = &kCls; kO.klass = &kCls;
    kK.singletonKlass = with_sK ? &sK : NULL; kB.singletonKlass = with_sB ? &sB : NULL; kO.singletonKlass = NULL;
    for (int i = 0; i < 4; i++) mM[i].singletonKlass = NULL;
    Obj *r = classFindStaticMethod(&kK, &mname);
    int want = with_sK && has[5] ? 5 : with_sB && has[6] ? 6 : has[4] ? 4 : has[7] ? 7 : -1;
    CV_CHECK("first-static-definition", r == (want < 0 ? NULL : TO_OBJ(&meth[want])));
}
void h_find_static(void) { mro_init(); table_kind = tm; with_sK = cv_bool(); with_sB = cv_bool(); SHAPES(find_static()) }
//@ob find_static fns=classFindStaticMethod
