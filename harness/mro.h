/* mro.h: a class hierarchy with included modules, and the order in which methods are looked up in it.
 * obj is an instance of K; K < B < O.  Modules are included (by the real setupIClass) in K, in B and in the
 * singleton class of obj. */
#ifndef MRO_H
#define MRO_H
static ObjClass kO, kB, kK, kS; static ClassInfo iO, iB, iK, iS, iM[4]; static ObjModule mM[4]; static ObjIClass ic[4]; static ObjInstance obj0;
#define NT 8 /* method tables: 0..3 modules, 4 singleton, 5 K, 6 B, 7 O */
static Table tm[NT], tg[NT], ts[NT]; static Table *table_kind; static bool has[NT]; static ObjNative meth[NT];
static int order[NT + 1], norder, first_of_class; /* tables in lookup order */
static Obj *chain[NT + 1]; /* the class or included module each belongs to */
void cvs_objWrite(Value owner, Value val) {}
static ClassInfo *mro_info(int t) { return t < 4 ? &iM[t] : t == 4 ? &iS : t == 5 ? &iK : t == 6 ? &iB : &iO; }
static void mro_class(ObjClass *c, ClassInfo *i, int t, Obj *super) {
    c->object.type = OBJ_T_CLASS; c->object.flags = OBJ_FLAG_INSTANCE_LIKE; c->classInfo = i;
    i->superclass = super; i->methods = &tm[t]; i->getters = &tg[t]; i->setters = &ts[t]; i->singletonOf = NULL; i->name = NULL;
}
static void mro_include(int m, ObjClass *c) {
    mM[m].object.type = OBJ_T_MODULE; mM[m].classInfo = &iM[m]; iM[m].methods = &tm[m]; iM[m].getters = &tg[m]; iM[m].setters = &ts[m]; iM[m].superclass = NULL;
    ic[m].object.type = OBJ_T_ICLASS; ic[m].klass = c; ic[m].mod = &mM[m]; ic[m].superklass = NULL; ic[m].isSetup = false;
    setupIClass(&ic[m]);
}
static void mro_add(int t, Obj *o) { chain[norder] = o; order[norder++] = t; }
#define NSHAPES 9
static const struct { bool sing; int nS, nK, nB; } shapes[NSHAPES] = { {0,0,0,0}, {0,0,1,0}, {0,0,2,0}, {0,0,0,1}, {0,0,1,1}, {1,0,0,0}, {1,1,0,0}, {1,0,1,1}, {1,1,2,0} };
static void mro_build(int sh) {
    norder = 0;
    mro_class(&kO, &iO, 7, NULL); mro_class(&kB, &iB, 6, TO_OBJ(&kO)); mro_class(&kK, &iK, 5, TO_OBJ(&kB)); mro_class(&kS, &iS, 4, TO_OBJ(&kK));
    obj0.object.type = OBJ_T_INSTANCE; obj0.object.flags = OBJ_FLAG_INSTANCE_LIKE; obj0.klass = &kK; obj0.singletonKlass = shapes[sh].sing ? &kS : NULL;
    int m = 0, s0 = 0, k0, b0;
    for (int i = 0; i < shapes[sh].nS; i++) mro_include(m++, &kS);
    k0 = m; for (int i = 0; i < shapes[sh].nK; i++) mro_include(m++, &kK);
    b0 = m; for (int i = 0; i < shapes[sh].nB; i++) mro_include(m++, &kB);
    if (shapes[sh].sing) mro_add(4, TO_OBJ(&kS));
    for (int i = k0 - 1; i >= s0; i--) mro_add(i, TO_OBJ(&ic[i]));
    first_of_class = norder;
    mro_add(5, TO_OBJ(&kK));
    for (int i = b0 - 1; i >= k0; i--) mro_add(i, TO_OBJ(&ic[i]));
    mro_add(6, TO_OBJ(&kB));
    for (int i = m - 1; i >= b0; i--) mro_add(i, TO_OBJ(&ic[i]));
    mro_add(7, TO_OBJ(&kO));
}
static ObjString mname; static Value mkey, mval[NT];
/* contract of tableGet: any set of the tables has the name looked up */
bool cvs_tableGet(Table *t, Value key, Value *value) {
    CV_CHECK("looks-up-the-given-name", key == mkey);
    CV_CHECK("looks-in-the-tables-of-this-kind", t >= table_kind && t < table_kind + NT);
    int k = (int)(t - table_kind);
    if (!has[k]) return false;
    *value = mval[k];
    return true;
}
static void mro_init(void) {
    mname.object.type = OBJ_T_STRING; mkey = OBJ_VAL(&mname);
    for (int i = 0; i < NT; i++) { has[i] = cv_bool(); meth[i].object.type = OBJ_T_NATIVE_FUNCTION; mval[i] = OBJ_VAL(&meth[i]); }
}
/* the table of the first definition at or after position p of the lookup order, or -1 */
static int mro_find(int p) { for (int i = 0; i < norder; i++) if (i >= p && has[order[i]]) return order[i]; return -1; }
static int mro_pos(Obj *o) { for (int i = 0; i < norder; i++) if (chain[i] == o) return i; return -1; }
#endif
