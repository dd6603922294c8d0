/* Contracts of the Map methods (C06), over the contracts of the hash table: here a table finds, stores and
 * deletes by searching all its slots (h_table.c shows that the real one behaves so). */
//@default props=C06 src=map.c link=object.c,value.c,memory.c,runtime.c,vm.c stubs=tableGet,tableSet,tableDelete,callSuper,newMap,newArray,arrayPush,callMethod,valEqual,initTableWithCapa,freeTable,tableCapacity,reallocate,pushRememberSet,internedString unwind=8 fns=map.c
#include "map.c"
#include "cv_stubs.h"
#include "objh.h"
#define CAP 6 /* slots; a map given to a method has its entries in the first USED of them */
#define USED 3
static bool streq; static Value v_str, v_str2; /* the two strings are equal */
static unsigned cls(Value k) { return (unsigned)((streq && k == v_str2 ? v_str : k) & 7); }
bool cvs_valEqual(Value a, Value b) { return a != UNDEF_VAL && b != UNDEF_VAL && cls(a) == cls(b); }
static bool full(Table *t, int i) { return t->entries[i].key != UNDEF_VAL; }
static int slot(Table *t, Value k) { int r = -1; for (int i = 0; i <= t->capacityMask; i++) if (full(t, i) && cls(t->entries[i].key) == cls(k)) r = i; return r; }
bool cvs_tableGet(Table *t, Value k, Value *v) { int i = slot(t, k); if (i < 0) return false; *v = t->entries[i].value; return true; }
static int sets; static Table *set_to;
bool cvs_tableSet(Table *t, Value k, Value v) {
    sets++; set_to = t; CV_CHECK("stores-a-real-key", k != UNDEF_VAL);
    int i = slot(t, k);
    if (i >= 0) { t->entries[i].key = k; t->entries[i].value = v; return false; }
    int at = -1;
    for (int j = 0; j < CAP; j++) if (at < 0 && !full(t, j)) at = j;
    CV_CHECK("room", at >= 0);
    t->entries[at].key = k; t->entries[at].value = v; t->count++;
    return true;
}
bool cvs_tableDelete(Table *t, Value k) {
    int i = slot(t, k); if (i < 0) return false;
    t->entries[i].key = UNDEF_VAL; t->entries[i].value = NIL_VAL; t->count--; return true;
}
static Entry e_M[CAP], e_N[CAP], e_F[CAP], e_G[CAP];
static void empty(Table *t, Entry *e) { t->entries = e; t->count = 0; t->capacityMask = CAP - 1; for (int i = 0; i < CAP; i++) { e[i].key = UNDEF_VAL; e[i].value = NIL_VAL; } }
void cvs_freeTable(Table *t) { empty(t, t->entries); }
void cvs_initTableWithCapa(Table *t, size_t c) { empty(t, e_G); }
size_t cvs_tableCapacity(Table *t) { return CAP; }
void *cvs_reallocate(void *prev, size_t o, size_t n) { if (n == 0) return NULL; CV_CHECK("allocates-a-table", prev == NULL && n == sizeof(Table)); return malloc(sizeof(Table)); }
void cvs_pushRememberSet(Obj *o) {}
ObjString *cvs_internedString(char *c, size_t n, int flags) { return &o_name; }
static ObjMap M, N, F; static Table Mt, Nt, Ft, Ff; static ObjArray ary; static Value args[4], aryv[CAP + 1];
static int fresh_maps;
Value cvs_newMap(void) { fresh_maps++; vmh_obj(&F, OBJ_T_MAP, true); F.klass = &c_mapc; F.table = &Ft; F.fields = &Ff; empty(&Ft, e_F); return OBJ_VAL(&F); }
Value cvs_callSuper(int argCount, Value *a, CallInfo *ci) { return cvs_newMap(); }
/* Map#merge calls dup on the receiver */
Value cvs_callMethod(Obj *o, ObjString *name, int argCount, Value *a, CallInfo *ci) {
    CV_CHECK("dup-of-the-receiver", o == (Obj *)&M && argCount == 0);
    Value self = OBJ_VAL(&M);
    return lxMapDup(1, &self);
}
Value cvs_newArray(void) { vmh_obj(&ary, OBJ_T_ARRAY, true); ary.klass = &c_ary; ary.valAry.values = aryv; ary.valAry.count = 0; ary.valAry.capacity = CAP + 1; return OBJ_VAL(&ary); }
void cvs_arrayPush(Value a, Value el) { CV_CHECK("pushes-to-the-new-array", a == OBJ_VAL(&ary) && ary.valAry.count <= CAP); aryv[ary.valAry.count++] = el; }
static bool strs; static Value any_key(void) { if (strs && cv_bool()) return cv_bool() ? v_str : v_str2; return (Value)(cv_u64() & 15); }
static Value any_val(void) { if (strs && cv_bool()) return cv_bool() ? v_str : v_str2; return (Value)(cv_u64() & 255); }
static void any_table(Table *t, Entry *e) {
    empty(t, e);
    for (int i = 0; i < USED; i++) {
        bool in = cv_bool(); Value k = any_key(), v = any_val();
        for (int j = 0; j < i; j++) CV_ASSUME(!in || !full(t, j) || cls(t->entries[j].key) != cls(k));
        t->entries[i].key = in ? k : UNDEF_VAL; t->entries[i].value = in ? v : NIL_VAL; t->count += in;
    }
}
static Value q, v0, n0; static bool had, nhad; static int cnt0;
static void start(void) {
    obj_init(); lxMapClass = &c_mapc;
    vmh_obj(&M, OBJ_T_MAP, true); M.klass = &c_mapc; M.table = &Mt; any_table(&Mt, e_M);
    vmh_obj(&N, OBJ_T_MAP, true); N.klass = &c_mapc; N.table = &Nt; any_table(&Nt, e_N);
    OBJ_VAL(&M); OBJ_VAL(&N); OBJ_VAL(&F); OBJ_VAL(&ary);
    args[0] = OBJ_VAL(&M); q = any_key(); cnt0 = Mt.count;
    had = cvs_tableGet(&Mt, q, &v0); nhad = cvs_tableGet(&Nt, q, &n0);
    if (cv_bool()) OBJ_SET_FROZEN(&M);
    cv_throw_class = lxErrClass;
}
#define FROZEN OBJ_IS_FROZEN(&M)
#define MUTATES() cv_may_throw = FROZEN
#define DONE() do { CV_REACH("end"); CV_CHECK("a-frozen-map-is-not-modified", !cv_may_throw); } while (0)
static bool holds(Table *t, bool has, Value v) { Value w = 0; bool r = cvs_tableGet(t, q, &w); return r == has && (!has || w == v); }
#define M_KEPT CV_CHECK("receiver-unchanged", M.table == &Mt && Mt.count == cnt0 && holds(&Mt, had, v0))
#define N_KEPT CV_CHECK("argument-unchanged", N.table == &Nt && holds(&Nt, nhad, n0))
void h_map_get(void) {
    start(); args[1] = q;
    Value r = lxMapGet(2, args), h = lxMapHasKey(2, args);
    CV_REACH("end");
    CV_CHECK("value-of-the-key-or-nil", r == (had ? v0 : NIL_VAL));
    CV_CHECK("has-key", h == BOOL_VAL(had));
    CV_CHECK("size", lxMapGetSize(1, args) == NUMBER_VAL(cnt0));
    M_KEPT;
}
//@default level=bounded bound="maps of at most 3 entries, 8 distinct keys"
//@ob map_get
void h_map_set(void) {
    start(); MUTATES(); Value k = any_key(), v = any_val(); args[1] = k; args[2] = v;
    bool kin = slot(&Mt, k) >= 0;
    Value r = lxMapSet(3, args);
    DONE();
    CV_CHECK("returns-the-value", r == v);
    CV_CHECK("only-that-key-changes", cls(q) == cls(k) ? holds(&Mt, true, v) : holds(&Mt, had, v0));
    CV_CHECK("count", Mt.count == cnt0 + !kin);
}
//@ob map_set
void h_map_delete(void) {
    start(); MUTATES(); args[1] = any_key(); args[2] = any_key(); int n = (int)cv_range(1, 2);
    int want = slot(&Mt, args[1]) >= 0; if (n == 2 && cls(args[2]) != cls(args[1])) want += slot(&Mt, args[2]) >= 0;
    Value r = lxMapDelete(n + 1, args);
    DONE();
    bool gone = cls(q) == cls(args[1]) || (n == 2 && cls(q) == cls(args[2]));
    CV_CHECK("returns-how-many-keys-were-there", r == NUMBER_VAL(want) && Mt.count == cnt0 - want);
    CV_CHECK("only-those-keys-removed", holds(&Mt, had && !gone, v0));
}
//@ob map_delete
void h_map_clear(void) {
    start(); MUTATES();
    Value r = lxMapClear(1, args);
    DONE();
    CV_CHECK("empty", r == args[0] && Mt.count == 0 && slot(&Mt, q) < 0);
}
//@ob map_clear
static void keys_vals(bool keys) {
    start();
    Value r = keys ? lxMapKeys(1, args) : lxMapValues(1, args);
    CV_REACH("end");
    CV_CHECK("one-for-each-entry", r == OBJ_VAL(&ary) && ary.valAry.count == cnt0);
    int k = 0;
    for (int i = 0; i < CAP; i++) if (full(&Mt, i)) { CV_CHECK("every-key-or-value", aryv[k] == (keys ? Mt.entries[i].key : Mt.entries[i].value)); k++; }
    M_KEPT;
}
void h_map_keys(void) { keys_vals(true); }
void h_map_values(void) { keys_vals(false); }
//@ob map_keys
//@ob map_values
void h_map_dup(void) {
    start();
    Value r = lxMapDup(1, args);
    CV_REACH("end");
    CV_CHECK("a-new-map", r == OBJ_VAL(&F) && F.table != &Mt && F.table->entries != Mt.entries);
    CV_CHECK("same-entries", F.table->count == cnt0 && holds(F.table, had, v0));
    M_KEPT;
}
//@ob map_dup
/* mapDup is what evaluating a map literal does */
void h_map_dup_literal(void) {
    start();
    Value r = mapDup(args[0]);
    CV_REACH("end");
    CV_CHECK("a-new-map", r == OBJ_VAL(&F));
    CV_CHECK("same-entries", F.table->count == cnt0 && holds(F.table, had, v0));
    M_KEPT;
}
//@ob map_dup_literal
void h_map_merge(void) {
    start(); bool map = cv_bool(); args[1] = map ? OBJ_VAL(&N) : NUMBER_VAL(3);
    cv_may_throw = !map; cv_throw_class = NULL;
    Value r = lxMapMerge(2, args);
    CV_REACH("end");
    CV_CHECK("only-maps-can-be-merged", map);
    CV_CHECK("a-new-map", r == OBJ_VAL(&F) && F.table != &Mt && F.table != &Nt);
    CV_CHECK("entries-of-both-the-argument-winning", holds(F.table, had || nhad, nhad ? n0 : v0));
    M_KEPT; N_KEPT;
}
//@ob map_merge
void h_map_merge_with(void) {
    start(); bool map = cv_bool(); args[1] = map ? OBJ_VAL(&N) : NUMBER_VAL(3);
    cv_may_throw = !map || FROZEN; cv_throw_class = NULL;
    Value r = lxMapMergeWith(2, args);
    CV_REACH("end");
    CV_CHECK("only-maps-and-only-into-an-unfrozen-one", !cv_may_throw);
    CV_CHECK("returns-the-receiver", r == args[0] && M.table == &Mt);
    CV_CHECK("entries-of-both-the-argument-winning", holds(&Mt, had || nhad, nhad ? n0 : v0));
    N_KEPT;
}
//@ob map_merge_with
void h_map_slice(void) {
    start(); args[1] = any_key(); args[2] = any_key(); int n = (int)cv_range(1, 2);
    Value r = lxMapSlice(n + 1, args);
    CV_REACH("end");
    bool asked = cls(q) == cls(args[1]) || (n == 2 && cls(q) == cls(args[2]));
    CV_CHECK("a-new-map-of-the-keys-asked-for", r == OBJ_VAL(&F) && holds(F.table, had && asked, v0));
    M_KEPT;
}
//@ob map_slice
void h_map_equals(void) {
    start(); int c = (int)cv_range(0, 2); args[1] = c == 0 ? OBJ_VAL(&N) : c == 1 ? args[0] : NUMBER_VAL(1);
    bool want = Mt.count == Nt.count;
    for (int i = 0; i < CAP; i++) if (full(&Mt, i)) { Value w; if (!cvs_tableGet(&Nt, Mt.entries[i].key, &w) || !cvs_valEqual(Mt.entries[i].value, w)) want = false; }
    Value r = lxMapEquals(2, args);
    CV_REACH("end");
    CV_CHECK("equal-iff-same-keys-with-equal-values", r == BOOL_VAL(c == 0 ? want : c == 1));
    M_KEPT; N_KEPT;
}
//@ob map_equals
void h_map_rehash(void) {
    start(); MUTATES();
    Value r = lxMapRehash(1, args);
    DONE();
    CV_CHECK("same-entries", r == args[0] && M.table->count == cnt0 && holds(M.table, had, v0));
}
//@ob map_rehash
/* Map([[k, v], ...]) */
void h_map_init(void) {
    start(); OBJ_UNSET_FROZEN(&M); empty(&Mt, e_M);
    static ObjArray outer, in1, in2; static Value ov[2], v1[3], v2[3];
    vmh_obj(&outer, OBJ_T_ARRAY, true); vmh_obj(&in1, OBJ_T_ARRAY, true); vmh_obj(&in2, OBJ_T_ARRAY, true); outer.klass = in1.klass = in2.klass = lxAryClass = &c_ary;
    int n = (int)cv_range(0, 2), l1 = (int)cv_range(1, 3), l2 = (int)cv_range(1, 3);
    ov[0] = OBJ_VAL(&in1); ov[1] = OBJ_VAL(&in2); outer.valAry.values = ov; outer.valAry.count = n; outer.valAry.capacity = 2;
    v1[0] = any_key(); v1[1] = any_val(); v2[0] = any_key(); v2[1] = any_val();
    in1.valAry.values = v1; in1.valAry.count = l1; in2.valAry.values = v2; in2.valAry.count = l2;
    cv_may_throw = (n > 0 && l1 != 2) || (n > 1 && l2 != 2); cv_throw_class = NULL;
    bool bare = cv_bool(); args[1] = OBJ_VAL(&outer);
    if (bare) { cv_may_throw = 0; n = 0; }
    Value r = lxMapInit(bare ? 1 : 2, args);
    CV_REACH("end");
    CV_CHECK("pairs-only", !cv_may_throw);
    bool in2nd = n > 1 && cls(v2[0]) == cls(q), in1st = n > 0 && cls(v1[0]) == cls(q);
    CV_CHECK("holds-the-pairs-given-the-last-winning", r == args[0] && holds(&Mt, in1st || in2nd, in2nd ? v2[1] : v1[1]));
}
//@ob map_init bound="at most 2 pairs"

/* equal maps hash alike, C09 */
uint32_t cvs_valHash(Value v) { return 0x80000001u << cls(v); }
void h_map_hash(void) {
    streq = cv_bool(); strs = true; v_str = OBJ_VAL(&o_str); v_str2 = OBJ_VAL(&o_str2); start();
    o_str.length = (size_t)cv_range(0, 1 << 20); o_str2.length = (size_t)cv_range(0, 1 << 20); o_str.hash = cv_u32(); o_str2.hash = cv_u32();
    for (int i = 0; i < USED; i++) if (full(&Mt, i)) { Value w = 0; CV_ASSUME(cvs_tableGet(&Nt, Mt.entries[i].key, &w)); CV_ASSUME(cvs_valEqual(Mt.entries[i].value, w)); }
    CV_ASSUME(Mt.count == Nt.count);
    Value a1[1] = { OBJ_VAL(&M) }, b1[1] = { OBJ_VAL(&N) };
    Value x = lxMapHashKey(1, a1), y = lxMapHashKey(1, b1);
    CV_REACH("end");
    CV_CHECK("equal-maps-hash-alike", IS_NUMBER(x) && x == y);
}
//@ob map_hash props=C09 stubs+=valHash flags=--no-pointer-check,--no-bounds-check
