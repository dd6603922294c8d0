/* Contracts of arrays (C07): sequences with mutation at both ends and by position. */
//@default props=C07 src=array.c link=object.c,value.c,memory.c,runtime.c,vm.c stubs=pushRememberSet,callSuper,newArray,newInstance,valEqual,qsort,memmove,reallocate unwind=10 small=1 fns=array.c
#include "array.c"
#include "cv_stubs.h"
#include "objh.h"
#include "cv_valmem.h"
static Obj *remembered; static int n_remembered;
void cvs_pushRememberSet(Obj *o) { remembered = o; n_remembered++; }
static ObjArray A, B, fresh; static int fresh_used;
Value cvs_newArray(void) { CV_CHECK("one-new-array", !fresh_used); fresh_used = 1; vmh_obj(&fresh, OBJ_T_ARRAY, true); fresh.klass = &c_ary; initValueArray(&fresh.valAry); return OBJ_VAL(&fresh); }
ObjInstance *cvs_newInstance(ObjClass *klass, int flags) { CV_CHECK("class-of-new-array", klass == lxAryClass); cvs_newArray(); return (ObjInstance *)&fresh; }
static int super_calls;
Value cvs_callSuper(int argCount, Value *args, CallInfo *ci) { super_calls++; return cvs_newArray(); }
static uint64_t eqmask; /* an arbitrary equivalence: values that agree on these bits are equal */
static bool streq, strs; static Value v_str, v_str2; /* streq: the two strings are equal */
bool cvs_valEqual(Value a, Value b) { if (streq && a == v_str2) a = v_str; if (streq && b == v_str2) b = v_str; return a != UNDEF_VAL && ((a ^ b) & eqmask) == 0; }
static int (*cmp_)(const void *, const void *);
void cvs_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    CV_CHECK("sort-reorders-the-copy-only", base == (void *)fresh.valAry.values && n == (size_t)fresh.valAry.count && sz == sizeof(Value) && n == (size_t)A.valAry.count);
    cmp_ = cmp;
}
static int n0, c0; static Value *v0; static int w; static Value vw; static Value args[4]; static Value old_[8];
static Value any_el(void) {
    if (strs && cv_bool()) return cv_bool() ? v_str : v_str2;
    if (cv_bool()) return cv_bool() ? OBJ_VAL(&o_inst) : OBJ_VAL(&o_str);
    Value v = cv_u64(); CV_ASSUME(v != UNDEF_VAL && !IS_OBJ(v)); return v;
}
/* an array of at most maxn elements, or, bounded, of exactly n where maxn is -1-n; w is one of their positions and vw the element there */
static void mk(ObjArray *a, int maxn) {
    vmh_obj(a, OBJ_T_ARRAY, true); a->klass = lxAryClass;
    n0 = maxn < 0 ? -1 - maxn : (int)cv_range(0, maxn);
    c0 = maxn < 0 ? (n0 ? 4 : 0) : CV_PICK(maxn, (int)cv_range(n0, maxn + 1000));
    v0 = c0 ? malloc(sizeof(Value) * c0) : NULL;
    a->valAry.count = n0; a->valAry.capacity = c0; a->valAry.values = v0;
}
static void fill(ObjArray *a) { for (int i = 0; i < a->valAry.count; i++) a->valAry.values[i] = any_el(); }
#ifdef CV_SMALL
#define BIG 4
#define FILL(a) fill(a)
#elif defined CV_NATIVE
#define BIG 4
#define FILL(a) fill(a)
#else
#define BIG (1 << 24)
#define FILL(a)
#endif
static void start(int maxn) {
    obj_init(); lxAryClass = &c_ary;
    mk(&A, maxn); if (maxn < 0) fill(&A); else FILL(&A);
    w = (int)cv_range(0, maxn < 0 ? 4 : maxn); vw = 0;
    CV_ASSUME(w < n0 || (n0 == 0 && w == 0));
    if (n0) vw = v0[w];
    cv_block = v0; cv_watch_add(w); cv_watch_add(w + 1); cv_watch_add(w - 1);
    if (cv_bool()) OBJ_SET_FROZEN(&A);
    cv_throw_class = lxErrClass;
    args[0] = OBJ_VAL(&A); OBJ_VAL(&fresh); OBJ_VAL(&B);
}
/* the bounded obligations run once for each length, so that the length is a constant for the verifier */
static void bstart(int n) { start(-1 - n); for (int i = 0; i < n0; i++) old_[i] = v0[i]; }
#define BOUNDED(NAME, MAX) static void NAME##_b(int n); \
void NAME(void) { switch (cv_range(0, MAX)) { case 0: NAME##_b(0); break; case 1: NAME##_b(1); break; case 2: if ((MAX) >= 2) NAME##_b(2); break; \
    case 3: if ((MAX) >= 3) NAME##_b(3); break; default: if ((MAX) >= 4) NAME##_b(4); } } \
static void NAME##_b(int n)
#define FROZEN OBJ_IS_FROZEN(&A)
#define MUTATES() cv_may_throw = FROZEN
#define DONE() do { CV_REACH("end"); CV_CHECK("a-frozen-array-is-not-modified", !cv_may_throw); } while (0)
#define VA (A.valAry)
static void barrier(Value el) { if (IS_OBJ(el) && IS_YOUNG_VAL(el)) CV_CHECK("stored-object-remembered", n_remembered >= 1 && remembered == AS_OBJ(el)); }
void h_array_push(void) {
    start(BIG); MUTATES();
    Value el = vmh_value(); args[1] = el;
    Value r = lxArrayPush(2, args);
    DONE();
    CV_CHECK("count", VA.count == n0 + 1 && VA.capacity >= VA.count);
    CV_CHECK("appended-last", VA.values[n0] == el);
    CV_CHECK("others-unchanged", n0 == 0 || VA.values[w] == vw);
    CV_CHECK("returns-self", r == args[0]);
    barrier(el);
}
//@ob array_push
void h_array_push_front(void) {
    start(BIG); MUTATES();
    Value el = vmh_value(); args[1] = el;
    Value r = lxArrayPushFront(2, args);
    DONE();
    CV_CHECK("count", VA.count == n0 + 1 && VA.capacity >= VA.count);
    CV_CHECK("inserted-first", VA.values[0] == el);
    CV_CHECK("others-moved-up-by-one", n0 == 0 || VA.values[w + 1] == vw);
    CV_CHECK("returns-self", r == args[0]);
    barrier(el);
}
//@ob array_push_front
void h_array_pop(void) {
    start(BIG); MUTATES();
    Value last = n0 ? v0[n0 - 1] : NIL_VAL;
    Value r = lxArrayPop(1, args);
    DONE();
    CV_CHECK("returns-last-or-nil", r == last);
    CV_CHECK("count", VA.count == (n0 ? n0 - 1 : 0));
    CV_CHECK("others-unchanged", n0 == 0 || w == n0 - 1 || VA.values[w] == vw);
}
//@ob array_pop
void h_array_pop_front(void) {
    start(BIG); MUTATES();
    Value first = n0 ? v0[0] : NIL_VAL;
    Value r = lxArrayPopFront(1, args);
    DONE();
    CV_CHECK("returns-first-or-nil", r == first);
    CV_CHECK("count", VA.count == (n0 ? n0 - 1 : 0));
    CV_CHECK("others-moved-down-by-one", n0 == 0 || w == 0 || VA.values[w - 1] == vw);
}
//@ob array_pop_front
void h_array_delete_at(void) {
    start(BIG); MUTATES();
    int i = cv_int(); args[1] = NUMBER_VAL(i);
    bool in = i >= 0 && i < n0;
    Value at = in ? v0[i] : NIL_VAL;
    Value r = lxArrayDeleteAt(2, args);
    DONE();
    CV_CHECK("returns-the-element-or-nil", r == at);
    CV_CHECK("count", VA.count == n0 - (in ? 1 : 0));
    if (n0) {
        if (!in || w < i) CV_CHECK("elements-before-unchanged", VA.values[w] == vw);
        else if (w > i) CV_CHECK("elements-after-moved-down", VA.values[w - 1] == vw);
    }
}
//@ob array_delete_at
void h_array_index_get(void) {
    start(BIG);
    int i = cv_int(); args[1] = NUMBER_VAL(i);
    Value at = i >= 0 && i < n0 ? v0[i] : NIL_VAL;
    Value r = lxArrayOpIndexGet(2, args);
    CV_REACH("end");
    CV_CHECK("returns-the-element-or-nil", r == at);
    CV_CHECK("array-unchanged", VA.count == n0 && VA.values == v0 && (n0 == 0 || v0[w] == vw));
}
//@ob array_index_get
void h_array_index_set(void) {
    start(BIG); MUTATES();
    int i = cv_int(); args[1] = NUMBER_VAL(i);
    Value el = vmh_value(); args[2] = el;
    bool in = i >= 0 && i < n0;
    Value r = lxArrayOpIndexSet(3, args);
    DONE();
    CV_CHECK("returns-the-value-or-nil", r == (in ? el : NIL_VAL));
    CV_CHECK("count", VA.count == n0);
    CV_CHECK("only-that-element-changes", n0 == 0 || VA.values[w] == (w == i ? el : vw));
    if (in) barrier(el);
}
//@ob array_index_set
void h_array_first_last_size(void) {
    start(BIG);
    Value f = n0 ? v0[0] : NIL_VAL, l = n0 ? v0[n0 - 1] : NIL_VAL;
    CV_CHECK("first", lxArrayFirst(1, args) == f);
    CV_CHECK("last", lxArrayLast(1, args) == l);
    CV_CHECK("size", lxArrayGetSize(1, args) == NUMBER_VAL(n0));
    CV_REACH("end");
    CV_CHECK("array-unchanged", VA.count == n0 && VA.values == v0 && (n0 == 0 || v0[w] == vw));
}
//@ob array_first_last_size
void h_array_clear(void) {
    start(BIG); MUTATES();
    Value r = lxArrayClear(1, args);
    DONE();
    CV_CHECK("empty", VA.count == 0 && VA.capacity >= 0 && (VA.capacity == 0 || VA.values != NULL));
    CV_CHECK("returns-self", r == args[0]);
}
//@ob array_clear
/* index arguments that are not numbers are rejected */
BOUNDED(h_array_index_type, 4) {
    bstart(n); cv_may_throw = 1; cv_throw_class = NULL;
    args[1] = vmh_value(); args[2] = NIL_VAL;
    CV_ASSUME(!IS_NUMBER(args[1]));
    CV_REACH("end");
    switch (cv_range(0, 2)) {
    case 0: lxArrayOpIndexGet(2, args); break;
    case 1: lxArrayOpIndexSet(3, args); break;
    default: lxArrayDeleteAt(2, args); break;
    }
    CV_CHECK("a-non-number-index-is-rejected", 0);
}
//@default defs=CV_SMALL level=bounded bound="arrays of at most 4 elements"
//@ob array_index_type
/* an array that shares its elements with a literal: mutation leaves the literal's elements alone */
BOUNDED(h_array_shared, 4) {
    bstart(n); MUTATES(); OBJ_SET_FLAG(&A, USER1);
    CV_ASSUME(ARRAY_IS_SHARED(&A));
    Value el = vmh_value(); int i = (int)cv_range(-1, 5);
    args[1] = el; args[2] = el;
    switch (cv_range(0, 6)) {
    case 0: lxArrayPush(2, args); break;
    case 1: lxArrayPushFront(2, args); break;
    case 2: lxArrayPop(1, args); break;
    case 3: lxArrayPopFront(1, args); break;
    case 4: args[1] = NUMBER_VAL(i); lxArrayDeleteAt(2, args); break;
    case 5: args[1] = NUMBER_VAL(i); lxArrayOpIndexSet(3, args); break;
    default: lxArrayClear(1, args); break;
    }
    DONE();
    for (int k = 0; k < n0; k++) CV_CHECK("the-shared-elements-are-not-modified", v0[k] == old_[k]);
    CV_CHECK("no-longer-shared-once-modified", VA.values != v0 || v0 == NULL || (VA.count == n0 && !memcmp(VA.values, old_, 0)));
}
//@ob array_shared
BOUNDED(h_array_shared_content, 4) {
    bstart(n); CV_ASSUME(!FROZEN); OBJ_SET_FLAG(&A, USER1);
    arrayDedup(&A);
    CV_REACH("end");
    CV_CHECK("same-length", VA.count == n0 && VA.capacity >= VA.count && !ARRAY_IS_SHARED(&A));
    CV_CHECK("own-elements", n0 == 0 || (VA.values != v0 && VA.values[w] == vw));
}
//@ob array_shared_content
BOUNDED(h_array_delete, 4) {
    bstart(n); MUTATES(); eqmask = cv_u64();
    Value el = vmh_value(); args[1] = el;
    int at = -1;
    for (int i = 0; i < n0 && at < 0; i++) if (cvs_valEqual(el, old_[i])) at = i;
    Value r = lxArrayDelete(2, args);
    DONE();
    CV_CHECK("returns-the-first-equal-index-or-nil", r == (at < 0 ? NIL_VAL : NUMBER_VAL(at)));
    CV_CHECK("count", VA.count == n0 - (at >= 0));
    for (int i = 0; i < n0; i++) if (i != at) CV_CHECK("others-kept-in-order", VA.values[at >= 0 && i > at ? i - 1 : i] == old_[i]);
}
//@ob array_delete
BOUNDED(h_array_equals, 3) {
    bstart(n); eqmask = cv_u64();
    ValueArray a = VA; int nb = n; if (cv_bool()) { nb = n ? n - 1 : 1; mk(&B, n ? -n : -2); } else mk(&B, -1 - n);
    fill(&B);
    Value o = cv_bool() ? OBJ_VAL(&B) : cv_bool() ? args[0] : cv_bool() ? OBJ_VAL(&o_inst) : NUMBER_VAL(1); args[1] = o;
    bool want = o == args[0];
    if (o == OBJ_VAL(&B)) { want = n == B.valAry.count; for (int i = 0; i < n && want; i++) want = cvs_valEqual(a.values[i], B.valAry.values[i]); }
    Value r = lxArrayOpEquals(2, args);
    CV_REACH("end");
    CV_CHECK("equal-iff-same-length-and-elements-equal", r == BOOL_VAL(want));
    CV_CHECK("arrays-unchanged", !memcmp(&a, &VA, sizeof a));
}
//@ob array_equals bound="arrays of at most 3 elements"
#define SAME_SEQ(RA) do { CV_CHECK("same-length", (RA)->count == n0 && (RA)->capacity >= n0); CV_CHECK("same-elements", n0 == 0 || (RA)->values[w] == vw);     CV_CHECK("independent-of-the-original", n0 == 0 || (RA)->values != v0); CV_CHECK("original-unchanged", VA.count == n0 && VA.values == v0 && (n0 == 0 || v0[w] == vw)); } while (0)
BOUNDED(h_array_dup, 4) {
    bstart(n);
    Value r = lxArrayDup(1, args);
    CV_REACH("end");
    CV_CHECK("a-new-array", r == OBJ_VAL(&fresh));
    SAME_SEQ(&fresh.valAry);
}
//@ob array_dup
BOUNDED(h_array_sort, 4) {
    bstart(n);
    Value r = cv_bool() ? lxArraySort(1, args) : arraySortBy(args[0]);
    CV_REACH("end");
    CV_CHECK("a-new-array", r == OBJ_VAL(&fresh));
    SAME_SEQ(&fresh.valAry);
}
//@ob array_sort trust=qsort-sorts-by-the-comparison-it-is-given
BOUNDED(h_array_reverse, 4) {
    bstart(n);
    Value r = lxArrayReverse(1, args);
    CV_REACH("end");
    CV_CHECK("a-new-array", r == OBJ_VAL(&fresh) && fresh.valAry.count == n0);
    CV_CHECK("reversed", n0 == 0 || fresh.valAry.values[n0 - 1 - w] == vw);
    CV_CHECK("original-unchanged", VA.count == n0 && VA.values == v0 && (n0 == 0 || v0[w] == vw));
}
//@ob array_reverse
BOUNDED(h_array_sum, 2) {
    bstart(n);
    bool nums = true; double want = 0;
    for (int i = 0; i < n; i++) { want += AS_NUMBER(old_[i]); if (!IS_NUMBER(old_[i])) nums = false; }
    cv_may_throw = !nums; cv_throw_class = lxTypeErrClass;
    Value r = lxArraySum(1, args);
    CV_REACH("end");
    CV_CHECK("non-numbers-are-rejected", nums);
    CV_CHECK("left-to-right-sum", IS_NUMBER(r) && (want != want ? AS_NUMBER(r) != AS_NUMBER(r) : AS_NUMBER(r) == want));
}
//@ob array_sum bound="arrays of at most 2 elements"
void h_array_fill(void) {
    obj_init(); lxAryClass = &c_ary;
    int n = (int)cv_range(1, 4); Value f = vmh_value(); bool given = cv_bool();
    args[0] = OBJ_VAL(&c_ary); args[1] = NUMBER_VAL(n); args[2] = f;
    Value r = lxArrayFillStatic(given ? 3 : 2, args);
    CV_REACH("end");
    CV_CHECK("length", r == OBJ_VAL(&fresh) && fresh.valAry.count == n && fresh.valAry.capacity >= n);
    for (int i = 0; i < n; i++) CV_CHECK("every-element", fresh.valAry.values[i] == (given ? f : NIL_VAL));
}
//@ob array_fill
BOUNDED(h_array_wrap, 4) {
    bstart(n);
    bool ary = cv_bool(); Value v = vmh_value(); CV_ASSUME(v != OBJ_VAL(&o_ary));
    if (ary) v = args[0];
    args[1] = v; args[0] = OBJ_VAL(&c_ary);
    Value r = lxArrayWrapStatic(2, args);
    CV_REACH("end");
    if (ary) CV_CHECK("an-array-is-returned-as-it-is", r == v);
    else CV_CHECK("anything-else-becomes-its-only-element", r == OBJ_VAL(&fresh) && fresh.valAry.count == 1 && fresh.valAry.values[0] == v);
}
//@ob array_wrap
BOUNDED(h_array_init, 3) {
    bstart(0);
    Value a[4]; a[0] = args[0];
    for (int i = 0; i < 3; i++) a[i + 1] = vmh_value();
    fresh_used = 0;
    Value r = lxArrayInit(n + 1, a);
    CV_REACH("end");
    CV_CHECK("length", r == args[0] && VA.count == n && VA.capacity >= n);
    for (int i = 0; i < n; i++) CV_CHECK("elements-in-order", VA.values[i] == a[i + 1]);
}
//@ob array_init
/* the order arrays are sorted in */
void h_array_order(void) {
    obj_init();
    double x = vmh_number(), y = vmh_number(); CV_ASSUME(x == x && y == y);
    Value a = NUMBER_VAL(x), b = NUMBER_VAL(y);
    for (int i = 0; i < 3; i++) { s_chars[i] = (char)cv_range(0, 127); s2_chars[i] = (char)cv_range(0, 127); }
    bool str = cv_bool();
    if (str) { a = OBJ_VAL(&o_str); b = OBJ_VAL(&o_str2); }
    Value two[2] = { a, b }; vmh_obj(&A, OBJ_T_ARRAY, true); A.klass = lxAryClass = &c_ary; VA.values = two; VA.count = VA.capacity = 2; args[0] = OBJ_VAL(&A);
    lxArraySort(1, args);
    CV_CHECK("sorted-with-a-comparison", cmp_ != NULL);
    int c = cmp_(&a, &b);
    int want = 0;
    if (str) for (int i = 0; i < 3 && want == 0; i++) { want = (unsigned char)s_chars[i] - (unsigned char)s2_chars[i]; if (!s_chars[i]) break; }
    else want = x < y ? -1 : x > y;
    CV_REACH("end");
    CV_CHECK("sort-order", (c < 0) == (want < 0) && (c > 0) == (want > 0));
}
//@ob array_order bound="strings of at most 3 bytes" trust=qsort-sorts-by-the-comparison-it-is-given

/* arrays with equal elements hash alike (they are found as map keys), C09 */
uint32_t cvs_valHash(Value v) { uint64_t t = (streq && v == v_str2 ? v_str : v) & eqmask; return (uint32_t)t; } /* equal elements hash alike */
BOUNDED(h_array_hash, 3) {
    strs = true; streq = cv_bool(); v_str = OBJ_VAL(&o_str); v_str2 = OBJ_VAL(&o_str2);
    bstart(n); eqmask = cv_u64() & 0xffff;
    /* whatever the elements hold, hashed before or not */
    o_str.length = (size_t)cv_range(0, 1 << 20); o_str2.length = (size_t)cv_range(0, 1 << 20); o_str.hash = cv_u32(); o_str2.hash = cv_u32();
    mk(&B, -1 - n); fill(&B);
    for (int i = 0; i < n; i++) CV_ASSUME(cvs_valEqual(old_[i], B.valAry.values[i]));
    Value a1[1] = { OBJ_VAL(&A) }, b1[1] = { OBJ_VAL(&B) };
    Value x = lxArrayHashKey(1, a1), y = lxArrayHashKey(1, b1);
    CV_REACH("end");
    CV_CHECK("equal-arrays-hash-alike", IS_NUMBER(x) && x == y);
    CV_CHECK("a-hash-is-a-32-bit-number", AS_NUMBER(x) >= 0 && AS_NUMBER(x) <= 4294967295.0);
}
//@ob array_hash props=C09 stubs+=valHash bound="arrays of at most 3 elements"
