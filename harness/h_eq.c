/* Contracts of value equality and hashing (C09) and of string interning (C10). */
//@default props=C09 src=value.c link=object.c,table.c,memory.c,vm.c,runtime.c stubs=callMethod,execStopRecursion,snprintf unwind=10 fns=value.c
#include "value.c"
#include "cv_stubs.h"
#include "objh.h"
static Value m_recv, m_arg, m_ret; static int m_calls; static uint32_t m_hash;
Value cvs_callMethod(Obj *o, ObjString *name, int argCount, Value *a, CallInfo *ci) {
    CV_CHECK("asks-the-equality-method", name == &s_eq && argCount == 1);
    m_calls++; m_recv = OBJ_VAL(o); m_arg = a[0];
    return m_ret;
}
/* the hash of an instance, an array or a map is what its hashKey method gives */
Value cvs_execStopRecursion(Value (*fn)(Value, Value, int), Value obj, Value arg) { CV_CHECK("hashes-the-value-itself", fn == valHashRecursive); return NUMBER_VAL(m_hash); }
int cvs_snprintf(char *buf, size_t n, const char *fmt, ...) { /* only used to print an address */
    va_list ap; va_start(ap, fmt);
    void *p = va_arg(ap, void *);
    va_end(ap);
    Value v = OBJ_VAL(p);
    CV_CHECK("buffer", n >= 6);
    buf[0] = '0'; buf[1] = 'x'; buf[2] = (char)('A' + (v & 15)); buf[3] = (char)('A' + ((v >> 4) & 15)); buf[4] = (char)('A' + ((v >> 8) & 15)); buf[5] = 0;
    return 5;
}
#define MAXS 3
static void any_string(ObjString *s, char *c) {
    s->chars = c; s->length = (size_t)cv_range(0, MAXS); s->capacity = MAXS;
    for (int i = 0; i < MAXS; i++) c[i] = (char)(cv_u64() & 0xff);
    s->hash = 0;
    if (cv_bool()) s->hash = hashString(c, s->length); /* not yet computed, or the hash of the bytes */
}
static bool same_bytes(ObjString *a, ObjString *b) {
    if (a->length != b->length) return false;
    for (int i = 0; i < MAXS; i++) if ((size_t)i < a->length && a->chars[i] != b->chars[i]) return false;
    return true;
}
static char ca[MAXS + 1], cb[MAXS + 1], cc[MAXS + 1]; static ObjString o_str3;
static void start(void) {
    obj_init();
    any_string(&o_str, ca); any_string(&o_str2, cb);
    m_ret = vmh_value(); m_hash = cv_u32();
}
static bool is_str(Value v) { return v == OBJ_VAL(&o_str) || v == OBJ_VAL(&o_str2); }
static bool like(Value v) { return IS_OBJ(v) && (AS_OBJ(v)->flags & OBJ_FLAG_INSTANCE_LIKE); }
static bool spec(Value a, Value b) { /* equality of values other than instances */
    if (is_str(a) && is_str(b)) return same_bytes(AS_STRING(a), AS_STRING(b));
    if (IS_NUMBER(a) && IS_NUMBER(b)) return AS_NUMBER(a) == AS_NUMBER(b) || a == b;
    return a == b;
}
void h_eq(void) {
    start(); Value a = vmh_value(), b = vmh_value();
    uint32_t h1 = o_str.hash, h2 = o_str2.hash;
    bool r = valEqual(a, b);
    CV_REACH("end");
    if (like(a) && !(is_str(a) && is_str(b))) {
        CV_CHECK("an-object-is-asked-once", m_calls == 1 && m_recv == a && m_arg == b);
        CV_CHECK("equal-iff-its-method-says-true", r == (m_ret == TRUE_VAL));
    } else {
        CV_CHECK("nothing-else-is-asked", m_calls == 0);
        CV_CHECK("equal-iff-same-number-same-bytes-or-same-value", r == spec(a, b));
    }
    CV_CHECK("strings-unchanged", o_str.hash == h1 && o_str2.hash == h2);
}
//@default level=bounded bound="strings of at most 3 bytes"
//@ob eq
/* so equality of numbers, strings and the other values is an equivalence, whatever has been hashed before */
void h_eq_equivalence(void) {
    start(); vmh_obj(&o_str3, OBJ_T_STRING, true); o_str3.klass = &c_strc; any_string(&o_str3, cc);
    Value v[3];
    if (cv_bool()) { v[0] = OBJ_VAL(&o_str); v[1] = OBJ_VAL(&o_str2); v[2] = OBJ_VAL(&o_str3); }
    else for (int i = 0; i < 3; i++) { v[i] = vmh_value(); CV_ASSUME(!like(v[i])); }
    CV_REACH("end");
    CV_CHECK("reflexive", valEqual(v[0], v[0]));
    CV_CHECK("symmetric", valEqual(v[0], v[1]) == valEqual(v[1], v[0]));
    CV_CHECK("transitive", !(valEqual(v[0], v[1]) && valEqual(v[1], v[2])) || valEqual(v[0], v[2]));
}
//@ob eq_equivalence
void h_eq_hash(void) {
    start(); Value a = vmh_value(), b = vmh_value();
    CV_ASSUME(spec(a, b));
    uint32_t x = valHash(a), y = valHash(b);
    CV_REACH("end");
    CV_CHECK("equal-values-hash-alike", x == y);
    CV_CHECK("hash-kept-with-the-string", !is_str(a) || AS_STRING(a)->hash == x);
}
//@ob eq_hash
void h_eq_hash_stable(void) {
    start(); Value a = vmh_value();
    uint32_t x = valHash(a);
    CV_REACH("end");
    CV_CHECK("hashing-twice-gives-the-same", valHash(a) == x);
    CV_CHECK("hash-of-an-instance-is-what-hashKey-gives", !(IS_OBJ(a) && (AS_OBJ(a)->type == OBJ_T_INSTANCE || AS_OBJ(a)->type == OBJ_T_ARRAY || AS_OBJ(a)->type == OBJ_T_MAP)) || x == m_hash);
}
//@ob eq_hash_stable
/* the specification of the string hash: a function of the bytes alone */
void h_eq_hash_bytes(void) {
    start(); CV_ASSUME(same_bytes(&o_str, &o_str2));
    uint32_t x = hashString(ca, o_str.length);
    CV_REACH("end");
    CV_CHECK("a-function-of-the-bytes", x == hashString(cb, o_str2.length));
}
//@ob eq_hash_bytes
void h_eq_string(void) {
    start();
    bool r = objStringEquals(&o_str, &o_str2);
    CV_REACH("end");
    CV_CHECK("equal-iff-same-bytes", r == same_bytes(&o_str, &o_str2));
    CV_CHECK("stringEquals", stringEquals(OBJ_VAL(&o_str), OBJ_VAL(&o_str2)) == r && !stringEquals(OBJ_VAL(&o_str), NIL_VAL) && !stringEquals(OBJ_VAL(&o_str), OBJ_VAL(&o_inst)));
}
//@ob eq_string
