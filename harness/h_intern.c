/* Contracts of string interning (C10): one object for each sequence of bytes. */
//@default props=C10 src=table.c link=object.c,memory.c,value.c stubs=tableSet,copyString,hashString unwind=8 fns=tableFindString,internedString
#include "table.c"
#include "cv_stubs.h"
#include "objh.h"
#define MAXS 2
#define CAP 4
static ObjString S[3]; static char chars[3][MAXS + 1]; static Entry ents[CAP]; static char key[MAXS + 2]; static size_t len;
/* any hash that is a function of the bytes; strings with the same hash need not be equal */
static uint32_t hh[4]; static unsigned sel;
uint32_t cvs_hashString(char *c, size_t n) {
    unsigned x = (unsigned)n;
    for (size_t i = 0; i < MAXS; i++) if (i < n) x = x * 5 + ((unsigned char)c[i] & 3) + ((unsigned char)c[i] >> 7);
    return hh[(x >> (sel & 1)) & 3];
}
static ObjString made; static int n_made; static char made_chars[MAXS + 1];
ObjString *cvs_copyString(char *c, size_t n, int flags) {
    n_made++; vmh_obj(&made, OBJ_T_STRING, true); made.klass = &c_strc; made.length = made.capacity = n; made.chars = made_chars; made.hash = 0;
    for (size_t i = 0; i < MAXS; i++) made_chars[i] = i < n ? c[i] : 0;
    CV_CHECK("interned-strings-are-old-and-frozen", (flags & NEWOBJ_FLAG_OLD) && (flags & NEWOBJ_FLAG_FROZEN));
    return &made;
}
static int n_set;
bool cvs_tableSet(Table *t, Value k, Value v) { n_set++; CV_CHECK("the-new-string-is-recorded", t == &vm.strings && k == OBJ_VAL(&made)); return true; }
static bool same(ObjString *s, const char *c, size_t n) {
    if (s->length != n) return false;
    for (size_t i = 0; i < MAXS; i++) if (i < n && s->chars[i] != c[i]) return false;
    return true;
}
static int at = -1; /* the interned string with the bytes asked for */
static void start(void) {
    obj_init(); sel = (unsigned)cv_u64() & 1;
    for (int i = 0; i < 4; i++) hh[i] = (uint32_t)(cv_u64() & 7) + 1;
    len = (size_t)cv_range(0, MAXS); for (int i = 0; i < MAXS; i++) { key[i] = (char)(cv_u64() & 0xff); }
    for (int i = 0; i < MAXS; i++) CV_ASSUME((size_t)i >= len || key[i] != 0);
    vm.strings.entries = ents; vm.strings.capacityMask = CAP - 1; vm.strings.count = 0;
    for (int i = 0; i < CAP; i++) { ents[i].key = UNDEF_VAL; ents[i].value = NIL_VAL; }
    int n = (int)cv_range(0, 3);
    for (int i = 0; i < 3; i++) {
        vmh_obj(&S[i], OBJ_T_STRING, true); S[i].klass = &c_strc; S[i].chars = chars[i];
        S[i].length = S[i].capacity = (size_t)cv_range(0, MAXS);
        for (int j = 0; j < MAXS; j++) chars[i][j] = (char)(cv_u64() & 0xff);
        for (int j = 0; j < i; j++) CV_ASSUME(!same(&S[j], chars[i], S[i].length));
        uint32_t h = cvs_hashString(chars[i], S[i].length);
        S[i].hash = cv_bool() ? h : 0;
        bool put = i < n, done = false;
        for (unsigned d = 0; d < CAP; d++) if (put && !done && ents[(h + d) & (CAP - 1)].key == UNDEF_VAL) { ents[(h + d) & (CAP - 1)].key = OBJ_VAL(&S[i]); done = true; }
        vm.strings.count += put;
        if (put && same(&S[i], key, len)) at = i;
    }
    OBJ_VAL(&made);
}
void h_intern_find(void) {
    start();
    ObjString *r = tableFindString(&vm.strings, key, len, cvs_hashString(key, len));
    CV_REACH("end");
    CV_CHECK("the-string-with-these-bytes-or-none", r == (at < 0 ? NULL : &S[at]));
}
//@default level=bounded bound="tables of 4 slots with at most 3 strings of at most 2 bytes, inserted in any order"
//@ob intern_find
void h_intern(void) {
    start();
    ObjString *r = internedString(key, len, NEWOBJ_FLAG_NONE);
    CV_REACH("end");
    if (at >= 0) CV_CHECK("same-bytes-same-object", r == &S[at] && !n_made && !n_set);
    else {
        CV_CHECK("a-new-object-for-new-bytes", r == &made && n_made == 1 && n_set == 1 && same(r, key, len));
        CV_CHECK("an-interned-string-is-frozen", OBJ_IS_FROZEN(r) && STRING_IS_INTERNED(r));
    }
}
//@ob intern
void h_intern_empty(void) {
    start(); vm.strings.entries = NULL; vm.strings.capacityMask = -1; vm.strings.count = 0; 
    CV_REACH("end");
    CV_CHECK("nothing-in-an-empty-table", tableFindString(&vm.strings, key, len, cvs_hashString(key, len)) == NULL);
}
//@ob intern_empty
