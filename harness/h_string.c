/* Contracts of the String methods (C08): byte buffers, shared with a literal until they are modified. */
//@default props=C08 src=string.c link=object.c,value.c,memory.c,runtime.c,vm.c defs=__NO_CTYPE stubs=copyString,reallocate,callSuper,newArray,arrayPush,internedString,valueToString,strstr,isspace,strlen,memcpy,memmove,strncmp unwind=10 fns=string.c
#include "string.c"
#include "cv_stubs.h"
#include "objh.h"
#define MAXN 3
#define MAXM 2
#define BUF 16
static ObjString S, T, pool[6]; static int n_pool; static ObjArray ary; static Value aryv[8]; static Value args[4];
static char lit[8]; /* the bytes of the literal S shares, if it does */
#ifdef CV_CBMC
/* C library functions, as the standard describes them */
char *cvs_strstr(const char *h, const char *n) {
    for (int i = 0; i <= MAXN; i++) {
        int j = 0;
        for (; j <= MAXM; j++) { if (!n[j]) return (char *)h + i; if (h[i + j] != n[j]) break; }
        if (!h[i]) return NULL;
    }
    CV_STOP(); return NULL;
}
size_t cvs_strlen(const char *s) { size_t n = 0; for (int i = 0; i < 9; i++) if (n == (size_t)i && s[i]) n++; return n; }
void *cvs_memcpy(void *d, const void *s, size_t n) { CV_CHECK("short-copy", n <= 9); for (size_t i = 0; i < 9; i++) if (i < n) ((char *)d)[i] = ((const char *)s)[i]; return d; }
void *cvs_memmove(void *d, const void *s, size_t n) { char t[9]; CV_CHECK("short-copy", n <= 9); for (size_t i = 0; i < 9; i++) if (i < n) t[i] = ((const char *)s)[i]; for (size_t i = 0; i < 9; i++) if (i < n) ((char *)d)[i] = t[i]; return d; }
int cvs_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < 9; i++) { if (i >= n) return 0; if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
int cvs_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
void *cvs_reallocate(void *prev, size_t o, size_t n) {
    if (n == 0) { if (prev) free(prev); return NULL; }
#ifdef CV_FIXEDBUF
    CV_CHECK("short", n <= BUF);
    char *r = malloc(BUF), *p = prev;
#else
    char *r = malloc(n), *p = prev;
#endif
    if (p) { for (size_t i = 0; i < BUF; i++) if (i < o && i < n) r[i] = p[i]; free(p); }
    return r;
}
#endif
static void blank(ObjString *s) { vmh_obj(s, OBJ_T_STRING, true); s->klass = &c_strc; s->length = s->capacity = 0; s->hash = 0; s->chars = NULL; }
static long p_off[8], p_len[8]; static char *s_chars0;
/* a new string with the first n bytes at chars */
ObjString *cvs_copyString(char *chars, size_t n, int flags) {
    CV_CHECK("few-strings-made", n_pool < 6);
#ifdef CV_SPLIT /* only where the bytes come from matters */
    p_off[n_pool] = chars - S.chars; p_len[n_pool] = (long)n;
    return &pool[n_pool++];
#else
    CV_CHECK("length", n <= MAXN + 2 * MAXM + 2);
    ObjString *s = &pool[n_pool++]; blank(s); s->length = s->capacity = n;
#ifdef CV_FIXEDBUF /* the length is not a constant, and nothing is written to the new string */
    s->chars = malloc(BUF);
#else
    s->chars = malloc(n + 1);
#endif
    for (size_t i = 0; i < MAXN + 2 * MAXM + 2; i++) if (i < n) { CV_CHECK("within-the-source", chars[i] != 0); s->chars[i] = chars[i]; }
    s->chars[n] = 0;
    return s;
#endif
}
Value cvs_callSuper(int argCount, Value *a, CallInfo *ci) { CV_CHECK("one-new-string", n_pool == 0); blank(&pool[n_pool]); return OBJ_VAL(&pool[n_pool++]); }
Value cvs_newArray(void) { vmh_obj(&ary, OBJ_T_ARRAY, true); ary.valAry.values = aryv; ary.valAry.count = 0; ary.valAry.capacity = 8; return OBJ_VAL(&ary); }
void cvs_arrayPush(Value a, Value el) { CV_CHECK("pushes-to-the-new-array", a == OBJ_VAL(&ary) && ary.valAry.count < 8); aryv[ary.valAry.count++] = el; }
static ObjString empty_; static char empty_c[1] = "";
ObjString *cvs_internedString(char *chars, size_t n, int flags) { CV_CHECK("interns-the-empty-string-only", n == 0); blank(&empty_); empty_.chars = empty_c; STRING_SET_INTERNED(&empty_); OBJ_SET_FROZEN(&empty_); return &empty_; }
static char s0[8], t0[8]; static uint32_t hash0; static int n, m; static bool shared, frozen;
static void content(char *to, int k) {
    for (int i = 0; i < k; i++) { to[i] = (char)(cv_u64() & 0xff); CV_ASSUME(to[i] != 0); }
    to[k] = 0;
}
/* S: a string of n bytes, T: one of m; S may be frozen, may be the owner of its bytes or share those of a literal */
static void start(int n_, int m_, int kind) {
    obj_init(); n = n_; m = m_; n_pool = 0;
    blank(&S); blank(&T); S.length = n; T.length = T.capacity = m;
    content(s0, n); content(t0, m);
    shared = kind == 1;
    S.capacity = kind == 2 ? n + 2 : n;
    if (shared) { S.chars = lit; STRING_SET_SHARED(&S); }
    else S.chars = malloc(S.capacity + 1);
    for (int i = 0; i <= n; i++) S.chars[i] = s0[i];
    T.chars = malloc(m + 1);
    for (int i = 0; i <= m; i++) T.chars[i] = t0[i];
    S.hash = hash0 = cv_u32();
    frozen = cv_bool(); if (frozen) OBJ_SET_FROZEN(&S);
    OBJ_VAL(&S); OBJ_VAL(&T); OBJ_VAL(&ary); for (int i = 0; i < 6; i++) OBJ_VAL(&pool[i]);
    args[0] = OBJ_VAL(&S); args[1] = OBJ_VAL(&T); cv_throw_class = lxErrClass;
}
/* the sizes: (n, kind) is one of (0..3, owner), (0 and 2, shared), (2, with spare room) */
#define CASES(NAME, KIND) switch (cv_range(0, 6)) { case 0: KIND(NAME, 0, 0); break; case 1: KIND(NAME, 1, 0); break; case 2: KIND(NAME, 2, 0); break; case 3: KIND(NAME, 3, 0); break; \
    case 4: KIND(NAME, 0, 1); break; case 5: KIND(NAME, 2, 1); break; default: KIND(NAME, 2, 2); }
#define MS(NAME, n_, k) NAME##_m(n_, k)
#define M1(NAME, n_, k) start(n_, 1, k); NAME##_b()
#ifdef CV_SELF /* the argument is the string itself */
#define SIZES(NAME) static void NAME##_b(void); \
void NAME(void) { CASES(NAME, M1) } \
static void NAME##_b(void)
#define SELF() (args[1] = args[0])
#else
#define SIZES(NAME) static void NAME##_b(void); \
static void NAME##_m(int n_, int k) { switch (cv_range(0, MAXM)) { case 0: start(n_, 0, k); NAME##_b(); break; case 1: start(n_, 1, k); NAME##_b(); break; default: start(n_, 2, k); NAME##_b(); } } \
void NAME(void) { CASES(NAME, MS) } \
static void NAME##_b(void)
#define SELF() 0
#endif
#define SIZE1(NAME) static void NAME##_b(void); \
void NAME(void) { CASES(NAME, M1) } \
static void NAME##_b(void)
#define MUTATES(may) cv_may_throw = frozen || (may)
static char exp_[16]; static int elen;
static void e_start(void) { elen = 0; }
static void e_add(const char *c, int from, int to) { for (int i = from; i < to; i++) exp_[elen++] = c[i]; }
/* string r holds exactly the expected bytes */
static bool is(ObjString *r) {
    if (r->length != (size_t)elen || r->capacity < r->length || r->chars == NULL || r->chars[elen] != 0) return false;
    for (int i = 0; i < elen; i++) if (r->chars[i] != exp_[i]) return false;
    return true;
}
static bool s_kept(void) {
    if (S.length != (size_t)n) return false;
    for (int i = 0; i <= n; i++) if (S.chars[i] != s0[i]) return false;
    return true;
}
static bool hash_ok(void) { return S.hash == 0 || (S.hash == hash0 && s_kept()); }
static bool t_kept(void) {
    if (T.length != (size_t)m) return false;
    for (int i = 0; i <= m; i++) if (T.chars[i] != t0[i]) return false;
    return true;
}
static bool literal_kept(void) { if (shared) for (int i = 0; i <= n; i++) if (lit[i] != s0[i]) return false; return true; }
static bool own_bytes(void) { return !shared || s_kept() || (S.chars != lit && !STRING_IS_SHARED(&S)); }
#define OTHERS() do { CV_CHECK("argument-unchanged", t_kept()); CV_CHECK("shared-literal-unchanged", literal_kept()); CV_CHECK("own-bytes-once-modified", own_bytes()); } while (0)
#define CHANGED() do { CV_REACH("end"); CV_CHECK("a-frozen-string-is-not-modified", !frozen || s_kept()); CV_CHECK("hash-forgotten", hash_ok()); OTHERS(); } while (0)
#define SAME() do { CV_REACH("end"); CV_CHECK("receiver-unchanged", s_kept() && S.hash == hash0); OTHERS(); } while (0)
static bool fresh(Value r) { bool f = false; for (int i = 0; i < 6; i++) if (i < n_pool && r == OBJ_VAL(&pool[i])) f = true; return f && AS_STRING(r)->chars != S.chars && AS_STRING(r)->chars != T.chars && !OBJ_IS_FROZEN(AS_OBJ(r)); }
SIZES(h_string_push) {
    bool self = SELF() != 0;
    MUTATES(0);
    Value r = lxStringPush(2, args);
    CHANGED();
    e_start(); e_add(s0, 0, n); if (self) e_add(s0, 0, n); else e_add(t0, 0, m);
    CV_CHECK("appended", is(&S) && r == args[0]);
    CV_CHECK("frozen-rejected", !frozen);
}
//@default level=bounded bound="strings of at most 3 bytes, arguments of at most 2, no NUL bytes"
//@ob string_push
//@ob string_push_self entry=h_string_push defs+=CV_SELF
static void h_string_insert_at(int i) {
    MUTATES(i < 0 || i > n); if (!frozen) cv_throw_class = lxArgErrClass;
    args[2] = NUMBER_VAL(i);
    bool self = args[1] == args[0];
    Value r = lxStringInsertAt(3, args);
    CHANGED();
    CV_CHECK("index-within-the-string", i >= 0 && i <= n);
    e_start(); e_add(s0, 0, i); if (self) e_add(s0, 0, n); else e_add(t0, 0, m); e_add(s0, i, n);
    CV_CHECK("inserted", is(&S) && r == args[0]);
    CV_CHECK("frozen-rejected", !frozen);
}
SIZES(h_string_insert) {
    SELF();
    switch (cv_range(-1, 4)) { case -1: h_string_insert_at(-1); break; case 0: h_string_insert_at(0); break; case 1: h_string_insert_at(1); break;
    case 2: h_string_insert_at(2); break; case 3: h_string_insert_at(3); break; default: h_string_insert_at(4); }
}
//@ob string_insert
//@ob string_insert_self entry=h_string_insert defs+=CV_SELF
static void h_string_set_at(int i) {
    MUTATES(i < 0 || i > n || (i == n && m == 1)); if (!frozen) cv_throw_class = lxArgErrClass;
    args[1] = NUMBER_VAL(i); args[2] = OBJ_VAL(&T);
    Value r = lxStringOpIndexSet(3, args);
    CHANGED();
    CV_CHECK("index-within-the-string", i >= 0 && i <= n);
    e_start(); e_add(s0, 0, i); e_add(t0, 0, m); if (m && i < n) e_add(s0, i + 1, n); else e_add(s0, i, n);
    CV_CHECK("byte-replaced", is(&S) && r == args[0]);
    CV_CHECK("frozen-rejected", !frozen);
}
SIZES(h_string_index_set) {
    switch (cv_range(-1, 4)) { case -1: h_string_set_at(-1); break; case 0: h_string_set_at(0); break; case 1: h_string_set_at(1); break;
    case 2: h_string_set_at(2); break; case 3: h_string_set_at(3); break; default: h_string_set_at(4); }
}
//@ob string_index_set
SIZE1(h_string_clear) {
    MUTATES(0);
    Value r = lxStringClear(1, args);
    CHANGED();
    e_start();
    CV_CHECK("empty", is(&S) && r == args[0]);
    CV_CHECK("frozen-rejected", !frozen);
}
//@ob string_clear
static void h_string_pad_to(int to) {
    MUTATES(0); CV_ASSUME(m > 0);
    args[1] = NUMBER_VAL(to); args[2] = OBJ_VAL(&T);
    Value r = lxStringPadRight(3, args);
    CHANGED();
    e_start(); e_add(s0, 0, n); for (int i = n; i < to; i++) e_add(t0, 0, 1);
    CV_CHECK("padded-to-the-length", is(&S) && r == args[0]);
    CV_CHECK("frozen-rejected", !frozen || to <= n);
}
SIZE1(h_string_pad) { switch (cv_range(-1, 5)) { case -1: h_string_pad_to(-1); break; case 1: h_string_pad_to(1); break; case 3: h_string_pad_to(3); break; case 4: h_string_pad_to(4); break; default: h_string_pad_to(5); } }
//@ob string_pad
SIZES(h_string_add) {
    bool self = SELF() != 0;
    Value r = lxStringOpAdd(2, args);
    SAME();
    e_start(); e_add(s0, 0, n); if (self) e_add(s0, 0, n); else e_add(t0, 0, m);
    CV_CHECK("concatenation-in-a-new-string", fresh(r) && is(AS_STRING(r)));
}
//@ob string_add
//@ob string_add_self entry=h_string_add defs+=CV_SELF
SIZE1(h_string_mul) {
    int k = (int)cv_range(1, 2); args[1] = NUMBER_VAL(k);
    Value r = k == 1 ? (args[1] = NUMBER_VAL(1), lxStringOpMul(2, args)) : (args[1] = NUMBER_VAL(2), lxStringOpMul(2, args));
    SAME();
    e_start(); e_add(s0, 0, n); if (k == 2) e_add(s0, 0, n);
    CV_CHECK("repetition-in-a-new-string", fresh(r) && is(AS_STRING(r)));
}
//@ob string_mul bound="strings of at most 3 bytes, repeated once or twice"
static void h_string_substr_at(int i) {
    int l = (int)cv_range(-6, 5);
    args[1] = NUMBER_VAL(i); args[2] = NUMBER_VAL(l);
    Value r = lxStringSubstr(3, args);
    SAME();
    int max = i < n ? n - i : 0, want = l < 0 ? (max ? max + l + 1 : 0) : l;
    if (want < 0) want = 0;
    if (want > max) want = max;
    ObjString *p = AS_STRING(r);
    CV_CHECK("a-new-string-of-that-length", fresh(r) && p->length == (size_t)want && p->chars[want] == 0);
    for (int j = 0; j < want; j++) CV_CHECK("the-bytes-from-the-start-index", p->chars[j] == s0[i + j]);
}
SIZE1(h_string_substr) { switch (cv_range(0, 4)) { case 0: h_string_substr_at(0); break; case 1: h_string_substr_at(1); break; case 2: h_string_substr_at(2); break; case 3: h_string_substr_at(3); break; default: h_string_substr_at(4); } }
//@ob string_substr defs+=CV_FIXEDBUF
SIZE1(h_string_index_get) {
    int i = (int)cv_range(0, 4); args[1] = NUMBER_VAL(i);
    Value r = lxStringOpIndexGet(2, args);
    SAME();
    e_start(); if (i < n) e_add(s0, i, i + 1);
    CV_CHECK("that-byte-or-nothing", fresh(r) && is(AS_STRING(r)));
}
//@ob string_index_get defs+=CV_FIXEDBUF
SIZE1(h_string_rest) {
    int i = (int)cv_range(-1, 4); args[1] = NUMBER_VAL(i);
    Value r = lxStringRest(2, args);
    SAME();
    e_start(); if (i >= 0 && i < n) e_add(s0, i, n);
    CV_CHECK("the-bytes-from-there", fresh(r) && is(AS_STRING(r)));
}
//@ob string_rest defs+=CV_FIXEDBUF
SIZE1(h_string_size) {
    CV_CHECK("size", lxStringGetSize(1, args) == NUMBER_VAL(n));
    SAME();
}
//@ob string_size
static bool at_(int i) { if (i < 0 || i + m > n) return false; for (int j = 0; j < m; j++) if (s0[i + j] != t0[j]) return false; return true; }
SIZES(h_string_search) {
    Value e = lxStringEndsWith(2, args), x = lxStringIndex(2, args);
    SAME();
    int first = -1;
    for (int i = n; i >= 0; i--) if (at_(i)) first = i;
    CV_CHECK("ends-with", e == BOOL_VAL(at_(n - m)));
    CV_CHECK("index-of-the-first-occurrence-or-nil", x == (first < 0 ? NIL_VAL : NUMBER_VAL(first)));
}
//@ob string_search
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
SIZE1(h_string_compact) {
    bool both = cv_bool();
    Value r = both ? lxStringCompact(1, args) : lxStringCompactLeft(1, args);
    SAME();
    int a = 0, b = n;
    while (a < n && sp(s0[a])) a++;
    while (both && b > a && sp(s0[b - 1])) b--;
    e_start(); e_add(s0, a, b);
    CV_CHECK("without-the-blanks-at-the-ends", fresh(r) && is(AS_STRING(r)));
}
//@ob string_compact defs+=CV_FIXEDBUF unwindset=lxStringCompact.0:5,lxStringCompact.1:5,lxStringCompactLeft.0:5,cvs_memcpy.0:10
#ifdef CV_SPLIT
static void split(int n_, int m_) {
    start(n_, m_, 0);
    Value r = lxStringSplit(2, args);
    SAME();
    CV_CHECK("a-new-array", r == OBJ_VAL(&ary) && ary.valAry.count == n_pool);
    for (int i = 0; i < 4; i++) if (i < n_pool) CV_CHECK("every-part-once-in-order", aryv[i] == OBJ_VAL(&pool[i]));
    int k = 0, p = 0;
    if (m == 0) {
        for (; k < n; k++) { CV_CHECK("a-part-for-every-byte", k < n_pool && p_off[k] == k && p_len[k] == 1); }
    } else {
        int skip = 0;
        for (int i = 0; i + m <= n; i++) {
            if (skip) { skip--; continue; }
            if (!at_(i)) continue;
            CV_CHECK("the-bytes-before-every-separator", k < n_pool && p_off[k] == p && p_len[k] == i - p);
            k++; p = i + m; skip = m - 1;
        }
        if (p < n) { CV_CHECK("the-rest-is-a-part", k < n_pool && p_off[k] == p && p_len[k] == n - p); k++; }
    }
    CV_CHECK("no-other-parts", n_pool == k);
}
void h_string_split(void) { switch (cv_range(0, MAXN)) { case 0: split(0, CV_M); break; case 1: split(1, CV_M); break; case 2: split(2, CV_M); break; default: split(3, CV_M); } }
#endif
//@ob string_split_0 entry=h_string_split defs+=CV_SPLIT,CV_M=0 unwindset=lxStringSplit.0:5,lxStringSplit.1:5 bound="strings of at most 3 bytes, a separator of 0"
//@ob string_split_1 entry=h_string_split defs+=CV_SPLIT,CV_M=1 unwindset=lxStringSplit.0:5,lxStringSplit.1:5 bound="strings of at most 3 bytes, a separator of 1"
//@ob string_split_2 entry=h_string_split defs+=CV_SPLIT,CV_M=2 unwindset=lxStringSplit.0:5,lxStringSplit.1:5 bound="strings of at most 3 bytes, a separator of 2"
SIZE1(h_string_dup) {
    if (cv_bool()) STRING_SET_INTERNED(&S);
    Value r = lxStringDup(1, args);
    SAME();
    e_start(); e_add(s0, 0, n);
    CV_CHECK("an-unfrozen-copy-with-its-own-bytes", fresh(r) && is(AS_STRING(r)) && !STRING_IS_SHARED(AS_STRING(r)) && !STRING_IS_INTERNED(AS_STRING(r)));
    CV_CHECK("hash-of-the-copy", AS_STRING(r)->hash == hash0 || AS_STRING(r)->hash == 0);
}
//@ob string_dup
static ObjString N;
SIZE1(h_string_init) { /* String(S) */
    if (!shared && cv_bool()) { STRING_SET_INTERNED(&S); }
    blank(&N); OBJ_VAL(&N); args[0] = OBJ_VAL(&N); args[1] = OBJ_VAL(&S);
    bool given = cv_bool(); n_pool = 0;
    Value r = lxStringInit(given ? 2 : 1, args);
    args[0] = OBJ_VAL(&S);
    SAME();
    e_start(); if (given) e_add(s0, 0, n);
    CV_CHECK("the-same-bytes", r == OBJ_VAL(&N) && is(&N) && !OBJ_IS_FROZEN(&N));
    CV_CHECK("shares-only-the-bytes-of-a-literal", given ? (N.chars != S.chars || (STRING_IS_INTERNED(&S) && STRING_IS_SHARED(&N))) : STRING_IS_SHARED(&N));
    CV_CHECK("hash-of-the-bytes", N.hash == 0 || (given && N.hash == hash0));
}
//@ob string_init
static void rejects(Value v, bool str) { /* an argument of another type is rejected */
    args[1] = v; args[2] = v;
    switch (cv_range(0, 6)) {
    case 0: if (str) lxStringPush(2, args); else { args[2] = NUMBER_VAL(0); lxStringSubstr(3, args); } break;
    case 1: if (str) { args[2] = NUMBER_VAL(0); lxStringInsertAt(3, args); } else { args[1] = NUMBER_VAL(0); lxStringSubstr(3, args); } break;
    case 2: if (str) { args[1] = NUMBER_VAL(0); lxStringOpIndexSet(3, args); } else lxStringOpIndexGet(2, args); break;
    case 3: if (str) lxStringSplit(2, args); else lxStringRest(2, args); break;
    case 4: if (str) lxStringEndsWith(2, args); else lxStringOpMul(2, args); break;
    case 5: if (str) lxStringIndex(2, args); else { args[1] = OBJ_VAL(&T); lxStringInsertAt(3, args); } break;
    default: if (str) lxStringOpAdd(2, args); else { args[2] = OBJ_VAL(&T); lxStringOpIndexSet(3, args); } break;
    }
    CV_CHECK("rejected", 0);
}
void h_string_types(void) {
    start(1, 1, 0); cv_may_throw = 1; cv_throw_class = NULL;
    CV_REACH("end");
    switch (cv_range(0, 6)) {
    case 0: rejects(NIL_VAL, true); break; case 1: rejects(NUMBER_VAL(1), true); break; case 2: rejects(OBJ_VAL(&o_inst), true); break;
    case 3: rejects(OBJ_VAL(&o_nat), true); break;
    case 4: rejects(NIL_VAL, false); break; case 5: rejects(OBJ_VAL(&T), false); break; default: rejects(OBJ_VAL(&o_inst), false); break;
    }
}
//@ob string_types
