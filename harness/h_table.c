/* Contracts of the hash table behind maps, fields, methods, globals and interned strings (C06).
 * The table is taken in any state that the operations can leave behind, not only in those that a
 * particular sequence of insertions gives, and every operation leaves it in such a state again. */
//@default props=C06 src=table.c link=memory.c,object.c,value.c stubs=valHash,valEqual,reallocate unwind=18 fns=table.c
#include "table.c"
#include "cv_stubs.h"
/* keys: an arbitrary equivalence and an arbitrary hash that respects it */
#define NCLS 8
static uint32_t H[NCLS];
static unsigned cls(Value k) { return (unsigned)(k & (NCLS - 1)); }
bool cvs_valEqual(Value a, Value b) { return a != UNDEF_VAL && b != UNDEF_VAL && cls(a) == cls(b); }
uint32_t cvs_valHash(Value k) { CV_CHECK("only-real-keys-are-hashed", k != UNDEF_VAL); return H[cls(k)]; }
#define CAPMAX 16
void *cvs_reallocate(void *prev, size_t o, size_t n) {
    if (n == 0) { if (prev) free(prev); return NULL; }
    CV_CHECK("tables-are-not-resized-in-place", prev == NULL);
    for (size_t c = 1; c <= CAPMAX; c++) if (n == c * sizeof(Entry)) return malloc(c * sizeof(Entry));
    CV_CHECK("table-size", n == 32 * sizeof(Entry));
    return malloc(32 * sizeof(Entry));
}
static Value any_key(void) { return (Value)(cv_u64() & 15); }
static Value any_val(void) { return (Value)(cv_u64() & 255); }
static bool full(Table *t, int i) { return t->entries[i].key != UNDEF_VAL; }
/* the states of a table: count is the number of entries, at least a quarter of the slots is free, no key
 * occurs twice, and every slot between the home of a key and its place is in use */
static bool valid(Table *t) {
    if (t->entries == NULL) return t->count == 0 && t->capacityMask == -1;
    int cap = t->capacityMask + 1, n = 0;
    for (int i = 0; i < cap; i++) {
        if (!full(t, i)) continue;
        n++;
        int h = (int)(H[cls(t->entries[i].key)] & (unsigned)t->capacityMask), gap = 0;
        for (int d = 0; d < cap; d++) { int j = (h + d) & t->capacityMask; if (j == i) break; if (!full(t, j)) gap = 1; }
        if (gap) return false;
        for (int j = 0; j < i; j++) if (full(t, j) && cls(t->entries[j].key) == cls(t->entries[i].key)) return false;
    }
    return n == t->count && 4 * n <= 3 * cap;
}
/* a table of cap slots with n entries (any number of them if n < 0) */
static void any_table(Table *t, int cap, int n) {
    if (cap == 0) { initTable(t); CV_CHECK("empty-table", t->count == 0 && t->capacityMask == -1 && t->entries == NULL); return; }
    t->capacityMask = cap - 1; t->entries = malloc(cap * sizeof(Entry)); t->count = n < 0 ? (int)cv_range(0, cap) : n;
    for (int i = 0; i < cap; i++) {
        bool in = cv_bool(); Value k = any_key(), v = any_val();
        t->entries[i].key = in ? k : UNDEF_VAL; t->entries[i].value = in ? v : NIL_VAL;
    }
    CV_ASSUME(valid(t));
}
/* what the table holds for a key: the specification of lookup, a search through all slots */
static bool look(Table *t, Value k, Value *v) {
    bool r = false; *v = 0;
    for (int i = 0; i <= t->capacityMask; i++) if (full(t, i) && cls(t->entries[i].key) == cls(k)) { r = true; *v = t->entries[i].value; }
    return r;
}
static Table T, U;
static Value k, v, q, qv0, qv1; static bool q0, q1; /* q: an arbitrary key to look at before and after */
static void start(int cap, int n) {
    for (int i = 0; i < NCLS; i++) H[i] = (uint32_t)(cv_u64() & 15) | 0xa5a5a000u;
    any_table(&T, cap, n);
    k = any_key(); v = any_val(); q = any_key();
    q0 = look(&T, q, &qv0);
}
/* the same for an arbitrary slot i and an arbitrary other slot j */
static bool valid_at(Table *t, int i, int j) {
    int n = 0, m = t->capacityMask;
    if (t->entries == NULL) return t->count == 0 && m == -1;
    for (int x = 0; x <= m; x++) n += full(t, x);
    if (n != t->count || 4 * n > 3 * (m + 1)) return false;
    i &= m; j &= m;
    if (i == j || !full(t, i)) return true;
    int h = (int)(H[cls(t->entries[i].key)] & (unsigned)m);
    if (!full(t, j)) return ((j - h) & m) > ((i - h) & m);
    return cls(t->entries[i].key) != cls(t->entries[j].key);
}
static void after(Table *t) { CV_CHECK("table-still-valid", valid_at(t, (int)(cv_u64() & 15), (int)(cv_u64() & 15))); q1 = look(t, q, &qv1); }
#define KEPT (q1 == q0 && (!q0 || qv1 == qv0))
/* run once for each size and number of entries, so that these are constants for the verifier */
#define CAPS(NAME) static void NAME##_c(int cap, int n); \
void NAME(void) { switch (cv_range(0, 1)) { case 0: NAME##_c(0, 0); break; default: NAME##_c(8, -1); } } \
static void NAME##_c(int cap, int n)
#ifndef CV_COUNT
#define CV_COUNT 0
#endif
#ifndef CV_CAP
#define CV_CAP 8
#endif
#define CAPS_N(NAME) static void NAME##_c(int cap, int n); \
void NAME(void) { if (CV_COUNT == 0 && cv_bool()) NAME##_c(0, 0); else NAME##_c(CV_CAP, CV_COUNT); } \
static void NAME##_c(int cap, int n)
CAPS(h_table_get) {
    start(cap, n);
    Value got = 77; bool r = tableGet(&T, q, &got);
    CV_REACH("end");
    CV_CHECK("finds-exactly-the-keys-present", r == q0);
    CV_CHECK("gives-the-value-stored", got == (q0 ? qv0 : 77));
    after(&T); CV_CHECK("lookup-changes-nothing", KEPT);
}
CAPS_N(h_table_set) {
    start(cap, n); Value old; bool had = look(&T, k, &old); n = T.count;
    bool r = tableSet(&T, k, v);
    CV_REACH("end");
    after(&T);
    CV_CHECK("tells-whether-the-key-is-new", r == !had && T.count == n + !had);
    if (cls(q) == cls(k)) CV_CHECK("the-key-now-has-the-value", q1 && qv1 == v);
    else CV_CHECK("other-keys-unchanged", KEPT);
}
CAPS_N(h_table_delete) {
    start(cap, n); Value old; bool had = look(&T, k, &old); n = T.count;
    bool r = tableDelete(&T, k);
    CV_REACH("end");
    after(&T);
    CV_CHECK("tells-whether-the-key-was-there", r == had && T.count == n - had);
    if (cls(q) == cls(k)) CV_CHECK("the-key-is-gone", !q1);
    else CV_CHECK("other-keys-unchanged", KEPT);
}
CAPS(h_table_nth) {
    start(cap, n); n = (int)cv_range(0, 16); int at = -7, want = -1, seen = 0;
    for (int i = 0; i < cap; i++) if (full(&T, i)) { if (seen == n) want = i; seen++; }
    Entry e = tableNthEntry(&T, n, &at);
    CV_REACH("end");
    CV_CHECK("the-nth-entry-or-none", n < T.count ? at >= 0 && e.key == T.entries[want].key && e.value == T.entries[want].value : at == -1);
}
static int visits; static Value vq; static int vqn;
static void visit(Entry *e) { visits++; if (cls(e->key) == cls(q)) { vqn++; vq = e->value; } }
CAPS(h_table_each) {
    start(cap, n); visits = vqn = 0;
    tableEachEntry(&T, visit);
    CV_REACH("end");
    CV_CHECK("every-entry-once", visits == T.count && vqn == (int)q0 && (!q0 || vq == qv0));
    int idx, m = 0; n = 0; Entry e; Value mv = 0;
    TABLE_FOREACH(&T, e, idx, { n++; if (cls(e.key) == cls(q)) { m++; mv = e.value; } })
    CV_CHECK("foreach-every-entry-once", n == T.count && idx == n * (T.count > 0) && m == (int)q0 && (!q0 || mv == qv0));
}
/* sizes are given to initTableWithCapa by a map that is rehashed: always those of a table */
static void init_capa(size_t c) {
    start(0, 0);
    initTableWithCapa(&U, c);
    CV_REACH("end");
    CV_CHECK("empty", valid(&U) && U.count == 0 && tableCapacity(&U) == c);
    freeTable(&U);
    CV_CHECK("freed", valid(&U) && U.entries == NULL);
}
void h_table_init_capa(void) { switch (cv_range(0, 2)) { case 0: init_capa(0); break; case 1: init_capa(8); break; default: init_capa(16); } }
/* deleting never needs a larger table */
void cvs_resize(Table *t, int mask) { CV_CHECK("deleting-does-not-resize", 0); CV_STOP(); }
/* the other table's entries are stored one by one */
static int sets; static Value set_q; static int set_qn;
bool cvs_tableSet(Table *t, Value key, Value val) {
    CV_CHECK("stores-into-the-receiving-table", t == &T); sets++;
    if (cls(key) == cls(q)) { set_qn++; set_q = val; }
    return true;
}
CAPS(h_table_add_all) {
    start(0, 0); any_table(&U, cap, n); Value w; bool has = look(&U, q, &w);
    tableAddAll(&U, &T);
    CV_REACH("end");
    CV_CHECK("every-entry-stored-once", sets == U.count && set_qn == (int)has && (!has || set_q == w));
    Value w2; CV_CHECK("other-table-unchanged", valid(&U) && look(&U, q, &w2) == has && w2 == w);
}
//@default level=bounded
//@ob table_get bound="tables of 0 or 8 slots, 8 distinct keys"
//@ob table_set_4_0 entry=h_table_set defs=CV_CAP=4,CV_COUNT=0 unwindset=findEntry.0:5 bound="tables of 4 slots and 0 entries, which grow to 8, 8 distinct keys"
//@ob table_set_4_1 entry=h_table_set defs=CV_CAP=4,CV_COUNT=1 unwindset=findEntry.0:5 bound="tables of 4 slots and 1 entries, which grow to 8, 8 distinct keys"
//@ob table_set_4_2 entry=h_table_set defs=CV_CAP=4,CV_COUNT=2 unwindset=findEntry.0:5 bound="tables of 4 slots and 2 entries, which grow to 8, 8 distinct keys"
//@ob table_set_4_3 entry=h_table_set defs=CV_CAP=4,CV_COUNT=3 unwindset=findEntry.0:5 bound="tables of 4 slots and 3 entries, which grow to 8, 8 distinct keys"
//@ob table_set_8_5 entry=h_table_set defs=CV_CAP=8,CV_COUNT=5 unwindset=findEntry.0:8 bound="tables of 8 slots and 5 entries, which grow to 16, 8 distinct keys"
//@ob table_set_8_6 entry=h_table_set defs=CV_CAP=8,CV_COUNT=6 unwindset=findEntry.0:8 bound="tables of 8 slots and 6 entries, which grow to 16, 8 distinct keys" tier=thorough timeout=3000
//@ob table_delete_4_0 entry=h_table_delete stubs+=resize defs=CV_CAP=4,CV_COUNT=0 unwindset=findEntry.0:5 bound="tables of 4 slots and 0 entries, 8 distinct keys"
//@ob table_delete_4_1 entry=h_table_delete stubs+=resize defs=CV_CAP=4,CV_COUNT=1 unwindset=findEntry.0:5 bound="tables of 4 slots and 1 entries, 8 distinct keys"
//@ob table_delete_4_2 entry=h_table_delete stubs+=resize defs=CV_CAP=4,CV_COUNT=2 unwindset=findEntry.0:5 bound="tables of 4 slots and 2 entries, 8 distinct keys"
//@ob table_delete_4_3 entry=h_table_delete stubs+=resize defs=CV_CAP=4,CV_COUNT=3 unwindset=findEntry.0:5 bound="tables of 4 slots and 3 entries, 8 distinct keys"
//@ob table_delete_8_2 entry=h_table_delete stubs+=resize defs=CV_CAP=8,CV_COUNT=2 unwindset=findEntry.0:8 bound="tables of 8 slots and 2 entries, 8 distinct keys"
//@ob table_delete_8_3 entry=h_table_delete stubs+=resize defs=CV_CAP=8,CV_COUNT=3 unwindset=findEntry.0:8 bound="tables of 8 slots and 3 entries, 8 distinct keys" tier=thorough timeout=3000
//@ob table_delete_8_4 entry=h_table_delete stubs+=resize defs=CV_CAP=8,CV_COUNT=4 unwindset=findEntry.0:8 bound="tables of 8 slots and 4 entries, 8 distinct keys" tier=thorough timeout=3000
//@ob table_delete_8_5 entry=h_table_delete stubs+=resize defs=CV_CAP=8,CV_COUNT=5 unwindset=findEntry.0:8 bound="tables of 8 slots and 5 entries, 8 distinct keys" tier=thorough timeout=3000
//@ob table_delete_8_6 entry=h_table_delete stubs+=resize defs=CV_CAP=8,CV_COUNT=6 unwindset=findEntry.0:8 bound="tables of 8 slots and 6 entries, 8 distinct keys" tier=thorough timeout=3000
//@ob table_nth bound="tables of 0 or 8 slots"
//@ob table_each bound="tables of 0 or 8 slots"
//@ob table_init_capa bound="8 and 16 slots"
//@ob table_add_all stubs+=tableSet bound="tables of 0 or 8 slots, at most 2 entries to add"
