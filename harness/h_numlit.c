/* Contract of number literals (C20): the value of the token in its base. */
//@default props=C20 src=compiler.c stubs=getOptions,tokStr,__isoc23_strtol,strtod,emitConstant,fprintf unwind=10 flags=--no-pointer-check,--no-bounds-check level=bounded bound="literals of at most 6 bytes"
#include "compiler.c"
#include "cv_stubs.h"
static CloxOptions opts; CloxOptions *cvs_getOptions(void) { return &opts; }
static char txt[7]; static Node node; static long lret; static double dret; static int nl, nd, base_; static const char *from;
char *cvs_tokStr(Token *t) { CV_CHECK("the-literal", t == &node.tok); return txt; }
long cvs___isoc23_strtol(const char *s, char **e, int base) { nl++; from = s; base_ = base; return lret; }
double cvs_strtod(const char *s, char **e) { nd++; from = s; return dret; }
int cvs_fprintf(FILE *f, const char *fmt, ...) { return 0; } /* a warning */
static int emitted; static Value ev; static ConstType et;
Insn *cvs_emitConstant(Value v, ConstType t) { emitted++; ev = v; et = t; return NULL; }
void h_number_literal(void) {
    int n = (int)cv_range(1, 6); for (int i = 0; i < 6; i++) { txt[i] = i < n ? (char)(cv_u64() & 0x7f) : 0; CV_ASSUME(i >= n || txt[i]); }
    node.tok.length = n; node.tok.type = TOKEN_NUMBER; lret = (long)cv_int(); dret = cv_double(); CV_ASSUME(dret == dret);
    bool emit = cv_bool();
    Value v = numberLiteral(&node, emit); if (emit) { CV_CHECK("one-constant", emitted == 1 && et == CONST_T_NUMLIT); v = ev; } else CV_CHECK("no-code", emitted == 0);
    char b = n >= 2 && txt[0] == '0' ? txt[1] : 0; int base = b == 'c' || b == 'C' ? 8 : b == 'b' || b == 'B' ? 2 : b == 'x' || b == 'X' ? 16 : 10;
    CV_REACH("end");
    CV_CHECK("read-once", nl + nd == 1);
    if (nd) CV_CHECK("decimal-and-hexadecimal-by-strtod", (base == 10 || base == 16) && from == txt && v == NUMBER_VAL(dret));
    else CV_CHECK("digits-after-the-prefix-in-their-base", base != 10 && from == txt + 2 && base_ == base && v == NUMBER_VAL((double)lret));
}
//@ob number_literal fns=numberLiteral trust=strtol-and-strtod-read-numbers
