/* Contracts of the scanner (C20): a text is cut into tokens. The specification below reads the text by itself. */
//@default props=C20 src=scanner.c stubs=getOptions,sprintf,skipWhitespace level=bounded unwind=8 unwindset=identifier.1:28 flags=--no-pointer-check,--no-bounds-check fns=scanToken
#include "scanner.c"
#include "cv_stubs.h"
#include <stdarg.h>
#ifndef N
#define N 5 /* bytes of text */
#endif
static char src[N + 3]; static Scanner S; static CloxOptions opts;
CloxOptions *cvs_getOptions(void) { return &opts; }
static int printed; int cvs_sprintf(char *buf, const char *fmt, ...) { va_list ap; va_start(ap, fmt); printed = va_arg(ap, int); va_end(ap); buf[0] = '7'; buf[1] = 0; return 1; } /* only used to print a line number */
/* the contract of skipWhitespace, shown by scan_blank: continues at the first byte of a token. Here the token starts at byte FROM */
#define FROM 1
static int skips; static int line_at; void cvs_skipWhitespace(void) { CV_CHECK("blanks-skipped-first", S.currentIndex == 0 && skips == 0); skips++; S.currentIndex = FROM; S.line = line_at; }
/* ---- the specification ---- */
static int at, line; /* where the reader is */
static bool digit(char c) { return '0' <= c && c <= '9'; }
static bool letter(char c) { return ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_'; }
static bool base_digit(char c, char base) {
    switch (base) { case 'b': return c == '0' || c == '1'; case 'c': return '0' <= c && c <= '7'; default: return digit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'); }
}
static void blanks(void) { /* blanks and comments */
    for (int k = 0; k < N + 1; k++) {
        char c = src[at], d = c ? src[at + 1] : 0;
        if (c == '\n') { line++; at++; }
        else if (c == ' ' || c == '\t' || c == '\r') at++;
        else if (c == '/' && d == '/') { for (int j = 0; j < N + 1; j++) if (src[at] && src[at] != '\n') at++; }
        else if (c == '/' && d == '*') {
            bool open = true; at += 2;
            for (int j = 0; j < N + 1; j++) if (open && src[at]) {
                if (src[at] == '*' && src[at + 1] == '/') { at += 2; open = false; }
                else { if (src[at] == '\n') line++; at++; }
            }
        } else break;
    }
}
static TokenType two(char c, char d, int *len) { /* operators and punctuation: the longest one */
    *len = 2;
    if (d == '=') switch (c) { case '!': return TOKEN_BANG_EQUAL; case '=': return TOKEN_EQUAL_EQUAL; case '<': return TOKEN_LESS_EQUAL; case '>': return TOKEN_GREATER_EQUAL; }
    if (c == '<' && d == '<') return TOKEN_SHOVEL_L;
    if (c == '>' && d == '>') return TOKEN_SHOVEL_R;
    if (c == '-' && d == '>') return TOKEN_ARROW;
    if (c == ':' && d == ':') return TOKEN_DICE;
    *len = 1;
    switch (c) {
    case '(': return TOKEN_LEFT_PAREN; case ')': return TOKEN_RIGHT_PAREN; case '{': return TOKEN_LEFT_BRACE; case '}': return TOKEN_RIGHT_BRACE;
    case '[': return TOKEN_LEFT_BRACKET; case ']': return TOKEN_RIGHT_BRACKET; case ';': return TOKEN_SEMICOLON; case ':': return TOKEN_COLON; case ',': return TOKEN_COMMA;
    case '.': return TOKEN_DOT; case '-': return TOKEN_MINUS; case '+': return TOKEN_PLUS; case '/': return TOKEN_SLASH; case '%': return TOKEN_PERCENT; case '*': return TOKEN_STAR;
    case '|': return TOKEN_PIPE; case '^': return TOKEN_CARET; case '&': return TOKEN_AMP; case '!': return TOKEN_BANG; case '=': return TOKEN_EQUAL; case '<': return TOKEN_LESS; case '>': return TOKEN_GREATER;
    }
    return TOKEN_ERROR;
}
static int line0, indent0; static bool dot0;
static void start(void) {
    for (int i = 0; i < N; i++) src[i] = (char)(cv_u64() & 0xff);
    for (int i = N; i < N + 3; i++) src[i] = 0;
    initScanner(&S, src);
    S.line = line0 = (int)cv_range(1, 1000000); S.indent = indent0 = (int)cv_range(0, 1000); S.afterDot = dot0 = cv_bool();
    at = FROM; line = line_at = (int)cv_range(line0, line0 + 5);
}
void h_scan_blank(void) {
    start(); at = 0; line = line0;
    blanks();
    skipWhitespace();
    CV_REACH("end");
    CV_CHECK("continues-at-the-first-byte-of-a-token", (int)S.currentIndex == at);
    CV_CHECK("counts-the-lines", S.line == line && !S.scriptEnded && S.afterDot == dot0 && S.indent == indent0);
}
//@ob scan_blank stubs=getOptions,sprintf fns=skipWhitespace bound="texts of 5 bytes"
static void is_token(Token t, TokenType type, int from, int len) {
    CV_CHECK("kind-of-token", t.type == type);
    CV_CHECK("the-longest-token", (int)t.startIdx == from && t.length == len);
    CV_CHECK("continues-after-it", (int)S.currentIndex == from + len && S.source == src);
    CV_CHECK("line-of-the-token", t.line == line && S.line == line);
    CV_CHECK("text-is-that-of-the-source", t.lexeme == NULL && t.scanner == &S && !t.alloced);
    CV_CHECK("remembers-a-dot", S.afterDot == (type == TOKEN_DOT));
}
/* names and strings by their contracts: called at their first byte */
enum { C_NONE, C_NAME, C_DQ, C_SQ, C_STATIC, C_HEREDOC }; static int sub;
static Token sub_tok(int k) { CV_CHECK("once", sub == C_NONE); sub = k; Token t; t.type = TOKEN_EMPTY; t.line = k; return t; }
Token cvs_identifier(void) { CV_CHECK("after-its-first-byte", S.tokenStartIdx == FROM && S.currentIndex == FROM + 1); return sub_tok(C_NAME); }
Token cvs_doubleQuotedString(void) { CV_CHECK("after-the-quote", S.currentIndex == FROM + 1); return sub_tok(C_DQ); }
Token cvs_singleQuotedString(bool isStatic) { CV_CHECK("after-the-quote", S.currentIndex == FROM + 1 + isStatic); return sub_tok(isStatic ? C_STATIC : C_SQ); }
Token cvs_heredocString(void) { CV_CHECK("after-the-arrows", S.currentIndex == FROM + 3); return sub_tok(C_HEREDOC); }
/* numbers, operators and punctuation */
void h_scan_any(void) {
    start();
    int from = FROM; char c = src[at], d = c ? src[at + 1] : 0;
    CV_ASSUME(!(c == '.' && dot0));
    int want = c == '"' ? C_DQ : c == '\'' ? C_SQ : c == 's' && d == '\'' ? C_STATIC : c == '<' && d == '<' && src[at + 2] == '<' ? C_HEREDOC : letter(c) ? C_NAME : C_NONE;
    Token t = scanToken();
    CV_REACH("end");
    CV_CHECK("names-and-strings-where-they-start", sub == want);
    if (want != C_NONE) CV_CHECK("their-token", t.type == TOKEN_EMPTY && t.line == want);
    else if (!c) is_token(t, TOKEN_EOF, from, 0);
    else if (digit(c)) {
        at++;
        char b = d == 'C' ? 'c' : d == 'X' ? 'x' : d == 'B' ? 'b' : d;
        if (c == '0' && (b == 'c' || b == 'x' || b == 'b')) { at++; for (int j = 0; j < N; j++) if (base_digit(src[at], b)) at++; }
        else {
            for (int j = 0; j < N; j++) if (digit(src[at])) at++;
            if (src[at] == '.' && digit(src[at + 1])) { at++; for (int j = 0; j < N; j++) if (digit(src[at])) at++; }
        }
        is_token(t, TOKEN_NUMBER, from, at - from);
    } else {
        int len; TokenType ty = two(c, d, &len);
        if (ty == TOKEN_ERROR) CV_CHECK("an-unknown-character-is-an-error", t.type == TOKEN_ERROR && t.line == line);
        else is_token(t, ty, from, len);
        CV_CHECK("nesting", S.indent == indent0 + (c == '{') - (c == '}'));
    }
    CV_CHECK("text-unchanged", !S.scriptEnded);
}
//@ob scan_any stubs+=identifier,doubleQuotedString,singleQuotedString,heredocString bound="texts of 5 bytes"
/* names and reserved words */
static const struct { const char *w; int n; TokenType t; } words[] = {
    {"and", 3, TOKEN_AND}, {"or", 2, TOKEN_OR}, {"if", 2, TOKEN_IF}, {"in", 2, TOKEN_IN}, {"for", 3, TOKEN_FOR}, {"fun", 3, TOKEN_FUN}, {"nil", 3, TOKEN_NIL}, {"try", 3, TOKEN_TRY}, {"var", 3, TOKEN_VAR},
    {"else", 4, TOKEN_ELSE}, {"this", 4, TOKEN_THIS}, {"true", 4, TOKEN_TRUE}, {"class", 5, TOKEN_CLASS}, {"false", 5, TOKEN_FALSE}, {"catch", 5, TOKEN_CATCH}, {"throw", 5, TOKEN_THROW}, {"print", 5, TOKEN_PRINT},
    {"super", 5, TOKEN_SUPER}, {"while", 5, TOKEN_WHILE}, {"break", 5, TOKEN_BREAK}, {"module", 6, TOKEN_MODULE}, {"ensure", 6, TOKEN_ENSURE}, {"return", 6, TOKEN_RETURN}, {"foreach", 7, TOKEN_FOREACH}, {"continue", 8, TOKEN_CONTINUE},
};
#define NWORDS 25
static bool lexeme_is(const char *w, int n, int len) { if (n != len) return false; for (int i = 0; i < N; i++) if (i < n && src[FROM + i] != w[i]) return false; return true; }
void h_scan_name(void) {
    start(); CV_ASSUME(letter(src[FROM]) && !(src[FROM] == 's' && src[FROM + 1] == '\''));
    int len = 0; for (int i = 0; i < N; i++) if (i == len && (letter(src[FROM + i]) || digit(src[FROM + i]))) len++;
    TokenType want = TOKEN_IDENTIFIER;
    if (!dot0) for (int k = 0; k < NWORDS; k++) if (lexeme_is(words[k].w, words[k].n, len)) want = words[k].t;
    S.tokenStartIdx = FROM; S.currentIndex = FROM + 1; S.line = line;
    Token t = identifier();
    CV_REACH("end");
    if (!dot0 && lexeme_is("__END__", 7, len)) CV_CHECK("end-of-the-script", t.type == TOKEN_EOF && S.scriptEnded);
    else if (lexeme_is("__LINE__", 8, len)) CV_CHECK("the-number-of-the-line", t.type == TOKEN_NUMBER && printed == line && (int)S.currentIndex == FROM + len && t.lexeme[0] == '7' && t.length == 1);
    else { is_token(t, want, FROM, len); CV_CHECK("script-goes-on", !S.scriptEnded); }
}
//@ob scan_name fns=identifier defs=N=10 unwind=12 bound="names of at most 9 bytes"
/* after the end nothing follows */
void h_scan_end(void) {
    start(); S.scriptEnded = true;
    Token t = scanToken(); CV_REACH("end"); CV_CHECK("nothing-after-the-end", t.type == TOKEN_EOF);
}
//@ob scan_end stubs+=identifier,doubleQuotedString,singleQuotedString,heredocString
/* ---- strings ---- */
static char mem[N + 3]; static int allocs; static size_t asked;
void *cvs_calloc(size_t n, size_t sz) { CV_CHECK("one-buffer", allocs == 0 && n * sz <= sizeof(mem)); allocs++; asked = n * sz; return mem; }
char *cvs_strstr(const char *h, const char *s) { for (int i = 0; i < N + 2; i++) { if (!h[i]) return NULL; if (h[i] == s[0] && h[i + 1] == s[1]) return (char *)h + i; } return NULL; }
void *cvs_memmove(void *d, const void *s, size_t n) { char t[N + 3]; for (size_t i = 0; i < N + 3; i++) if (i < n) t[i] = ((const char *)s)[i]; for (size_t i = 0; i < N + 3; i++) if (i < n) ((char *)d)[i] = t[i]; return d; }
void *cvs_memset(void *d, int c, size_t n) { for (size_t i = 0; i < N + 3; i++) if (i < n) ((char *)d)[i] = (char)c; return d; }
char *cvs_strncpy(char *d, const char *s, size_t n) { bool z = false; for (size_t i = 0; i < N + 3; i++) if (i < n) { if (!z && !s[i]) z = true; d[i] = z ? 0 : s[i]; } return d; }
size_t cvs_strlen(const char *s) { size_t n = 0; for (int i = 0; i < N + 20; i++) { if (!s[i]) break; n++; } return n; }
#ifndef QCH
#define QCH '"'
#endif
void h_scan_string(void) {
    start(); S.tokenStartIdx = FROM; S.line = line; src[FROM] = QCH;
    int open = FROM + 1; S.currentIndex = open;
#ifdef STATIC
    src[FROM] = 's'; src[FROM + 1] = QCH; open++; S.currentIndex = open;
#endif
    for (int i = 0; i < N; i++) CV_ASSUME(!(src[i] == '\\' && src[i + 1] == '\\')); /* a backslash before a backslash: not specified */
    int end = -1; for (int i = N; i >= open; i--) if (src[i] == QCH && !(i > open && src[i - 1] == '\\')) end = i; /* the first quote that is not escaped */
    for (int i = open; i < N; i++) if (end < 0 || i < end) CV_ASSUME(src[i]); /* the text goes on up to there, or to its end */
    char want[N + 1]; int n = 0, nl = 0;
    bool skip = false;
    for (int i = open; i < N; i++) if (i < end) {
        char c = src[i], d = src[i + 1];
        if (c == '\n') nl++;
        if (skip) { skip = false; continue; }
        if (c == '\\' && i + 1 < end && d == QCH) { want[n++] = d; skip = true; }
        else if (QCH == '"' && c == '\\' && (d == 'n' || d == 't' || d == 'r')) { want[n++] = d == 'n' ? '\n' : d == 't' ? '\t' : '\r'; skip = true; }
        else want[n++] = c;
    }
#ifdef STATIC
    Token t = singleQuotedString(true); TokenType ty = TOKEN_STRING_STATIC;
#else
    Token t = QCH == '"' ? doubleQuotedString() : singleQuotedString(false); TokenType ty = QCH == '"' ? TOKEN_STRING_DQUOTE : TOKEN_STRING_SQUOTE;
#endif
    CV_REACH("end");
    CV_CHECK("a-string-ends-at-a-quote", (t.type == ty) == (end >= 0));
    if (end >= 0) {
        CV_CHECK("continues-after-the-quote", (int)S.currentIndex == end + 1);
        CV_CHECK("length-of-the-string", t.length == n && t.alloced);
        CV_CHECK("counts-the-lines", t.line == line + nl && S.line == line + nl);
        for (int i = 0; i < N; i++) if (i < n) CV_CHECK("bytes-of-the-string-escapes-replaced", t.lexeme[i] == want[i]);
        CV_CHECK("string-is-terminated", t.lexeme[n] == 0 && asked >= (size_t)n + 1);
    } else CV_CHECK("an-open-string-is-an-error", t.type == TOKEN_ERROR);
}
//@ob scan_dquote entry=h_scan_string defs=N=6,QCH=34 unwind=28 stubs=getOptions,sprintf,calloc,strstr,memmove,memset,strncpy,strlen fns=doubleQuotedString,strReplace bound="strings of at most 4 bytes"
//@ob scan_squote entry=h_scan_string defs=N=6,QCH=39 unwind=28 stubs=getOptions,sprintf,calloc,strstr,memmove,memset,strncpy,strlen fns=singleQuotedString,strReplace bound="strings of at most 4 bytes"
//@ob scan_static entry=h_scan_string defs=N=7,QCH=39,STATIC unwind=28 stubs=getOptions,sprintf,calloc,strstr,memmove,memset,strncpy,strlen fns=singleQuotedString,strReplace bound="strings of at most 4 bytes"
