/* C01: texts, and what the two readers made of them. @rust reader  @override strtod */
#include "../include/symx.h"
#include <string.h>
#include <errno.h>
typedef uint64_t u64;
static uint8_t txt[64];
static u64 len;
static u64 got[2][512], n[2];
u64 rd_rust_lex(const uint8_t *p, u64 n, u64 *out);
u64 rd_rust_parse(const uint8_t *p, u64 n, u64 *out);
u64 rd_len(void) { return len; }
u64 rd_at(u64 i) { return txt[i]; }
void rd_put(u64 v) { got[0][n[0]++] = v; }
void rd_lex(void) { n[1] = rd_rust_lex(txt, len, got[1]); }
void rd_parse(void) { n[1] = rd_rust_parse(txt, len, got[1]); }
u64 rd_same(void) { u64 r = n[0] == n[1]; if (r) for (u64 i = 0; i < n[0]; i++) r &= got[0][i] == got[1][i]; return r; }
u64 rd_refused(void) { return n[1] == 1; }

static int plain;
static int digit(uint8_t c) { return (c >= '0') & (c <= '9'); }
static int lower(uint8_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* strtod: decimal and hexadecimal numerals small enough to be exact, inf and nan */
double strtod(const char *s, char **end) {
  const char *p = s;
  int neg = 0;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if (lower(p[0]) == 'i' && lower(p[1]) == 'n' && lower(p[2]) == 'f') {
    p += 3;
    if (lower(p[0]) == 'i' && lower(p[1]) == 'n' && lower(p[2]) == 'i' && lower(p[3]) == 't' && lower(p[4]) == 'y') p += 5;
    *end = (char *)p;
    return neg ? -__builtin_inf() : __builtin_inf();
  }
  if (lower(p[0]) == 'n' && lower(p[1]) == 'a' && lower(p[2]) == 'n') { *end = (char *)p + 3; return __builtin_nan(""); }
  u64 m = 0;
  int e = 0, any = 0;
  if (p[0] == '0' && lower(p[1]) == 'x') {
    const char *q = p + 2;
    while (digit(*q) || (lower(*q) >= 'a' && lower(*q) <= 'f')) { m = m * 16 + (digit(*q) ? *q - '0' : lower(*q) - 'a' + 10); q++; }
    symx_assume(*q != '.' && lower(*q) != 'p');
    *end = (char *)(q == p + 2 ? p + 1 : q);
    return neg ? -(double)m : (double)m;
  }
  while (digit(*p)) { m = m * 10 + (*p++ - '0'); any = 1; }
  if (*p == '.' && (any || digit(p[1]))) { p++; while (digit(*p)) { m = m * 10 + (*p++ - '0'); e--; any = 1; } }
  if (!any) { *end = (char *)s; return 0; }
  if (lower(*p) == 'e') {
    const char *q = p + 1;
    int en = 0, x = 0;
    if (*q == '+' || *q == '-') en = *q++ == '-';
    if (digit(*q)) { while (digit(*q)) x = x * 10 + (*q++ - '0'); e += en ? -x : x; p = q; }
  }
  *end = (char *)p;
  double r = (double)m, t = 1;
  if (plain) symx_assume(m == 0 || e <= 22);
  if (m != 0 && e > 308) { errno = 34; return neg ? -__builtin_inf() : __builtin_inf(); }
  if (m != 0) symx_assume(e <= 22 && e >= -22);
  for (int i = 0; i < (e < 0 ? -e : e) && m != 0; i++) t *= 10;
  r = e < 0 ? r / t : r * t;
  return neg ? -r : r;
}
static int id(uint8_t c) { return (c == 33) | ((c >= 36) & (c <= 38)) | ((c >= 42) & (c <= 43)) | ((c >= 45) & (c <= 58)) | ((c >= 60) & (c <= 63)) | ((c >= 65) & (c <= 90)) | ((c >= 94) & (c <= 95)) | ((c >= 97) & (c <= 122)) | (c == 124); }
/* is there, from i on, an identifier that could be read as a number other than a plain one? */
static int odd(u64 i) {
  if (txt[i] == '+' || txt[i] == '-') { if (digit(txt[i + 1]) && txt[i] == '+') return 1; i++; }
  if (txt[i] == '.') return digit(txt[i + 1]);
  if (digit(txt[i])) { while (digit(txt[i])) i++; return id(txt[i]); }
  return lower(txt[i]) == 'i' || lower(txt[i]) == 'n';
}
/* k arbitrary characters of ASCII; numbers are plain ones, and no identifier begins with i or n */
void rd_any(u64 k) {
  len = k;
  symx_bytes(txt, k);
  for (u64 i = 0; i < k; i++) symx_assume(txt[i] < 128);
  for (u64 i = 0; i < k; i++) {
    if (i > 0 && id(txt[i - 1])) continue;
    if (id(txt[i])) symx_assume(!odd(i));
  }
}
/* k characters of numerals, but for those `rd_odd` lists kinds of */
void rd_numeral(u64 k) {
  static const char al[8] = "0195.e-+";
  len = k;
  plain = 1;
  u64 digits = 0;
  for (u64 i = 0; i < k; i++) { txt[i] = al[symx_concretize(symx_choose(8))]; digits += digit(txt[i]); }
  if (k > 1 && txt[0] == '+') symx_assume(digits != k - 1);
  if (k > 1 && txt[0] == '0' && digit(txt[1])) symx_assume(digits == k);
}
static const char *const toks[24] = {"a", "(", ")", "{", "}", "@", ".", "?", "'", "[", "]", "`", ",", ",@", "~", "\\", "!", "1", "\"s\\n\"", "#\\c", "#t", "#f", "$ ;x\n", "#"};
/* k tokens of the first m kinds */
void rd_tokens(u64 k, u64 m) {
  len = 0;
  for (u64 i = 0; i < k; i++) {
    const char *s = toks[symx_concretize(symx_choose(m))];
    u64 l = strlen(s);
    for (u64 j = 0; j < l; j++) txt[len++] = s[j];
    txt[len++] = ' ';
  }
}
/* spellings on which the two are known to differ, and neighbours on which they agree */
static const char *const odds[] = {"5", "+5", "-5", "01", "01.5", "1.5", "+1.5", "00", "1e400", "1e2", "-0", "-0.0", "0e1", "0.", ".5", "+", "-", "+.5", "-.5", "1e", "1e+", "infinity", "-inf", "+nan", "nan", "0x1", "-0x1", "1x", "i", "n"};
u64 rd_odd(u64 k) { const char *s = odds[k]; len = strlen(s); memcpy(txt, s, len); return sizeof odds / sizeof *odds; }
