// Octet strings: construction, hexadecimal construction, comparison. OP 0 compare, 1 from hex, 2 compare with hex, 3 copy, 4 long strings compared, 5 long strings and hexadecimal
#include "sx.h"
#include <sml/sml_octet_string.h>
#include <string.h>
static unsigned char A[64], B[64]; static char H[130];
static octet_string *mk(unsigned char *b, unsigned n, const char *nm) { for (unsigned i = 0; i < n; i++) b[i] = sx_u8(nm); unsigned char *c = malloc(n ? n : 1); memcpy(c, b, n); octet_string *s = sml_octet_string_init(c, (int)n); memset(c, 0x77, n); free(c); return s; }
static int diff(const unsigned char *a, const unsigned char *b, unsigned n) { unsigned d = 0; for (unsigned i = 0; i < n; i++) d |= (unsigned)(a[i] ^ b[i]); return d != 0; }
static unsigned hexval(unsigned char c) { return c <= '9' ? c - '0' : (c | 0x20u) - 'a' + 10; }
static void hexstr(unsigned n) { // any hexadecimal digits of both cases
  for (unsigned i = 0; i < n; i++) { unsigned char c = sx_u8("digit"); unsigned d = (unsigned)(unsigned char)(c - '0') < 10, l = (unsigned)(unsigned char)(c - 'a') < 6, u = (unsigned)(unsigned char)(c - 'A') < 6; symx_assume(d | l | u); H[i] = (char)c; }
  H[n] = 0;
}
void harness(void) {
  unsigned N = (unsigned)PARAM(N, 6), op = (unsigned)PARAM(OP, 0);
  if (op == 0) {
    unsigned n = sx_choose(N + 1, "length"), m = sx_choose(N + 1, "length"); octet_string *s = mk(A, n, "a"), *t = mk(B, m, "b");
    int r = sml_octet_string_cmp(s, t), q = sml_octet_string_cmp(t, s); symx_note(r == 0);
    int d = n != m ? 1 : diff(A, B, n);
    CHECK((r != 0) == d, "comparing octet strings gives a wrong result"); CHECK((q != 0) == d, "comparing octet strings gives a wrong result");
    CHECK(sml_octet_string_cmp(s, s) == 0, "an octet string differs from itself");
    CHECK(s->len == (int)n && !diff(A, s->str, n) && t->len == (int)m && !diff(B, t->str, m), "comparing changed an octet string");
    symx_mark(d ? "different" : "equal"); if (n != m) symx_mark("length"); sml_octet_string_free(s); sml_octet_string_free(t);
  } else if (op == 1) {
    unsigned n = sx_choose(N + 1, "digits"); hexstr(n); char *x = malloc(n + 1); memcpy(x, H, n + 1);
    octet_string *s = sml_octet_string_init_from_hex(x); CHECK(!memcmp(x, H, n + 1), "the hexadecimal string is changed"); memset(x, 'f', n); free(x);
    if (n % 2) { CHECK(s == NULL, "a hexadecimal string with an odd number of digits is accepted"); symx_mark("odd"); }
    else { CHECK(s != NULL && s->len == (int)n / 2, "a hexadecimal string gives an octet string of wrong length"); for (unsigned i = 0; i < n / 2; i++) { CHECK(s->str[i] == (hexval((unsigned char)H[2 * i]) << 4 | hexval((unsigned char)H[2 * i + 1])), "a hexadecimal string gives wrong bytes"); symx_note(s->str[i]); } symx_mark("even"); }
    sml_octet_string_free(s);
  } else if (op == 2) {
    unsigned n = sx_choose(N + 1, "digits"), m = sx_choose(N / 2 + 1, "length"); hexstr(n); octet_string *s = mk(A, m, "a");
    int r = sml_octet_string_cmp_with_hex(s, H); int d = 1;
    if (n == 2 * m) { for (unsigned i = 0; i < m; i++) B[i] = (unsigned char)(hexval((unsigned char)H[2 * i]) << 4 | hexval((unsigned char)H[2 * i + 1])); d = diff(A, B, m); }
    CHECK((r != 0) == d, "comparing with a hexadecimal string gives a wrong result"); symx_note(r != 0); symx_mark(d ? "different" : "equal"); if (n % 2) symx_mark("odd"); sml_octet_string_free(s);
  } else if (op == 4 || op == 5) { // one arbitrary byte at one place, lengths that differ by powers of two
    static const unsigned L[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536}; static const int D[] = {0, 0, 1, -1, 2, 256, -256, 65536};
    unsigned n = L[sx_choose((unsigned)PARAM(MAX, 30), "length")], place = sx_choose(4, "place"), k = place == 0 ? 0 : place == 1 ? n / 2 : place == 2 ? n / 2 - 1 : n - 1, dc = sx_choose(8, "other length"); int mm = (int)n + D[dc]; unsigned m = mm > 0 ? (unsigned)mm : 0;
    unsigned char *a = malloc(n), *b = malloc(m + 1); for (unsigned i = 0; i < n; i++) a[i] = (unsigned char)(i * 5 + (i >> 8)); for (unsigned i = 0; i < m; i++) b[i] = (unsigned char)(i * 5 + (i >> 8)); unsigned char x = sx_u8("x"), y = k < m ? b[k] : 0; a[k] = x; if (dc == 1 && k < m) b[k] = y = sx_u8("y");
    octet_string *s = sml_octet_string_init(a, (int)n); CHECK(s->len == (int)n, "an octet string has a wrong length"); int d = n != m || x != y;
    if (op == 4) { octet_string *t = sml_octet_string_init(b, (int)m); CHECK(t->len == (int)m && s->str[k] == x && s->str[n - 1] == a[n - 1], "an octet string has a wrong content"); CHECK((sml_octet_string_cmp(s, t) != 0) == d, "comparing octet strings gives a wrong result"); CHECK((sml_octet_string_cmp(t, s) != 0) == d, "comparing octet strings gives a wrong result"); sml_octet_string_free(t); }
    else {
      char *h = malloc(2 * m + 2); for (unsigned i = 0; i < m; i++) { unsigned p = b[i] >> 4, q = b[i] & 15u; h[2 * i] = (char)(p + (p < 10 ? '0' : i & 1 ? 'a' - 10 : 'A' - 10)); h[2 * i + 1] = (char)(q + (q < 10 ? '0' : i & 2 ? 'a' - 10 : 'A' - 10)); } h[2 * m] = 0;
      CHECK((sml_octet_string_cmp_with_hex(s, h) != 0) == d, "comparing with a hexadecimal string gives a wrong result");
      octet_string *t = sml_octet_string_init_from_hex(h); CHECK(t && t->len == (int)m, "a hexadecimal string gives an octet string of wrong length"); for (unsigned i = 0; i < m; i++) CHECK(t->str[i] == b[i], "a hexadecimal string gives wrong bytes"); sml_octet_string_free(t);
      h[2 * m] = '7'; h[2 * m + 1] = 0; CHECK(sml_octet_string_init_from_hex(h) == NULL, "a hexadecimal string with an odd number of digits is accepted"); CHECK(sml_octet_string_cmp_with_hex(s, h) != 0, "comparing with a hexadecimal string gives a wrong result"); free(h);
    }
    sml_octet_string_free(s); free(a); free(b); symx_mark(d ? "different" : "equal");
  } else {
    static const int L[] = {0, 1, 2, 6, 15, 16, 63}; int n = L[sx_choose(7, "length")]; octet_string *s = mk(A, (unsigned)n, "a");
    CHECK(s && s->len == n, "an octet string has a wrong length"); CHECK(!diff(A, s->str, (unsigned)n), "an octet string has a wrong content"); sml_octet_string_free(s);
    s = sml_octet_string_init(NULL, 0); CHECK(s && s->len == 0, "an empty octet string is not empty"); sml_octet_string_free(s); sml_octet_string_free(NULL); symx_mark("copy");
  }
  CHECK(symx_heap_live() == 0, "memory is still allocated after releasing octet strings"); symx_mark("done");
}
