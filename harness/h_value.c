// Conversions of values. OP 0 to double, 1 to a printable string, 2 the same for long strings
#include "sx.h"
#include <sml/sml_value.h>
#include <string.h>
static void op_double(void) {
  static const unsigned char TY[] = {0x51, 0x52, 0x54, 0x58, 0x61, 0x62, 0x64, 0x68, 0x00, 0x40}; unsigned ty = TY[PARAM(TY, 0)];
  sml_value *v = sml_value_init(); double want = 0; uint64_t x; if (PARAM(NEAR, 0)) { x = 1ull << sx_choose(64, "bit"); x += sx_u8("offset"); x -= 128; if (sx_choose(2, "negative")) x = 0 - x; } else x = sx_u64("x"); // NEAR: around the powers of two
  // powers of ten do not matter here: the conversion itself has to be the nearest double
  switch (ty) {
  case 0x51: v->data.int8 = sml_i8_init((i8)x); want = (i8)x; break; case 0x52: v->data.int16 = sml_i16_init((i16)x); want = (i16)x; break;
  case 0x54: v->data.int32 = sml_i32_init((i32)x); want = (i32)x; break; case 0x58: v->data.int64 = sml_i64_init((i64)x); want = (double)(i64)x; break;
  case 0x61: v->data.uint8 = sml_u8_init((u8)x); want = (u8)x; break; case 0x62: v->data.uint16 = sml_u16_init((u16)x); want = (u16)x; break;
  case 0x64: v->data.uint32 = sml_u32_init((u32)x); want = (u32)x; break; case 0x68: v->data.uint64 = sml_u64_init(x); want = (double)x; break;
  case 0x00: { unsigned char b[2] = {(unsigned char)x, 3}; v->data.bytes = sml_octet_string_init(b, 2); break; } default: v->data.boolean = sml_boolean_init((u8)x); }
  v->type = (u8)ty;
  double d = sml_value_to_double(v); CHECK(d == want, "a value is converted to a wrong number"); symx_mark("double");
  if (ty & 15) { uint64_t y = ty & 1 ? *v->data.uint8 : ty & 2 ? *v->data.uint16 : ty & 4 ? *v->data.uint32 : *v->data.uint64; CHECK(y == (ty & 8 ? x : x & ((1ull << (8 * (ty & 15))) - 1)), "converting a value changed it"); }
  sml_value_free(v);
}
static void op_hex(void) {
  unsigned N = (unsigned)PARAM(N, 4), n = sx_choose(N + 1, "length"); unsigned char b[40]; char want[130]; unsigned w = 0; int mixed = (int)sx_choose(2, "mixed"), m = mixed;
  for (unsigned i = 0; i < n; i++) b[i] = sx_u8("byte");
  sml_value *v = sml_value_init(); v->data.bytes = sx_choose(2, "null") ? NULL : sml_octet_string_init(b, (int)n); char *res = NULL;
  char *r = sml_value_to_strhex(v, &res, mixed);
  if (!v->data.bytes || !n) { CHECK(r == NULL, "a string is produced for nothing"); symx_mark("null"); free(res); sml_value_free(v); CHECK(sml_value_to_strhex(NULL, &res, mixed) == NULL, "a string is produced for nothing"); return; }
  for (unsigned i = 0; i < n; i++) { if (m && b[i] > 0x20 && b[i] < 0x7b) want[w++] = (char)b[i]; else { m = 0; for (int s = 4; s >= 0; s -= 4) { unsigned h = (b[i] >> s) & 15u; want[w++] = (char)(h < 10 ? '0' + h : 'a' + h - 10); } want[w++] = ' '; } }
  CHECK(r != NULL && r == res, "no string is returned");
  for (unsigned i = 0; i < w; i++) { CHECK(r[i] == want[i], "the printable form of an octet string is wrong"); symx_note((unsigned char)r[i]); }
  CHECK(r[w] == 0, "the printable form of an octet string is not terminated");
  symx_mark(mixed ? m ? "text" : "mixed" : "hex"); for (unsigned i = 0; i < n; i++) CHECK(v->data.bytes->str[i] == b[i], "converting a value changed it");
  free(res); sml_value_free(v);
}
static void op_long(void) { // arbitrary bytes at three places
  static const unsigned L[] = {5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 21, 22, 31, 32, 33, 42, 43, 63, 64, 65, 84, 85, 86, 99, 100, 101, 127, 128, 129, 170, 171, 255, 256, 257, 300, 341, 342, 512, 1000, 1365, 1366, 4096, 21845, 21846, 40000}; static char want[130000]; static unsigned char b[40000];
  unsigned n = L[(unsigned)PARAM(MIN, 0) + sx_choose((unsigned)PARAM(MAX, 41), "length")], w = 0, kind = sx_choose(3, "kind"); int mixed = (int)sx_choose(2, "mixed"), m = mixed;
  for (unsigned i = 0; i < n; i++) b[i] = i == 0 || i == n / 2 || i + 1 == n ? kind == 0 && i == 0 ? 'A' : sx_u8("byte") : kind == 1 ? (unsigned char)(i * 11 + 3) : (unsigned char)('0' + i % 60);
  sml_value *v = sml_value_init(); v->data.bytes = sml_octet_string_init(b, (int)n); char *res = NULL, *r = sml_value_to_strhex(v, &res, mixed);
  for (unsigned i = 0; i < n; i++) { if (m && b[i] > 0x20 && b[i] < 0x7b) want[w++] = (char)b[i]; else { m = 0; for (int s = 4; s >= 0; s -= 4) { unsigned h = (b[i] >> s) & 15u; want[w++] = (char)(h < 10 ? '0' + h : 'a' + h - 10); } want[w++] = ' '; } }
  CHECK(r != NULL && r == res, "no string is returned"); for (unsigned i = 0; i < w; i++) CHECK(r[i] == want[i], "the printable form of an octet string is wrong"); CHECK(r[w] == 0, "the printable form of an octet string is not terminated");
  for (unsigned i = 0; i < n; i++) CHECK(v->data.bytes->str[i] == b[i], "converting a value changed it"); free(res); sml_value_free(v); symx_mark("long");
}
void harness(void) { int op = PARAM(OP, 0); if (op == 2) op_long(); else if (op) op_hex(); else op_double(); CHECK(symx_heap_live() == 0, "memory is still allocated after converting a value"); symx_mark("done"); }
