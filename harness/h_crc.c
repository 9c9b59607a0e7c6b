// Checksums against their definition, N arbitrary bytes, plus known answers and detection of small errors
#include "model.h"
static uint16_t bitwise(const unsigned char *b, unsigned n, int kermit) {
  uint16_t c = kermit ? 0 : 0xffff;
  for (unsigned i = 0; i < n; i++) { c = (uint16_t)(c ^ b[i]); for (int k = 0; k < 8; k++) c = (uint16_t)((c >> 1) ^ (0x8408u & (0u - (c & 1u)))); }
  if (kermit) return c; c ^= 0xffff; return (uint16_t)(c << 8 | c >> 8);
}
void harness(void) {
  int op = PARAM(OP, 0); unsigned n = (unsigned)PARAM(N, 8); unsigned char *b = malloc(n ? n : 1), *x = malloc(n ? n : 1);
  if (op == 0) { // equals the definition
    if (n) symx_make_symbolic(b, n, "bytes"); memcpy(x, b, n);
    uint16_t c = sml_crc16_calculate(b, (int)n), d = sml_crc16kermit_calculate(b, (int)n);
    CHECK(c == bitwise(x, n, 0), "the X.25 checksum is wrong"); CHECK(d == bitwise(x, n, 1), "the Kermit checksum is wrong");
    for (unsigned i = 0; i < n; i++) CHECK(b[i] == x[i], "calculating a checksum modified the data");
    CHECK(sml_crc16_calculate(b, (int)n) == c && sml_crc16kermit_calculate(b, (int)n) == d, "a checksum depends on earlier calculations");
    symx_note(c); symx_note(d);
  } else if (op == 1) { // known answers: check values of CRC-16/X-25 (0x906e) and CRC-16/KERMIT (0x2189)
    memcpy(b, "123456789", 9); CHECK(n >= 9, "parameter"); CHECK(sml_crc16_calculate(b, 9) == 0x6e90, "the X.25 checksum is wrong"); CHECK(sml_crc16kermit_calculate(b, 9) == 0x2189, "the Kermit checksum is wrong");
  }
  else { // long inputs: the last bytes are arbitrary
    static const unsigned L[] = {511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8096, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 131072}; n = L[sx_choose((unsigned)PARAM(MAX, 20), "length")]; free(b); free(x); b = malloc(n); x = malloc(n);
    for (unsigned i = 0; i < n; i++) b[i] = i + 4 >= n ? sx_u8("byte") : (unsigned char)(i * 13 + (i >> 8)); memcpy(x, b, n);
    CHECK(sml_crc16_calculate(b, (int)n) == bitwise(x, n, 0), "the X.25 checksum is wrong"); CHECK(sml_crc16kermit_calculate(b, (int)n) == bitwise(x, n, 1), "the Kermit checksum is wrong"); symx_mark("long");
    // the same memory with other content, and a part of it
    unsigned at = sx_choose(3, "place"); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 6; unsigned char y = at == n - 6 ? sx_u8("other") : (unsigned char)(b[at] ^ 0x40); b[at] = y; x[at] = y;
    CHECK(sml_crc16kermit_calculate(b, (int)n) == bitwise(x, n, 1), "the Kermit checksum is wrong"); CHECK(sml_crc16_calculate(b, (int)n) == bitwise(x, n, 0), "the X.25 checksum is wrong");
    CHECK(sml_crc16_calculate(b, (int)n - 1) == bitwise(x, n - 1, 0), "the X.25 checksum is wrong"); CHECK(sml_crc16kermit_calculate(b + 1, (int)n - 1) == bitwise(x + 1, n - 1, 1), "the Kermit checksum is wrong");
  }
  free(b); free(x); symx_mark("crc");
}
