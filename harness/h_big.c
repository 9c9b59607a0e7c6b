// Messages, files and transmissions of unusual size. OP 0: one long message with an arbitrary checksum; OP 1: a file of many long messages, one of
// them damaged; OP 2: a long message from end to end: written with buffers around the exact size, read, decoded; OP 3: a file of many messages from end to end;
// OP 4: a message, and another one at the same place of the same buffer afterwards; OP 5: a file of which only two messages are intact
#define MAXENC 140000
#define MAXTOK 70000
#define MAXS 140100
#include "model.h"
#include "env.h"
#include <sml/sml_transport.h>
static toks W, G; static gen g;
static void octs(unsigned len) { // an octet string whose last bytes are arbitrary
  g_tl(&g, 0, len); tk(&W, T_OCT); tk(&W, len);
  for (unsigned i = 0; i < len; i++) { unsigned char c = i + 3 >= len && !g.conc ? sx_u8("oct") : (unsigned char)(i * 7 + (i >> 8)); gb(&g, c); tk(&W, c); }
}
static void message(unsigned id, unsigned len) {
  unsigned start = g.n; tk(&W, T_MSG); gb(&g, 0x76); g_tl(&g, 0, 2); tk(&W, T_OCT); tk(&W, 2); gb(&g, (unsigned char)(id >> 8)); tk(&W, id >> 8 & 255); gb(&g, (unsigned char)id); tk(&W, id & 255);
  int cc = g.conc; g.conc = 1; g_num(&g, K_U8); g_num(&g, K_U8); g.conc = cc; gb(&g, 0x72); gb(&g, 0x65); gb(&g, 0); gb(&g, 0); gb(&g, 2); gb(&g, 1); tk(&W, 0x201); gb(&g, 0x71); octs(len); g_msgend(&g, start);
}
// total lengths of the message around 2^8, 2^9, 2^12, 2^13, 2^15, 2^16 (a message is 22 to 26 bytes longer than its string)
static const unsigned L[] = {1, 100, 229, 230, 231, 232, 233, 234, 235, 236, 255, 256, 484, 485, 486, 487, 488, 489, 490, 491, 492, 1000, 4066, 4067, 4068, 4069, 4070, 4071, 4072, 4073, 4074, 8160, 8161, 8162, 8163, 8164, 8165, 8166, 8167, 8168, 16000, 32738, 32739, 32740, 32741, 32742, 32743, 32744, 32745, 32746, 40000, 65500, 65505, 65506, 65507, 65508, 65509, 65510, 65511, 65512, 65513, 65514, 65515, 65533};
static unsigned char *cap; static unsigned capn;
ssize_t sx_write(int fd, const void *b, size_t n) { (void)fd; CHECK(capn + n <= MAXS, "more is written than a transmission has"); memcpy(cap + capn, b, n); capn += (unsigned)n; return (ssize_t)n; }
static void same(sml_file *f, unsigned m) { CHECK(f->messages_len == (int)m, "a file does not deliver exactly its intact messages"); for (unsigned i = 0; i < m; i++) fl_message(&G, f->messages[i], 0); toks_same(&W, &G, "the messages of a file differ from what was sent"); }
static void transmit(unsigned m) {
  sml_file *f = sml_file_parse(g.b, g.n); same(f, m); G.n = 0;
  static unsigned char F[MAXS]; unsigned n = 8, pad = (4 - g.n % 4) % 4; memset(F, 0x1b, 4); memset(F + 4, 1, 4); memcpy(F + 8, g.b, g.n); n += g.n; memset(F + n, 0, pad); n += pad; memset(F + n, 0x1b, 4); n += 4; F[n++] = 0x1a; F[n++] = (unsigned char)pad;
  uint16_t c = ref_crc(F, n, 0); F[n++] = (unsigned char)(c >> 8); F[n++] = (unsigned char)c;
  for (unsigned i = 8; i + 8 < n; i += 4) { unsigned d = (F[i] ^ 0x1bu) | (F[i + 1] ^ 0x1bu) | (F[i + 2] ^ 0x1bu) | (F[i + 3] ^ 0x1bu); symx_assume(d != 0); } // known finding of C21
  static const int D[] = {0, 1, 100, -1, -9}; int d = D[sx_choose(5, "size")]; sml_buffer_free(f->buf); f->buf = sml_buffer_init((size_t)((int)n + d)); cap = S; capn = 0;
  int r = sml_transport_write(9, f); symx_note((unsigned long)r);
  if (d < 0) { CHECK(r == 0 && capn == 0, "success is reported for a transmission that does not fit into the buffer"); sml_file_free(f); symx_mark("does not fit"); return; }
  CHECK(r == (int)n, "a wrong number of written bytes is reported"); CHECK(capn == n, "success is reported but the transmission is not written completely");
  for (unsigned i = 0; i < n; i++) CHECK(S[i] == F[i], "the written bytes are not those of the transmission");
  sml_file_free(f); T = capn; hard = 5; unsigned char *rx = malloc(n); size_t k = sml_transport_read(FD, rx, n); CHECK(k == n, "a written transmission is not delivered");
  f = sml_file_parse(rx + 8, k - 16); free(rx); same(f, m); sml_file_free(f); symx_mark("delivered");
}
void harness(void) {
  int op = PARAM(OP, 0); g.t = &W; g.canon = 1; g.small = 1; g.crc = 0;
  if (op == 0) {
    unsigned l = L[sx_choose((unsigned)PARAM(MAX, 64), "length")]; g.crc = (int)sx_choose(2, "checksum kind"); message(77, l); uint16_t good = (uint16_t)(g.b[g.n - 3] << 8 | g.b[g.n - 2]), x = sx_u16("difference");
    uint16_t other = ref_crc(g.b, g.n - 4, !g.crc); g.b[g.n - 3] ^= (unsigned char)(x >> 8); g.b[g.n - 2] ^= (unsigned char)x; uint16_t sent = good ^ x; symx_assume(sent != other);
    sml_file *f = sml_file_parse(g.b, g.n); if (x) { CHECK(f->messages_len == 0, "a message with a wrong checksum is delivered"); symx_mark("dropped"); } else { same(f, 1); symx_mark("delivered"); } sml_file_free(f);
  } else if (op == 1) {
    unsigned m = (unsigned)PARAM(M, 300), l = (unsigned)PARAM(LEN, 210); static const unsigned D[] = {0, 1, 100, 254, 255, 256, 298, 999}; unsigned at = D[sx_choose(8, "damaged")], cnt = 0; g.conc = 1;
    for (unsigned i = 0; i < m; i++) { unsigned w = W.n, st = g.n; if (i == at) g.conc = 0; message(i, l); if (i == at) { unsigned char x = sx_u8("damage"); symx_assume(x); g.b[g.n - 7] ^= x; symx_assume(ref_crc(g.b + st, g.n - 4 - st, 1) != (uint16_t)(g.b[g.n - 3] << 8 | g.b[g.n - 2])); W.n = w; } else cnt++; g.conc = 1; }
    sml_file *f = sml_file_parse(g.b, g.n); same(f, cnt); sml_file_free(f); symx_mark("many");
  } else if (op == 4) {
    unsigned l = L[sx_choose((unsigned)PARAM(MAX, 64), "length")]; message(77, l); uint16_t c = (uint16_t)(g.b[g.n - 3] << 8 | g.b[g.n - 2]), x = sx_u16("difference"); unsigned char y = sx_u8("damage");
    sml_buffer *b = sml_buffer_init(g.n); memcpy(b->buffer, g.b, g.n); sml_message *m = sml_message_parse(b); CHECK(m && !sml_buf_has_errors(b), "a well-formed element is rejected"); fl_message(&G, m, 0); toks_same(&W, &G, "a delivered message differs from what was sent"); sml_message_free(m);
    g.b[g.n - 5] ^= y; W.t[W.n - 1] ^= y; c ^= x; g.b[g.n - 3] = (unsigned char)(c >> 8); g.b[g.n - 2] = (unsigned char)c; memcpy(b->buffer, g.b, g.n); b->cursor = 0; int ok = c == ref_crc(g.b, g.n - 4, 0); if (!ok) ok = c == ref_crc(g.b, g.n - 4, 1);
    m = sml_message_parse(b); CHECK(!sml_buf_has_errors(b), "a well-formed message is treated as malformed because of its checksum"); G.n = 0;
    if (ok) { CHECK(m != NULL, "a message with a correct checksum is dropped"); fl_message(&G, m, 0); toks_same(&W, &G, "a delivered message differs from what was sent"); symx_mark("delivered"); } else { CHECK(m == NULL, "a message with a wrong checksum is delivered"); symx_mark("dropped"); }
    sml_message_free(m); sml_buffer_free(b);
  } else if (op == 5) {
    unsigned m = (unsigned)PARAM(M, 300), at = sx_choose(3, "intact"), w; at = at == 0 ? 0 : at == 1 ? m / 2 : m - 1; g.conc = 1; unsigned cnt = 0;
    for (unsigned i = 0; i < m; i++) { w = W.n; int keep = i == at || i == m - 1; if (keep) g.conc = 0; message(i, (unsigned)PARAM(LEN, 20)); g.conc = 1; if (keep) cnt++; else { g.b[g.n - 6] ^= (unsigned char)(1 + i % 255); W.n = w; } }
    sml_file *f = sml_file_parse(g.b, g.n); same(f, cnt); sml_file_free(f); symx_mark("many");
  } else if (op == 2) { message(1, L[sx_choose((unsigned)PARAM(MAX, 64), "length")]); transmit(1); }
  else { unsigned m = (unsigned)PARAM(M, 300); for (unsigned i = 0; i < m; i++) { g.conc = i + 1 != m; message(i, (unsigned)PARAM(LEN, 20) + i % 4); } transmit(m); }
  CHECK(symx_heap_live() == 0, "memory is still allocated after handling a transmission"); symx_mark("done");
}
