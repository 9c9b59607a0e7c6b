// Debugging output. OP 0: sml_hexdump of N arbitrary bytes, 1: sml_file_print of a decoded file of M messages, 2: of a built file with arbitrary message types
#define MAXENC 90000
#define MAXTOK 60000
#include "model.h"
#include "sx.h"
#include <stdio.h>
static char O[300000]; static unsigned no;
void sx_vprintf(int st, const char *f, va_list ap) { if (st != 1) return; char t[300]; int r = vsnprintf(t, sizeof t, f, ap); CHECK(r >= 0 && r < 300, "model: unexpected conversion in a printed format"); for (int i = 0; i < r; i++) { CHECK(no < sizeof O, "far too much is printed"); O[no++] = t[i]; } }
#include "capstdio.h"
static toks W; static gen g;
static char hx(unsigned n) { return (char)('0' + n + (unsigned)(n > 9) * 7); }
static void dump(void) { // two digits and a space per byte, lines of eight bytes, a newline at the end
  static const unsigned L[] = {511, 512, 1000, 4096, 32768, 65535, 65536, 65537, 80000}; int big = PARAM(BIG, 0); // BIG: arbitrary bytes at three places
  unsigned N = (unsigned)PARAM(N, 20), n = big ? L[sx_choose(9, "length")] : sx_choose(N + 1, "length"), k = 0; unsigned char *b = malloc(n ? n : 1), *c = malloc(n ? n : 1); for (unsigned i = 0; i < n; i++) b[i] = c[i] = !big || i == 0 || i == n / 2 || i + 1 == n ? sx_u8("byte") : (unsigned char)(i * 7 + (i >> 8));
  sml_hexdump(b, n);
  CHECK(no == 3 * n + n / 8 + 1, "a wrong number of characters is printed"); symx_note(no);
  for (unsigned i = 0; i < n; i++) { CHECK(O[k] == hx(c[i] >> 4) && O[k + 1] == hx(c[i] & 15u) && O[k + 2] == ' ', "the hexadecimal dump shows something else than the bytes"); k += 3; if (i % 8 == 7) { CHECK(O[k] == '\n', "the hexadecimal dump shows something else than the bytes"); k++; } CHECK(b[i] == c[i], "printing changed the bytes"); }
  CHECK(O[k] == '\n', "the hexadecimal dump shows something else than the bytes"); free(b); free(c); symx_mark("dump");
}
static void file(void) {
  unsigned m = (unsigned)PARAM(M, 2), t0 = (unsigned)PARAM(T, 0), k; char e[120]; g.t = &W; g.small = 1; g.conc = 2; g.crc = 0; unsigned ty[400]; int bad[400], good = 0;
  for (unsigned i = 0; i < m; i++) { ty[i] = m <= 3 ? i ? sx_choose(14, "type") : t0 : (t0 + i) % 14; if (m > 3) g.conc = 1; bad[i] = m <= 3 && sx_choose(2, "damaged"); g_message(&g, &MSG[ty[i]]); if (bad[i]) { unsigned char x = sx_u8("damage"); symx_assume(x); unsigned st = g.n; (void)st; g.b[g.n - 2] ^= x; } else good++; }
  sml_file *f = sml_file_parse(g.b, g.n); if (f->messages_len != good) { sml_file_free(f); return; } // (another valid checksum by chance)
  sml_file_print(f);
  k = (unsigned)snprintf(e, sizeof e, "SML file (%d SML messages, %u bytes)\n", good, g.n); unsigned at = 0; for (unsigned i = 0; i < k; i++) CHECK(at + i < no && O[at + i] == e[i], "the summary of a file is wrong"); at += k;
  for (unsigned j = 0; j < m; j++) if (!bad[j]) { k = (unsigned)snprintf(e, sizeof e, "SML message %4X\n", (unsigned)MSG[ty[j]].tag); for (unsigned i = 0; i < k; i++) CHECK(at + i < no && O[at + i] == e[i], "the summary of a file does not show its messages"); at += k; }
  CHECK(no == at, "a wrong number of characters is printed"); CHECK(f->messages_len == good, "printing changed the file"); sml_file_free(f); symx_mark("summary");
}
static void built(void) { // types of one to eight digits, all values; also two equal ones
  unsigned m = (unsigned)PARAM(M, 2), at, k; u32 ty[8], seen = 0; char e[120]; sml_file *f = sml_file_init(); f->buf->cursor = (size_t)sx_choose(3, "bytes") * 256;
  for (unsigned i = 0; i < m; i++) { ty[i] = sx_u32("type"); symx_assume(ty[i] != 0); sml_message *x = malloc(sizeof *x); memset(x, 0, sizeof *x); x->message_body = sml_message_body_init(ty[i], NULL); sml_file_add_message(f, x); seen |= ty[i]; }
  sml_file_print(f); k = (unsigned)snprintf(e, sizeof e, "SML file (%u SML messages, %u bytes)\n", m, (unsigned)f->buf->cursor); for (unsigned i = 0; i < k; i++) CHECK(i < no && O[i] == e[i], "the summary of a file is wrong"); at = k;
  for (unsigned j = 0; j < m; j++) {
    static const char P[] = "SML message "; for (unsigned i = 0; i < 12; i++) CHECK(at + i < no && O[at + i] == P[i], "the summary of a file does not show its messages"); at += 12;
    unsigned d = 0; while (d < 8 && ty[j] >> (4 * d)) d++; // (nothing but spaces for zero)
    for (unsigned i = d; i < 4; i++) { CHECK(at < no && O[at] == ' ', "the summary of a file does not show its messages"); at++; }
    for (unsigned i = d; i-- > 0; at++) CHECK(at < no && O[at] == hx(ty[j] >> (4 * i) & 15u), "the summary of a file does not show its messages");
    CHECK(at < no && O[at] == '\n', "the summary of a file does not show its messages"); at++; }
  CHECK(no == at, "a wrong number of characters is printed"); symx_note(no); for (unsigned j = 0; j < m; j++) CHECK(*f->messages[j]->message_body->tag == ty[j], "printing changed the file");
  for (unsigned j = 0; j < m; j++) *f->messages[j]->message_body->tag = 0; sml_file_free(f); symx_mark("types");
}
void harness(void) { if (PARAM(OP, 0) == 2) built(); else if (PARAM(OP, 0)) file(); else dump(); CHECK(symx_heap_live() == 0, "memory is still allocated after printing"); symx_mark("done"); }
