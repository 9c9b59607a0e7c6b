// Writing transmissions. A file of M messages of type T.. with symbolic content is written through a descriptor whose behaviour is arbitrary.
// OP 0: buffer sizes around the exact one (or the default buffer with DEF); OP 1: the file was just parsed (its buffer has no space for the frame);
// OP 2: end to end, written, transferred in pieces between noise, read, parsed; OP 3: a series of files over one line
#define MAXENC 4000
#define MAXTOK 4000
#define MAXS 9000
#include "model.h"
#include "env.h"
#include <sml/sml_transport.h>
static toks W, G; static gen g;
static unsigned char out[3000]; static unsigned on; static int faults, dead, wfd = 9;
ssize_t sx_write(int fd, const void *b, size_t n) {
  CHECK(fd == wfd, "a wrong descriptor is written");
  CHECK(on + n <= sizeof out, "more is written than a transmission has");
  if (dead) { errno = EIO; return -1; }
  if (faults > 0) switch (sx_choose(4, "write")) {
    case 1: faults--; dead = 1; errno = EIO; symx_mark("write error"); return -1;
    case 2: faults--; if (n > 1) { n = 1 + sx_choose((unsigned)(n > 200 ? 200 : n) - 1, "short"); symx_mark("short write"); } break;
    case 3: faults--; dead = 1; if (n > 1) n = 1 + sx_choose((unsigned)(n > 200 ? 200 : n) - 1, "short"); symx_mark("short write"); break;
  }
  memcpy(out + on, b, n); on += (unsigned)n; return (ssize_t)n;
}
// the frame of the messages in g.b
static unsigned char F[3000]; static unsigned fn;
static void ref_transmission(void) {
  static const unsigned char ST[8] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1};
  memcpy(F, ST, 8); fn = 8; memcpy(F + fn, g.b, g.n); fn += g.n; unsigned pad = (4 - g.n % 4) % 4; memset(F + fn, 0, pad); fn += pad;
  memset(F + fn, 0x1b, 4); fn += 4; F[fn++] = 0x1a; F[fn++] = (unsigned char)pad; uint16_t c = ref_crc(F, fn, 0); F[fn++] = (unsigned char)(c >> 8); F[fn++] = (unsigned char)c;
}
static sml_file *build(void) {
  unsigned m = (unsigned)PARAM(M, 1), t0 = (unsigned)PARAM(T, 0); sml_file *f = sml_file_init(); static toks one; one.n = 0;
  g.canon = 1; g.small = 1; g.budget = PARAM(B, 0); g.conc = PARAM(CONC, 2);
  for (unsigned i = 0; i < m; i++) { g.t = &one; one.n = one.rd = 0; g_message(&g, &MSG[(t0 + 5 * i) % 14]); for (unsigned k = 0; k < one.n; k++) tk(&W, one.t[k]); sml_file_add_message(f, bd_message(&one)); }
  return f;
}
static void check_out(int full) { CHECK(on <= fn, "more is written than the transmission has"); if (full) CHECK(on == fn, "success is reported but the transmission is not written completely"); for (unsigned i = 0; i < on; i++) { CHECK(out[i] == F[i], "the written bytes are not those of the transmission"); symx_note(out[i]); } }
static void op_write(void) {
  sml_file *f = build(); ref_transmission(); unsigned fits = 1;
  if (!PARAM(DEF, 0)) { // sizes around the exact one
    static const int D[] = {1, 0, -1, -2, -3, -4, -5, -7, -8, -9, -10, -11, -12, -13, 40, -100000}; int d = D[sx_choose(PARAM(SIZES, 2), "size")];
    long cap = (long)fn + d; if (cap < 0) cap = (long)sx_choose(20, "small"); if (cap < (long)fn) fits = 0; unsigned char old = sx_u8("old");
    sml_buffer_free(f->buf); f->buf = sml_buffer_init((size_t)cap); memset(f->buf->buffer, old, (size_t)cap); static const unsigned AT[] = {0, 3, 8, 17}; f->buf->cursor = PARAM(STALE, 0) ? AT[sx_choose(4, "cursor")] : 0; f->buf->error = PARAM(STALE, 0) ? (int)sx_choose(2, "error") : 0; // the state an earlier use of the buffer left
  } else CHECK(fn <= f->buf->buffer_len, "model: the default buffer is too small for this job");
  int rounds = PARAM(ROUNDS, 1); int total = PARAM(FAULTS, 0);
  for (int k = 0; k < rounds; k++) {
    on = 0; dead = 0; faults = total; int had = total;
    int r = sml_transport_write(wfd, f); symx_note((unsigned long)r);
    if (!fits) { CHECK(r == 0, "success is reported for a transmission that does not fit into the buffer"); CHECK(on == 0, "a part of a transmission that does not fit into the buffer is written"); symx_mark("does not fit"); }
    else if (r) { CHECK(r == (int)fn, "a wrong number of written bytes is reported"); check_out(1); symx_mark("written"); }
    else { CHECK(had != faults, "failure is reported although the descriptor accepted everything"); CHECK(on < fn, "failure is reported although the transmission is written completely"); check_out(0); symx_mark("failed"); }
  }
  toks *t = &G; for (int i = 0; i < f->messages_len; i++) fl_message(t, f->messages[i], 0);
  toks_same(&W, &G, "writing a transmission changed its messages");
  sml_file_free(f);
}
static void op_parsed(void) { // re-sending what was received: the buffer of a parsed file holds exactly the messages
  sml_file *x = build(); unsigned tail = PARAM(TAIL, 0) ? sx_choose((unsigned)PARAM(TAIL, 0), "tail") : 0; unsigned char *in = malloc(g.n + tail); memcpy(in, g.b, g.n); memset(in + g.n, 0, tail); if (tail) in[g.n] = 0x42; sml_file_free(x); ref_transmission(); // malformed bytes after the messages
  sml_file *f = sml_file_parse(in, g.n + tail); free(in); CHECK(f->messages_len == PARAM(M, 1), "a file does not deliver its messages");
  int r = sml_transport_write(wfd, f);
  if (r) { CHECK(r == (int)fn, "a wrong number of written bytes is reported"); check_out(1); symx_mark("written"); } else { CHECK(on == 0, "a part of a transmission that does not fit into the buffer is written"); CHECK(f->buf->buffer_len < fn, "failure is reported although the descriptor accepted everything"); }
  sml_file_free(f); symx_mark("resent");
}
static void op_e2e(void) {
  sml_file *f = build(); ref_transmission(); int kf = PARAM(KF, 0);
  sml_buffer_free(f->buf); f->buf = sml_buffer_init(2000); f->buf->cursor = 0;
  CHECK(sml_transport_write(wfd, f) > 0, "a transmission is not written"); sml_file_free(f);
  // an escape sequence inside the messages, at a multiple of four
  int esc = 0;
  for (unsigned i = 8; i + 8 < on; i += 4) { unsigned d = (out[i] ^ 0x1bu) | (out[i + 1] ^ 0x1bu) | (out[i + 2] ^ 0x1bu) | (out[i + 3] ^ 0x1bu); esc |= d == 0; }
  if (!kf) symx_assume(!esc); else symx_assume(esc);
  unsigned noise = (unsigned)PARAM(NOISE, 0); for (unsigned i = 0; i < noise; i++) { S[T] = sx_u8("noise"); T++; }
  memcpy(S + T, out, on); T += on; chunks = PARAM(CHUNKS, 0); intrs = PARAM(INTRS, 0); hard = 5;
  unsigned char *rx = malloc(2000); size_t n = sml_transport_read(FD, rx, 2000);
  if (kf) { CHECK(n == on, "a transmission whose content contains an escape sequence at a multiple of four is not delivered"); symx_mark("escape delivered"); free(rx); return; }
  CHECK(n == on, "a written transmission is not delivered");
  sml_file *q = sml_file_parse(rx + 8, n - 16); memset(rx, 0, 2000); free(rx);
  CHECK(q->messages_len == PARAM(M, 1), "a transmission does not deliver its messages");
  for (int i = 0; i < q->messages_len; i++) fl_message(&G, q->messages[i], 0);
  toks_same(&W, &G, "the messages of a transmission change on the way"); toks_note(&G);
  sml_file_free(q); symx_mark("delivered");
}
static void op_series(void) { // files of different sizes sent one after the other, read when all are sent or each before the next
  unsigned k = (unsigned)PARAM(FILES, 3), t0 = (unsigned)PARAM(T, 0), n0 = 0, rd = 0, order = sx_choose(2, "order"), noise = (unsigned)PARAM(NOISE, 0); static toks one; unsigned char *rx = malloc(2000); sml_file *fs[8];
  g.canon = 1; g.small = 1; g.conc = PARAM(CONC, 2); chunks = PARAM(CHUNKS, 0); hard = 5;
  for (unsigned i = 0; i < k; i++) {
    sml_file *f = fs[i] = sml_file_init(); unsigned m = (i + (unsigned)PARAM(MORE, 0)) % 3; sml_buffer_free(f->buf); f->buf = sml_buffer_init(1500); unsigned was = W.n;
    for (unsigned j = 0; j < m; j++) { g.n = 0; g.t = &one; one.n = one.rd = 0; g_message(&g, &MSG[(t0 + 5 * i + 3 * j) % 14]); for (unsigned q = 0; q < one.n; q++) tk(&W, one.t[q]); sml_file_add_message(f, bd_message(&one)); }
    (void)was; (void)n0; on = 0; int r = sml_transport_write(wfd, f); CHECK(r > 0 && (unsigned)r == on, "a transmission is not written");
    for (unsigned q = 8; q + 8 < on; q += 4) symx_assume((out[q] ^ 0x1bu) | (out[q + 1] ^ 0x1bu) | (out[q + 2] ^ 0x1bu) | (out[q + 3] ^ 0x1bu));
    for (unsigned q = 0; q < noise; q++) S[T++] = sx_u8("noise");
    CHECK(T + on <= MAXS, "model: line too short"); memcpy(S + T, out, on); T += on;
    if (order || i + 1 == k) for (; rd <= i; rd++) {
      size_t n = sml_transport_read(FD, rx, 2000); CHECK(n >= 16, "a written transmission is not delivered"); sml_file *q = sml_file_parse(rx + 8, n - 16); memset(rx, 0, 2000);
      CHECK(q->messages_len == fs[rd]->messages_len, "a transmission does not deliver its messages"); for (int j = 0; j < q->messages_len; j++) fl_message(&G, q->messages[j], 0); sml_file_free(q);
    }
  }
  toks_same(&W, &G, "the messages of a transmission change on the way"); free(rx); for (unsigned i = 0; i < k; i++) sml_file_free(fs[i]); symx_mark("series");
}
void harness(void) {
  switch (PARAM(OP, 0)) { case 0: op_write(); break; case 1: op_parsed(); break; case 3: op_series(); break; default: op_e2e(); }
  CHECK(symx_heap_live() == 0, "memory is still allocated after handling a transmission"); symx_mark("done");
}
