// Reading transmissions from a descriptor. The stream is: NOISE arbitrary bytes, a start sequence, GROUPS arbitrary groups of four bytes
// (or, with FREE, nothing but FREE arbitrary bytes), cut at an arbitrary place; the result is compared with a direct search for the frame.
// OP 0: one call, all buffer sizes; OP 1: listen, FRAMES transmissions with NOISE arbitrary bytes before each; OP 2: listen, long transmissions
#include "env.h"
#include <sml/sml_transport.h>
static const unsigned char START[8] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1};
// the frame in the bytes [from, T): its start and length, or length 0; *need: how many bytes of the stream tell
static unsigned ref_frame(unsigned from, unsigned max, unsigned *start) {
  unsigned p = from;
  for (;; p++) { if (p + 8 > T) return 0; int eq = 1; for (unsigned i = 0; i < 8; i++) if (S[p + i] != START[i]) { eq = 0; break; } if (eq) break; }
  *start = p; unsigned n = 8;
  for (;; n += 4) {
    if (p + n + 4 > T) return 0;
    const unsigned char *q = S + p + n; int esc = q[0] == 0x1b && q[1] == 0x1b && q[2] == 0x1b && q[3] == 0x1b;
    if (!esc) continue;
    if (p + n + 8 > T || q[4] != 0x1a) return 0;
    return n + 8 <= max ? n + 8 : 0;
  }
}
static void op_read(void) {
  unsigned noise = (unsigned)PARAM(NOISE, 3), groups = (unsigned)PARAM(GROUPS, 4), fr = (unsigned)PARAM(FREE, 0);
  if (fr) { for (; T < fr; T++) S[T] = sx_u8("byte"); }
  else {
    for (; T < noise; T++) S[T] = sx_u8("noise");
    memcpy(S + T, START, 8); T += 8;
    for (unsigned i = 0; i < 4 * groups; i++) S[T++] = sx_u8("data");
  }
  if (PARAM(CUT, 0)) { T = sx_choose(T + 1, "cut"); end_of_stream(); }
  chunks = PARAM(CHUNKS, 0); intrs = PARAM(INTRS, 0);
  static const unsigned CAP[] = {200, 8, 15, 16, 17, 19, 20, 21, 23, 24, 27, 28, 0, 1, 7, 9, 12};
  unsigned max = CAP[PARAM(CAPS, 1) == 1 ? 0 : sx_choose((unsigned)PARAM(CAPS, 1), "size")];
  unsigned char *out = malloc(max), old = sx_u8("old"); memset(out, old, max);
  size_t r = sml_transport_read(FD, out, max);
  unsigned st = 0, want = ref_frame(0, max, &st);
  symx_note(r);
  if (want == 0) {
    CHECK(r == 0, "something that is no complete transmission is delivered");
    symx_mark(ended ? "ended" : "none");
  } else {
    CHECK(r != 0, "a complete transmission is not delivered");
    CHECK(r == want, "a transmission is delivered with a wrong length");
    for (unsigned i = 0; i < want; i++) { CHECK(out[i] == S[st + i], "a transmission is delivered with wrong content"); symx_note(out[i]); }
    CHECK(pos == st + want, "reading a transmission consumed a wrong part of the stream");
    CHECK(!ended, "the end of the stream is read although the transmission is complete");
    symx_mark("frame"); if (want == max) symx_mark("filled");
  }
  free(out);
  CHECK(symx_heap_live() == 0, "memory is still allocated after reading a transmission");
}
static unsigned exp_at[8], exp_len[8], nexp, got;
static void receiver(unsigned char *b, size_t n) {
  CHECK(got < nexp, "more transmissions are delivered than were sent");
  CHECK(n == exp_len[got], "a transmission is delivered with a wrong length"); symx_note(n);
  for (unsigned i = 0; i < exp_len[got]; i++) { CHECK(b[i] == S[exp_at[got] + i], "a transmission is delivered with wrong content"); if (exp_len[got] < 100) symx_note(b[i]); }
  // what the receiver does with its buffer must not matter
  memset(b, 0x1b, n); got++; symx_mark("received");
}
static void frame(unsigned groups, int conc) { // a transmission with arbitrary content that contains no escape sequence at a multiple of four
  exp_at[nexp] = T; memcpy(S + T, START, 8); T += 8;
  for (unsigned i = 0; i < groups; i++) {
    unsigned char *q = S + T;
    for (unsigned k = 0; k < 4; k++) S[T++] = conc ? (unsigned char)(i * 7 + k) : sx_u8("data");
    if (!conc) symx_assume((q[0] ^ 0x1b) | (q[1] ^ 0x1b) | (q[2] ^ 0x1b) | (q[3] ^ 0x1b));
  }
  memset(S + T, 0x1b, 4); T += 4; S[T++] = 0x1a; for (unsigned k = 0; k < 3; k++) S[T++] = sx_u8("trailer");
  exp_len[nexp] = T - exp_at[nexp]; nexp++;
}
static void op_listen(void) {
  unsigned frames = (unsigned)PARAM(FRAMES, 2), noise = (unsigned)PARAM(NOISE, 2), groups = (unsigned)PARAM(GROUPS, 2);
  chunks = PARAM(CHUNKS, 0); intrs = PARAM(INTRS, 0);
  for (unsigned i = 0; i < frames; i++) {
    unsigned n = noise ? sx_choose(noise + 1, "noise length") : 0, at = T;
    for (unsigned k = 0; k < n; k++) S[T++] = sx_u8("noise");
    // noise of less than eight bytes contains no start sequence, but may end with a part of one: the transmission starts where the first complete one is
    (void)at; frame(sx_choose(groups + 1, "groups"), 0);
  }
  // behind the last one: an incomplete transmission
  unsigned n = sx_choose(3, "rest") * 6; unsigned keep = T; if (n) { memcpy(S + T, START, 8); memset(S + T + 8, 0x42, 8); T = keep + n; }
  end_of_stream();
  sml_transport_listen(FD, receiver);
  CHECK(got == nexp, "a transmission is not delivered");
  symx_mark("listened");
}
static void op_long(void) { // transmissions up to the size of the receive buffer
  static const unsigned G[] = {0, 1, 124, 125, 254, 255, 256, 257, 1000, 2019, 2020};
  unsigned g = G[sx_choose(sizeof G / sizeof G[0], "groups")];
  chunks = PARAM(CHUNKS, 0); frame(g, 1); frame(1, 0);
  sml_transport_listen(FD, receiver);
  CHECK(got == nexp, "a transmission is not delivered"); symx_mark("listened");
}
void harness(void) { switch (PARAM(OP, 0)) { case 0: op_read(); break; case 1: op_listen(); break; default: op_long(); } symx_mark("done"); }
