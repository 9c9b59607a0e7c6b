// Reading transmissions at scale: long noise of several kinds, long transmissions, delivery byte by byte, long runs of interruptions,
// many transmissions in a row. OP 0: noise; 1: length, buffer size and delivery; 2: interruptions; 3: listening to many transmissions;
// 5: long transmissions that end early; 4: descriptors of every range and large buffers
#define MAXS 70000
#include "env.h"
#include <stdlib.h>
#include <sml/sml_transport.h>
static const unsigned char START[8] = {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 1};
static void noise(unsigned n, unsigned kind) { // contains no start sequence, neither alone nor together with the one that follows
  static const unsigned char P[6][9] = {{0}, {0x1b}, {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1, 0}, {0x1b, 0x1b, 0x1b, 0x1b, 1, 1, 1}, {1}, {0x1b, 0x1b, 0x1b, 1, 1, 1, 1, 0x1a, 0x55}};
  static const unsigned char PL[6] = {1, 1, 8, 7, 1, 9};
  for (unsigned i = 0; i < n; i++) S[T++] = P[kind][i % PL[kind]];
}
static unsigned frame(unsigned groups, int sym) {
  unsigned at = T; memcpy(S + T, START, 8); T += 8;
  for (unsigned i = 0; i < groups; i++) for (unsigned k = 0; k < 4; k++) { S[T] = (unsigned char)(i * 7 + k); if (sym && i + 1 == groups) { S[T] = sx_u8("data"); if (k == 3) symx_assume((S[T - 3] ^ 0x1b) | (S[T - 2] ^ 0x1b) | (S[T - 1] ^ 0x1b) | (S[T] ^ 0x1b)); } T++; }
  memset(S + T, 0x1b, 4); T += 4; S[T++] = 0x1a; for (unsigned k = 0; k < 3; k++) S[T++] = sym ? sx_u8("trailer") : 3; return T - at;
}
static void one(unsigned n, unsigned len, unsigned max) {
  for (int i = 0; i < 5; i++) S[T++] = 0x99; // what follows
  unsigned char *out = malloc(max ? max : 1); size_t r = sml_transport_read(FD, out, max); symx_note(r);
  if (len > max) { CHECK(r == 0, "a transmission that does not fit into the buffer is delivered"); symx_mark("too long"); }
  else {
    CHECK(r != 0, "a complete transmission is not delivered"); CHECK(r == len, "a transmission is delivered with a wrong length");
    for (unsigned i = 0; i < len; i++) CHECK(out[i] == S[n + i], "a transmission is delivered with wrong content");
    CHECK(pos == n + len, "reading a transmission consumed a wrong part of the stream"); symx_mark("frame");
  }
  free(out);
}
static const unsigned U[] = {0, 1, 3, 5};
static unsigned want_at[400], want_len[400], frames, got;
static void receiver(unsigned char *b, size_t n) {
  CHECK(got < frames, "more transmissions are delivered than were sent"); CHECK(n == want_len[got], "a transmission is delivered with a wrong length");
  for (unsigned i = 0; i < want_len[got]; i++) CHECK(b[i] == S[want_at[got] + i], "a transmission is delivered with wrong content");
  memset(b, 0x1b, n); got++;
}
void harness(void) {
  int op = PARAM(OP, 0);
  if (op == 0) {
    static const unsigned N[] = {8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 10000, 32768, 65536};
    unsigned n = N[sx_choose((unsigned)PARAM(MAX, 32), "length of noise")]; noise(n, sx_choose(6, "kind of noise")); unit = U[sx_choose(2, "unit")]; one(n, frame(2, 1), 100);
  } else if (op == 1) {
    static const unsigned G[] = {0, 1, 2, 3, 13, 14, 15, 16, 29, 30, 31, 61, 62, 63, 64, 124, 125, 126, 252, 253, 254, 255, 256, 257, 1000, 1021, 1022, 1023, 1024, 2044, 2045, 2046, 4000, 8188, 8189, 8190, 16380, 16384};
    unsigned g = G[sx_choose((unsigned)PARAM(MAX, 38), "groups")], len = frame(g, 1); unit = U[g < 1100 ? sx_choose(4, "unit") : 0];
    static const int D[] = {0, 1, 3, 4, 8, 1000, -1, -4, -8, -12}; one(0, len, (unsigned)((int)len + D[sx_choose(10, "size")]));
  } else if (op == 2) {
    unsigned n = 3; noise(n, 0); unsigned len = frame(3, 1); unit = U[sx_choose(4, "unit")]; static const unsigned B[] = {1, 2, 3, 4, 5, 8, 10, 16, 32, 64, 100, 128, 255, 256, 257, 1000};
    burst_at = sx_choose(n + len, "place"); burst = B[sx_choose(16, "interruptions")]; burst_kind = sx_choose(3, "kind"); one(n, len, 100);
  } else if (op == 5) {
    static const unsigned G[] = {13, 61, 62, 63, 252, 253, 254, 255, 256, 1000, 1023, 2044, 4000, 8188, 16384}; static const unsigned C[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 255, 256, 257, 1024, 4096, 65536};
    unsigned len = frame(G[sx_choose(15, "groups")], 1), c = C[sx_choose(16, "cut")]; T = sx_choose(2, "from") ? (c < len ? c : len - 1) : len - (c < len ? c : len - 1); unit = U[sx_choose(2, "unit")]; end_of_stream();
    unsigned char *out = malloc(len); size_t r = sml_transport_read(FD, out, len); CHECK(r == 0, "something that is no complete transmission is delivered"); free(out); symx_mark("cut");
  } else if (op == 4) {
    static const int F[] = {7, 0, 1, 2, 63, 64, 1023, 1024, 1025, 4096, 65536, 0x7fffffff, -1, -64, -0x7fffffff - 1}; static const unsigned B[] = {100, 70000, 9u << 20, 64u << 20};
    FD = F[sx_choose(15, "descriptor")]; unsigned len = frame(3, 1), max = B[sx_choose(FD == 7 ? 4 : 1, "size")]; hard = 5;
    if (FD >= 0 && FD < 1024) one(0, len, max);
    else { unsigned char *out = malloc(max); size_t r = sml_transport_read(FD, out, max); CHECK(r == 0 || (r == len && FD >= 0 && !memcmp(out, S, len)), "a transmission is delivered with wrong content"); free(out); symx_mark("bad descriptor"); }
  } else {
    static const unsigned M[] = {1, 2, 3, 10, 16, 17, 100, 128, 255, 256, 257, 300}; frames = M[sx_choose(12, "transmissions")]; unsigned kind = sx_choose(6, "kind of noise"); unit = U[sx_choose(4, "unit")];
    static const unsigned LN[] = {0, 300, 1025, 5000, 40000}; unsigned before = frames == 3 ? sx_choose(3, "noise before") : 0, longer = frames == 3 ? LN[sx_choose(5, "length of noise")] : 0; // long noise before one of three transmissions
    for (unsigned i = 0; i < frames; i++) { noise(longer && i == before ? longer : i % 11, kind); want_at[i] = T; want_len[i] = frame(i % 7, i == 0 || i + 1 == frames); }
    sml_transport_listen(FD, receiver); CHECK(got == frames, "a transmission is not delivered"); symx_mark("listened");
  }
  CHECK(symx_heap_live() == 0, "memory is still allocated after reading a transmission"); symx_mark("done");
}
