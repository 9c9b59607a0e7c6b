// Arbitrary bytes into every decoder. K: element of model.h, NALL = complete file.
// MODE 0: N arbitrary bytes; 1: an encoding with W consecutive arbitrary bytes at every offset; 2: W bytes removed; 3: W arbitrary bytes inserted; 4: cut, the last W bytes arbitrary
// REF 1: the outcome is also compared with the reference decoder
#include "model.h"
static toks W0, G, R;
static gen g;
static unsigned char in[1600]; static unsigned n;
static void put_message(int i) { g_message(&g, &MSG[i]); }
static void template(int K) {
  g.budget = PARAM(B, 0); g.t = &W0; g.small = PARAM(SMALL, 1); g.conc = 1; g.crc = PARAM(CRC, 0); g.full = PARAM(FULL, 0);
  if (K == NALL) { put_message(PARAM(M1, 1)); gb(&g, 0); put_message(PARAM(M2, 12)); gb(&g, 0); gb(&g, 0); } else t_gen(K, &g);
}
void harness(void) {
  int K = PARAM(K, 0), mode = PARAM(MODE, 0), ref = PARAM(REF, 0); unsigned w = (unsigned)PARAM(W, 2);
  if (mode == 0) { n = (unsigned)PARAM(N, 4); if (n) symx_make_symbolic(in, n, "bytes"); }
  else {
    template(K); n = g.n; unsigned lo = (unsigned)PARAM(LO, 0), hi = (unsigned)PARAM(HI, 100000); if (w > n) w = n;
    unsigned last = mode == 3 || mode == 4 ? n : n - w; if (hi > last + 1) hi = last + 1; if (lo >= hi) { symx_mark("bytes"); return; }
    unsigned at = lo + sx_choose(hi - lo, "offset");
    if (mode == 1) { memcpy(in, g.b, n); symx_make_symbolic(in + at, w, "bytes"); }
    else if (mode == 2) { memcpy(in, g.b, at); memcpy(in + at, g.b + at + w, n - at - w); n -= w; }
    else if (mode == 4) { memcpy(in, g.b, at); symx_make_symbolic(in + at, w, "bytes"); n = at + w; }
    else { memcpy(in, g.b, at); symx_make_symbolic(in + at, w, "bytes"); memcpy(in + at + w, g.b + at, n - at); n += w; }
    if (PARAM(FIXCRC, 0) && K >= NTARGETS && K < NALL && n > 4) { uint16_t c = ref_crc(in, n - 4, 0); in[n - 3] = (unsigned char)(c >> 8); in[n - 2] = (unsigned char)c; }
  }
  if (K == NALL) {
    unsigned char *x = malloc(n ? n : 1); memcpy(x, in, n);
    sml_file *f = sml_file_parse(x, n);
    for (unsigned i = 0; i < n; i++) CHECK(x[i] == in[i], "decoding modified its input");
    memset(x, 0x5a, n); free(x);
    symx_note((unsigned long)f->messages_len); tk(&G, (uint64_t)f->messages_len);
    for (int i = 0; i < f->messages_len; i++) { CHECK(f->messages[i] != NULL, "a file contains an empty message"); fl_message(&G, f->messages[i], 0); }
    toks_note(&G);
    if (ref) {
      rd r = {in, n, 0, 0}; unsigned cnt = 0; tk(&R, 0); int st = 0;
      while (r.pos < n) {
        if (in[r.pos] == 0) { r.pos++; continue; }
        unsigned keep = R.n; st = r_message(&r, &R);
        if (st == 2) break;
        if (st == 1) { R.n = keep; break; }
        if (st == 3) { R.n = keep; continue; }
        cnt++;
      }
      if (st == 2) symx_mark("unspecified"); else { R.t[0] = cnt; toks_same(&R, &G, "the messages of a file differ from what its bytes say"); symx_mark("compared"); if (cnt) symx_mark("delivered"); }
    }
    sml_file_free(f);
  } else {
    sml_buffer *b = sml_buffer_init(n); memcpy(b->buffer, in, n);
    void *p = t_parse(K, b);
    int err = sml_buf_has_errors(b); symx_note((unsigned long)err);
    CHECK(b->buffer_len == n, "decoding changed the length of its input");
    for (unsigned i = 0; i < n; i++) CHECK(b->buffer[i] == in[i], "decoding modified its input");
    CHECK(err || b->cursor <= n, "the read position is beyond the end of the input");
    if (!err) { symx_note(b->cursor); t_flat(K, p, &G); toks_note(&G); symx_mark("accepted"); } else symx_mark("rejected");
    if (ref) {
      rd r = {in, n, 0, 0}; int st = t_ref(K, &r, &R);
      if (st == 1) { CHECK(err, "malformed input is accepted"); symx_mark("ref rejects"); }
      else if (st == 3) { CHECK(!err && p == NULL, "a message with a wrong checksum is delivered"); symx_mark("ref drops"); }
      else if (st == 0) { CHECK(!err, "a well-formed element is rejected"); toks_same(&R, &G, "a decoded element differs from what its bytes say"); CHECK(b->cursor == r.pos, "decoding consumed a wrong number of bytes"); symx_mark("ref accepts"); }
      else symx_mark("unspecified");
    }
    t_free(K, p); sml_buffer_free(b);
  }
  CHECK(symx_heap_live() == 0, "memory is still allocated after decoding and releasing the result");
  symx_mark("bytes");
}
