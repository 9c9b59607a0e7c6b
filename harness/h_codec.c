// Codec of every SML element: symbolic content and form (element K of model.h, at most B fields in a non-default form).
// OP 0 read, 1 write, 2 write into buffers that are too small, 3 read truncated input, 4 (messages) write, exchange the parts of two messages, write again
// INPLACE 1: another element of the same form was read from the same place of the same buffer before
#include "model.h"
static toks W, G;
static gen g;
static void setup(int K, int canon) {
  g.budget = PARAM(B, 1); g.t = &W; g.small = PARAM(SMALL, 0); g.canon = canon; g.conc = PARAM(CONC, 0); g.crc = 2; g.full = PARAM(FULL, 0); g.sparse = PARAM(SPARSE, 0);
  t_gen(K, &g);
}
static gen g0; static toks W0, G0;
static void op_read(int K) {
  int again = PARAM(INPLACE, 0); if (again) { setup(K, 0); g0 = g; W0 = W; memset(&g, 0, sizeof g); W.n = 0; }
  setup(K, 0);
  // what follows the element is arbitrary and must not matter
  sml_buffer *b = sml_buffer_init(g.n + 2); memcpy(b->buffer, g.b, g.n);
  unsigned char t0 = sx_u8("tail"), t1 = sx_u8("tail"); b->buffer[g.n] = t0; b->buffer[g.n + 1] = t1;
  if (again) { symx_assume(g0.n == g.n); memcpy(b->buffer, g0.b, g.n); void *q = t_parse(K, b); CHECK(!sml_buf_has_errors(b), "a well-formed element is rejected"); t_flat(K, q, &G0); toks_same(&W0, &G0, "a decoded element differs from what was encoded"); t_free(K, q); b->cursor = 0; memcpy(b->buffer, g.b, g.n); }
  void *p = t_parse(K, b);
  CHECK(!sml_buf_has_errors(b), "a well-formed element is rejected");
  t_flat(K, p, &G); toks_same(&W, &G, "a decoded element differs from what was encoded"); toks_note(&G);
  CHECK(b->cursor == g.n, "decoding consumed a wrong number of bytes"); symx_note(b->cursor);
  for (unsigned i = 0; i < g.n; i++) CHECK(b->buffer[i] == g.b[i], "decoding modified its input");
  CHECK(b->buffer[g.n] == t0 && b->buffer[g.n + 1] == t1 && b->buffer_len == g.n + 2, "decoding modified its input");
  // the result must not refer to the input
  memset(b->buffer, 0xa5, g.n + 2); sml_buffer_free(b);
  G.n = 0; t_flat(K, p, &G); toks_same(&W, &G, "a decoded element depends on the input buffer after decoding");
  t_free(K, p);
  CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a decoded element");
  symx_mark("read");
}
static void op_write(int K) {
  setup(K, 1);
  void *p = t_build(K, &W);
  enum { SLACK = 3 }; unsigned char stale = sx_u8("stale"); unsigned at = PARAM(AT, 1);
  sml_buffer *b = sml_buffer_init(at + 2 * g.n + SLACK); memset(b->buffer, stale, at + 2 * g.n + SLACK); b->cursor = at;
  for (int round = 0; round < 2; round++) {
    t_write(K, p, b);
    CHECK(!sml_buf_has_errors(b), "an element that fits is not written");
    CHECK(b->cursor == at + g.n, "a written element has a wrong length");
    for (unsigned i = 0; i < g.n; i++) { CHECK(b->buffer[at + i] == g.b[i], round ? "writing an element again gives a different encoding" : "a written element differs from its encoding"); if (!round) symx_note(b->buffer[at + i]); }
    at += g.n;
  }
  for (unsigned i = 0; i < SLACK; i++) CHECK(b->buffer[at + i] == stale, "writing changed bytes beyond the element");
  for (unsigned i = 0; i < at - 2 * g.n; i++) CHECK(b->buffer[i] == stale, "writing changed bytes before the element");
  t_flat(K, p, &G); toks_same(&W, &G, "writing changed the element");
  // and back
  b->cursor = at - g.n; void *q = t_parse(K, b); CHECK(!sml_buf_has_errors(b) && b->cursor == at, "a written element cannot be read");
  G.n = 0; t_flat(K, q, &G); toks_same(&W, &G, "an element changes by writing and reading it"); t_free(K, q);
  sml_buffer_free(b); t_free(K, p);
  CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a written element");
  symx_mark("write");
}
static void op_short(int K) {
  setup(K, 1);
  void *p = t_build(K, &W);
  unsigned cap = sx_choose(g.n + 1, "capacity"); // an exact heap block: any access beyond it is an error
  sml_buffer *b = sml_buffer_init(cap); b->cursor = 0;
  t_write(K, p, b);
  CHECK((sml_buf_has_errors(b) != 0) == (cap < g.n), "the error state after writing does not tell whether the element fitted");
  CHECK(b->cursor <= cap, "the write position is beyond the end of the buffer");
  symx_note(b->cursor);
  if (cap == g.n) { for (unsigned i = 0; i < g.n; i++) CHECK(b->buffer[i] == g.b[i], "an element that exactly fits is written wrongly"); symx_mark("fits"); } else symx_mark("short");
  sml_buffer_free(b); t_free(K, p);
  CHECK(symx_heap_live() == 0, "memory is still allocated after a failed write");
}
// every proper prefix of an encoding is rejected (and nothing is leaked or returned); the prefix fills an exact heap block
static void op_cut(int K) {
  setup(K, 0);
  unsigned cut = sx_choose(g.n, "cut");
  sml_buffer *b = sml_buffer_init(cut); memcpy(b->buffer, g.b, cut);
  void *p = t_parse(K, b);
  CHECK(sml_buf_has_errors(b), "truncated input is accepted");
  symx_note(p != NULL);
  t_free(K, p);
  for (unsigned i = 0; i < cut; i++) CHECK(b->buffer[i] == g.b[i], "decoding modified its input");
  sml_buffer_free(b);
  CHECK(symx_heap_live() == 0, "memory is still allocated after rejecting truncated input");
  symx_mark("cut");
}
// a message that was written and is changed afterwards is written with its new content and the checksum of that
static void op_change(int K) {
  setup(K, 1); g0 = g; W0 = W; memset(&g, 0, sizeof g); W.n = 0; setup(K, 1);
  sml_message *p = t_build(K, &W0), *q = t_build(K, &W), h; sml_buffer *b = sml_buffer_init(g0.n + g.n + 2);
  sml_message_write(p, b); CHECK(!sml_buf_has_errors(b) && b->cursor == g0.n, "a written element has a wrong length"); for (unsigned i = 0; i < g0.n; i++) CHECK(b->buffer[i] == g0.b[i], "a written element differs from its encoding");
  h = *p; p->transaction_id = q->transaction_id; p->group_id = q->group_id; p->abort_on_error = q->abort_on_error; p->message_body = q->message_body;
  q->transaction_id = h.transaction_id; q->group_id = h.group_id; q->abort_on_error = h.abort_on_error; q->message_body = h.message_body;
  unsigned at = PARAM(SAME, 0) ? 0 : g0.n; b->cursor = at; sml_message_write(p, b); CHECK(!sml_buf_has_errors(b) && b->cursor == at + g.n, "a written element has a wrong length"); for (unsigned i = 0; i < g.n; i++) CHECK(b->buffer[at + i] == g.b[i], "a changed message is written as before the change");
  at = PARAM(SAME, 0) ? 0 : g.n; b->cursor = at; sml_message_write(q, b); CHECK(!sml_buf_has_errors(b) && b->cursor == at + g0.n, "a written element has a wrong length"); for (unsigned i = 0; i < g0.n; i++) { CHECK(b->buffer[at + i] == g0.b[i], "a changed message is written as before the change"); symx_note(b->buffer[at + i]); }
  sml_buffer_free(b); sml_message_free(p); sml_message_free(q); CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a written element"); symx_mark("changed");
}
// what happened before must not matter: PRE 1 arbitrary bytes are parsed (as element PK), 2 a list of a DZG DVS74 meter is parsed,
// 3 a truncated element PK is parsed, 4 a write fails, 5 checksums of both kinds are computed, 6 hundreds of complete, truncated and malformed elements are read and written,
// 7 almost the same element is read and written
static void before(int pre, int PK) {
  static toks t0; static gen h; h.t = &t0; h.small = 1; h.conc = 1; h.canon = 1; h.crc = pre == 3 ? 1 : 0;
  if (pre == 1) { unsigned n = (unsigned)PARAM(PN, 3); sml_buffer *b = sml_buffer_init(n); for (unsigned i = 0; i < n; i++) b->buffer[i] = sx_u8("before"); t_free(PK, t_parse(PK, b)); sml_buffer_free(b); }
  else if (pre == 2) {
    static const unsigned char L[] = {0x71, 0x77, 7, 1, 0, 96, 1, 0, 255, 1, 1, 1, 1, 0x0b, 0x0a, 1, 'D', 'Z', 'G', 0, 2, 0xdc, 0x6c, 0x01, 1};
    sml_buffer *b = sml_buffer_init(sizeof L + 1); memcpy(b->buffer, L, sizeof L); sml_list *l = sml_list_parse(b); CHECK(l != NULL, "a list is rejected"); sml_list_free(l); sml_buffer_free(b); }
  else if (pre == 3) { t_gen(PK, &h); unsigned cut = sx_choose(h.n + 1, "cut"); sml_buffer *b = sml_buffer_init(cut); memcpy(b->buffer, h.b, cut); t_free(PK, t_parse(PK, b)); sml_buffer_free(b); }
  else if (pre == 4) { t_gen(PK, &h); void *p = t_build(PK, &t0); unsigned cap = sx_choose(h.n + 1, "capacity"); sml_buffer *b = sml_buffer_init(cap); t_write(PK, p, b); t_free(PK, p); sml_buffer_free(b); }
  else if (pre == 5) { unsigned char x[3]; for (int i = 0; i < 3; i++) x[i] = sx_u8("before"); symx_note(sml_crc16_calculate(x, 3)); symx_note(sml_crc16kermit_calculate(x, 2)); }
  else if (pre == 6) { // a long history: many complete, truncated and malformed elements are read, and written into buffers of all sizes
    h.conc = 1; h.budget = 0; h.canon = 1; h.full = 1; t_gen(PK, &h); int rounds = PARAM(ROUNDS, 6); void *p = t_build(PK, &t0);
    for (int r = 0; r < rounds; r++) for (unsigned cut = 0; cut <= h.n; cut++) {
      sml_buffer *b = sml_buffer_init(h.n + 1); memcpy(b->buffer, h.b, h.n); b->buffer_len = cut; t_free(PK, t_parse(PK, b));
      if (cut < h.n) { b->buffer_len = h.n + 1; b->cursor = 0; b->error = 0; b->buffer[cut] ^= (unsigned char)(r & 1 ? 0x10 : 1 + r); t_free(PK, t_parse(PK, b)); }
      b->buffer_len = cut; b->cursor = 0; b->error = 0; t_write(PK, p, b); sml_buffer_free(b);
    }
    t_free(PK, p); symx_mark("long history"); }
  else if (pre == 7) { // almost the same element, one byte of it different (with a correct checksum), is read and written
    h.budget = 0; h.sparse = PARAM(SPARSE, 0); h.full = PARAM(FULL, 0); t_gen(PK, &h); unsigned at = sx_choose(h.n + 1, "different byte"); if (at < h.n) h.b[at] ^= (unsigned char)PARAM(FLIP, 1);
    if (PK >= NTARGETS && h.n > 4 && at < h.n - 4) { uint16_t c = ref_crc(h.b, h.n - 4, 0); h.b[h.n - 3] = (unsigned char)(c >> 8); h.b[h.n - 2] = (unsigned char)c; }
    sml_buffer *b = sml_buffer_init(h.n + 1); memcpy(b->buffer, h.b, h.n); b->buffer[h.n] = 0; void *p = t_parse(PK, b);
    if (p && !sml_buf_has_errors(b)) { sml_buffer *o = sml_buffer_init(h.n + 600); t_write(PK, p, o); sml_buffer_free(o); symx_mark("almost the same"); }
    t_free(PK, p); sml_buffer_free(b); }
  CHECK(symx_heap_live() == 0, "memory is still allocated after what happened before"); symx_mark("before");
}
void harness(void) {
  int K = PARAM(K, 0);
  if (PARAM(PRE, 0)) before(PARAM(PRE, 0), PARAM(PK, K));
  switch (PARAM(OP, 0)) { case 0: op_read(K); break; case 1: op_write(K); break; case 2: op_short(K); break; case 4: op_change(K); break; default: op_cut(K); }
}
