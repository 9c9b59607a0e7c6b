// Messages and files. OP 0: a message with an arbitrary checksum; 1: files of messages with good and wrong checksums, malformed messages and padding;
// 2: many messages; 3: a message of an arbitrary type that is none of the known ones, with or without a body of type T, then a good message
#define MAXENC 160000
#define MAXTOK 6000
#include "model.h"
static toks W, G, R;
static gen g;
static void op_gate(int t) {
  g.budget = PARAM(B, 0); g.t = &W; g.small = 1; g.conc = PARAM(CONC, 2); g.crc = 0; g_message(&g, &MSG[t]);
  unsigned form = sx_choose(3, "checksum form"), n = g.n - 4; // 0: two bytes, 1: one byte, 2: two bytes followed by something else than the end of message
  uint16_t want0 = ref_crc(g.b, n, 0), want1 = ref_crc(g.b, n, 1), c;
  if (form == 1) { unsigned char x = sx_u8("checksum"); g.b[n] = 0x62; g.b[n + 1] = x; g.b[n + 2] = 0; g.n = n + 3; c = x; }
  else { c = sx_u16("checksum"); g.b[n + 1] = (unsigned char)(c >> 8); g.b[n + 2] = (unsigned char)c; if (form == 2) { unsigned char e = sx_u8("end"); symx_assume(e != 0); g.b[n + 3] = e; } }
  sml_buffer *b = sml_buffer_init(g.n); memcpy(b->buffer, g.b, g.n);
  sml_message *m = sml_message_parse(b);
  CHECK(!sml_buf_has_errors(b), "a well-formed message is treated as malformed because of its checksum");
  int ok = c == want0; if (!ok) ok = c == want1;
  if (ok) { CHECK(m != NULL, "a message with a correct checksum is dropped"); fl_message(&G, m, 1); tk(&W, T_NUM + 2); tk(&W, c); toks_same(&W, &G, "a delivered message differs from what was sent"); symx_mark("delivered"); CHECK(b->cursor == g.n - (form == 2), "decoding consumed a wrong number of bytes"); }
  else { CHECK(m == NULL, "a message with a wrong checksum is delivered"); symx_mark("dropped"); }
  symx_note(ok); sml_message_free(m); sml_buffer_free(b);
}
static void op_file(void) {
  unsigned m = (unsigned)PARAM(M, 3), t0 = (unsigned)PARAM(T, 0), n = 0; int bad = 0; static toks one;
  g.small = 1; g.budget = 0; unsigned pads = (unsigned)PARAM(PADS, 3);
  tk(&W, 0);
  for (unsigned i = 0; i < m; i++) {
    unsigned st = sx_choose((unsigned)PARAM(STATES, 4), "state"), start = g.n; one.n = 0; g.t = &one; g.conc = PARAM(CONC, 2); g.crc = st == 1;
    g_message(&g, &MSG[(t0 + i * 5) % 14]);
    if (st == 2) { uint16_t c = sx_u16("checksum"); symx_assume(c != ref_crc(g.b + start, g.n - 4 - start, 0) && c != ref_crc(g.b + start, g.n - 4 - start, 1)); g.b[g.n - 3] = (unsigned char)(c >> 8); g.b[g.n - 2] = (unsigned char)c; }
    else if (st == 3) { g.b[start] = (unsigned char)(0x70 | sx_choose(16, "malformed")); if (g.b[start] == 0x76) { g.n = start + 1 + sx_choose(3, "cut"); i = m; } bad = 1; symx_mark("malformed"); }
    else if (st == 4) { unsigned at = start + 1; unsigned char c = sx_u8("noise"); symx_assume((c & 0x70) != 0); g.b[at] = c; bad = 1; symx_mark("malformed"); }
    else if (!bad) { n++; for (unsigned k = 0; k < one.n; k++) tk(&W, one.t[k]); }
    unsigned pad = i < m ? sx_choose(pads, "padding") : 0; while (pad--) gb(&g, 0);
  }
  W.t[0] = n;
  unsigned char *x = malloc(g.n); memcpy(x, g.b, g.n);
  sml_file *f = sml_file_parse(x, g.n);
  memset(x, 0xff, g.n); free(x);
  CHECK(f != NULL, "no file"); CHECK(f->messages_len == (int)n, "a file does not deliver exactly its intact messages"); tk(&G, (uint64_t)f->messages_len);
  for (int i = 0; i < f->messages_len; i++) { CHECK(f->messages[i] != NULL, "a file contains an empty message"); fl_message(&G, f->messages[i], 0); }
  toks_same(&W, &G, "the messages of a file differ from what was sent"); toks_note(&G);
  sml_file_free(f); symx_mark(n == m ? "all delivered" : "some delivered");
}
static void op_many(void) {
  unsigned m = (unsigned)PARAM(M, 300); unsigned at = sx_choose(4, "damaged"); static const unsigned D[] = {0, 1, 255, 256}; at = D[at] < m ? D[at] : 0; int damaged = (int)sx_choose(3, "damage"); /* none, one, all but one */ static const unsigned Z[] = {0, 1, 255, 5000}; unsigned pads = sx_choose(6, "padding");
  g.small = 1; g.conc = 1; g.t = &W; g.crc = 0;
  for (unsigned i = 0; i < m; i++) {
    unsigned start = g.n; W.n = 0; tk(&W, T_MSG); gb(&g, 0x76); gb(&g, 3); gb(&g, (unsigned char)(i >> 8)); gb(&g, (unsigned char)i); gb(&g, 0x62); gb(&g, 1); gb(&g, 0x62); gb(&g, 0); g_body(&g, &MSG[3]); g_msgend(&g, start);
    if (damaged && (i == at) == (damaged == 1)) g.b[g.n - 2] ^= 1;
    for (unsigned z = pads == 4 ? i % 4 : pads == 5 ? (i == m / 2 ? 70000 : 0) : i == at + 1 ? Z[pads] : 0; z; z--) gb(&g, 0); // padding after every message, or a lot after one
  }
  sml_file *f = sml_file_parse(g.b, g.n); unsigned want = damaged == 2 ? 1 : m - (unsigned)damaged;
  CHECK(f->messages_len == (int)want, "a file does not deliver exactly its intact messages");
  for (unsigned i = 0, k = 0; i < m; i++) { if (damaged && (i == at) == (damaged == 1)) continue; octet_string *t = f->messages[k++]->transaction_id; CHECK(t->len == 2 && t->str[0] == (i >> 8) && t->str[1] == (i & 255), "the messages of a file are not in order"); }
  sml_file_free(f); symx_mark("many");
}
static void op_unknown(int t) {
  uint32_t hi = sx_u32("type"), low = (uint32_t)MSG[t].tag; unsigned with = sx_choose(2, "body"); uint32_t tag = PARAM(HIGH, 1) ? (hi & 0xffff0000u) | low : hi;
  int known = 0; for (int i = 0; i < 14; i++) known |= tag == (uint32_t)MSG[i].tag; symx_assume(!known);
  static toks one; g.budget = PARAM(B, 0); g.t = &one; g.small = 1; g.conc = 1; g.crc = 0; g_message(&g, &MSG[t]);
  // transaction, group and abort, then the body: 72 <type> <fields>
  static unsigned char e[4000]; unsigned n = 0, at = 1, skip = g.b[at] & 15; at += skip; for (int i = 0; i < 2; i++) at += g.b[at] & 15;
  CHECK(g.b[at] == 0x72, "harness: body expected"); for (unsigned i = 0; i <= at; i++) e[n++] = g.b[i];
  unsigned after = at + 1 + (g.b[at + 1] & 15); e[n++] = 0x65; for (int i = 3; i >= 0; i--) e[n++] = (unsigned char)(tag >> (8 * i));
  if (with) for (unsigned i = after; i < g.n - 4; i++) e[n++] = g.b[i];
  uint16_t c = ref_crc(e, n, 0); e[n++] = 0x63; e[n++] = (unsigned char)(c >> 8); e[n++] = (unsigned char)c; e[n++] = 0;
  sml_buffer *b = sml_buffer_init(n); memcpy(b->buffer, e, n);
  sml_message *m = sml_message_parse(b);
  if (m && !sml_buf_has_errors(b)) {
    CHECK(m->message_body && m->message_body->tag && *m->message_body->tag == tag, "a delivered message has another type than was sent");
    CHECK(m->message_body->data == NULL, "a message of an unknown type is delivered as one of another type"); symx_mark("unknown delivered");
    sml_buffer *o = sml_buffer_init(n + 64); sml_message_write(m, o);
    CHECK(o->cursor <= n + 64, "writing goes beyond the buffer"); symx_note(o->cursor); sml_buffer_free(o);
  } else symx_mark("unknown given up");
  sml_message_free(m); sml_buffer_free(b);
  // the same message written from an object
  sml_message *q = sml_message_init(); q->group_id = sml_u8_init(1); q->abort_on_error = sml_u8_init(0); q->message_body = sml_message_body_init(tag, NULL);
  sml_buffer *o = sml_buffer_init(256); sml_message_write(q, o); symx_note(o->cursor); sml_buffer_free(o); sml_message_free(q); symx_mark("unknown written");
}
void harness(void) {
  switch (PARAM(OP, 0)) { case 0: op_gate(PARAM(T, 0)); break; case 1: op_file(); break; case 3: op_unknown(PARAM(T, 0)); break; default: op_many(); }
  CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a file"); symx_mark("done");
}
