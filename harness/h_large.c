// Elements of unusual size: octet strings of every length class and lists with many elements, read and written.
// Every element is also cut short by one byte. OP 8: trees nested up to 1000 deep, 9: trees nested up to 500000 deep (may be rejected, must not exhaust the stack). OP 0 octet string, 1 octet string as value, 2 octet string in a message, 3 path, 4 value list, 5 tree, 6 list of objects, 7 list of periods
#ifndef MAXENC
#define MAXENC 90000
#define MAXTOK 90000
#endif
#include "model.h"
static toks W, G; static gen g;
static void both(void *(*parse)(sml_buffer *), void (*write)(void *, sml_buffer *), void (*rel)(void *), void (*flat)(toks *, const void *)) {
  sml_buffer *b = sml_buffer_init(g.n + 1); memcpy(b->buffer, g.b, g.n); b->buffer[g.n] = sx_u8("tail");
  void *p = parse(b); CHECK(p && !sml_buf_has_errors(b), "a well-formed element is rejected"); CHECK(b->cursor == g.n, "decoding consumed a wrong number of bytes");
  flat(&G, p); toks_same(&W, &G, "a decoded element differs from what was encoded"); symx_note(G.n);
  sml_buffer_free(b); b = sml_buffer_init(g.n); write(p, b);
  CHECK(!sml_buf_has_errors(b), "an element that fits is not written"); CHECK(b->cursor == g.n, "a written element has a wrong length");
  for (unsigned i = 0; i < g.n; i++) CHECK(b->buffer[i] == g.b[i], "a written element differs from its encoding");
  sml_buffer_free(b);
  b = sml_buffer_init(g.n - 1); write(p, b); CHECK(sml_buf_has_errors(b), "the error state after writing does not tell whether the element fitted"); sml_buffer_free(b);
  rel(p); CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a large element");
  if (PARAM(CUT, 0)) { b = sml_buffer_init(g.n - 1); memcpy(b->buffer, g.b, g.n - 1); p = parse(b); CHECK(sml_buf_has_errors(b), "a truncated element is not reported"); rel(p); sml_buffer_free(b); CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a large element"); symx_mark("cut"); }
  symx_mark("large");
}
#define WR(x) static void *r_##x##_(sml_buffer *b) { return sml_##x##_parse(b); } static void w_##x##_(void *p, sml_buffer *b) { sml_##x##_write(p, b); } static void f_##x##_(void *p) { sml_##x##_free(p); }
WR(octet_string) WR(value) WR(tree_path) WR(list) WR(tree) WR(close_request) WR(get_profile_pack_request) WR(get_profile_list_response)
static void fo(toks *t, const void *p) { fl_oct(t, p); } static void fv(toks *t, const void *p) { fl_value(t, p); } static void fp(toks *t, const void *p) { fl_path(t, p); } static void fl(toks *t, const void *p) { fl_vlist(t, p); } static void ft(toks *t, const void *p) { fl_tree(t, p); }
static void fc(toks *t, const void *p) { fl_fields(t, p, &MSG[2]); } static void fq(toks *t, const void *p) { fl_fields(t, p, &MSG[4]); } static void fr(toks *t, const void *p) { fl_fields(t, p, &MSG[7]); }
#define B3(x) r_##x##_, w_##x##_, f_##x##_
static const unsigned L[] = {1, 13, 14, 15, 16, 17, 30, 31, 62, 63, 64, 127, 128, 200, 252, 253, 254, 255, 256, 257, 300, 511, 512, 1000, 4091, 4092, 4093, 4094, 5000, 8000, 32767, 32768, 65530, 65531, 65532, 65535, 65536, 65537, 70000, 131072, 300000};
static const unsigned N[] = {1, 14, 15, 16, 17, 31, 32, 127, 128, 255, 256, 257, 300, 1000, 4094, 4095, 4096, 4097, 4098, 5000, 8191, 8193, 32768, 65535, 65536, 65537, 70000};
static const unsigned DEPTH[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 999};
static void nest(unsigned d) { tk(&W, T_TREE); gb(&g, 0x73); int c = g.conc; g.conc = 1; g_octn(&g, 1 + d % 3); g.conc = c; g_absent(&g); tk(&W, d % 5 ? 1 : 2); gb(&g, d % 5 ? 0x71 : 0x72); if (d > 1) nest(d - 1); else g_leaf(&g); if (d % 5 == 0) g_leaf(&g); }
void harness(void) {
  int op = PARAM(OP, 0); g.t = &W; g.canon = 1; g.small = 1;
  unsigned l = 0, n = 0; if (op < 3) l = L[(unsigned)PARAM(MIN, 0) + sx_choose((unsigned)PARAM(MAX, 36), "length")]; else if (op < 8) n = N[(unsigned)PARAM(MIN, 0) + sx_choose((unsigned)PARAM(MAX, 13), "elements")];
  if (op == 9) {
    static const unsigned M[] = {1001, 1500, 3000, 10000, 20000, 500000}; n = M[sx_choose(6, "depth")]; sml_buffer *b = sml_buffer_init(n * 4 + 3); unsigned k = 0;
    for (unsigned i = 0; i < n; i++) { b->buffer[k++] = 0x73; b->buffer[k++] = 1; b->buffer[k++] = 1; b->buffer[k++] = 0x71; } b->buffer[k++] = sx_u8("leaf"); b->buffer[k++] = 1; b->buffer[k++] = 1;
    sml_tree *t = sml_tree_parse(b); unsigned d = 0; for (sml_tree *x = t; x; d++) { CHECK(x->child_list_len <= 1, "a decoded element differs from what was encoded"); x = x->child_list_len ? x->child_list[0] : 0; }
    CHECK(!t || d >= n, "a decoded element differs from what was encoded"); CHECK(t || sml_buf_has_errors(b), "nothing is delivered and no error is reported"); sml_tree_free(t); sml_buffer_free(b); CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a large element"); symx_mark("deep"); return;
  }
  if (op == 0) { g_octn(&g, l); both(B3(octet_string), fo); }
  else if (op == 1) { tk(&W, T_VALUE); tk(&W, 0); g_octn(&g, l); both(B3(value), fv); }
  else if (op == 2) { gb(&g, 0x71); g_octn(&g, l); both(B3(close_request), fc); }
  else if (op == 3) { tk(&W, T_PATH); tk(&W, n); g_tl(&g, 0x70, n); for (unsigned i = 0; i < n; i++) g_octn(&g, 1); both(B3(tree_path), fp); }
  else if (op == 4) { g_tl(&g, 0x70, n); for (unsigned i = 0; i < n; i++) g_entry_small(&g); tk(&W, T_END); both(B3(list), fl); }
  else if (op == 5) { tk(&W, T_TREE); gb(&g, 0x73); g_octn(&g, 1); g_absent(&g); tk(&W, n); g_tl(&g, 0x70, n); for (unsigned i = 0; i < n; i++) g_leaf(&g); both(B3(tree), ft); }
  else if (op == 6) { g_tl(&g, 0x70, 9); for (int i = 0; i < 6; i++) g_absent(&g); g_absent(&g); g_tl(&g, 0x70, n); for (unsigned i = 0; i < n; i++) { tk(&W, T_ENTRY); g_octn(&g, 1); } tk(&W, T_END); g_absent(&g); both(B3(get_profile_pack_request), fq); }
  else if (op == 8) { nest(DEPTH[sx_choose((unsigned)PARAM(MAX, 33), "depth")]); both(B3(tree), ft); }
  else if (op == 7) { g_tl(&g, 0x70, 9); for (int i = 0; i < 6; i++) g_absent(&g); tk(&W, T_SEQ); tk(&W, n); g_tl(&g, 0x70, n); for (unsigned i = 0; i < n; i++) { tk(&W, T_STRUCT); g_tl(&g, 0x70, 5); g_octn(&g, 1); for (int k = 0; k < 4; k++) g_absent(&g); } g_absent(&g); g_absent(&g); both(B3(get_profile_list_response), fr); }
}
