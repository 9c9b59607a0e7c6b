// Value lists of DZG DVS74 meters: E entries with arbitrary names; values are serial numbers (arbitrary octet strings) and integers of every width.
#include "model.h"
static toks W, G; static gen g;
static void entry(int serial) {
  gb(&g, 0x77); g_tl(&g, 0, 6); static const unsigned char P[2][6] = {{1, 0, 16, 7, 0, 255}, {1, 0, 96, 1, 0, 255}};
  // the name: arbitrary, or the one of the wanted meaning with one arbitrary byte
  if (PARAM(NAMES, 0)) for (int i = 0; i < 6; i++) gb(&g, sx_u8("name")); else { unsigned at = g.n; for (int i = 0; i < 6; i++) gb(&g, P[serial][i]); if (PARAM(FUZZ, 1)) { unsigned k = sx_choose(6, "name byte"); g.b[at + k] = sx_u8("name"); } }
  for (int i = 0; i < 4; i++) gb(&g, 1);
  if (serial) {
    static const unsigned char D[] = {0x0a, 1, 'D', 'Z', 'G'}, L[] = {10, 9, 11, 5, 15}; unsigned n = L[sx_choose((unsigned)PARAM(LENS, 1), "serial length")]; g_tl(&g, 0, n);
    for (unsigned i = 0; i < n; i++) gb(&g, PARAM(VENDOR, 0) || i >= 5 ? sx_u8("serial") : D[i]);
  } else {
    unsigned f = sx_choose((unsigned)PARAM(VALUES, 18), "value"); // integers of 1..8 bytes, unsigned of 1..8 bytes, boolean, octet string
    if (f < 16) { unsigned w = 1 + f % 8; gb(&g, (unsigned char)((f < 8 ? 0x50 : 0x60) | (w + 1))); for (unsigned i = 0; i < w; i++) gb(&g, sx_u8("value")); }
    else if (f == 16) { gb(&g, 0x42); gb(&g, sx_u8("value")); } else { gb(&g, 3); gb(&g, sx_u8("value")); gb(&g, sx_u8("value")); }
  }
  gb(&g, 1);
}
static void list(unsigned kinds, unsigned n) {
  g.n = 0; W.n = G.n = 0; g_tl(&g, 0x70, n); for (unsigned i = 0; i < n; i++) entry((kinds >> i) & 1);
  rd r = {g.b, g.n, 0, 0}; r_vlist(&r, &W); if (r.st == 2) { symx_mark("unspecified"); symx_path_end(); }
  CHECK(r.st == 0 && r.pos == g.n, "model: the reference rejects a list");
  sml_buffer *b = sml_buffer_init(g.n + 1); memcpy(b->buffer, g.b, g.n); b->buffer[g.n] = 0;
  sml_list *l = sml_list_parse(b); CHECK(l && !sml_buf_has_errors(b), "a well-formed list is rejected");
  fl_vlist(&G, l); toks_same(&W, &G, "a decoded list differs from what was sent"); toks_note(&G);
  sml_list_free(l); sml_buffer_free(b);
}
// the list of an affected meter that is cut short or malformed at any place
static void broken(void) {
  static const unsigned char L[] = {0x72, 0x77, 7, 1, 0, 96, 1, 0, 255, 1, 1, 1, 1, 0x0b, 0x0a, 1, 'D', 'Z', 'G', 0, 2, 0xdc, 0x6c, 0x01, 1, 0x77, 7, 1, 0, 16, 7, 0, 255, 1, 1, 1, 1, 0x53, 0x80, 0x25, 1, 0};
  unsigned at = sx_choose(sizeof L, "broken"), how = sx_choose(2, "cut or changed"); sml_buffer *b = sml_buffer_init(sizeof L); memcpy(b->buffer, L, sizeof L);
  if (how) b->buffer[at] ^= 0x10; else b->buffer_len = at;
  sml_list_free(sml_list_parse(b)); sml_buffer_free(b); symx_mark("broken");
}
// KINDS: bit i tells whether entry i is a serial number; a second list (KINDS2, E2 entries) is decoded afterwards; BROKEN: a malformed list of an affected meter is decoded before
void harness(void) {
  if (PARAM(BROKEN, 0)) broken();
  g.t = &W; list((unsigned)PARAM(KINDS, 1), (unsigned)PARAM(E, 2)); if (PARAM(E2, 0)) list((unsigned)PARAM(KINDS2, 0), (unsigned)PARAM(E2, 0));
  CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a list"); symx_mark("done");
}
