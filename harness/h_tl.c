// Type-length headers. OP 0: write then read for every type and every length; 1: read arbitrary bytes; 2: written form is the shortest one
#include "model.h"
static const unsigned char TYPES[] = {0x00, 0x40, 0x50, 0x60, 0x70};
void harness(void) {
  int op = PARAM(OP, 0);
  if (op == 0) {
    unsigned type = TYPES[sx_choose(5, "type")]; uint32_t l = sx_u32("length"); symx_assume(l < (1u << PARAM(BITS, 27)));
    unsigned char stale = sx_u8("stale");
    sml_buffer *b = sml_buffer_init(12); memset(b->buffer, stale, 12); b->cursor = 1;
    sml_buf_set_type_and_length(b, type, l);
    CHECK(!sml_buf_has_errors(b), "a header that fits is not written");
    unsigned k = (unsigned)symx_concretize(b->cursor) - 1; CHECK(k >= 1 && k <= 8, "a header has a wrong size");
    // the bytes, from the definition: 4 bits each, most significant first, type in the first, continuation flag in all but the last
    uint32_t v = type == 0x70 ? l : l + k;
    for (unsigned i = 0; i < k; i++) CHECK(b->buffer[1 + i] == (((i == 0 ? type : 0) | (i + 1 < k ? 0x80 : 0)) | ((v >> (4 * (k - 1 - i))) & 15)), "a header is encoded wrongly");
    CHECK(k == 8 || (v >> (4 * k)) == 0, "a length is truncated");
    if (k > 1) CHECK(((type == 0x70 ? l : l + k - 1) >> (4 * (k - 1))) != 0, "a header is longer than necessary");
    CHECK(b->buffer[0] == stale, "writing a header changed other bytes"); for (unsigned i = 1 + k; i < 12; i++) CHECK(b->buffer[i] == stale, "writing a header changed other bytes");
    b->cursor = 1;
    CHECK(sml_buf_get_next_type(b) == (int)type, "the type of a header changes");
    CHECK(sml_buf_get_next_length(b) == (int)l, "the length of a header changes");
    CHECK(b->cursor == 1 + k && !sml_buf_has_errors(b), "reading a header consumed a wrong number of bytes"); symx_note(k);
    sml_buffer_free(b); symx_mark("written and read");
  } else {
    unsigned n = (unsigned)PARAM(N, 7); unsigned char in[16]; if (n) symx_make_symbolic(in, n, "bytes");
    sml_buffer *b = sml_buffer_init(n); memcpy(b->buffer, in, n);
    int type = sml_buf_get_next_type(b);
    CHECK(n ? type == (in[0] & 0x70) : sml_buf_has_errors(b), "the type of a header is wrong"); CHECK(b->cursor == 0, "looking at the type moved the read position");
    unsigned k = 0; uint32_t v = 0; int odd = 0, end = 0;
    for (unsigned i = 0; i < n && !end; i++) { v = v << 4 | (in[i] & 15); k++; if (i && (in[i] & 0x70)) odd = 1; end = !(in[i] & 0x80); }
    int l = sml_buf_get_next_length(b);
    if (!end) { CHECK(sml_buf_has_errors(b) && l < 0, "a header without its last byte is accepted"); CHECK(b->cursor <= n, "the read position is beyond the end of the input"); symx_mark("truncated"); }
    else if (!odd) {
      CHECK(!sml_buf_has_errors(b) && b->cursor == k, "reading a header consumed a wrong number of bytes");
      if (type == 0x70) CHECK(l == (int)v, "the number of elements of a list is wrong"); else if (v >= k) CHECK(l == (int)(v - k), "the length of a header is wrong"); else CHECK(l < 0, "a header that is shorter than itself is accepted");
      symx_note((unsigned long)l); symx_mark("read");
    }
    for (unsigned i = 0; i < n; i++) CHECK(b->buffer[i] == in[i], "decoding modified its input");
    // the marker of an absent element
    if (n) { sml_buffer *c = sml_buffer_init(n); memcpy(c->buffer, in, n); int s = sml_buf_optional_is_skipped(c); CHECK(s == (in[0] == 1) && c->cursor == (in[0] == 1), "the marker of an absent element is not recognised"); sml_buffer_free(c); }
    sml_buffer_free(b);
  }
  CHECK(symx_heap_live() == 0, "memory is still allocated");
}
