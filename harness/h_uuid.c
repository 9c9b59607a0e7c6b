// Transaction identifiers of new messages come from the random source (LIB 1: libuuid, 0: /dev/urandom)
#include "sx.h"
#include <sml/sml_message.h>
#include <sml/sml_octet_string.h>
#include <string.h>
static unsigned char R[16 * 400]; static unsigned rn; static int opened, closed, last, want_fd;
static void more(unsigned char *o, size_t n) { for (size_t i = 0; i < n && rn < sizeof R; i++) { R[rn] = rn < 48 || rn % 16 > 5 ? sx_u8("random") : (unsigned char)(rn * 5); o[i] = R[rn++]; } }
void sx_uuid(unsigned char *o) { more(o, 16); }
int sx_open(const char *p, int f) { (void)f; CHECK(!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"), "something else than the random source is opened"); opened++; return last = want_fd; }
int sx_close(int fd) { CHECK(fd == last && opened > closed, "a wrong descriptor is closed"); closed++; return 0; }
ssize_t sx_read(int fd, void *b, size_t n) { CHECK(fd == -2 || (fd == last && opened > closed), "a wrong descriptor is read"); more(b, n); return (ssize_t)n; }
static void check(const octet_string *s, unsigned at, int lib) {
  CHECK(s && s->len == 16, "a transaction identifier does not have 16 bytes");
  for (unsigned i = 0; i < 16; i++) { unsigned char w = R[at + i]; if (!lib && i == 6) w = (unsigned char)((w & 15) | 0x40); if (!lib && i == 8) w = (unsigned char)((w & 0x3f) | 0x80); CHECK(s->str[i] == w, "a transaction identifier is not what the random source gave"); symx_note(s->str[i]); }
}
void harness(void) {
  static const int D[] = {11, 0, 1, 2, 3, 70000}; int lib = PARAM(LIB, 1); want_fd = D[lib ? 0 : sx_choose(6, "descriptor")];
  if (PARAM(MANY, 0)) { unsigned m = (unsigned)PARAM(MANY, 0); for (unsigned i = 0; i < m; i++) { sml_message *a = sml_message_init(); CHECK(rn == 16 * (i + 1), "a transaction identifier uses a wrong amount of randomness"); CHECK(opened == closed, "a descriptor is left open"); check(a->transaction_id, 16 * i, lib); sml_message_free(a); } CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a new message"); symx_mark("many"); return; }
  sml_message *a = sml_message_init(); CHECK(rn == 16, "a transaction identifier uses a wrong amount of randomness"); sml_message *b = sml_message_init(); octet_string *s = sml_octet_string_generate_uuid();
  CHECK(rn == 48, "a transaction identifier uses a wrong amount of randomness"); CHECK(opened == closed, "a descriptor is left open");
  check(a->transaction_id, 0, lib); check(b->transaction_id, 16, lib); check(s, 32, lib);
  CHECK(!a->group_id && !a->abort_on_error && !a->message_body && !a->crc, "a new message is not empty");
  sml_octet_string_free(s); sml_message_free(a); sml_message_free(b); CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a new message"); symx_mark("done");
}
