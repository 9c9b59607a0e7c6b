// Containers: appending keeps every element, in order, whatever their number. C 0 sequence, 1 tree, 2 path, 3 file, 4 value list
// N, BIG: elements appended and looked at; SIZE: elements that are only pointers
#include "sx.h"
#include <sml/sml_file.h>
#include <sml/sml_list.h>
#include <sml/sml_tree.h>
#include <string.h>
static void *freed[400]; static unsigned nfreed;
static void elem_free(void *e) { if (nfreed < 400) freed[nfreed] = e; nfreed++; }
static octet_string *oct(unsigned i, unsigned char x) { unsigned char b[3] = {(unsigned char)(i >> 8), (unsigned char)i, x}; return sml_octet_string_init(b, 3); }
static void is(const octet_string *s, unsigned i, unsigned char x) { CHECK(s && s->len == 3 && s->str[0] == (unsigned char)(i >> 8) && s->str[1] == (unsigned char)i && s->str[2] == x, "an appended element is lost, moved or changed"); }
static void grow(int c, unsigned n) {
  nfreed = 0;
  unsigned char x = sx_u8("x"); unsigned i;
  if (c == 0) { sml_sequence *q = sml_sequence_init(elem_free); for (i = 0; i < n; i++) sml_sequence_add(q, freed + i); CHECK(q->elems_len == (int)n, "a container has a wrong length"); for (i = 0; i < n; i++) CHECK(q->elems[i] == freed + i, "an appended element is lost, moved or changed");
    CHECK(nfreed == 0, "an element is released too early"); sml_sequence_free(q); CHECK(nfreed == n, "releasing a container does not release every element once"); for (i = 0; i < n && i < 400; i++) { int k = 0; for (unsigned j = 0; j < n && j < 400; j++) k += freed[j] == (void *)(freed + i); CHECK(k == 1, "releasing a container does not release every element once"); } }
  else if (c == 1) { sml_tree *t = sml_tree_init(); for (i = 0; i < n; i++) { sml_tree *k = sml_tree_init(); k->parameter_name = oct(i, x); sml_tree_add_tree(t, k); } CHECK(t->child_list_len == (int)n, "a container has a wrong length"); for (i = 0; i < n; i++) is(t->child_list[i]->parameter_name, i, x); sml_tree_free(t); }
  else if (c == 2) { sml_tree_path *t = sml_tree_path_init(); for (i = 0; i < n; i++) sml_tree_path_add_path_entry(t, oct(i, x)); CHECK(t->path_entries_len == (int)n, "a container has a wrong length"); for (i = 0; i < n; i++) is(t->path_entries[i], i, x); sml_tree_path_free(t); }
  else if (c == 3) { sml_file *f = sml_file_init(); for (i = 0; i < n; i++) { sml_message *m = sml_message_init(); sml_octet_string_free(m->transaction_id); m->transaction_id = oct(i, x); sml_file_add_message(f, m); } CHECK(f->messages_len == (int)n, "a container has a wrong length"); for (i = 0; i < n; i++) is(f->messages[i]->transaction_id, i, x); sml_file_free(f); }
  else { sml_list *first = NULL, *last = NULL; for (i = 0; i < n; i++) { sml_list *l = sml_list_init(); l->obj_name = oct(i, x); if (last) sml_list_add(last, l); else first = l; last = l; } i = 0; for (sml_list *l = first; l; l = l->next) is(l->obj_name, i++, x); CHECK(i == n, "a container has a wrong length"); sml_list_free(first); }
}
// many elements, one by one; the elements themselves are not looked at
static char pool[70001];
static void many(int c, unsigned n) {
  sml_sequence *s = NULL; sml_tree *t = NULL; sml_tree_path *p = NULL; sml_file *f = NULL; unsigned i; long len; void **b;
  if (c == 0) s = sml_sequence_init(elem_free); else if (c == 1) t = sml_tree_init(); else if (c == 2) p = sml_tree_path_init(); else f = sml_file_init();
  for (i = 0; i < n; i++) { void *e = pool + i; if (c == 0) sml_sequence_add(s, e); else if (c == 1) sml_tree_add_tree(t, e); else if (c == 2) sml_tree_path_add_path_entry(p, e); else sml_file_add_message(f, e);
    if ((i & (i + 1)) == 0 || i % 4096 == 4095) { // in between as well
      len = s ? s->elems_len : t ? t->child_list_len : p ? p->path_entries_len : f->messages_len; b = s ? s->elems : t ? (void **)t->child_list : p ? (void **)p->path_entries : (void **)f->messages;
      CHECK(len == (long)i + 1, "a container has a wrong length"); CHECK(b[i] == e && b[0] == pool && b[i / 2] == pool + i / 2, "an appended element is lost, moved or changed"); } }
  len = s ? s->elems_len : t ? t->child_list_len : p ? p->path_entries_len : f->messages_len; b = s ? s->elems : t ? (void **)t->child_list : p ? (void **)p->path_entries : (void **)f->messages;
  CHECK(len == (long)n, "a container has a wrong length"); int same = 1; for (i = 0; i < n; i++) same &= b[i] == pool + i; CHECK(same, "an appended element is lost, moved or changed");
  if (s) { CHECK(nfreed == 0, "an element is released too early"); sml_sequence_free(s); CHECK(nfreed == n, "releasing a container does not release every element once"); }
  else { free(b); if (t) { t->child_list = NULL; t->child_list_len = 0; sml_tree_free(t); } else if (p) { p->path_entries = NULL; p->path_entries_len = 0; sml_tree_path_free(p); } else { f->messages = NULL; f->messages_len = 0; sml_file_free(f); } }
}
void harness(void) {
  int c = PARAM(C, 0);
  if (PARAM(SIZE, 0)) { many(c, (unsigned)PARAM(SIZE, 0)); symx_mark("many"); }
  else { grow(c, sx_choose((unsigned)PARAM(N, 6), "elements")); grow(c, 0); if (PARAM(BIG, 0)) { grow(c, (unsigned)PARAM(BIG, 0)); } symx_mark("grown"); }
  CHECK(symx_heap_live() == 0, "memory is still allocated after releasing a container"); symx_mark("done");
}
