// Reference model of SML (BSI TR-03109-1 / SML 1.03 subset implemented by the library), independent of the library's code:
// a schema of every structure, a generator of encodings with symbolic content, a decoder, and the conversions between
// library structures (public headers only) and a canonical token stream. Everything is compared token by token.
#ifndef MODEL_H
#define MODEL_H
#include "sx.h"
#include <sml/sml_file.h>
#include <sml/sml_message.h>
#include <sml/sml_crc16.h>
#include <sml/sml_boolean.h>
#include <sml/sml_tree.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

// ---- kinds and schema --------------------------------------------------------------------------------------------
enum { K_END, K_OCT, K_U8, K_U16, K_U32, K_U64, K_I8, K_I16, K_I32, K_I64, K_BOOL, K_VALUE, K_STATUS, K_TIME, K_VLIST, K_PATH,
       K_TREE, K_PPV, K_SEQ, K_OBJREQ, K_STRUCT /* optional struct */ };
typedef struct schema schema;
typedef struct { unsigned char kind; unsigned short off; const schema *sub; } fld;
struct schema {
  const char *name; uint32_t tag; unsigned n;
  void *(*init)(void); void *(*parse)(sml_buffer *); void (*write)(void *, sml_buffer *); void (*release)(void *);
  fld f[24];
};
#define F(k, st, m) {k, offsetof(st, m), 0}
#define FS(k, st, m, s) {k, offsetof(st, m), s}
#define FN(x) (void *(*)(void))x##_init, (void *(*)(sml_buffer *))x##_parse, (void (*)(void *, sml_buffer *))x##_write, (void (*)(void *))x##_free

static const schema S_value_entry = {"value_entry", 0, 2, FN(sml_value_entry), {F(K_VALUE, sml_value_entry, value), F(K_OCT, sml_value_entry, value_signature)}};
static const schema S_header = {"prof_obj_header_entry", 0, 3, FN(sml_prof_obj_header_entry), {F(K_OCT, sml_prof_obj_header_entry, obj_name), F(K_U8, sml_prof_obj_header_entry, unit), F(K_I8, sml_prof_obj_header_entry, scaler)}};
static const schema S_pperiod = {"prof_obj_period_entry", 0, 4, FN(sml_prof_obj_period_entry), {F(K_TIME, sml_prof_obj_period_entry, val_time), F(K_U64, sml_prof_obj_period_entry, status), FS(K_SEQ, sml_prof_obj_period_entry, value_list, &S_value_entry), F(K_OCT, sml_prof_obj_period_entry, period_signature)}};
static const schema S_period = {"period_entry", 0, 5, FN(sml_period_entry), {F(K_OCT, sml_period_entry, obj_name), F(K_U8, sml_period_entry, unit), F(K_I8, sml_period_entry, scaler), F(K_VALUE, sml_period_entry, value), F(K_OCT, sml_period_entry, value_signature)}};
#define TU(k, m) F(k, sml_tupel_entry, m)
static const schema S_tupel = {"tupel_entry", 0, 23, FN(sml_tupel_entry), {TU(K_OCT, server_id), TU(K_TIME, sec_index), TU(K_U64, status),
  TU(K_U8, unit_pA), TU(K_I8, scaler_pA), TU(K_I64, value_pA), TU(K_U8, unit_R1), TU(K_I8, scaler_R1), TU(K_I64, value_R1), TU(K_U8, unit_R4), TU(K_I8, scaler_R4), TU(K_I64, value_R4), TU(K_OCT, signature_pA_R1_R4),
  TU(K_U8, unit_mA), TU(K_I8, scaler_mA), TU(K_I64, value_mA), TU(K_U8, unit_R2), TU(K_I8, scaler_R2), TU(K_I64, value_R2), TU(K_U8, unit_R3), TU(K_I8, scaler_R3), TU(K_I64, value_R3), TU(K_OCT, signature_mA_R2_R3)}};
static const schema S_entry = {"list_entry", 0, 7, (void *(*)(void))sml_list_init, 0, 0, 0, {F(K_OCT, sml_list, obj_name), F(K_STATUS, sml_list, status), F(K_TIME, sml_list, val_time), F(K_U8, sml_list, unit), F(K_I8, sml_list, scaler), F(K_VALUE, sml_list, value), F(K_OCT, sml_list, value_signature)}};

#define M(x, t, cnt) {#x, t, cnt, FN(sml_##x)
#define O(x, m) F(K_OCT, sml_##x, m)
static void *glr_init(void) { return sml_get_profile_list_request_init(); }
static void *glr_parse(sml_buffer *b) { return sml_get_profile_list_request_parse(b); }
static void glr_write(void *p, sml_buffer *b) { sml_get_profile_list_request_write(p, b); }
static void glr_free(void *p) { sml_get_profile_list_request_free(p); }
static const schema MSG[14] = {
  M(open_request, 0x100, 7), {O(open_request, codepage), O(open_request, client_id), O(open_request, req_file_id), O(open_request, server_id), O(open_request, username), O(open_request, password), F(K_U8, sml_open_request, sml_version)}},
  M(open_response, 0x101, 6), {O(open_response, codepage), O(open_response, client_id), O(open_response, req_file_id), O(open_response, server_id), F(K_TIME, sml_open_response, ref_time), F(K_U8, sml_open_response, sml_version)}},
  M(close_request, 0x200, 1), {O(close_request, global_signature)}},
  M(close_response, 0x201, 1), {O(close_response, global_signature)}},
  M(get_profile_pack_request, 0x300, 9), {O(get_profile_pack_request, server_id), O(get_profile_pack_request, username), O(get_profile_pack_request, password), F(K_BOOL, sml_get_profile_pack_request, with_rawdata), F(K_TIME, sml_get_profile_pack_request, begin_time), F(K_TIME, sml_get_profile_pack_request, end_time), F(K_PATH, sml_get_profile_pack_request, parameter_tree_path), F(K_OBJREQ, sml_get_profile_pack_request, object_list), F(K_TREE, sml_get_profile_pack_request, das_details)}},
  M(get_profile_pack_response, 0x301, 8), {O(get_profile_pack_response, server_id), F(K_TIME, sml_get_profile_pack_response, act_time), F(K_U32, sml_get_profile_pack_response, reg_period), F(K_PATH, sml_get_profile_pack_response, parameter_tree_path), FS(K_SEQ, sml_get_profile_pack_response, header_list, &S_header), FS(K_SEQ, sml_get_profile_pack_response, period_list, &S_pperiod), O(get_profile_pack_response, rawdata), O(get_profile_pack_response, profile_signature)}},
  {"get_profile_list_request", 0x400, 9, glr_init, glr_parse, glr_write, glr_free, {O(get_profile_list_request, server_id), O(get_profile_list_request, username), O(get_profile_list_request, password), F(K_BOOL, sml_get_profile_list_request, with_rawdata), F(K_TIME, sml_get_profile_list_request, begin_time), F(K_TIME, sml_get_profile_list_request, end_time), F(K_PATH, sml_get_profile_list_request, parameter_tree_path), F(K_OBJREQ, sml_get_profile_list_request, object_list), F(K_TREE, sml_get_profile_list_request, das_details)}},
  M(get_profile_list_response, 0x401, 9), {O(get_profile_list_response, server_id), F(K_TIME, sml_get_profile_list_response, act_time), F(K_U32, sml_get_profile_list_response, reg_period), F(K_PATH, sml_get_profile_list_response, parameter_tree_path), F(K_TIME, sml_get_profile_list_response, val_time), F(K_U64, sml_get_profile_list_response, status), FS(K_SEQ, sml_get_profile_list_response, period_list, &S_period), O(get_profile_list_response, rawdata), O(get_profile_list_response, period_signature)}},
  M(get_proc_parameter_request, 0x500, 5), {O(get_proc_parameter_request, server_id), O(get_proc_parameter_request, username), O(get_proc_parameter_request, password), F(K_PATH, sml_get_proc_parameter_request, parameter_tree_path), O(get_proc_parameter_request, attribute)}},
  M(get_proc_parameter_response, 0x501, 3), {O(get_proc_parameter_response, server_id), F(K_PATH, sml_get_proc_parameter_response, parameter_tree_path), F(K_TREE, sml_get_proc_parameter_response, parameter_tree)}},
  M(set_proc_parameter_request, 0x600, 5), {O(set_proc_parameter_request, server_id), O(set_proc_parameter_request, username), O(set_proc_parameter_request, password), F(K_PATH, sml_set_proc_parameter_request, parameter_tree_path), F(K_TREE, sml_set_proc_parameter_request, parameter_tree)}},
  M(get_list_request, 0x700, 5), {O(get_list_request, client_id), O(get_list_request, server_id), O(get_list_request, username), O(get_list_request, password), O(get_list_request, list_name)}},
  M(get_list_response, 0x701, 7), {O(get_list_response, client_id), O(get_list_response, server_id), O(get_list_response, list_name), F(K_TIME, sml_get_list_response, act_sensor_time), F(K_VLIST, sml_get_list_response, val_list), O(get_list_response, list_signature), F(K_TIME, sml_get_list_response, act_gateway_time)}},
  M(attention_response, 0xFF01, 4), {O(attention_response, server_id), O(attention_response, attention_number), O(attention_response, attention_message), F(K_TREE, sml_attention_response, attention_details)}},
};
#undef M
#undef O
#undef TU
static const schema *msg_by_tag(uint32_t t) { for (int i = 0; i < 14; i++) if (MSG[i].tag == t) return &MSG[i]; return 0; }
static int num_width(int k) { return 1 << ((k - K_U8) & 3); }
static int num_signed(int k) { return k >= K_I8; }

// ---- token stream ------------------------------------------------------------------------------------------------
#ifndef MAXTOK
#define MAXTOK 3000
#endif
typedef struct { unsigned n, rd; uint64_t t[MAXTOK]; } toks;
enum { T_ABSENT = 0x7a000001, T_OCT, T_NUM = 0x7a001000, T_BOOL = 0x7a000100, T_VALUE, T_STATUS, T_TIME, T_ENTRY, T_END, T_PATH, T_TREE, T_PPV, T_SEQ, T_STRUCT, T_MSG };
static void tk(toks *s, uint64_t v) { if (s->n >= MAXTOK) { CHECK(0, "model: token buffer too small"); symx_path_end(); } s->t[s->n++] = v; }
static uint64_t nx(toks *s) { return s->t[s->rd++]; }
static void toks_same(const toks *want, const toks *got, const char *msg) {
  CHECK(want->n == got->n, msg);
  for (unsigned i = 0; i < want->n && i < got->n; i++) CHECK(want->t[i] == got->t[i], msg);
}
static void toks_note(const toks *s) { for (unsigned i = 0; i < s->n; i++) symx_note(s->t[i]); }

// ---- library structures -> tokens --------------------------------------------------------------------------------
static void fl_oct(toks *o, const octet_string *s) { if (!s) { tk(o, T_ABSENT); return; } tk(o, T_OCT); tk(o, (uint64_t)s->len); for (int i = 0; i < s->len; i++) tk(o, s->str[i]); }
static void fl_num(toks *o, const void *p, int w, int sg) {
  if (!p) { tk(o, T_ABSENT); return; }
  tk(o, (uint64_t)(T_NUM + w + (sg ? 16 : 0)));
  tk(o, w == 1 ? *(const uint8_t *)p : w == 2 ? *(const uint16_t *)p : w == 4 ? *(const uint32_t *)p : *(const uint64_t *)p);
}
static void fl_bool(toks *o, const sml_boolean *b) { if (!b) { tk(o, T_ABSENT); return; } tk(o, T_BOOL); tk(o, *b); }
static void fl_value(toks *o, const sml_value *v) {
  if (!v) { tk(o, T_ABSENT); return; }
  tk(o, T_VALUE);
  unsigned type = (unsigned)symx_concretize(v->type); tk(o, type);
  switch (type) {
  case 0x00: fl_oct(o, v->data.bytes); break;
  case 0x40: fl_bool(o, v->data.boolean); break;
  case 0x51: case 0x61: fl_num(o, v->data.uint8, 1, type < 0x60); break;
  case 0x52: case 0x62: fl_num(o, v->data.uint16, 2, type < 0x60); break;
  case 0x54: case 0x64: fl_num(o, v->data.uint32, 4, type < 0x60); break;
  case 0x58: case 0x68: fl_num(o, v->data.uint64, 8, type < 0x60); break;
  default: CHECK(0, "a delivered value has a type no SML value has");
  }
}
static void fl_status(toks *o, const sml_status *v) {
  if (!v) { tk(o, T_ABSENT); return; }
  tk(o, T_STATUS); unsigned type = (unsigned)symx_concretize(v->type); tk(o, type);
  CHECK(type == 0x61 || type == 0x62 || type == 0x64 || type == 0x68, "a delivered status has a type no SML status has");
  fl_num(o, v->data.status8, (int)(type & 15), 0);
}
static void fl_time(toks *o, const sml_time *t) { if (!t) { tk(o, T_ABSENT); return; } tk(o, T_TIME); fl_num(o, t->tag, 1, 0); fl_num(o, t->data.timestamp, 4, 0); }
static void fl_fields(toks *o, const void *p, const schema *s);
static void fl_period(toks *o, const sml_period_entry *p) { if (!p) { tk(o, T_ABSENT); return; } tk(o, T_STRUCT); fl_fields(o, p, &S_period); }
static void fl_ppv(toks *o, const sml_proc_par_value *p) {
  if (!p) { tk(o, T_ABSENT); return; }
  tk(o, T_PPV); CHECK(p->tag != NULL, "a delivered parameter value has no tag"); unsigned tag = (unsigned)symx_concretize(*p->tag); tk(o, tag);
  switch (tag) {
  case 1: fl_value(o, p->data.value); break;
  case 2: fl_period(o, p->data.period_entry); break;
  case 3: if (!p->data.tupel_entry) tk(o, T_ABSENT); else { tk(o, T_STRUCT); fl_fields(o, p->data.tupel_entry, &S_tupel); } break;
  case 4: fl_time(o, p->data.time); break;
  default: CHECK(0, "a delivered parameter value has an unknown tag");
  }
}
static void fl_tree(toks *o, const sml_tree *t) {
  if (!t) { tk(o, T_ABSENT); return; }
  tk(o, T_TREE); fl_oct(o, t->parameter_name); fl_ppv(o, t->parameter_value); tk(o, (uint64_t)t->child_list_len);
  for (int i = 0; i < t->child_list_len; i++) fl_tree(o, t->child_list[i]);
}
static void fl_path(toks *o, const sml_tree_path *p) { if (!p) { tk(o, T_ABSENT); return; } tk(o, T_PATH); tk(o, (uint64_t)p->path_entries_len); for (int i = 0; i < p->path_entries_len; i++) fl_oct(o, p->path_entries[i]); }
static void fl_vlist(toks *o, const sml_list *l) { for (; l; l = l->next) { tk(o, T_ENTRY); fl_fields(o, l, &S_entry); } tk(o, T_END); }
static void fl_seq(toks *o, const sml_sequence *q, const schema *s) {
  if (!q) { tk(o, T_ABSENT); return; }
  tk(o, T_SEQ); tk(o, (uint64_t)q->elems_len);
  for (int i = 0; i < q->elems_len; i++) { if (!q->elems[i]) tk(o, T_ABSENT); else if (s == &S_period) fl_period(o, q->elems[i]); else { tk(o, T_STRUCT); fl_fields(o, q->elems[i], s); } }
}
static void fl_objreq(toks *o, const sml_obj_req_entry_list *l) { for (; l; l = l->next) { tk(o, T_ENTRY); fl_oct(o, l->object_list_entry); } tk(o, T_END); }
static void fl_kind(toks *o, const void *p, const fld *f) {
  switch (f->kind) {
  case K_OCT: fl_oct(o, p); break; case K_BOOL: fl_bool(o, p); break; case K_VALUE: fl_value(o, p); break; case K_STATUS: fl_status(o, p); break;
  case K_TIME: fl_time(o, p); break; case K_VLIST: fl_vlist(o, p); break; case K_PATH: fl_path(o, p); break; case K_TREE: fl_tree(o, p); break;
  case K_PPV: fl_ppv(o, p); break; case K_SEQ: fl_seq(o, p, f->sub); break; case K_OBJREQ: fl_objreq(o, p); break;
  case K_STRUCT: if (!p) tk(o, T_ABSENT); else { tk(o, T_STRUCT); fl_fields(o, p, f->sub); } break;
  default: fl_num(o, p, num_width(f->kind), num_signed(f->kind));
  }
}
static void fl_fields(toks *o, const void *p, const schema *s) { for (unsigned i = 0; i < s->n; i++) fl_kind(o, *(void *const *)((const char *)p + s->f[i].off), &s->f[i]); }
static void fl_message(toks *o, const sml_message *m, int crc) {
  tk(o, T_MSG); fl_oct(o, m->transaction_id); fl_num(o, m->group_id, 1, 0); fl_num(o, m->abort_on_error, 1, 0);
  CHECK(m->message_body != NULL, "a delivered message has no body");
  CHECK(m->message_body->tag != NULL, "a delivered message has no type");
  uint32_t tag = (uint32_t)symx_concretize(*m->message_body->tag); tk(o, tag); const schema *s = msg_by_tag(tag);
  if (s && m->message_body->data) fl_fields(o, m->message_body->data, s); else tk(o, T_ABSENT);
  if (crc) fl_num(o, m->crc, 2, 0);
}

// ---- tokens -> library structures (public constructors) ----------------------------------------------------------
static octet_string *bd_oct(toks *t) {
  if (nx(t) == T_ABSENT) return NULL;
  unsigned n = (unsigned)nx(t); unsigned char *b = malloc(n ? n : 1); for (unsigned i = 0; i < n; i++) b[i] = (unsigned char)nx(t);
  octet_string *s = sml_octet_string_init(b, (int)n); free(b); return s;
}
static void *bd_num(toks *t, int w, int sg) {
  if (nx(t) == T_ABSENT) return NULL; uint64_t v = nx(t);
  if (sg) return w == 1 ? (void *)sml_i8_init((i8)v) : w == 2 ? (void *)sml_i16_init((i16)v) : w == 4 ? (void *)sml_i32_init((i32)v) : (void *)sml_i64_init((i64)v);
  return w == 1 ? (void *)sml_u8_init(v) : w == 2 ? (void *)sml_u16_init(v) : w == 4 ? (void *)sml_u32_init(v) : (void *)sml_u64_init(v);
}
static sml_boolean *bd_bool(toks *t) { if (nx(t) == T_ABSENT) return NULL; return sml_boolean_init((u8)nx(t)); }
static sml_value *bd_value(toks *t) {
  if (nx(t) == T_ABSENT) return NULL;
  unsigned ty = (unsigned)nx(t); sml_value *v = sml_value_init(); v->type = (u8)ty;
  if (ty == 0) v->data.bytes = bd_oct(t); else if (ty == 0x40) v->data.boolean = bd_bool(t); else v->data.uint8 = bd_num(t, (int)(ty & 15), ty < 0x60);
  return v;
}
static sml_status *bd_status(toks *t) { if (nx(t) == T_ABSENT) return NULL; unsigned ty = (unsigned)nx(t); sml_status *s = sml_status_init(); s->type = (u8)ty; s->data.status8 = bd_num(t, (int)(ty & 15), 0); return s; }
static sml_time *bd_time(toks *t) { if (nx(t) == T_ABSENT) return NULL; sml_time *x = sml_time_init(); x->tag = bd_num(t, 1, 0); x->data.timestamp = bd_num(t, 4, 0); return x; }
static void bd_fields(toks *t, void *p, const schema *s);
static void *bd_struct(toks *t, const schema *s) { if (nx(t) == T_ABSENT) return NULL; void *p = s->init(); bd_fields(t, p, s); return p; }
static sml_proc_par_value *bd_ppv(toks *t) {
  if (nx(t) == T_ABSENT) return NULL;
  sml_proc_par_value *p = sml_proc_par_value_init(); unsigned tag = (unsigned)nx(t); p->tag = sml_u8_init(tag);
  if (tag == 1) p->data.value = bd_value(t); else if (tag == 2) p->data.period_entry = bd_struct(t, &S_period); else if (tag == 3) p->data.tupel_entry = bd_struct(t, &S_tupel); else p->data.time = bd_time(t);
  return p;
}
static sml_tree *bd_tree(toks *t) {
  if (nx(t) == T_ABSENT) return NULL;
  sml_tree *x = sml_tree_init(); x->parameter_name = bd_oct(t); x->parameter_value = bd_ppv(t); unsigned n = (unsigned)nx(t);
  for (unsigned i = 0; i < n; i++) sml_tree_add_tree(x, bd_tree(t));
  return x;
}
static sml_tree_path *bd_path(toks *t) { if (nx(t) == T_ABSENT) return NULL; sml_tree_path *p = sml_tree_path_init(); unsigned n = (unsigned)nx(t); for (unsigned i = 0; i < n; i++) sml_tree_path_add_path_entry(p, bd_oct(t)); return p; }
static sml_list *bd_vlist(toks *t) {
  sml_list *first = NULL, *last = NULL;
  while (nx(t) == T_ENTRY) { sml_list *e = sml_list_init(); bd_fields(t, e, &S_entry); if (last) sml_list_add(last, e); else first = e; last = e; }
  return first;
}
static sml_sequence *bd_seq(toks *t, const schema *s) { if (nx(t) == T_ABSENT) return NULL; sml_sequence *q = sml_sequence_init(s->release); unsigned n = (unsigned)nx(t); for (unsigned i = 0; i < n; i++) sml_sequence_add(q, bd_struct(t, s)); return q; }
static sml_obj_req_entry_list *bd_objreq(toks *t) {
  sml_obj_req_entry_list *first = NULL, *last = NULL;
  while (nx(t) == T_ENTRY) { sml_obj_req_entry_list *e = malloc(sizeof *e); e->object_list_entry = bd_oct(t); e->next = NULL; if (last) last->next = e; else first = e; last = e; }
  return first;
}
static void *bd_kind(toks *t, const fld *f) {
  switch (f->kind) {
  case K_OCT: return bd_oct(t); case K_BOOL: return bd_bool(t); case K_VALUE: return bd_value(t); case K_STATUS: return bd_status(t); case K_TIME: return bd_time(t); case K_VLIST: return bd_vlist(t);
  case K_PATH: return bd_path(t); case K_TREE: return bd_tree(t); case K_PPV: return bd_ppv(t); case K_SEQ: return bd_seq(t, f->sub); case K_OBJREQ: return bd_objreq(t); case K_STRUCT: return bd_struct(t, f->sub);
  default: return bd_num(t, num_width(f->kind), num_signed(f->kind));
  }
}
static void bd_fields(toks *t, void *p, const schema *s) { for (unsigned i = 0; i < s->n; i++) *(void **)((char *)p + s->f[i].off) = bd_kind(t, &s->f[i]); }
static sml_message *bd_message(toks *t) {
  nx(t); sml_message *m = sml_message_init(); sml_octet_string_free(m->transaction_id); m->transaction_id = bd_oct(t); m->group_id = bd_num(t, 1, 0); m->abort_on_error = bd_num(t, 1, 0);
  uint32_t tag = (uint32_t)nx(t); const schema *s = msg_by_tag(tag); void *d = s->init(); bd_fields(t, d, s); m->message_body = sml_message_body_init(tag, d); return m;
}

// ---- generator: encodings with symbolic content plus the tokens they mean ----------------------------------------
#ifndef MAXENC
#define MAXENC 1200
#endif
// canon: only forms the library itself can represent and must produce when writing. budget: how many fields may leave their default form.
// conc: concrete content instead of symbolic. tie: the signs of default integers are all equal (g->sgn), for structures with many of them.
// sparse: the default form of every field is its absence
// crc: checksum of messages, 0 X.25, 1 Kermit, 2 one of them (a form). full: the default form of trees, lists and paths has several elements
typedef struct { unsigned n; int canon, budget, quiet, small, conc, tie, crc, full, sparse; unsigned char sgn; toks *t; unsigned char b[MAXENC]; } gen;
static void gb(gen *g, unsigned char c) { if (g->n >= MAXENC) { CHECK(0, "model: encoding buffer too small"); symx_path_end(); } g->b[g->n++] = c; }
static unsigned g_form(gen *g, unsigned n) {
  if (n <= 1) return 0; unsigned d = g->sparse ? 1 : 0; if (g->budget <= 0 || g->quiet) return d;
  unsigned c = sx_choose(n, "form"); if (d && c < 2) c = 1 - c; if (c != d) g->budget--; return c;
}
// number of nibbles needed, header bytes included for everything but lists
static void g_tl(gen *g, unsigned type, unsigned len) {
  unsigned k = 1; for (; k < 8; k++) { unsigned v = type == 0x70 ? len : len + k; if (!(v >> (4 * k))) break; }
  unsigned v = type == 0x70 ? len : len + k;
  for (unsigned i = k; i-- > 0;) gb(g, (unsigned char)((i + 1 == k ? type : 0) | (i ? 0x80 : 0) | ((v >> (4 * i)) & 15)));
}
static void g_absent(gen *g) { gb(g, 1); tk(g->t, T_ABSENT); }
static unsigned char g_sym(gen *g, const char *nm) { unsigned char c = g->conc ? (unsigned char)(0x21 + g->n * 37 % 0x5d) : sx_u8(nm); gb(g, c); return c; }
static void g_octn(gen *g, unsigned len) {
  g_tl(g, 0, len); tk(g->t, T_OCT); tk(g->t, len);
  for (unsigned i = 0; i < len; i++) { if (len <= 40 || i < 3 || i + 3 >= len) tk(g->t, g_sym(g, "oct")); else { unsigned char c = (unsigned char)(i * 7 + 1); gb(g, c); tk(g->t, c); } }
}
static void g_octb(gen *g, const unsigned char *b, unsigned len) { g_tl(g, 0, len); tk(g->t, T_OCT); tk(g->t, len); for (unsigned i = 0; i < len; i++) { gb(g, b[i]); tk(g->t, b[i]); } }
static void g_oct(gen *g) { static const unsigned char L[] = {2, 0, 1, 14, 15, 6, 30}; unsigned c = g_form(g, g->small ? 3 : 7); if (c == 1) g_absent(g); else g_octn(g, c ? L[c] : PARAM(LONG, 2)); }
// integer of width max sent in w bytes
static void g_int(gen *g, unsigned type, unsigned w, unsigned max) {
  unsigned char m[8] = {0}, c[8]; g_tl(g, type, w);
  for (unsigned i = 0; i < w; i++) c[i] = g_sym(g, "num");
  for (unsigned i = 0; i < w; i++) m[w - 1 - i] = c[i];
  if (type == 0x50 && w < max && (c[0] & 0x80)) for (unsigned i = w; i < max; i++) m[i] = 0xff;
  uint64_t v; memcpy(&v, m, 8); tk(g->t, (uint64_t)(T_NUM + max + (type == 0x50 ? 16 : 0))); tk(g->t, v);
}
static void g_num(gen *g, int k) {
  unsigned max = (unsigned)num_width(k), type = num_signed(k) ? 0x50 : 0x60; unsigned tie = g->tie && type == 0x50, c = g_form(g, (g->canon ? 2 : g->small && max > 2 ? 3 : 1 + max) + tie);
  if (c == 1) g_absent(g);
  else if (c == 0) { unsigned at = g->n + 1; g_int(g, type, max, max); if (tie && !g->conc) symx_assume((g->b[at] >> 7) == g->sgn); }
  else if (tie && c == (g->canon ? 2 : g->small && max > 2 ? 3 : 1 + max)) g_int(g, type, max, max); else g_int(g, type, c - 1, max);
}
static void g_boolv(gen *g) { gb(g, 0x42); unsigned char c = g->conc ? 0xff : sx_u8("bool"); if (g->canon) c = symx_concretize(c != 0) ? 0xff : 0; gb(g, c); tk(g->t, T_BOOL); if (c) tk(g->t, 0xff); else tk(g->t, 0); }
static void g_bool(gen *g) { if (g_form(g, 2)) g_absent(g); else g_boolv(g); }
static unsigned up2(unsigned w) { return w <= 1 ? 1 : w <= 2 ? 2 : w <= 4 ? 4 : 8; }
static void g_valint(gen *g, unsigned type, unsigned w) { tk(g->t, T_VALUE); tk(g->t, type | up2(w)); g_int(g, type, w, up2(w)); }
static void g_value(gen *g) {
  unsigned c = g_form(g, g->small ? 6 : g->canon ? 14 : 22);
  if (g->small) switch (c) { case 0: g_valint(g, 0x50, 4); return; case 1: g_absent(g); return; case 2: tk(g->t, T_VALUE); tk(g->t, 0x40); g_boolv(g); return; case 3: tk(g->t, T_VALUE); tk(g->t, 0); g_octn(g, 3); return; case 4: g_valint(g, 0x60, 8); return; default: g_valint(g, 0x50, g->canon ? 2 : 3); return; }
  switch (c) {
  case 0: g_valint(g, 0x50, 4); return;
  case 1: g_absent(g); return;
  case 2: tk(g->t, T_VALUE); tk(g->t, 0x40); g_boolv(g); return;
  case 3: case 4: case 5: case 6: { static const unsigned char L[] = {1, 6, 15, 30}; tk(g->t, T_VALUE); tk(g->t, 0); g_octn(g, L[c - 3]); return; }
  }
  if (g->canon) { static const unsigned char W[] = {1, 2, 8, 1, 2, 4, 8}; g_valint(g, c < 10 ? 0x50 : 0x60, W[c - 7]); return; }
  c -= 7; // 0..14: integers of 1,2,3,5,6,7,8 bytes, unsigned of 1..8
  if (c < 7) { static const unsigned char W[] = {1, 2, 3, 5, 6, 7, 8}; g_valint(g, 0x50, W[c]); } else g_valint(g, 0x60, c - 6);
}
static void g_statusn(gen *g, unsigned w) { tk(g->t, T_STATUS); tk(g->t, 0x60 | up2(w)); g_int(g, 0x60, w, up2(w)); }
static void g_status(gen *g) {
  unsigned c = g_form(g, g->small ? 3 : g->canon ? 5 : 9);
  if (c == 1) { g_absent(g); return; }
  if (g->canon || g->small) { static const unsigned char W[] = {4, 0, 2, 1, 8}; g_statusn(g, W[c]); } else { static const unsigned char W[] = {4, 0, 1, 2, 3, 5, 6, 7, 8}; g_statusn(g, W[c]); }
}
static void g_time(gen *g) {
  unsigned c = g_form(g, g->canon ? 2 : g->small ? 5 : 8);
  if (c == 1) { g_absent(g); return; }
  tk(g->t, T_TIME);
  if (c == 2) { tk(g->t, T_NUM + 1); tk(g->t, 1); g_int(g, 0x60, 4, 4); return; } // Holley DTZ541: the bare seconds counter
  gb(g, 0x72); g_int(g, 0x60, 1, 1);
  if (c == 3 || c == 4) { // FROETEC: the value is a list of three, which is ignored
    gb(g, 0x73); unsigned keep = g->t->n;
    if (c == 3) { g_int(g, 0x60, 4, 4); g_int(g, 0x50, 2, 2); g_int(g, 0x50, 1, 2); } else { gb(g, 1); gb(g, 1); g_int(g, 0x50, 2, 2); }
    g->t->n = keep; tk(g->t, T_ABSENT); return;
  }
  g_int(g, 0x60, c == 0 ? 4 : c - 4, 4);
}
static void g_fields(gen *g, const schema *s);
static void g_struct(gen *g, const schema *s) {
  int tie = g->tie; if (s == &S_tupel && !tie) { g->tie = 1; g->sgn = g->conc ? 0 : (unsigned char)sx_choose(2, "signs"); }
  tk(g->t, T_STRUCT); g_tl(g, 0x70, s->n); g_fields(g, s); g->tie = tie;
}
static void g_ppvn(gen *g, unsigned tag) {
  tk(g->t, T_PPV); tk(g->t, tag); gb(g, 0x72); gb(g, 0x62); gb(g, (unsigned char)tag);
  if (tag == 1) g_value(g); else if (tag == 4) g_time(g);
  else if (g_form(g, 2)) g_absent(g); else g_struct(g, tag == 2 ? &S_period : &S_tupel);
}
static void g_ppv(gen *g) { unsigned c = g_form(g, 5); if (c == 1) g_absent(g); else g_ppvn(g, c == 0 ? 1 : c == 2 ? 2 : c == 3 ? 3 : 4); }
static void g_leaf(gen *g) { tk(g->t, T_TREE); gb(g, 0x73); g_octn(g, 1); g_absent(g); tk(g->t, 0); gb(g, 1); }
static void g_treed(gen *g, int depth) {
  unsigned c = g_form(g, (g->small ? 4 : 6) - (depth ? 1 : 0)); if (depth && c) c++; // a child is never absent
  if (g->full) c = 3;
  if (c == 1) { g_absent(g); return; }
  tk(g->t, T_TREE); gb(g, 0x73); g_oct(g); g_ppv(g);
  switch (c) {
  case 0: tk(g->t, 0); gb(g, 1); break;
  case 2: tk(g->t, 1); gb(g, 0x71); if (depth < 3) g_treed(g, depth + 1); else g_leaf(g); break;
  case 3: tk(g->t, 2); gb(g, 0x72); g_leaf(g); if (depth < 3) { int q = g->quiet; g_treed(g, depth + 1); g->quiet = q; } else g_leaf(g); break;
  case 4: tk(g->t, 16); g_tl(g, 0x70, 16); for (int i = 0; i < 16; i++) g_leaf(g); break;
  default: if (g->canon) { tk(g->t, 15); gb(g, 0x7f); for (int i = 0; i < 15; i++) g_leaf(g); } else { tk(g->t, 0); gb(g, 0x70); } break;
  }
}
static void g_tree(gen *g) { g_treed(g, 0); }
static void g_path(gen *g) {
  static const unsigned char L[] = {1, 0, 0, 2, 3, 15, 16, 17}; unsigned c = g->full ? 4 : g_form(g, g->small ? 4 : 8);
  if (c == 1) { g_absent(g); return; }
  tk(g->t, T_PATH); tk(g->t, L[c]); g_tl(g, 0x70, L[c]);
  for (unsigned i = 0; i < L[c]; i++) { if (c == 0) { static const unsigned char W[] = {2, 1, 6, 15}; g_octn(g, W[g_form(g, 4)]); } else g_octn(g, 1 + (i & 1)); }
}
static void g_entry_small(gen *g) { tk(g->t, T_ENTRY); gb(g, 0x77); g_octn(g, 1); for (int i = 0; i < 4; i++) g_absent(g); g_valint(g, 0x60, 1); g_absent(g); }
static void g_vlist(gen *g) {
  static const unsigned char L[] = {1, 0, 0, 2, 3, 15, 16}; unsigned c = g->full ? 4 : g_form(g, g->small ? 4 : 7);
  if (c == 1) { gb(g, 1); tk(g->t, T_END); return; }
  if (c == 2 && g->canon) { gb(g, 1); tk(g->t, T_END); return; }
  g_tl(g, 0x70, L[c]);
  for (unsigned i = 0; i < L[c]; i++) { if (L[c] > 3) g_entry_small(g); else { tk(g->t, T_ENTRY); gb(g, 0x77); g_fields(g, &S_entry); } }
  tk(g->t, T_END);
}
static void g_seq(gen *g, const schema *s) {
  static const unsigned char L[] = {1, 0, 2, 3, 16}; unsigned c = g->full ? 3 : g_form(g, g->small ? 3 : 5);
  tk(g->t, T_SEQ); tk(g->t, L[c]); g_tl(g, 0x70, L[c]);
  int q = g->quiet; for (unsigned i = 0; i < L[c]; i++) { if (i > 1) g->quiet = 1; if (L[c] == 16) { // compact elements
        tk(g->t, T_STRUCT); g_tl(g, 0x70, s->n); for (unsigned k = 0; k < s->n; k++) { if (s->f[k].kind == K_SEQ) { tk(g->t, T_SEQ); tk(g->t, 0); gb(g, 0x70); } else if (k == 0 && s->f[0].kind == K_OCT) g_octn(g, 1); else g_absent(g); } }
    else g_struct(g, s); }
  g->quiet = q;
}
static void g_objreq(gen *g) {
  static const unsigned char L[] = {1, 0, 2, 3, 15, 16}; unsigned c = g->full ? 3 : g_form(g, g->small ? 4 : 6);
  if (c == 1) { gb(g, 1); tk(g->t, T_END); return; }
  g_tl(g, 0x70, L[c]); for (unsigned i = 0; i < L[c]; i++) { tk(g->t, T_ENTRY); g_octn(g, 1 + (i & 1)); } tk(g->t, T_END);
}
static void g_kind(gen *g, const fld *f) {
  switch (f->kind) {
  case K_OCT: g_oct(g); break; case K_BOOL: g_bool(g); break; case K_VALUE: g_value(g); break; case K_STATUS: g_status(g); break; case K_TIME: g_time(g); break; case K_VLIST: g_vlist(g); break;
  case K_PATH: g_path(g); break; case K_TREE: g_tree(g); break; case K_PPV: g_ppv(g); break; case K_SEQ: g_seq(g, f->sub); break; case K_OBJREQ: g_objreq(g); break;
  case K_STRUCT: if (g_form(g, 2)) g_absent(g); else g_struct(g, f->sub); break;
  default: g_num(g, f->kind);
  }
}
static void g_fields(gen *g, const schema *s) { for (unsigned i = 0; i < s->n; i++) g_kind(g, &s->f[i]); }
static void g_body(gen *g, const schema *s) { // the body choice: tag and message
  gb(g, 0x72); unsigned c = g->canon ? 0 : g_form(g, 2); if (c) { gb(g, 0x63); } else { gb(g, 0x65); gb(g, (unsigned char)(s->tag >> 24)); gb(g, (unsigned char)(s->tag >> 16)); }
  gb(g, (unsigned char)(s->tag >> 8)); gb(g, (unsigned char)s->tag); tk(g->t, s->tag); g_tl(g, 0x70, s->n); g_fields(g, s);
}
// the checksum of a message as the number that is sent, from its definition: reflected polynomial 0x8408;
// X.25: initial value and final xor 0xffff, sent low byte first; Kermit (Holley): both 0, sent high byte first
static uint16_t ref_crc(const unsigned char *b, unsigned n, int kermit) {
  static uint16_t tab[256];
  if (!tab[1]) for (unsigned i = 0; i < 256; i++) { uint16_t c = (uint16_t)i; for (int k = 0; k < 8; k++) c = (uint16_t)((c & 1) ? (c >> 1) ^ 0x8408 : c >> 1); tab[i] = c; }
  uint16_t c = kermit ? 0 : 0xffff;
  for (unsigned i = 0; i < n; i++) c = (uint16_t)(c >> 8 ^ tab[(c ^ b[i]) & 0xff]);
  if (kermit) return c;
  c ^= 0xffff; return (uint16_t)(c << 8 | c >> 8);
}
static void g_msgend(gen *g, unsigned start) {
  int kermit = g->crc == 2 ? (g->canon ? 0 : (int)g_form(g, 2)) : g->crc; uint16_t c = ref_crc(g->b + start, g->n - start, kermit);
  gb(g, 0x63); gb(g, (unsigned char)(c >> 8)); gb(g, (unsigned char)c); gb(g, 0);
}
static void g_message(gen *g, const schema *s) {
  unsigned start = g->n; int conc = g->conc; if (conc == 2) g->conc = 0; // conc 2: symbolic header, concrete body
  tk(g->t, T_MSG); gb(g, 0x76); g_oct(g); g_num(g, K_U8); g_num(g, K_U8); if (conc == 2) g->conc = 1;
  g_body(g, s); g_msgend(g, start); g->conc = conc;
}

// ---- reference decoder -------------------------------------------------------------------------------------------
// st: 0 accepted so far, 1 malformed (must be rejected), 2 not specified (no expectation)
typedef struct { const unsigned char *b; size_t n, pos; int st; } rd;
static void r_bad(rd *r) { if (!r->st) r->st = 1; }
static void r_any(rd *r) { if (!r->st) r->st = 2; }
static int r_skip(rd *r) { if (r->st) return 0; if (r->pos >= r->n) { r_bad(r); return 0; } if (r->b[r->pos] == 1) { r->pos++; return 1; } return 0; }
// header of the given type; returns the number of data bytes or elements
static long r_tl(rd *r, unsigned type) {
  if (r->st) return 0;
  if (r->pos >= r->n) { r_bad(r); return 0; }
  if ((r->b[r->pos] & 0x70) != type) { r_bad(r); return 0; }
  unsigned char c = r->b[r->pos]; if (!(c & 0x80)) { r->pos++; long d = c & 15; if (type != 0x70) d -= 1; if (d < 0) { r_bad(r); return 0; } return (long)symx_concretize((unsigned long)d); }
  long v = 0; int k = 0;
  for (;;) {
    if (r->pos >= r->n) { r_bad(r); return 0; }
    c = r->b[r->pos]; v = v << 4 | (c & 15);
    if (k == 0 && !(c & 15)) { r_any(r); return 0; }   // leading zero: not the canonical form
    if (k && (c & 0x70)) { r_any(r); return 0; }       // type bits in a continuation byte
    k++; if (k > 4) { r_any(r); return 0; }
    r->pos++; if (!(c & 0x80)) break;
  }
  // more data than there is (every list element takes at least one byte): malformed whatever follows
  if (v > (long)(r->n - r->pos) + (type != 0x70 ? k : 0)) { r_bad(r); return 0; }
  v = (long)symx_concretize((unsigned long)v);
  if (type != 0x70) { if (v < k) { r_bad(r); return 0; } v -= k; unsigned m = 1; for (; m < 5; m++) if (!((unsigned long)(v + m) >> (4 * m))) break; if ((int)m != k) { r_any(r); return 0; } }
  return v;
}
static void r_oct(rd *r, toks *t) {
  if (r->st) return; if (r_skip(r)) { tk(t, T_ABSENT); return; }
  long l = r_tl(r, 0); if (r->st) return;
  if (l > (long)(r->n - r->pos)) { r_bad(r); return; }
  if (l == (long)(r->n - r->pos)) { r_any(r); return; } // a field that ends the buffer: inside a message something always follows
  tk(t, T_OCT); tk(t, (uint64_t)l); for (long i = 0; i < l; i++) tk(t, r->b[r->pos + (size_t)i]); r->pos += (size_t)l;
}
static uint64_t r_intv(rd *r, unsigned type, unsigned max) {
  long l = r_tl(r, type); if (r->st) return 0;
  if (l == 0) { r_any(r); return 0; }
  if (l > (long)max || l > (long)(r->n - r->pos)) { r_bad(r); return 0; }
  unsigned char m[8] = {0}; const unsigned char *c = r->b + r->pos;
  for (long i = 0; i < l; i++) m[l - 1 - i] = c[i];
  if (type == 0x50 && l < (long)max && (c[0] & 0x80)) for (long i = l; i < (long)max; i++) m[i] = 0xff;
  uint64_t v; memcpy(&v, m, 8); r->pos += (size_t)l; return v;
}
static void r_int(rd *r, toks *t, unsigned type, unsigned max) { uint64_t v = r_intv(r, type, max); if (r->st) return; tk(t, (uint64_t)(T_NUM + max + (type == 0x50 ? 16 : 0))); tk(t, v); }
static void r_num(rd *r, toks *t, int k) { if (r->st) return; if (r_skip(r)) { tk(t, T_ABSENT); return; } r_int(r, t, num_signed(k) ? 0x50 : 0x60, (unsigned)num_width(k)); }
static void r_bool(rd *r, toks *t) {
  if (r->st) return; if (r_skip(r)) { tk(t, T_ABSENT); return; }
  long l = r_tl(r, 0x40); if (r->st) return; if (l != 1 || r->pos >= r->n) { r_bad(r); return; }
  tk(t, T_BOOL); if (r->b[r->pos]) tk(t, 0xff); else tk(t, 0); r->pos++;
}
static void r_value(rd *r, toks *t, int status) {
  if (r->st) return; if (r_skip(r)) { tk(t, T_ABSENT); return; }
  if (r->st) return;
  unsigned char c = r->b[r->pos]; unsigned ty = (unsigned)symx_concretize(c & 0x70);
  if (status && ty != 0x60) { r_bad(r); return; }
  tk(t, status ? T_STATUS : T_VALUE);
  if (ty == 0) { tk(t, 0); r_oct(r, t); }
  else if (ty == 0x40) { tk(t, 0x40); r_bool(r, t); }
  else if (ty == 0x50 || ty == 0x60) { if (c & 0x80) { r_any(r); return; } unsigned l = (unsigned)symx_concretize(c & 15); if (l < 2) { if (l == 1) r_any(r); else r_bad(r); return; } l--; if (l > 8) { r_bad(r); return; } tk(t, ty | up2(l)); r_int(r, t, ty, up2(l)); }
  else r_bad(r);
}
static void r_time(rd *r, toks *t) {
  if (r->st) return; if (r_skip(r)) { tk(t, T_ABSENT); return; }
  if (r->st) return;
  tk(t, T_TIME);
  if (r->b[r->pos] == 0x65) { tk(t, T_NUM + 1); tk(t, 1); r_int(r, t, 0x60, 4); return; }
  long l = r_tl(r, 0x70); if (r->st) return; if (l != 2) { r_bad(r); return; }
  if (r_skip(r)) { r_any(r); return; }
  r_int(r, t, 0x60, 1); if (r->st) return;
  if (r->pos >= r->n) { r_bad(r); return; }
  unsigned ty = (unsigned)symx_concretize(r->b[r->pos] & 0x70);
  if (ty == 0x60) r_int(r, t, 0x60, 4);
  else if (ty == 0x70) { if (r->b[r->pos] != 0x73) { r_any(r); return; } r->pos++; unsigned keep = t->n; r_num(r, t, K_U32); r_num(r, t, K_I16); r_num(r, t, K_I16); t->n = keep; tk(t, T_ABSENT); }
  else r_bad(r);
}
static void r_fields(rd *r, toks *t, const schema *s);
static void r_struct(rd *r, toks *t, const schema *s) { if (r->st) return; long l = r_tl(r, 0x70); if (r->st) return; if (l != (long)s->n) { r_bad(r); return; } tk(t, T_STRUCT); r_fields(r, t, s); }
static void r_ostruct(rd *r, toks *t, const schema *s) { if (r->st) return; if (r_skip(r)) { tk(t, T_ABSENT); return; } r_struct(r, t, s); }
static void r_ppv(rd *r, toks *t) {
  if (r->st) return; if (r_skip(r)) { tk(t, T_ABSENT); return; }
  long l = r_tl(r, 0x70); if (r->st) return; if (l != 2) { r_bad(r); return; }
  if (r_skip(r)) { r_bad(r); return; } // the tag is not optional
  tk(t, T_PPV); uint64_t v = r_intv(r, 0x60, 1); if (r->st) return; unsigned tag = (unsigned)symx_concretize(v); tk(t, tag);
  switch (tag) { case 1: r_value(r, t, 0); break; case 2: r_ostruct(r, t, &S_period); break; case 3: r_ostruct(r, t, &S_tupel); break; case 4: r_time(r, t); break; default: r_bad(r); }
}
static void r_tree(rd *r, toks *t) {
  if (r->st) return; if (r_skip(r)) { tk(t, T_ABSENT); return; }
  long l = r_tl(r, 0x70); if (r->st) return; if (l != 3) { r_bad(r); return; }
  tk(t, T_TREE); r_oct(r, t); r_ppv(r, t); if (r->st) return;
  if (r_skip(r)) { tk(t, 0); return; }
  l = r_tl(r, 0x70); if (r->st) return; tk(t, (uint64_t)l);
  for (long i = 0; i < l && !r->st; i++) { if (r->pos < r->n && r->b[r->pos] == 1) { r_any(r); return; } r_tree(r, t); }
}
static void r_path(rd *r, toks *t) {
  if (r->st) return; if (r_skip(r)) { tk(t, T_ABSENT); return; }
  long l = r_tl(r, 0x70); if (r->st) return; tk(t, T_PATH); tk(t, (uint64_t)l);
  for (long i = 0; i < l && !r->st; i++) { if (r->pos < r->n && r->b[r->pos] == 1) { r_any(r); return; } r_oct(r, t); }
}
// DZG DVS74: state per value list
static int tok_is_oct(const toks *t, unsigned at, const unsigned char *b, unsigned n) {
  if (t->t[at] != T_OCT || t->t[at + 1] != n) return 0;
  for (unsigned i = 0; i < n; i++) if ((unsigned char)t->t[at + 2 + i] != b[i]) return 0;
  return 1;
}
static void r_vlist(rd *r, toks *t) {
  static const unsigned char SER[] = {1, 0, 96, 1, 0, 255}, POW[] = {1, 0, 16, 7, 0, 255}, DZG[] = {0x0a, 1, 'D', 'Z', 'G'};
  if (r->st) return; if (r_skip(r)) { tk(t, T_END); return; }
  long l = r_tl(r, 0x70); if (r->st) return; int dzg = 0;
  for (long i = 0; i < l && !r->st; i++) {
    long k = r_tl(r, 0x70); if (r->st) return; if (k != 7) { r_bad(r); return; }
    tk(t, T_ENTRY); unsigned at = t->n, vat = 0; size_t vpos = 0;
    for (unsigned j = 0; j < 7 && !r->st; j++) {
      vat = j == 5 ? t->n : vat; if (j == 5) vpos = r->pos;
      switch (S_entry.f[j].kind) { case K_OCT: r_oct(r, t); break; case K_STATUS: r_value(r, t, 1); break; case K_TIME: r_time(r, t); break; case K_VALUE: r_value(r, t, 0); break; default: r_num(r, t, S_entry.f[j].kind); }
    }
    if (r->st) return;
    if (tok_is_oct(t, at, SER, 6) && t->t[vat] == T_VALUE && t->t[vat + 1] == 0 && t->t[vat + 2] == T_OCT && t->t[vat + 3] == 10) {
      int is = 1; for (int x = 0; x < 5; x++) if ((unsigned char)t->t[vat + 4 + (unsigned)x] != DZG[x]) is = 0;
      if (is) { uint64_t s = 0; for (int x = 5; x < 10; x++) s = s << 8 | (unsigned char)t->t[vat + 4 + (unsigned)x]; if ((s >= 42000000 && s <= 48999999) || (s >= 55000000 && s <= 58999999)) dzg = 1; }
    }
    if (dzg && tok_is_oct(t, at, POW, 6) && t->t[vat] == T_VALUE && (t->t[vat + 1] & 0x70) == 0x50) {
      unsigned w = (r->b[vpos] & 15u) - 1; w = (unsigned)symx_concretize(w);
      if (w <= 2) { t->t[vat + 1] = (t->t[vat + 1] & 15) | 0x60; t->t[vat + 2] = T_NUM + w; }
    }
  }
  tk(t, T_END);
}
static void r_seq(rd *r, toks *t, const schema *s) {
  if (r->st) return; long l = r_tl(r, 0x70); if (r->st) return; tk(t, T_SEQ); tk(t, (uint64_t)l);
  for (long i = 0; i < l && !r->st; i++) { if (s == &S_period) r_ostruct(r, t, s); else r_struct(r, t, s); }
}
static void r_objreq(rd *r, toks *t) {
  if (r->st) return; if (r_skip(r)) { tk(t, T_END); return; }
  long l = r_tl(r, 0x70); if (r->st) return; for (long i = 0; i < l && !r->st; i++) { tk(t, T_ENTRY); r_oct(r, t); } tk(t, T_END);
}
static void r_kind(rd *r, toks *t, const fld *f) {
  if (r->st) return;
  switch (f->kind) {
  case K_OCT: r_oct(r, t); break; case K_BOOL: r_bool(r, t); break; case K_VALUE: r_value(r, t, 0); break; case K_STATUS: r_value(r, t, 1); break; case K_TIME: r_time(r, t); break; case K_VLIST: r_vlist(r, t); break;
  case K_PATH: r_path(r, t); break; case K_TREE: r_tree(r, t); break; case K_PPV: r_ppv(r, t); break; case K_SEQ: r_seq(r, t, f->sub); break; case K_OBJREQ: r_objreq(r, t); break;
  case K_STRUCT: r_ostruct(r, t, f->sub); break;
  default: r_num(r, t, f->kind);
  }
}
static void r_fields(rd *r, toks *t, const schema *s) { for (unsigned i = 0; i < s->n && !r->st; i++) r_kind(r, t, &s->f[i]); }
static void r_body(rd *r, toks *t) {
  if (r->st) return; long l = r_tl(r, 0x70); if (r->st) return; if (l != 2) { r_bad(r); return; }
  if (r_skip(r)) { r_bad(r); return; }
  uint64_t v = r_intv(r, 0x60, 4); if (r->st) return;
  const schema *s = 0; for (int i = 0; i < 14; i++) if (v == MSG[i].tag) { s = &MSG[i]; break; }
  if (!s) { r_any(r); return; }
  tk(t, s->tag); l = r_tl(r, 0x70); if (r->st) return; if (l != (long)s->n) { r_bad(r); return; } r_fields(r, t, s);
}

// a message: 0 delivered, 1 malformed, 2 not specified, 3 well-formed but dropped because of its checksum (the cursor is not specified then)
static int r_message(rd *r, toks *t) {
  if (r->st) return r->st;
  size_t start = r->pos; long l = r_tl(r, 0x70); if (r->st) return r->st; if (l != 6) { r_bad(r); return r->st; }
  tk(t, T_MSG); r_oct(r, t); r_num(r, t, K_U8); r_num(r, t, K_U8); r_body(r, t); if (r->st) return r->st;
  size_t end = r->pos; if (r_skip(r)) { r_bad(r); return r->st; }
  uint64_t c = r_intv(r, 0x60, 2); if (r->st) return r->st;
  if (r->pos >= r->n) { r_any(r); return r->st; }
  if (c != ref_crc(r->b + start, (unsigned)(end - start), 0)) { if (c != ref_crc(r->b + start, (unsigned)(end - start), 1)) return 3; }
  if (r->b[r->pos] == 0) r->pos++; // a missing mark is tolerated, nothing else is consumed in its place
  return 0;
}

// ---- the parts a harness can address on their own ----------------------------------------------------------------
// every library function that reads one SML element, with its writer and destructor
typedef struct { const char *name; fld f; void *(*parse)(sml_buffer *); void (*write)(void *, sml_buffer *); void (*release)(void *); } part;
#define NUMP(x) static void *p_##x(sml_buffer *b) { return sml_##x##_parse(b); } static void w_##x(void *p, sml_buffer *b) { sml_##x##_write(p, b); }
NUMP(u8) NUMP(u16) NUMP(u32) NUMP(u64) NUMP(i8) NUMP(i16) NUMP(i32) NUMP(i64)
#define PF(x) (void *(*)(sml_buffer *))x##_parse, (void (*)(void *, sml_buffer *))x##_write, (void (*)(void *))x##_free
#define PN(x) p_##x, w_##x, sml_number_free
static const part PARTS[] = {
  {"octet_string", {K_OCT, 0, 0}, PF(sml_octet_string)}, {"boolean", {K_BOOL, 0, 0}, PF(sml_boolean)}, {"value", {K_VALUE, 0, 0}, PF(sml_value)}, {"status", {K_STATUS, 0, 0}, PF(sml_status)}, {"time", {K_TIME, 0, 0}, PF(sml_time)},
  {"u8", {K_U8, 0, 0}, PN(u8)}, {"u16", {K_U16, 0, 0}, PN(u16)}, {"u32", {K_U32, 0, 0}, PN(u32)}, {"u64", {K_U64, 0, 0}, PN(u64)}, {"i8", {K_I8, 0, 0}, PN(i8)}, {"i16", {K_I16, 0, 0}, PN(i16)}, {"i32", {K_I32, 0, 0}, PN(i32)}, {"i64", {K_I64, 0, 0}, PN(i64)},
  {"list", {K_VLIST, 0, 0}, PF(sml_list)}, {"tree_path", {K_PATH, 0, 0}, PF(sml_tree_path)}, {"tree", {K_TREE, 0, 0}, PF(sml_tree)}, {"proc_par_value", {K_PPV, 0, 0}, PF(sml_proc_par_value)},
  {"period_entry", {K_STRUCT, 0, &S_period}, PF(sml_period_entry)}, {"tupel_entry", {K_STRUCT, 0, &S_tupel}, PF(sml_tupel_entry)},
};
#define NPARTS ((int)(sizeof PARTS / sizeof PARTS[0]))
// schema structures that are never optional: value_entry, header, pperiod and the message bodies
static const schema *const STRUCTS[] = {&S_value_entry, &S_header, &S_pperiod, &MSG[0], &MSG[1], &MSG[2], &MSG[3], &MSG[4], &MSG[5], &MSG[6], &MSG[7], &MSG[8], &MSG[9], &MSG[10], &MSG[11], &MSG[12], &MSG[13]};
#define NSTRUCTS 17
// unified target: 0..NPARTS-1 parts, then structs
#define NTARGETS (NPARTS + NSTRUCTS)
// and complete messages: NTARGETS .. NALL-1
#define NALL (NTARGETS + 14)
static void *t_parse(int k, sml_buffer *b) { return k < NPARTS ? PARTS[k].parse(b) : k < NTARGETS ? STRUCTS[k - NPARTS]->parse(b) : sml_message_parse(b); }
static void t_write(int k, void *p, sml_buffer *b) { if (k < NPARTS) PARTS[k].write(p, b); else if (k < NTARGETS) STRUCTS[k - NPARTS]->write(p, b); else sml_message_write(p, b); }
static void t_free(int k, void *p) { if (k < NPARTS) PARTS[k].release(p); else if (k < NTARGETS) STRUCTS[k - NPARTS]->release(p); else sml_message_free(p); }
static void t_flat(int k, const void *p, toks *t) {
  if (k < NPARTS) { fl_kind(t, p, &PARTS[k].f); return; }
  if (!p) { tk(t, T_ABSENT); return; }
  if (k < NTARGETS) { tk(t, T_STRUCT); fl_fields(t, p, STRUCTS[k - NPARTS]); } else fl_message(t, p, 0);
}
static void t_gen(int k, gen *g) { if (k < NPARTS) g_kind(g, &PARTS[k].f); else if (k < NTARGETS) g_struct(g, STRUCTS[k - NPARTS]); else g_message(g, &MSG[k - NTARGETS]); }
static void *t_build(int k, toks *t) { return k < NPARTS ? bd_kind(t, &PARTS[k].f) : k < NTARGETS ? bd_struct(t, STRUCTS[k - NPARTS]) : (void *)bd_message(t); }
static int t_ref(int k, rd *r, toks *t) { if (k < NPARTS) r_kind(r, t, &PARTS[k].f); else if (k < NTARGETS) r_struct(r, t, STRUCTS[k - NPARTS]); else return r_message(r, t); return r->st; }
#endif
