// What the command line reader (examples/sml_server.c) prints for a transmission. The printf family of the program under test arrives
// here as a stream of items: characters, integers, floating-point numbers with a precision.
// KIND: value of the entries (0 signed, 1 unsigned, 2 octet string, 3 boolean, 4 absent, 5 one of them), W width, E entries (more than 4: only the last one in every form),
// SC: 0 scaler absent or 0, 1 all scalers -12..12 with concrete values; KF: 1 name absent or short, 2 boolean false, 3 empty string
#define MAXENC 20000
#include "model.h"
#include <sml/sml_value.h>
#include "capture.h"
#include <math.h>
extern void transport_receiver(unsigned char *, size_t);
extern double pow(double, double);
// unit codes of IEC 62056-62
static const char *const U1[58] = {0, "a", "mo", "wk", "d", "h", "min.", "s", "°", "°C", "currency", "m", "m/s", "m³", "m³", "m³/h", "m³/h", "m³/d", "m³/d", "l", "kg", "N", "Nm", "Pa", "bar", "J", "J/h", "W", "VA", "var", "Wh", "VAh", "varh", "A", "C", "V", "V/m", "F", "Ω", "Ωm²/m", "Wb", "T", "A/m", "H", "Hz", "1/(Wh)", "1/(varh)", "1/(VAh)", "V²h", "A²h", "kg/s", "S, mho", "K", "1/(V²h)", "1/(A²h)", "1/m³", "%", "Ah"};
static const char *unit(unsigned u) {
  static const char *const U2[5] = {"Wh/m³", "J/m³", "Mol %", "g/m³", "Pa s"};
  return u < 58 ? U1[u] : u >= 60 && u <= 64 ? U2[u - 60] : u == 253 ? "(reserved)" : u == 254 ? "(other)" : u == 255 ? "(unitless)" : 0;
}
static gen g; static toks W0; static unsigned exp_errs;
static void entry(int fixed) { // fixed: concrete
  static const signed char SCALES[] = {-1, 1, -2, 3, -4, -8, 6, -12, 12, -3, 2, -5};
  int kind = PARAM(KIND, 0), kf = PARAM(KF, 0), sc = PARAM(SC, 0); unsigned wd = (unsigned)PARAM(W, 8), nl = kf == 1 ? sx_choose(6, "name") : 6;
  if (kind == 5) { static const unsigned char KS[] = {0, 4, 2, 1}; kind = KS[fixed ? (unsigned)fixed % 4 : sx_choose(4, "kind")]; wd = 2; }
  unsigned char nm[8], u = 0, hasu = 0; gb(&g, 0x77);
  if (nl == 0) gb(&g, 1); else { g_tl(&g, 0, nl); for (unsigned i = 0; i < nl; i++) { nm[i] = fixed ? (unsigned char)(fixed * 3 + i) : sx_u8("obis"); gb(&g, nm[i]); } }
  gb(&g, 1); gb(&g, 1);
  if (PARAM(UNIT, 0) && !fixed && sx_choose(2, "unit")) { hasu = 1; u = sx_u8("unit"); gb(&g, 0x62); gb(&g, u); } else gb(&g, 1);
  int scale = 0; if (sc == 1) { scale = SCALES[sx_choose(sizeof SCALES, "scale")]; gb(&g, 0x52); gb(&g, (unsigned char)scale); } else if (fixed ? fixed & 1 : (int)sx_choose(2, "scaler")) { gb(&g, 0x52); gb(&g, 0); } else gb(&g, 1);
  unsigned char v[300]; double d = 0; static unsigned char txt[3000]; char *h = 0; sml_value *x = 0;
  if (kind < 2) {
    static const unsigned char C[4][8] = {{0x7f, 0xff, 1, 2, 3, 4, 5, 6}, {0x80, 0, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0xfe, 0xfd, 0xfc, 0xfb, 0xfa, 0xf9, 0xf8}};
    unsigned ci = sc == 1 ? sx_choose(4, "content") : 0; gb(&g, (unsigned char)((kind ? 0x60 : 0x50) | (wd + 1))); uint64_t n = 0;
    for (unsigned i = 0; i < wd; i++) { v[i] = sc == 1 ? C[ci][i] : fixed ? (unsigned char)(fixed * 89 + i * 5) : sx_u8("value"); gb(&g, v[i]); ((unsigned char *)&n)[wd - 1 - i] = v[i]; }
    d = kind ? (wd == 1 ? (double)(uint8_t)n : wd == 2 ? (double)(uint16_t)n : wd == 4 ? (double)(uint32_t)n : (double)n) : wd == 1 ? (double)(int8_t)n : wd == 2 ? (double)(int16_t)n : wd == 4 ? (double)(int32_t)n : (double)(int64_t)n;
    if (sc == 1) d = scale < 0 ? d / pow(10, -scale) : d * pow(10, scale);
  } else if (kind == 2) {
    unsigned l = kf == 3 ? 0 : (unsigned)PARAM(W, 3); if (kf == 3) { gb(&g, 0x80); gb(&g, 2); } else { g_tl(&g, 0, l); for (unsigned i = 0; i < l; i++) { v[i] = !fixed && (i < 3 || i + 3 >= l) ? sx_u8("text") : PARAM(MIX, 0) && i % 50 == 49 ? (unsigned char)i : (unsigned char)('!' + i % 80); gb(&g, v[i]); } }
    x = sml_value_init(); x->type = SML_TYPE_OCTET_STRING; x->data.bytes = sml_octet_string_init(v, (int)l); if (l) h = sml_value_to_strhex(x, &h, true);
  } else if (kind == 3) { gb(&g, 0x42); v[0] = fixed ? 1 : sx_u8("bool"); gb(&g, v[0]); if (kf == 2) symx_assume(v[0] == 0); else symx_assume(v[0] != 0); }
  else gb(&g, 1);
  gb(&g, 1); (void)txt;
  if (kind == 4) { exp_errs++; return; }
  for (int i = 0; i < 6; i++) { w(1, nl > (unsigned)i ? nm[i] : 0, 0); ws(i == 0 ? "-" : i == 1 ? ":" : i == 2 || i == 3 ? "." : i == 4 ? "*" : "#"); }
  if (kind < 2) { w(2, scale < 0 ? -scale : 0, d); ws("#"); if (hasu) { unsigned uu = (unsigned)symx_concretize(u); const char *t = unit(uu); if (t) { ws(t); symx_mark("unit"); } } ws("\n"); symx_mark("number"); }
  else if (kind == 2) { if (h) ws(h); ws("#\n"); symx_mark("text"); }
  else { ws(kf == 2 ? "false" : "true"); ws("#\n"); symx_mark("boolean"); }
  if (x) sml_value_free(x); free(h);
}
static void message(int t) { // GetList.Res with the entries, or another message
  if (t != 12) { g.conc = 1; g.small = 1; g.t = &W0; W0.n = 0; g_message(&g, &MSG[t]); g.conc = 0; return; }
  unsigned start = g.n, e = (unsigned)PARAM(E, 1);
  static const unsigned char H[] = {0x76, 2, 'x', 0x62, 0, 0x62, 0, 0x72, 0x63, 7, 1, 0x77, 1, 2, 's', 1, 1};
  for (unsigned i = 0; i < sizeof H; i++) gb(&g, H[i]);
  g_tl(&g, 0x70, e); for (unsigned i = 0; i < e; i++) entry(e > 4 && i + 1 < e ? (int)i + 1 : 0);
  gb(&g, 1); gb(&g, 1);
  uint16_t c = ref_crc(g.b + start, g.n - start, 0); gb(&g, 0x63); gb(&g, (unsigned char)(c >> 8)); gb(&g, (unsigned char)c); gb(&g, 0);
}
void harness(void) {
  int m = PARAM(M, 1); for (int i = 0; i < 8; i++) gb(&g, i < 4 ? 0x1b : 1);
  for (int i = 0; i < m; i++) message(m == 3 && i != 1 ? (i ? 3 : 1) : 12);
  for (int i = 0; i < 8; i++) gb(&g, i < 4 ? 0x1b : 0);
  unsigned char *b = malloc(g.n); memcpy(b, g.b, g.n);
  transport_receiver(b, g.n);
  for (unsigned i = 0; i < g.n; i++) CHECK(b[i] == g.b[i], "printing modified the received bytes"); free(b);
  CHECK(no == nw, "a wrong number of characters is printed");
  for (unsigned i = 0; i < no && i < nw; i++) {
    // digits may be printed as a number or as text
    CHECK(out[i].k == want[i].k, "something else than the measured values is printed");
    if (out[i].k == 2) { double a = out[i].d, c = want[i].d; CHECK(out[i].v == want[i].v, "a value is printed with a wrong number of decimals"); if (PARAM(SC, 0)) { double e = a - c; if (e < 0) e = -e; double t = (c < 0 ? -c : c) * 1e-12; CHECK(e <= t, "a wrong value is printed"); } else CHECK(a == c, "a wrong value is printed"); }
    else { CHECK(out[i].v == want[i].v, out[i].k ? "a wrong OBIS number is printed" : "a wrong text is printed"); symx_note((unsigned long)out[i].v); }
  }
  CHECK(errs >= exp_errs && (exp_errs || !errs), "entries without value are not reported, or others are");
  CHECK(symx_heap_live() == 0, "memory is still allocated after printing"); symx_mark("printed");
}
