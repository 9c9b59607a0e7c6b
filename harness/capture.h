// formatted output of the code under test, as a stream of items: characters, integers, floating-point numbers with a precision
#ifndef CAPTURE_H
#define CAPTURE_H
#include "sx.h"
#include <stdio.h>
#include <ctype.h>
typedef struct { int k; long v; double d; } item; // k: 0 character, 1 integer, 2 double with precision v
static item out[9000], want[9000]; static unsigned no, nw, errs;
static void put(int k, long v, double d) { if (no >= 9000) { CHECK(0, "far too much is printed"); symx_path_end(); } out[no].k = k; out[no].v = v; out[no].d = d; no++; }
void sx_vprintf(int st, const char *f, va_list ap) {
  if (st != 1) { errs++; return; }
  for (; *f; f++) {
    if (*f != '%') { put(0, (unsigned char)*f, 0); continue; }
    f++; long prec = -1, lng = 0;
    while (isdigit((unsigned char)*f)) f++; // (the width is not looked at)
    if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else for (prec = 0; isdigit((unsigned char)*f); f++) prec = prec * 10 + (*f - '0'); }
    while (*f == 'h' || *f == 'l' || *f == 'z') { if (*f != 'h') lng = 1; f++; }
    if (*f == 'd' || *f == 'i') put(1, lng ? va_arg(ap, long) : va_arg(ap, int), 0);
    else if (*f == 'u' || *f == 'x' || *f == 'X') put(1, lng ? (long)va_arg(ap, unsigned long) : (long)va_arg(ap, unsigned), 0);
    else if (*f == 'c') put(0, (unsigned char)va_arg(ap, int), 0);
    else if (*f == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; for (long i = 0; prec < 0 || i < prec; i++) { unsigned char c = (unsigned char)s[i]; if (!c) break; put(0, c, 0); } }
    else if (*f == 'f' || *f == 'F') { double d = va_arg(ap, double); put(2, prec < 0 ? 6 : prec, d); }
    else if (*f == '%') put(0, '%', 0);
    else CHECK(0, "model: unexpected conversion in a printed format");
  }
}
#include "capstdio.h"
static void w(int k, long v, double d) { want[nw].k = k; want[nw].v = v; want[nw].d = d; nw++; }
static void ws(const char *s) { for (; *s; s++) w(0, (unsigned char)*s, 0); }
#endif
